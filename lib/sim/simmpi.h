// Implementation of the simulated MPI and the exploration interface. Include once per harness.
//
//   sim::Options o; o.ranks = 3; o.sync = true;               // sends block until matched (no buffering)
//   sim::Result r = sim::run(o, ex, [&](int rank) { ... });   // ex: vp::Explorer supplying the match choices
//
// Scheduling is POE-style: every rank runs until it blocks; then deterministic matches (named-source receives,
// completed collectives) are made; only when nothing else can proceed is a wildcard receive matched, and the source is a
// choice explored by the Explorer. Ranks share no state of their own, so this covers all observable interleavings.
#ifndef VP_SIMMPI_H
#define VP_SIMMPI_H
#include "vp.h"
#include "mpi.h"
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
namespace sim {
struct Kill {};                       // unwinds a rank after the run has failed; not a std::exception on purpose
struct Abort { int code; };           // MPI_Abort on this rank

struct Options {
  int ranks = 2;
  bool sync = true;                   // true: MPI_Send completes only when matched; false: buffered
  bool reverse = false;               // start ranks in reverse order (only matters for shared process state)
  uint64_t max_calls = 2000000;       // livelock guard
};
struct Result {
  bool deadlock = false, mismatch = false, aborted = false, leak = false, livelock = false;
  int abort_code = 0, abort_rank = -1;
  std::string message;
  std::vector<std::string> exc;       // per rank: what() of an exception that left the rank function ("" if none)
  std::vector<std::vector<std::string>> trace; // per rank: operations performed
  uint64_t calls = 0, wildcards = 0, matches = 0;
  bool ok() const { if (deadlock || mismatch || aborted || leak || livelock) return false; for (auto &e : exc) if (!e.empty()) return false; return true; }
  std::string why() const {
    std::string s = message;
    for (size_t i = 0; i < exc.size(); i++) if (!exc[i].empty()) s += " [rank " + std::to_string(i) + " threw: " + exc[i] + "]";
    return s;
  }
};
struct Comm { int id = 0; std::vector<int> members; std::vector<int> coll_seq; };

struct Msg { int src, dst, tag, ctx; MPI_Datatype type; std::vector<char> data; int count; bool sync; bool matched = false; uint64_t seq; int sender_op = -1; };
struct Op { // a blocked operation of a rank
  enum Kind { NONE, SEND, RECV, SENDRECV, COLL, WAIT, PROBE } kind = NONE;
  int src = 0, tag = 0, ctx = 0, count = 0; MPI_Datatype type = 0; void *buf = nullptr; MPI_Status *st = nullptr;
  std::shared_ptr<Msg> out; bool in_done = true; std::string desc;
  int coll_key = 0;
  bool ready = false;
};
struct Coll {
  std::string name; int root = 0, count = 0; MPI_Datatype type = 0; MPI_Op op = 0; Comm *comm = nullptr; int arrived = 0;
  std::vector<char> in_arrived; std::vector<const void *> sb; std::vector<void *> rb; std::vector<std::string> sig; std::vector<int> scount; std::vector<MPI_Datatype> stype;
  std::vector<int> rcount; std::vector<MPI_Datatype> rtype; std::vector<const int *> rcounts, displs; std::vector<int> color, keyv; std::vector<MPI_Comm *> newc; int done = 0;
  std::vector<std::string> desc;
};
struct World {
  Options o; vp::Explorer *ex = nullptr; Result res;
  std::mutex m; std::condition_variable cv; int token = -1; // running rank, -1 scheduler
  std::vector<char> finished; std::vector<Op> op; bool killing = false;
  std::vector<std::unique_ptr<Comm>> comms; Comm *cw = nullptr; std::vector<Comm *> cs;
  std::deque<std::shared_ptr<Msg>> net; uint64_t seq = 0;
  std::map<std::pair<int, int>, Coll> colls; // (comm id, seq)
  std::map<int, std::pair<int, Op>> reqs; int next_req = 1; // nonblocking
  int open_dups = 0;
};
inline World *&W() { static World *w = nullptr; return w; }
inline int &me() { static thread_local int r = -1; return r; }
inline Comm *world() { return W() ? W()->cw : nullptr; }
inline Comm *self_comm() { return W() ? W()->cs[me() < 0 ? 0 : me()] : nullptr; }
inline size_t tsize(MPI_Datatype t) {
  switch (t) { case SIMT_INT: case SIMT_UINT: case SIMT_FLOAT: return 4; case SIMT_CHAR: case SIMT_BYTE: case SIMT_BOOL: case SIMT_UCHAR: return 1; case SIMT_SHORT: case SIMT_USHORT: return 2;
    case SIMT_ZDOUBLE: case SIMT_LDOUBLE: return 16; default: return 8; }
}
inline std::string tname(MPI_Datatype t) { static const char *n[] = {"null", "int", "double", "ull", "ul", "zdouble", "uint", "char", "float", "zfloat", "long", "byte", "bool", "ll", "uchar", "short", "ushort", "ldouble"}; return t >= 0 && t <= 17 ? n[t] : "?"; }

inline void fail_mismatch(const std::string &m) { World &w = *W(); if (!w.res.mismatch && !w.killing) { w.res.mismatch = true; w.res.message = "collective/message mismatch: " + m; } w.killing = true; }
inline bool unwinding() { return W()->killing && std::uncaught_exceptions() > 0; }
// yield to the scheduler until this rank's op is ready
inline void block() {
  World &w = *W(); int r = me();
  std::unique_lock<std::mutex> l(w.m);
  w.token = -1; w.cv.notify_all();
  w.cv.wait(l, [&] { return w.token == r; });
  l.unlock();
  if (w.killing && !w.op[r].ready) { if (std::uncaught_exceptions() > 0) return; throw Kill(); }
}
// returns true if the call must be skipped (run is being torn down)
inline bool enter(const std::string &desc) {
  World &w = *W();
  if (w.killing) { if (std::uncaught_exceptions() > 0) return true; throw Kill(); }
  w.res.calls++;
  if (w.res.calls > w.o.max_calls) { w.res.livelock = true; w.res.message = "livelock: too many MPI calls, last " + desc; w.killing = true; throw Kill(); }
  auto &t = w.res.trace[me()];
  if (t.size() < 4000) t.push_back(desc);
  return false;
}
inline int lrank(Comm *c, int global) { for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == global) return (int)i; return -1; }
inline bool bad_comm(Comm *c) { if (!c) { fail_mismatch("null communicator"); throw Kill(); } return false; }
template <class F> void elementwise(MPI_Datatype t, void *a, const void *b, int n, MPI_Op op, F err) {
#define SIM_ARITH(T) { T *x = (T *)a; const T *y = (const T *)b; for (int i = 0; i < n; i++) switch (op) { case SIMO_SUM: x[i] = x[i] + y[i]; break; case SIMO_PROD: x[i] = x[i] * y[i]; break; case SIMO_MAX: x[i] = y[i] > x[i] ? y[i] : x[i]; break; case SIMO_MIN: x[i] = y[i] < x[i] ? y[i] : x[i]; break; default: err(); return; } }
#define SIM_INTG(T) { T *x = (T *)a; const T *y = (const T *)b; for (int i = 0; i < n; i++) switch (op) { case SIMO_SUM: x[i] = x[i] + y[i]; break; case SIMO_PROD: x[i] = x[i] * y[i]; break; case SIMO_MAX: x[i] = std::max(x[i], y[i]); break; case SIMO_MIN: x[i] = std::min(x[i], y[i]); break; case SIMO_BOR: x[i] = x[i] | y[i]; break; case SIMO_BAND: x[i] = x[i] & y[i]; break; case SIMO_LOR: x[i] = x[i] || y[i]; break; case SIMO_LAND: x[i] = x[i] && y[i]; break; default: err(); return; } }
#define SIM_CPLX(T) { T *x = (T *)a; const T *y = (const T *)b; for (int i = 0; i < n; i++) switch (op) { case SIMO_SUM: x[i] = x[i] + y[i]; break; case SIMO_PROD: x[i] = x[i] * y[i]; break; default: err(); return; } }
  switch (t) { case SIMT_INT: SIM_INTG(int) break; case SIMT_UINT: SIM_INTG(unsigned) break; case SIMT_DOUBLE: SIM_ARITH(double) break; case SIMT_FLOAT: SIM_ARITH(float) break; case SIMT_ULL: SIM_INTG(unsigned long long) break; case SIMT_UL: SIM_INTG(unsigned long) break;
    case SIMT_LONG: SIM_INTG(long) break; case SIMT_LL: SIM_INTG(long long) break; case SIMT_CHAR: SIM_INTG(char) break; case SIMT_UCHAR: SIM_INTG(unsigned char) break; case SIMT_BOOL: SIM_INTG(unsigned char) break; case SIMT_ZDOUBLE: SIM_CPLX(std::complex<double>) break; case SIMT_ZFLOAT: SIM_CPLX(std::complex<float>) break; case SIMT_LDOUBLE: SIM_ARITH(long double) break; default: err(); }
}
inline const void *inplace(const void *s, const void *r) { return s == MPI_IN_PLACE ? r : s; }
inline void complete(Coll &c) {
  Comm *cm = c.comm; int n = (int)cm->members.size();
  auto err = [&] { fail_mismatch("unsupported reduction op/type in " + c.name); };
  if (c.name == "Bcast") { for (int i = 0; i < n; i++) if (i != c.root && c.count) memmove(c.rb[i], c.rb[c.root], tsize(c.type) * c.count); }
  else if (c.name == "Reduce" || c.name == "Allreduce") {
    if (c.count) {
      size_t sz = tsize(c.type) * c.count; std::vector<char> acc(sz); 
      for (int i = 0; i < n; i++) { const void *s = inplace(c.sb[i], c.rb[i]); if (i == 0) memcpy(acc.data(), s, sz); else { std::vector<char> tmp((const char *)s, (const char *)s + sz); elementwise(c.type, acc.data(), tmp.data(), c.count, c.op, err); } }
      for (int i = 0; i < n; i++) if (c.name == "Allreduce" || i == c.root) memcpy(c.rb[i], acc.data(), sz);
    }
  } else if (c.name == "Gather" || c.name == "Allgather" || c.name == "Gatherv" || c.name == "Allgatherv") {
    bool v = c.name.back() == 'v', all = c.name[0] == 'A';
    for (int d = 0; d < n; d++) if (all || d == c.root) for (int i = 0; i < n; i++) {
      size_t rsz = tsize(c.rtype[d]); size_t cnt = v ? c.rcounts[d][i] : c.rcount[d]; size_t off = v ? (size_t)c.displs[d][i] * rsz : (size_t)i * cnt * rsz;
      size_t have = tsize(c.stype[i]) * c.scount[i]; char *dst = (char *)c.rb[d] + off;
      if (c.sb[i] == MPI_IN_PLACE) { if (i != d) memcpy(dst, (char *)c.rb[i] + off, cnt * rsz); continue; }
      if (have != cnt * rsz || c.stype[i] != c.rtype[d]) { fail_mismatch(c.name + ": rank " + std::to_string(i) + " contributes " + std::to_string(c.scount[i]) + " " + tname(c.stype[i]) + " but rank " + std::to_string(d) + " expects " + std::to_string(cnt) + " " + tname(c.rtype[d])); return; }
      if (have) memmove(dst, c.sb[i], have);
    }
  } else if (c.name == "Scatter") {
    for (int i = 0; i < n; i++) { size_t sz = tsize(c.rtype[i]) * c.rcount[i]; if (sz && c.rb[i] != MPI_IN_PLACE) memmove(c.rb[i], (const char *)c.sb[c.root] + sz * i, sz); }
  } else if (c.name == "Comm_dup") {
    World &w = *W(); w.comms.push_back(std::make_unique<Comm>()); Comm *k = w.comms.back().get(); k->id = (int)w.comms.size() + 100; k->members = cm->members; k->coll_seq.assign(n, 0);
    for (int i = 0; i < n; i++) *c.newc[i] = k;
  } else if (c.name == "Comm_split") {
    World &w = *W(); std::map<int, std::vector<std::pair<int, int>>> g; for (int i = 0; i < n; i++) g[c.color[i]].push_back({c.keyv[i], i});
    for (auto &kv : g) { std::stable_sort(kv.second.begin(), kv.second.end()); if (kv.first < 0) { for (auto &p : kv.second) *c.newc[p.second] = nullptr; continue; }
      w.comms.push_back(std::make_unique<Comm>()); Comm *k = w.comms.back().get(); k->id = (int)w.comms.size() + 100; for (auto &p : kv.second) k->members.push_back(cm->members[p.second]); k->coll_seq.assign(k->members.size(), 0);
      for (auto &p : kv.second) *c.newc[p.second] = k; }
  }
}
struct CollArg { const char *name; Comm *comm; int root = 0, count = 0; MPI_Datatype type = 0; MPI_Op op = 0; const void *sb = nullptr; void *rb = nullptr; int scount = 0; MPI_Datatype stype = 0; int rcount = 0; MPI_Datatype rtype = 0; const int *rcounts = nullptr, *displs = nullptr; int color = 0, key = 0; MPI_Comm *newc = nullptr; };
inline int coll(const CollArg &a) {
  World &w = *W();
  std::string desc = vp::cat("MPI_", a.name, "(root=", a.root, ",count=", a.count, ",", tname(a.type), ",op=", a.op, ")");
  if (enter(desc)) return 0;
  bad_comm(a.comm);
  Comm *c = a.comm; int r = lrank(c, me()), n = (int)c->members.size();
  if (r < 0) { fail_mismatch("rank not in communicator"); throw Kill(); }
  int s = c->coll_seq[r]++;
  Coll &k = w.colls[{c->id, s}];
  if (k.arrived == 0) { k.name = a.name; k.root = a.root; k.count = a.count; k.type = a.type; k.op = a.op; k.comm = c; k.in_arrived.assign(n, 0); k.sb.assign(n, nullptr); k.rb.assign(n, nullptr); k.sig.assign(n, ""); k.scount.assign(n, 0); k.stype.assign(n, 0); k.rcount.assign(n, 0); k.rtype.assign(n, 0); k.rcounts.assign(n, nullptr); k.displs.assign(n, nullptr); k.color.assign(n, 0); k.keyv.assign(n, 0); k.newc.assign(n, nullptr); }
  k.sig[r] = desc; k.sb[r] = a.sb; k.rb[r] = a.rb; k.scount[r] = a.scount; k.stype[r] = a.stype; k.rcount[r] = a.rcount; k.rtype[r] = a.rtype; k.rcounts[r] = a.rcounts; k.displs[r] = a.displs; k.color[r] = a.color; k.keyv[r] = a.key; k.newc[r] = a.newc;
  k.arrived++; k.in_arrived[r] = 1;
  for (int i = 0; i < n; i++) if (k.in_arrived[i] && k.sig[i] != desc) { fail_mismatch(vp::cat("rank ", i, " is in ", k.sig[i], " while rank ", r, " is in ", desc)); throw Kill(); }
  if (k.arrived == n) { complete(k); w.res.matches++; for (int i = 0; i < n; i++) w.op[c->members[i]].ready = true; w.colls.erase({c->id, s}); w.op[me()].ready = false; w.op[me()].kind = Op::NONE; if (w.killing) throw Kill(); return 0; }
  Op &o = w.op[me()]; o = Op(); o.kind = Op::COLL; o.desc = desc; o.ready = false;
  block();
  w.op[me()].kind = Op::NONE; w.op[me()].ready = false;
  return 0;
}
// --- point to point -----------------------------------------------------------------------------------------------------
inline bool fits(const Op &o, const Msg &m, int rank) { return !m.matched && m.dst == rank && m.ctx == o.ctx && (o.src == MPI_ANY_SOURCE || o.src == m.src) && (o.tag == MPI_ANY_TAG || o.tag == m.tag); }
inline void deliver(Op &o, const std::shared_ptr<Msg> &m, int rank) {
  World &w = *W();
  m->matched = true; w.res.matches++;
  if (m->type != o.type && m->data.size()) { fail_mismatch(vp::cat("rank ", rank, " receives ", tname(o.type), " but rank ", m->src, " sent ", tname(m->type), " (tag ", m->tag, ")")); return; }
  if (m->count > o.count) { fail_mismatch(vp::cat("message truncated: rank ", rank, " receives ", o.count, " but ", m->count, " were sent by rank ", m->src, " (tag ", m->tag, ")")); return; }
  if (!m->data.empty()) memcpy(o.buf, m->data.data(), m->data.size());
  if (o.st) { o.st->MPI_SOURCE = m->src; o.st->MPI_TAG = m->tag; o.st->MPI_ERROR = 0; o.st->bytes = m->data.size(); }
  o.in_done = true;
  for (auto it = w.net.begin(); it != w.net.end(); ++it) if (it->get() == m.get()) { w.net.erase(it); break; }
}
inline bool op_complete(const Op &o) { return o.in_done && (!o.out || !o.out->sync || o.out->matched); }
inline std::vector<std::shared_ptr<Msg>> candidates(const Op &o, int rank) { // earliest per source (non-overtaking)
  std::vector<std::shared_ptr<Msg>> v; std::set<int> seen;
  for (auto &m : W()->net) if (fits(o, *m, rank) && !seen.count(m->src)) { seen.insert(m->src); v.push_back(m); }
  std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a->src < b->src; });
  return v;
}
inline std::shared_ptr<Msg> post(const void *b, int n, MPI_Datatype t, int dest, int tag, Comm *c, bool sync) {
  World &w = *W(); bad_comm(c);
  if (dest < 0 || dest >= (int)c->members.size()) { fail_mismatch(vp::cat("send to invalid rank ", dest)); throw Kill(); }
  auto m = std::make_shared<Msg>(); m->src = lrank(c, me()); m->dst = dest; m->tag = tag; m->ctx = c->id; m->type = t; m->count = n; m->sync = sync; m->seq = w.seq++;
  if (n) m->data.assign((const char *)b, (const char *)b + tsize(t) * n);
  w.net.push_back(m);
  return m;
}
inline int wait_op() { block(); World &w = *W(); w.op[me()].kind = Op::NONE; w.op[me()].ready = false; w.op[me()].out.reset(); return 0; }
inline int do_send(const void *b, int n, MPI_Datatype t, int dest, int tag, Comm *c, bool sync) {
  World &w = *W();
  std::string d = vp::cat("MPI_Send(to=", dest, ",n=", n, ",", tname(t), ",tag=", tag, ")");
  if (enter(d)) return 0;
  if (dest == MPI_PROC_NULL) return 0;
  auto m = post(b, n, t, dest, tag, c, sync);
  if (!sync) return 0;
  Op &o = w.op[me()]; o = Op(); o.kind = Op::SEND; o.out = m; o.desc = d;
  return wait_op();
}
inline int do_recv(void *b, int n, MPI_Datatype t, int src, int tag, Comm *c, MPI_Status *st, std::shared_ptr<Msg> out, const std::string &d) {
  World &w = *W(); bad_comm(c);
  Op &o = w.op[me()]; o = Op(); o.kind = out ? Op::SENDRECV : Op::RECV; o.src = src; o.tag = tag; o.ctx = c->id; o.count = n; o.type = t; o.buf = b; o.st = st; o.out = out; o.in_done = src == MPI_PROC_NULL; o.desc = d;
  if (src >= (int)c->members.size()) { fail_mismatch(vp::cat("receive from invalid rank ", src)); throw Kill(); }
  return wait_op();
}
// --- run -----------------------------------------------------------------------------------------------------------------
template <class F> Result run(const Options &opt, vp::Explorer *ex, F &&fn) {
  World w; w.o = opt; w.ex = ex; W() = &w;
  int n = opt.ranks;
  w.finished.assign(n, 0); w.op.resize(n); w.res.exc.assign(n, ""); w.res.trace.resize(n);
  w.comms.push_back(std::make_unique<Comm>()); w.cw = w.comms[0].get(); w.cw->id = 1; for (int i = 0; i < n; i++) w.cw->members.push_back(i); w.cw->coll_seq.assign(n, 0);
  for (int i = 0; i < n; i++) { w.comms.push_back(std::make_unique<Comm>()); w.cs.push_back(w.comms.back().get()); w.cs[i]->id = 50 + i; w.cs[i]->members = {i}; w.cs[i]->coll_seq = {0}; }
  std::vector<std::thread> th;
  for (int r = 0; r < n; r++) th.emplace_back([&, r] {
    me() = r;
    { std::unique_lock<std::mutex> l(w.m); w.cv.wait(l, [&] { return w.token == r; }); }
    try { if (!w.killing) fn(r); }
    catch (const Kill &) {}
    catch (const Abort &a) {}
    catch (const std::exception &e) { w.res.exc[r] = e.what()[0] ? e.what() : "(exception)"; }
    catch (...) { w.res.exc[r] = "(non-std exception)"; }
    std::unique_lock<std::mutex> l(w.m); w.finished[r] = 1; w.op[r] = Op(); w.token = -1; w.cv.notify_all();
  });
  auto give = [&](int r) { std::unique_lock<std::mutex> l(w.m); w.token = r; w.cv.notify_all(); w.cv.wait(l, [&] { return w.token == -1; }); };
  std::vector<int> order; for (int i = 0; i < n; i++) order.push_back(opt.reverse ? n - 1 - i : i);
  for (int r : order) give(r);
  for (;;) {
    bool all = true; for (int r = 0; r < n; r++) all = all && w.finished[r];
    if (all) break;
    if (w.killing) { for (int r : order) if (!w.finished[r]) give(r); continue; }
    bool progress = false;
    // 1. deterministic matches
    for (int r : order) { Op &o = w.op[r]; if (w.finished[r] || o.kind == Op::NONE) continue;
      if (!o.in_done && o.src != MPI_ANY_SOURCE) { auto c = candidates(o, r); if (!c.empty()) { deliver(o, c[0], r); progress = true; if (w.killing) break; } } }
    if (w.killing) continue;
    // 2. run completed ones
    for (int r : order) { Op &o = w.op[r]; if (w.finished[r]) continue;
      bool rdy = o.kind == Op::COLL ? o.ready : (o.kind != Op::NONE && op_complete(o));
      if (rdy) { o.ready = true; progress = true; give(r); if (w.killing) break; } }
    if (progress) continue;
    // 3. wildcard choice: only when nothing else can move
    std::vector<std::pair<int, std::shared_ptr<Msg>>> opts;
    for (int r : order) { Op &o = w.op[r]; if (w.finished[r] || o.kind == Op::NONE || o.in_done || o.src != MPI_ANY_SOURCE) continue;
      auto c = candidates(o, r); for (auto &m : c) opts.push_back({r, m}); }
    if (!opts.empty()) { w.res.wildcards++; int k = (w.ex && opts.size() > 1) ? w.ex->choose((int)opts.size()) : 0; deliver(w.op[opts[k].first], opts[k].second, opts[k].first); continue; }
    // 4. deadlock
    w.res.deadlock = true; w.res.message = "deadlock:";
    for (int r = 0; r < n; r++) w.res.message += vp::cat(" rank ", r, ": ", w.finished[r] ? std::string("finished") : w.op[r].desc, ";");
    w.killing = true;
  }
  for (auto &t : th) t.join();
  if (!w.killing && !w.net.empty()) { w.res.leak = true; w.res.message = vp::cat("message never received: from rank ", w.net.front()->src, " to ", w.net.front()->dst, " tag ", w.net.front()->tag); }
  W() = nullptr;
  return w.res;
}
// explore all wildcard choices for each send mode; check(result, mode) is called per execution
template <class F, class Ck> uint64_t explore(int ranks, F &&fn, Ck &&check, bool both = true) {
  uint64_t n = 0;
  for (int sync = 1; sync >= (both ? 0 : 1); sync--) {
    vp::Explorer ex;
    n += ex.run([&](vp::Explorer &e) {
      Options o; o.ranks = ranks; o.sync = sync;
      Result r = run(o, &e, fn);
      vp::S().transitions += r.calls;
      vp::S().traces++;
      check(r, sync);
    });
  }
  return n;
}
} // namespace sim
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Init_thread(int *, char ***, int r, int *p) { *p = r; return 0; }
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Finalized(int *f) { *f = 0; return 0; }
inline int MPI_Finalize() { return 0; }
inline double MPI_Wtime() { return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { if (sim::unwinding()) { *r = 0; return 0; } sim::bad_comm(c); *r = sim::lrank(c, sim::me()); return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *s) { if (sim::unwinding()) { *s = 1; return 0; } sim::bad_comm(c); *s = (int)c->members.size(); return 0; }
inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { sim::CollArg a{"Comm_dup", c}; a.newc = o; return sim::coll(a); }
inline int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { sim::CollArg a{"Comm_split", c}; a.newc = o; a.color = color; a.key = key; return sim::coll(a); }
inline int MPI_Comm_free(MPI_Comm *c) { *c = nullptr; return 0; }
inline int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sim::do_send(b, n, t, d, tag, c, sim::W()->o.sync); }
inline int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return sim::do_send(b, n, t, d, tag, c, true); }
inline int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
  std::string d = vp::cat("MPI_Recv(from=", s, ",n=", n, ",", sim::tname(t), ",tag=", tag, ")"); if (sim::enter(d)) return 0;
  if (s == MPI_PROC_NULL) return 0;
  return sim::do_recv(b, n, t, s, tag, c, st, nullptr, d); }
inline int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int dest, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *st) {
  std::string d = vp::cat("MPI_Sendrecv(to=", dest, ",n=", sn, ",tag=", stag, ";from=", src, ",n=", rn, ",tag=", rtag, ")"); if (sim::enter(d)) return 0;
  std::shared_ptr<sim::Msg> m; if (dest != MPI_PROC_NULL) m = sim::post(sb, sn, stt, dest, stag, c, sim::W()->o.sync);
  return sim::do_recv(rb, rn, rt, src, rtag, c, st, m, d); }
inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int)(s->bytes / sim::tsize(t)); return 0; }
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { sim::CollArg a{"Bcast", c}; a.root = root; a.count = n; a.type = t; a.rb = b; return sim::coll(a); }
inline int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { sim::CollArg a{"Reduce", c}; a.root = root; a.count = n; a.type = t; a.op = o; a.sb = s; a.rb = r; return sim::coll(a); }
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { sim::CollArg a{"Allreduce", c}; a.count = n; a.type = t; a.op = o; a.sb = s; a.rb = r; return sim::coll(a); }
inline int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { sim::CollArg a{"Gather", c}; a.root = root; a.sb = s; a.scount = sn; a.stype = st; a.rb = r; a.rcount = rn; a.rtype = rt; return sim::coll(a); }
inline int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *dp, MPI_Datatype rt, int root, MPI_Comm c) { sim::CollArg a{"Gatherv", c}; a.root = root; a.sb = s; a.scount = sn; a.stype = st; a.rb = r; a.rcounts = rn; a.displs = dp; a.rtype = rt; return sim::coll(a); }
inline int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { sim::CollArg a{"Allgather", c}; a.sb = s; a.scount = sn; a.stype = st; a.rb = r; a.rcount = rn; a.rtype = rt; return sim::coll(a); }
inline int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *dp, MPI_Datatype rt, MPI_Comm c) { sim::CollArg a{"Allgatherv", c}; a.sb = s; a.scount = sn; a.stype = st; a.rb = r; a.rcounts = rn; a.displs = dp; a.rtype = rt; return sim::coll(a); }
inline int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { sim::CollArg a{"Scatter", c}; a.root = root; a.sb = s; a.scount = sn; a.stype = st; a.rb = r; a.rcount = rn; a.rtype = rt; return sim::coll(a); }
inline int MPI_Barrier(MPI_Comm c) { sim::CollArg a{"Barrier", c}; return sim::coll(a); }
inline int MPI_Abort(MPI_Comm, int code) {
  sim::World &w = *sim::W(); if (w.killing && std::uncaught_exceptions() > 0) return 0;
  if (!w.killing) { w.res.aborted = true; w.res.abort_code = code; w.res.abort_rank = sim::me(); w.res.message = vp::cat("MPI_Abort(", code, ") on rank ", sim::me()); }
  w.killing = true; throw sim::Abort{code};
}
inline int MPI_Dims_create(int n, int nd, int *d) { // balanced, non-increasing
  if (nd == 1) { d[0] = n; return 0; }
  if (nd == 2) { int a = 1; for (int k = 1; k * k <= n; k++) if (n % k == 0) a = k; if (d[0] == 0 && d[1] == 0) { d[0] = n / a; d[1] = a; } else if (d[0] == 0) d[0] = n / d[1]; else if (d[1] == 0) d[1] = n / d[0]; return 0; }
  return MPI_ERR_OTHER; }
inline int MPI_Error_string(int e, char *s, int *l) { *l = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", e); return 0; }
inline int MPI_Get_processor_name(char *s, int *l) { *l = snprintf(s, 64, "sim"); return 0; }
inline int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)sim::tsize(t); return 0; }
#endif
