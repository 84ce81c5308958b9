// C23: stop requests by signal, every delivery point.
#include "simmpi.h"
#include <csignal>
#include <ucontext.h>
#define DECL(k) void vp_register_##k(); void vp_reset_##k(); bool vp_local_##k(); bool vp_query_##k(MPI_Comm);
DECL(0) DECL(1) DECL(2) DECL(3)
static void (*reg_[4])() = {vp_register_0, vp_register_1, vp_register_2, vp_register_3};
static void (*rst_[4])() = {vp_reset_0, vp_reset_1, vp_reset_2, vp_reset_3};
static bool (*loc_[4])() = {vp_local_0, vp_local_1, vp_local_2, vp_local_3};
static bool (*qry_[4])(MPI_Comm) = {vp_query_0, vp_query_1, vp_query_2, vp_query_3};
static std::function<void(int)> in_entry, in_exit; // called inside the collective, before and after it
static bool stepping_only = false;
static volatile bool vp_in_query = false;
static thread_local int my_rank = 0;
int vp_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  if (stepping_only) { VP_CHECK(n == 1, "count", "unexpected reduction"); memcpy(r, s, t == MPI_INT ? 4 : sim::tsize(t)); return 0; }
  int me; MPI_Comm_rank(c, &me);
  if (in_entry) in_entry(me);
  int e = MPI_Allreduce(s, r, n, t, o, c);
  if (in_exit) in_exit(me);
  return e;
}
// dispositions of the simulated processes
static struct sigaction act[4][2];
static const int sigs[2] = {SIGINT, SIGTERM};
static void do_register(int r) { for (int k = 0; k < 2; k++) signal(sigs[k], SIG_DFL); reg_[r](); for (int k = 0; k < 2; k++) sigaction(sigs[k], nullptr, &act[r][k]); }
static void deliver(int r, int k) { // a signal reaches process r
  VP_CHECK(act[r][k].sa_handler != SIG_DFL && act[r][k].sa_handler != SIG_IGN, "not-registered", "Register leaves signal ", sigs[k], " unhandled");
  sigaction(sigs[k], &act[r][k], nullptr);
  raise(sigs[k]);
  sigaction(sigs[k], nullptr, &act[r][k]); // one-shot handlers show up here
}
static uint64_t cnt = 0;
static bool mine() { uint64_t h = ++cnt * 0x9E3779B97F4A7C15ull; return (int)((h >> 32) % vp::S().nshards) == vp::S().shard; }
// event positions per rank: query q has three: 0 before it, 1 inside (own flag already handed over), 2 inside after the result arrived
struct Ev { int rank, q, pos, sig; };
static void history(int ranks, int Q, const std::vector<Ev> &evs, int reset_rank, int reset_q) {
  vp::begin_case([&] { std::string s = vp::cat("ranks ", ranks, " queries ", Q, " reset on rank ", reset_rank, " before query ", reset_q, " signals:"); for (auto &e : evs) s += vp::cat(" (rank ", e.rank, " query ", e.q, " point ", e.pos, " signal ", sigs[e.sig], ")"); return s; }());
  vp::state(vp::S().cur);
  std::vector<std::vector<int>> ans(ranks, std::vector<int>(Q, -1));
  std::vector<std::vector<int>> pend_before(ranks, std::vector<int>(Q, 0)), pend_inside(ranks, std::vector<int>(Q, 0));
  sim::explore(ranks, [&](int r) {
    my_rank = r; std::array<int, 4> dummy{};
    (void)dummy;
    rst_[r](); do_register(r);
    VP_CHECK(!loc_[r](), "spurious-local", "rank ", r, " claims a stop request at the start");
    int pend = 0;
    for (int q = 0; q < Q; q++) {
      for (auto &e : evs) if (e.rank == r && e.q == q && e.pos == 0) { deliver(r, e.sig); pend = 1; VP_CHECK(loc_[r](), "local", "rank ", r, " does not see its own signal"); }
      if (r == reset_rank && q == reset_q) { rst_[r](); pend = 0; VP_CHECK(!loc_[r](), "reset", "Reset leaves the request pending"); }
      pend_before[r][q] = pend;
      ans[r][q] = qry_[r](MPI_COMM_WORLD);
      for (auto &e : evs) if (e.rank == r && e.q == q && e.pos > 0) pend = 1;
      pend_inside[r][q] = pend;
      VP_CHECK(loc_[r]() == (pend != 0), "local-after", "rank ", r, " local answer is wrong after query ", q);
    }
  }, [&](const sim::Result &res, bool) {
    VP_CHECK(res.ok(), "run", "stop queries did not complete: ", res.why());
    std::string o;
    for (int q = 0; q < Q; q++) {
      bool must = false, may = false;
      for (int r = 0; r < ranks; r++) { must |= pend_before[r][q]; may |= pend_inside[r][q]; }
      for (int r = 0; r < ranks; r++) {
        VP_CHECK(ans[r][q] == ans[0][q], "disagree", "query ", q, ": rank 0 says ", ans[0][q], " rank ", r, " says ", ans[r][q]);
        if (must) VP_CHECK(ans[r][q], "lost", "query ", q, " on rank ", r, " misses a delivered signal");
        if (!must && !may) VP_CHECK(!ans[r][q], "spurious", "query ", q, " on rank ", r, " reports a request nobody made");
      }
      o += ans[0][q] ? "1" : "0";
    }
    vp::outcome(vp::cat(ranks, o)); vp::S().evaluations++;
  });
  for (int r = 0; r < 4; r++) rst_[r]();
}
static void histories() {
  int R = vp::pick(3, 4), Q = vp::pick(3, 4);
  const std::vector<Ev> *cur = nullptr; (void)cur;
  for (int ranks = 1; ranks <= R; ranks++) {
    std::vector<Ev> pts;
    for (int r = 0; r < ranks; r++) for (int q = 0; q < Q; q++) for (int p = 0; p < 3; p++) for (int s = 0; s < 2; s++) pts.push_back({r, q, p, s});
    auto go = [&](std::vector<Ev> evs) {
      std::vector<int> qn(ranks, 0);
      in_entry = [&evs, &qn](int me) { for (auto &e : evs) if (e.rank == me && e.q == qn[me] && e.pos == 1) deliver(me, e.sig); };
      in_exit = [&evs, &qn](int me) { for (auto &e : evs) if (e.rank == me && e.q == qn[me] && e.pos == 2) deliver(me, e.sig); qn[me]++; };
      for (int rr = -1; rr < ranks; rr++) for (int rq = 0; rq < (rr < 0 ? 1 : Q); rq++) {
        if (!mine()) continue;
        if (rr >= 0 && evs.size() > 1 && !vp::thorough() && ranks > 2) continue;
        qn.assign(ranks, 0);
        // each execution restarts the per-rank query counters
        auto e0 = in_entry; in_entry = [&, e0](int me) { e0(me); };
        struct Reset { std::vector<int> &q; int n; } rs{qn, ranks};
        // two send modes are explored by sim::explore; counters wrap at Q
        auto x0 = in_exit; in_exit = [&, x0](int me) { x0(me); if (qn[me] >= Q) qn[me] = 0; };
        history(ranks, Q, evs, rr, rq);
        in_entry = e0; in_exit = x0;
      }
    };
    go({});
    for (size_t i = 0; i < pts.size(); i++) { go({pts[i]}); for (size_t j = i + 1; j < pts.size(); j++) { if (ranks > 2 && pts[i].sig != pts[j].sig && !vp::thorough()) continue; go({pts[i], pts[j]}); } }
  }
}
// every machine instruction of the query, one rank
static volatile long step_n = 0, step_at = -1; static volatile int step_sig = 0; static volatile bool step_fired = false;
static void on_trap(int, siginfo_t *, void *uc) {
  if (step_n++ == step_at) { step_fired = true; raise(sigs[step_sig]); }
  (void)uc;
}
static inline void tf_on() { asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc"); }
static inline void tf_off() { asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc"); }
static void instructions() {
  stepping_only = true;
  struct sigaction sa{}; sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
  for (int op = 0; op < 3; op++) for (int sig = 0; sig < 2; sig++) { // query, local query, registration done again
    long total = -1;
    for (long at = -1; total < 0 || at < total; at++) {
      if (total >= 0 && !mine()) continue;
      vp::begin_case(vp::cat("signal ", sigs[sig], " at instruction ", at, " of operation ", op));
      rst_[0](); reg_[0]();
      step_n = 0; step_at = at; step_sig = sig; step_fired = false;
      bool a = false;
      tf_on();
      if (op == 0) a = qry_[0](nullptr); else if (op == 1) a = loc_[0](); else reg_[0]();
      tf_off();
      if (at < 0) { total = step_n; VP_CHECK(total > 3, "stepping", "single stepping does not work here"); VP_CHECK(!a, "spurious-step", "a query without a signal answers yes"); vp::S().extra["instructions"] += total; continue; }
      if (!step_fired) continue;
      bool next = qry_[0](nullptr), l = loc_[0]();
      VP_CHECK(next && l, "lost-step", "a signal at instruction ", at, " is lost: next query ", next, " local ", l);
      // it stays until Reset, and Reset clears it
      VP_CHECK(qry_[0](nullptr), "sticky", "the request vanished without a reset");
      rst_[0](); VP_CHECK(!qry_[0](nullptr) && !loc_[0](), "reset-step", "the request survives Reset");
      raise(sigs[sig]); VP_CHECK(qry_[0](nullptr), "again", "a signal after Reset is lost");
      vp::S().evaluations++; vp::S().transitions++;
      vp::outcome(vp::cat("step ", op, a));
    }
  }
  stepping_only = false;
}
VP_MAIN([] {
  { std::streambuf *o = std::cerr.rdbuf(nullptr); instructions(); histories(); std::cerr.clear(); std::cerr.rdbuf(o); }
  vp::sample("rank 1 receives SIGTERM while its flag is already inside the collective of query 0; query 1 must answer yes on all ranks");
})
