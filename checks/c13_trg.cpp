// C13: the periodic (TRG) contractor, every trial/commit/discard/reset history on small tori, against exact contraction.
#include "simmpi.h"
#include "tn_exact.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include <memory>
using namespace qlpeps; using namespace su;
#ifndef ELT
#define ELT double
#endif
using T = ELT;
using Trg = TRGContractor<T, QN>;
using TN = TensorNetwork2D<T, QN>;
using W = TPSWaveFunctionComponent<T, QN, NoDress, TRGContractor>;
using TenT = Ten<T>;
using P = TRGTruncateParams<double>;
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
static double scale_of(const std::vector<T> &v) { double m = 0; for (auto &x : v) m = std::max(m, (double)std::abs(x)); return m; }
struct Sys {
  Lat L; Ref<T> m; State<T> s; P tp; std::string name; double rtol, htol; double amp_scale = 0; bool rank_exact = false, truncated = false;
  std::unordered_map<std::string, T> vals; std::unordered_map<std::string, std::vector<T>> holes;
  Sys(const Lat &l, int salt, const P &t, const std::string &nm, double rt, double ht) : L(l), m(tnx::generic<T>(l, salt)), s(build(m)), tp(t), name(nm), rtol(rt), htol(ht) {
    auto a = m; for (auto &e : a.e) for (auto &x : e) x = std::abs(x); tnx::Net<T> n{L.R, L.C, true, {}}; auto st = build(a); for (size_t i = 0; i < L.sites(); i++) n.t.push_back(st({i / L.C, i % L.C})[0]); amp_scale = std::abs(n.value());
  }
  tnx::Net<T> net(const std::string &c) const { tnx::Net<T> n{L.R, L.C, true, {}}; for (size_t i = 0; i < L.sites(); i++) n.t.push_back(s({i / L.C, i % L.C})[c[i]]); return n; }
  T value(const std::string &c) { auto it = vals.find(c); if (it != vals.end()) return it->second; return vals[c] = truncated ? fresh(c) : net(c).value(); }
  T fresh(const std::string &c) const { Trg f(L.R, L.C, tp); TN n = TN(s, conf(c)); f.Init(n); return f.Trace(n); } // a truncated contraction is judged against a contractor without history
  const std::vector<T> &hole(std::string c, size_t i) { c[i] = 0; auto k = c + char(i); auto it = holes.find(k); if (it != holes.end()) return it->second; return holes[k] = net(c).hole(i / L.C, i % L.C); }
  bool same(T a, T b) const { return std::abs(a - b) <= rtol * std::max({std::abs(a), std::abs(b), 1e-3 * amp_scale}); }
  const TenT &ten(size_t i, int k) const { return s({i / L.C, i % L.C})[k]; }
  SiteIdx at(size_t i) const { return SiteIdx{i / L.C, i % L.C}; }
  Configuration conf(const std::string &c) const { Configuration f(L.R, L.C); for (size_t i = 0; i < c.size(); i++) f({i / L.C, i % L.C}) = c[i]; return f; }
  TN tn(const std::string &c) const { return TN(s, conf(c)); }
};
static std::string cstr(const std::string &c) { std::string o; for (char x : c) o += char('0' + x); return o; }
using Rep = std::vector<std::pair<SiteIdx, TenT>>;
static Rep rep(Sys &y, const std::vector<std::pair<size_t, int>> &ch) { Rep r; for (auto &p : ch) r.push_back({y.at(p.first), y.ten(p.first, p.second)}); return r; }
static std::string withch(std::string c, const std::vector<std::pair<size_t, int>> &ch) { for (auto &p : ch) c[p.first] = p.second; return c; }
static std::string chs(const std::vector<std::pair<size_t, int>> &ch) { std::string o; for (auto &p : ch) o += vp::cat(p.first, "->", p.second, " "); return o; }
static void V(Sys &y, T g, const std::string &c, const char *key, const std::string &what) { T e = y.value(c); vp::S().evaluations++; VP_CHECK(y.same(g, e), key, what, ": ", g, " but the exact contraction of configuration ", cstr(c), " gives ", e); }
static void check_holes(Sys &y, const Trg &t, const TN &tn, const std::string &c) {
  auto h = t.PunchAllHoles(tn);
  VP_CHECK(h.rows() == y.L.R && h.cols() == y.L.C && h.GetBoundaryCondition() == BoundaryCondition::Periodic, "hole-lattice", "PunchAllHoles returned a ", h.rows(), "x", h.cols(), " network");
  std::unique_ptr<TN> fresh; T Z = y.value(c); bool direct = y.L.R <= 3;
  if (!direct) { Trg f(y.L.R, y.L.C, y.tp); f.Init(tn); f.Trace(tn); fresh = std::make_unique<TN>(f.PunchAllHoles(tn)); }
  for (size_t i = 0; i < c.size(); i++) {
    const TenT &g = h(y.at(i)); VP_CHECK(g.GetShape() == y.ten(i, 0).GetShape(), "hole-shape", "hole at site ", i, " has the wrong shape"); size_t n = g.size(); double err = 0;
    T z(0); const TenT &own = tn(y.at(i)); for (size_t k = 0; k < n; k++) z += g.GetRawDataPtr()[k] * own.GetRawDataPtr()[k];
    VP_CHECK(std::abs(z - Z) <= y.htol * std::max({std::abs(z), std::abs(Z), 1e-3 * y.amp_scale}), "hole-closes", "hole at site ", i, " closed with its own tensor gives ", z, " but the contraction is ", Z);
    // without coarse-graining the hole is exact; with it, it is the pull-back through the retained bases, which must not depend on the history
    if (direct) { const auto &e = y.hole(c, i); for (size_t k = 0; k < n; k++) err = std::max(err, (double)std::abs(e[k] - g.GetRawDataPtr()[k])); VP_CHECK(err <= y.htol * std::max(scale_of(e), 1e-3 * y.amp_scale), "hole", "hole at site ", i, " is off by ", err, " (scale ", scale_of(e), ")"); }
    else if (y.rank_exact) { const TenT &e = (*fresh)(y.at(i)); double sc = 0; for (size_t k = 0; k < n; k++) { err = std::max(err, (double)std::abs(e.GetRawDataPtr()[k] - g.GetRawDataPtr()[k])); sc = std::max(sc, (double)std::abs(e.GetRawDataPtr()[k])); } VP_CHECK(err <= y.htol * std::max(sc, 1e-3 * y.amp_scale), "hole-history", "hole at site ", i, " differs by ", err, " from the one of a fresh contractor (scale ", sc, ")"); }
    vp::S().evaluations++;
  }
}
struct Level { bool pairs, triples, holes; };
// everything a user can ask of a contractor whose committed network is c
static void check_state(Sys &y, Trg &t, const TN &tn, const std::string &c, const Level &q) {
  size_t N = c.size(); int nc = y.L.d;
  V(y, t.Trace(tn), c, "trace", "Trace"); V(y, t.Trace(tn, SiteIdx{0, 0}, HORIZONTAL), c, "trace", "Trace(bond)");
  auto one = [&](const std::vector<std::pair<size_t, int>> &ch) {
    auto r = rep(y, ch); auto cc = withch(c, ch);
    V(y, t.EvaluateReplacement(r), cc, "evaluate", "EvaluateReplacement " + chs(ch)); V(y, t.BeginTrialWithReplacement(r).amplitude, cc, "trial", "BeginTrialWithReplacement " + chs(ch));
  };
  one({});
  for (size_t i = 0; i < N; i++) for (int k = 0; k < nc; k++) one({{i, k}});
  if (q.pairs) for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) one({{i, (c[i] + 1) % nc}, {j, (c[j] + 1) % nc}});
  if (q.triples) for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) for (size_t k = j + 1; k < N; k++) one({{k, (c[k] + 1) % nc}, {i, (c[i] + 1) % nc}, {j, (c[j] + 1) % nc}});
  { std::vector<std::pair<size_t, int>> all; for (size_t i = 0; i < N; i++) all.push_back({i, (c[i] + 1) % nc}); one(all); }
  if (q.holes) check_holes(y, t, tn, c);
  V(y, t.Trace(tn), c, "trace", "Trace after the queries");
}
// one step of a history applied to (contractor, network, configuration)
struct Node { std::shared_ptr<Trg> t; std::shared_ptr<TN> tn; std::string c, path; bool init = true; };
struct Op { int kind; std::vector<std::pair<size_t, int>> ch; }; // 0 commit, 1 discard, 2 evaluate, 3 clear + change network, 4 re-init with changed network, 5 copy, 6 two pending trials, first committed
static const char *ON[] = {"commit ", "discard ", "evaluate ", "clear+set ", "init+set ", "copy ", "two-trials "};
static void do_op(Sys &y, Node &n, const Op &o) {
  n.path += std::string(" ") + ON[o.kind] + chs(o.ch); auto cc = withch(n.c, o.ch); auto r = rep(y, o.ch);
  auto set = [&] { n.c = cc; n.tn = std::make_shared<TN>(y.tn(cc)); };
  switch (o.kind) {
    case 0: { auto tr = n.t->BeginTrialWithReplacement(r); V(y, tr.amplitude, cc, "trial", "amplitude of the committed trial"); n.t->CommitTrial(std::move(tr)); set(); break; }
    case 1: { auto tr = n.t->BeginTrialWithReplacement(r); V(y, tr.amplitude, cc, "trial", "amplitude of the discarded trial"); break; }
    case 2: V(y, n.t->EvaluateReplacement(r), cc, "evaluate", "EvaluateReplacement"); break;
    case 3: n.t->ClearCache(); set(); V(y, n.t->Trace(*n.tn), cc, "clear", "Trace after ClearCache"); break;
    case 4: set(); n.t->Init(*n.tn); V(y, n.t->Trace(*n.tn), cc, "init", "Trace after Init"); break;
    case 5: { auto cp = std::make_shared<Trg>(*n.t); n.t->ClearCache(); n.t = cp; break; }
    case 6: { auto tr = n.t->BeginTrialWithReplacement(r); auto o2 = o.ch; for (auto &p : o2) p.first = (p.first + 1) % n.c.size(); auto t2 = n.t->BeginTrialWithReplacement(rep(y, o2)); V(y, t2.amplitude, withch(n.c, o2), "trial", "second pending trial"); n.t->CommitTrial(std::move(tr)); set(); break; }
  }
}
static void explore(Sys &y, const std::vector<Op> &ops, int depth, const Level &q, const Level &qleaf) {
  std::string c0(y.L.sites(), 0); for (size_t i = 0; i < c0.size(); i++) c0[i] = i % y.L.d;
  std::function<void(const Node &, int)> go = [&](const Node &n, int d) {
    for (auto &o : ops) {
      if (d == depth && !mine()) continue;
      Node m = n; m.t = std::make_shared<Trg>(*n.t); vp::begin_case(y.name + " [" + cstr(c0) + "]" + n.path + " then " + ON[o.kind] + chs(o.ch));
      do_op(y, m, o); vp::S().transitions++; check_state(y, *m.t, *m.tn, m.c, d > 1 ? q : qleaf); vp::S().states++; vp::outcome(y.name + m.path);
      if (d > 1) go(m, d - 1);
    }
  };
  Node n; n.t = std::make_shared<Trg>(y.L.R, y.L.C); n.t->SetTruncateParams(y.tp); n.tn = std::make_shared<TN>(y.tn(c0)); n.c = c0;
  if (vp::S().shard == 0) vp::begin_case(y.name + " start");
  n.t->Init(*n.tn); V(y, n.t->Trace(*n.tn), c0, "trace", "first Trace");
  go(n, depth);
}
// every configuration of a small torus, reached by commits only, from one contractor object; all histories of length <= len of single-site commits merge by configuration
static void closure(Sys &y, const Level &q) {
  std::string c0(y.L.sites(), 0); std::unordered_set<std::string> done; std::vector<Node> qu;
  auto visit = [&](Node n) { vp::S().transitions++; check_state(y, *n.t, *n.tn, n.c, q); if (done.insert(n.c).second) { vp::S().states++; vp::outcome(y.name + n.c); qu.push_back(std::move(n)); } };
  Node n; n.t = std::make_shared<Trg>(y.L.R, y.L.C, y.tp); n.tn = std::make_shared<TN>(y.tn(c0)); n.c = c0; n.t->Init(*n.tn); vp::begin_case(y.name + " closure"); n.t->Trace(*n.tn); visit(n);
  for (size_t k = 0; k < qu.size(); k++) { Node cur = qu[k]; qu[k].t.reset(); for (size_t i = 0; i < c0.size(); i++) for (size_t v = 0; v < y.L.d; v++) if ((int)v != cur.c[i]) { Node m = cur; m.t = std::make_shared<Trg>(*cur.t); m.path = ""; vp::begin_case(y.name + " closure " + cstr(cur.c) + " commit " + vp::cat(i, "->", v)); do_op(y, m, Op{0, {{i, (int)v}}}); visit(m); } }
}
// the wave-function component on top: every sequence of accepted, rejected and global moves
static void component(Sys &y, int depth) {
  std::string c0(y.L.sites(), 0); size_t N = c0.size(); int nc = y.L.d;
  struct Mv { int kind; std::vector<std::pair<size_t, int>> ch; }; std::vector<Mv> mv;
  for (size_t i = 0; i < N; i++) { mv.push_back({0, {{i, 1}}}); mv.push_back({0, {{i, 1}, {(i + 1) % N, 0}}}); mv.push_back({1, {{i, 1}}}); mv.push_back({2, {{i, 1}, {(i + 2) % N, 1 % nc}}}); }
  std::function<void(const W &, const std::string &, const std::string &, int)> go = [&](const W &w, const std::string &c, const std::string &path, int d) {
    for (auto &m : mv) {
      if (d == depth && !mine()) continue; W x = w; auto p = path + (m.kind == 0 ? " accept " : m.kind == 1 ? " reject " : " global ") + chs(m.ch); vp::begin_case(y.name + " component" + p);
      std::vector<std::pair<size_t, int>> ch; for (auto q : m.ch) { q.second = (c[q.first] + 1 + q.second) % nc; ch.push_back(q); } auto cc = withch(c, ch);
      if (m.kind == 2) { x.ReplaceGlobalConfig(y.s, y.conf(cc)); }
      else { std::vector<std::pair<SiteIdx, size_t>> nw; for (auto &q : ch) nw.push_back({y.at(q.first), (size_t)q.second}); auto tr = x.BeginTrial(rep(y, ch), nw); V(y, tr.amplitude, cc, "trial", "BeginTrial"); V(y, x.amplitude, c, "amplitude", "amplitude during a trial");
        if (m.kind == 0) x.AcceptTrial(std::move(tr), y.s); else { x.RejectTrial(std::move(tr)); cc = c; } }
      V(y, x.GetAmplitude(), cc, "amplitude", "amplitude after the move"); for (size_t i = 0; i < N; i++) { VP_CHECK(x.config(y.at(i)) == (size_t)cc[i], "config", "configuration at site ", i); VP_CHECK(x.tn(y.at(i)) == y.ten(i, cc[i]), "tn", "network tensor at site ", i); }
      V(y, x.contractor.Trace(x.tn), cc, "trace", "Trace after the move"); V(y, x.EvaluateAmplitude(), cc, "amplitude", "EvaluateAmplitude"); for (size_t i = 0; i < N; i++) { std::vector<std::pair<size_t, int>> r1 = {{i, (cc[i] + 1) % nc}}; V(y, x.contractor.EvaluateReplacement(rep(y, r1)), withch(cc, r1), "evaluate", "EvaluateReplacement after the move"); }
      if (N <= 16) check_holes(y, x.contractor, x.tn, cc);
      vp::S().states++; vp::S().transitions++; vp::outcome(y.name + "W" + p); if (d > 1) go(x, cc, p, d - 1);
    }
  };
  W w(y.s, y.conf(c0), y.tp); V(y, w.amplitude, c0, "amplitude", "amplitude of the start"); go(w, c0, "", depth);
}
static Lat torus(size_t n, size_t d, std::function<size_t(size_t, size_t)> vb, std::function<size_t(size_t, size_t)> hb) { return Lat{n, n, d, true, vb, hb}; }
static std::vector<Op> ops(size_t N, const std::vector<size_t> &sites, int nc, bool full) {
  std::vector<Op> o; for (size_t i : sites) { std::vector<std::pair<size_t, int>> one = {{i, 1 % nc}}, two = {{i, 0}, {(i + 1) % N, 1 % nc}}; o.push_back({0, one}); o.push_back({6, one}); if (full) { o.push_back({0, two}); o.push_back({1, one}); o.push_back({3, one}); o.push_back({4, one}); } }
  o.push_back({1, {{0, 1 % nc}, {N - 1, 0}}}); o.push_back({2, {{N - 1, 1 % nc}}}); o.push_back({3, {}}); o.push_back({3, {{0, 1 % nc}}}); o.push_back({4, {{N - 1, 1 % nc}}}); o.push_back({5, {}}); return o;
}
VP_MAIN([] {
  bool th = vp::thorough(); vp::S().hang_s = 300; const size_t big = 1u << 20;
  auto all = [](size_t n) { std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(i); return v; };
  auto D = [](size_t d) { return [=](size_t, size_t) { return d; }; };
  auto mixv = [](size_t r, size_t c) { return 1 + (2 * r + c) % 3; }; auto mixh = [](size_t r, size_t c) { return 1 + (r + 2 * c + 1) % 3; };
  { Sys y(torus(1, 3, D(2), D(3)), 1, P::SVD(1, big, 0.0), "1x1", 1e-9, 1e-8); explore(y, ops(1, {0}, 3, true), 3, {true, false, false}, {true, false, false}); }
  for (int kind = 0; kind < 2; kind++) { Sys y(kind ? torus(2, 2, mixv, mixh) : torus(2, 2, D(2), D(2)), 2, P::SVD(1, big, 0.0), kind ? "2x2 mixed bonds" : "2x2", 1e-9, 1e-8); explore(y, ops(4, all(4), 2, true), th ? 3 : 2, {true, true, true}, {true, true, true}); if (mine()) closure(y, {true, true, true}); component(y, th ? 3 : 2); }
  for (int kind = 0; kind < 2; kind++) { Sys y(kind ? torus(3, 2, mixv, mixh) : torus(3, 2, D(2), D(2)), 3, P::SVD(1, big, 0.0), kind ? "3x3 mixed bonds" : "3x3", 1e-9, 1e-8); if (kind == 0 || th) explore(y, ops(9, all(9), 2, th), 2, {true, true, true}, {true, false, true}); explore(y, ops(9, all(9), 2, true), 1, {true, true, true}, {true, true, true}); component(y, kind == 0 ? 2 : 1); }
  // 4x4: two coarse-graining steps; the exact ranks are 4 and 4
  auto some = [&](std::vector<size_t> v, size_t n) { return th ? all(n) : v; };
#ifdef SMALL
  const bool small = !th;
#else
  const bool small = false;
#endif
  { Sys y(torus(4, 2, D(2), D(2)), 4, P::SVD(1, 4, 0.0), "4x4 D=2 chi=4", 1e-7, 1e-5); y.rank_exact = true; explore(y, ops(16, all(16), 2, true), 1, {true, th, true}, {true, th, true}); explore(y, ops(16, small ? std::vector<size_t>{0, 6} : all(16), 2, false), 2, {false, false, true}, {false, false, true}); component(y, th ? 2 : 1); }
  { Sys y(torus(4, 2, D(2), D(2)), 5, P::SVD(1, big, 0.0), "4x4 D=2 untruncated", 1e-7, 1e-5); explore(y, ops(16, some({0, 5, 7}, 16), 2, false), 1, {false, false, true}, {false, false, true}); }
  { Sys y(torus(4, 2, mixv, mixh), 8, P::SVD(1, 6, 0.0), "4x4 mixed bonds truncated", 1e-7, 1e-5); y.truncated = true; explore(y, ops(16, small ? std::vector<size_t>{5} : all(16), 2, false), 1, {false, false, false}, {false, false, false}); }
  for (size_t chi : {1, 2, 3}) { Sys y(torus(4, 2, D(2), D(2)), 7, P::SVD(1, chi, 0.0), vp::cat("4x4 D=2 truncated to ", chi), 1e-7, 1e-5); y.truncated = true; explore(y, ops(16, small ? std::vector<size_t>{1} : all(16), 2, true), 1, {true, false, false}, {true, false, false}); component(y, 1); }
  for (int hor = 0; hor < 2; hor++) { Sys y(torus(6, 2, D(hor ? 1 : 2), D(hor ? 2 : 1)), 6, P::SVD(1, big, 0.0), hor ? "6x6 horizontal bonds" : "6x6 vertical bonds", 1e-7, 1e-5); explore(y, ops(36, small ? std::vector<size_t>{0} : some({0, 7, 22, 35}, 36), 2, false), 1, {th, false, true}, {th, false, true}); }
  { Sys y(torus(6, 2, [](size_t r, size_t c) { return 1 + (r * 5 + c * 3) % 7 / 5; }, [](size_t r, size_t c) { return 1 + (r * 3 + c * 4) % 5 / 4; }), 9, P::SVD(1, 64, 1e-26), "6x6 scattered bonds", 1e-7, 1e-5); explore(y, ops(36, small ? std::vector<size_t>{} : some({1, 20}, 36), 2, false), 1, {false, false, false}, {false, false, false}); }
  if (!small) { Sys y(torus(8, 2, [](size_t, size_t c) { return c == 2 || c == 5 ? 2 : 1; }, [](size_t r, size_t) { return r == 3 ? 2 : 1; }), 10, P::SVD(1, 64, 1e-26), "8x8 three loops", 1e-7, 1e-5); explore(y, ops(64, some({19, 29}, 64), 2, false), 1, {false, false, false}, {false, false, false}); }
  // arguments outside the supported domain are refused, and nothing is answered before the contractor has been prepared
  auto throws = [&](const std::string &w, const std::function<void()> &f, bool arg) { if (!mine()) return; vp::begin_case("refusal " + w); bool a = false, l = false; try { f(); } catch (const std::invalid_argument &) { a = true; } catch (const std::logic_error &) { l = true; } VP_CHECK(arg ? a : l, "refusal", w, " was not refused with ", arg ? "invalid_argument" : "logic_error"); vp::S().evaluations++; vp::S().states++; };
  for (size_t r = 1; r <= 13; r++) for (size_t c = 1; c <= 13; c++) for (int pbc = 0; pbc < 2; pbc++) {
    bool ok = pbc && r == c && (r == 1 || r == 2 || r == 3 || r == 4 || r == 6 || r == 8 || r == 12); Lat l = uniform(r, c, 1, pbc, 1); auto m = make_ref<T>(l, ~0ull, 1); for (size_t i = 0; i < m.n(); i++) if (!m.has[i]) { auto sh = l.shape(i / c, i % c); m.has[i] = true; m.sh[i].assign(sh.begin(), sh.end()); m.e[i] = {T(2)}; }
    auto st = build(m); Configuration f(r, c); for (size_t i = 0; i < r * c; i++) f({i / c, i % c}) = 0; TN n(st, f); Trg t(r, c); t.SetTruncateParams(P::SVD(1, 4, 0.0));
    if (!ok) throws(vp::cat("Init on ", r, "x", c, pbc ? " periodic" : " open"), [&] { t.Init(n); }, true);
    else if (mine()) { vp::begin_case(vp::cat("product network ", r, "x", c)); t.Init(n); T z = t.Trace(n), e(1); for (auto &x : m.e) e *= x[0]; VP_CHECK(std::abs(z - e) <= 1e-9 * std::abs(e), "product", "product network ", r, "x", c, ": ", z, " expected ", e); vp::S().evaluations++; vp::S().states++; }
  }
  { Sys y(torus(2, 2, D(2), D(2)), 2, P::SVD(1, 4, 0.0), "2x2", 1e-9, 1e-8); auto n = y.tn(std::string(4, 0)); Rep r = rep(y, {{0, 1}});
    throws("Trace before Init", [&] { Trg t(2, 2, y.tp); t.Trace(n); }, false); throws("Trace without truncation parameters", [&] { Trg t(2, 2); t.Init(n); t.Trace(n); }, false); throws("trial before Trace", [&] { Trg t(2, 2, y.tp); t.Init(n); t.BeginTrialWithReplacement(r); }, false); throws("evaluation before Trace", [&] { Trg t(2, 2, y.tp); t.Init(n); t.EvaluateReplacement(r); }, false);
    throws("trial after ClearCache", [&] { Trg t(2, 2, y.tp); t.Init(n); t.Trace(n); t.ClearCache(); t.BeginTrialWithReplacement(r); }, false); throws("parameters never set", [&] { Trg t(2, 2); t.GetTruncateParams(); }, false);
    throws("trial of another size", [&] { Trg t(2, 2, y.tp); t.Init(n); t.Trace(n); auto tr = t.BeginTrialWithReplacement(r); tr.layer_updates.resize(3); t.CommitTrial(std::move(tr)); }, true); }
  vp::sample("histories of commit / discard / evaluate / clear / re-init / copy / two pending trials over the listed sites");
})
