// C12: the boundary-MPS contractor, every reachable cache state and every query, against exact contraction.
#include "simmpi.h"
#include "tn_exact.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include <memory>
using namespace qlpeps; using namespace su;
#ifndef ELT
#define ELT double
#endif
using T = ELT;
using W = TPSWaveFunctionComponent<T, QN>;
using TenT = Ten<T>;
using MPS = BMPS<T, QN>;
static const char *PN[] = {"LEFT", "DOWN", "RIGHT", "UP"};
static double scale_of(const std::vector<T> &v) { double m = 0; for (auto &x : v) m = std::max(m, (double)std::abs(x)); return m; }
struct Sys {
  Lat L; Ref<T> m; State<T> s; BMPSTruncateParams<double> tp; std::string name; double rtol;
  std::unordered_map<std::string, T> vals; std::unordered_map<std::string, tnx::LT<T>> bnd; std::unordered_map<std::string, std::vector<T>> holes; double amp_scale = 0;
  Sys(const Lat &l, int salt, const BMPSTruncateParams<double> &t, const std::string &nm, double rt) : L(l), m(tnx::generic<T>(l, salt)), s(build(m)), tp(t), name(nm), rtol(rt) {
    // typical size of an amplitude: bounds the cancellation in any of them
    auto a = m; for (auto &e : a.e) for (auto &x : e) x = std::abs(x); std::string c(L.sites(), 0); tnx::Net<T> n{L.R, L.C, false, {}}; auto st = build(a); for (size_t i = 0; i < L.sites(); i++) n.t.push_back(st({i / L.C, i % L.C})[0]); amp_scale = std::abs(n.value());
  }
  tnx::Net<T> net(const std::string &c) const { tnx::Net<T> n{L.R, L.C, false, {}}; for (size_t i = 0; i < L.sites(); i++) n.t.push_back(s({i / L.C, i % L.C})[c[i]]); return n; }
  T value(const std::string &c) { auto it = vals.find(c); if (it != vals.end()) return it->second; return vals[c] = net(c).value(); }
  const tnx::LT<T> &boundary(const std::string &c, int side, size_t k) {
    std::string key = c; for (size_t i = 0; i < c.size(); i++) { size_t r = i / L.C, q = i % L.C; size_t d = side == 0 ? q : side == 1 ? L.R - 1 - r : side == 2 ? L.C - 1 - q : r; if (d >= k) key[i] = 9; }
    key += char(side); key += char(k); auto it = bnd.find(key); if (it != bnd.end()) return it->second; return bnd[key] = net(c).boundary(side, k);
  }
  const std::vector<T> &hole(std::string c, size_t r, size_t q) { c[r * L.C + q] = 0; auto key = c + char(r) + char(q); auto it = holes.find(key); if (it != holes.end()) return it->second; return holes[key] = net(c).hole(r, q); }
  bool same(T a, T b) const { return std::abs(a - b) <= rtol * std::max({std::abs(a), std::abs(b), 1e-3 * amp_scale}); }
  const TenT &ten(size_t r, size_t c, int k) const { return s({r, c})[k]; }
  Configuration conf(const std::string &c) const { Configuration f(L.R, L.C); for (size_t i = 0; i < c.size(); i++) f({i / L.C, i % L.C}) = c[i]; return f; }
};
static std::string cstr(const std::string &c) { std::string o; for (char x : c) o += char('0' + x); return o; }
static std::vector<T> dense(const MPS &b) { // entries by ascending row/column
  size_t N = b.size(); tnx::LT<T> a; a.d = {T(1)};
  for (size_t i = 0; i < N; i++) { const TenT &t = b[i]; tnx::LT<T> l; l.dim = t.GetShape(); if (l.dim.size() != 3) return {}; l.lab = {1000 + int(i), int(i), 1001 + int(i)}; l.d.assign(t.GetRawDataPtr(), t.GetRawDataPtr() + t.size()); a = tnx::mul(a, l); }
  bool rev = b.Direction() == UP || b.Direction() == RIGHT; std::vector<int> order = {1000, 1000 + int(N)};
  for (size_t i = 0; i < N; i++) order.push_back(rev ? int(N - 1 - i) : int(i));
  return tnx::arrange(a, order);
}
static void check_bmps(Sys &y, const MPS &b, const std::string &c, int side, size_t k, const char *where) {
  const auto &e = y.boundary(c, side, k); auto g = dense(b);
  VP_CHECK(b.Direction() == side, "direction", where, ": ", PN[side], " stack holds a ", PN[b.Direction()], " boundary");
  VP_CHECK(g.size() == e.d.size(), "bmps-shape", where, ": ", PN[side], " boundary with ", k, " absorbed slices has ", g.size(), " entries, expected ", e.d.size());
  double sc = scale_of(e.d), err = 0; for (size_t i = 0; i < g.size(); i++) err = std::max(err, (double)std::abs(g[i] - e.d[i]));
  VP_CHECK(err <= y.rtol * std::max(sc, 1e-300), "bmps-content", where, ": ", PN[side], " boundary with ", k, " absorbed slices is off by ", err, " (scale ", sc, ")");
  vp::S().evaluations++;
}
static void check_cache(Sys &y, W &w, const std::string &c, const char *where) {
  for (int p = 0; p < 4; p++) {
    const auto &v = w.contractor.GetBMPS(BMPSPOSITION(p)); size_t len = (p == 1 || p == 3) ? y.L.R : y.L.C;
    VP_CHECK(v.size() >= 1 && v.size() <= len, "stack-size", where, ": ", PN[p], " stack has ", v.size(), " layers on a direction of length ", len);
    for (size_t k = 0; k < v.size(); k++) check_bmps(y, v[k], c, p, k, where);
  }
  for (size_t i = 0; i < c.size(); i++) VP_CHECK(w.config({i / y.L.C, i % y.L.C}) == (size_t)c[i], "config", where, ": configuration cell ", i);
  for (size_t i = 0; i < c.size(); i++) VP_CHECK(w.tn({i / y.L.C, i % y.L.C}) == y.ten(i / y.L.C, i % y.L.C, c[i]), "tn", where, ": network tensor at cell ", i);
  VP_CHECK(w.contractor.DirectionCheck(), "dircheck", where, ": DirectionCheck");
}
#define VAL(call, cc, key, ...) do { T g_ = (call); T e_ = y.value(cc); vp::S().evaluations++; VP_CHECK(y.same(g_, e_), key, __VA_ARGS__, ": ", g_, " but the exact contraction gives ", e_); } while (0)
static const int NC = 3; // components per site
// every trace-type query of one slice, environments grown to cover the whole slice
static void slice_queries(Sys &y, W &w, const std::string &c, bool hor, size_t sl, bool wide, bool holes) {
  auto &ct = w.contractor; auto &tn = w.tn; size_t N = hor ? y.L.C : y.L.R; size_t other = hor ? y.L.R : y.L.C;
  auto at = [&](size_t k, size_t off = 0) { return hor ? SiteIdx{sl + off, k} : SiteIdx{k, sl + off}; };
  auto lin = [&](SiteIdx s) { return s.row() * y.L.C + s.col(); };
  BondOrientation o = hor ? HORIZONTAL : VERTICAL; BTenPOSITION a = hor ? LEFT : UP, b = hor ? RIGHT : DOWN; const char *on = hor ? "horizontal" : "vertical";
  if (hor) ct.GrowBMPSForRow(tn, sl); else ct.GrowBMPSForCol(tn, sl);
  { auto pr = hor ? ct.GetBMPSForRow(tn, sl) : ct.GetBMPSForCol(tn, sl); check_bmps(y, pr.first, c, hor ? UP : LEFT, sl, "GetBMPSFor first"); check_bmps(y, pr.second, c, hor ? DOWN : RIGHT, other - 1 - sl, "GetBMPSFor second"); }
  ct.GrowFullBTen(tn, a, sl, 1, true); ct.GrowFullBTen(tn, b, sl, 2, true); ct.GrowFullBTen(tn, b, sl, 1, false);
  for (size_t k = 0; k < N; k++) {
    SiteIdx s = at(k);
    for (int v = 0; v < NC; v++) { auto cc = c; cc[lin(s)] = v; VAL(ct.ReplaceOneSiteTrace(tn, s, y.ten(s.row(), s.col(), v), o), cc, "one-site", "ReplaceOneSiteTrace ", on, " site (", s.row(), ",", s.col(), ") component ", v); }
    if (holes) {
      auto h = ct.PunchHole(tn, s, o); const auto &e = y.hole(c, s.row(), s.col());
      VP_CHECK(h.GetShape() == y.ten(s.row(), s.col(), 0).GetShape(), "hole-shape", "PunchHole ", on, " (", s.row(), ",", s.col(), ") has the wrong shape");
      double err = 0; for (size_t i = 0; i < e.size(); i++) err = std::max(err, (double)std::abs(e[i] - h.GetRawDataPtr()[i]));
      VP_CHECK(err <= y.rtol * std::max(scale_of(e), 1e-3 * y.amp_scale), "hole", "PunchHole ", on, " (", s.row(), ",", s.col(), ") is off by ", err); vp::S().evaluations++;
    }
    if (k + 1 < N) {
      SiteIdx s2 = at(k + 1);
      VAL(ct.Trace(tn, s, o), c, "trace", "Trace ", on, " (", s.row(), ",", s.col(), ")");
      for (int v = 0; v < NC; v++) for (int u = 0; u < NC; u++) { auto cc = c; cc[lin(s)] = v; cc[lin(s2)] = u; VAL(ct.ReplaceNNSiteTrace(tn, s, s2, o, y.ten(s.row(), s.col(), v), y.ten(s2.row(), s2.col(), u)), cc, "nn", "ReplaceNNSiteTrace ", on, " (", s.row(), ",", s.col(), ") components ", v, u); }
    }
    if (k + 2 < N) {
      SiteIdx s1 = at(k + 1), s2 = at(k + 2);
      for (int v = 0; v < NC * NC * NC; v++) { int x = v % NC, u = v / NC % NC, z = v / NC / NC; auto cc = c; cc[lin(s)] = x; cc[lin(s1)] = u; cc[lin(s2)] = z; VAL(ct.ReplaceTNNSiteTrace(tn, s, o, y.ten(s.row(), s.col(), x), y.ten(s1.row(), s1.col(), u), y.ten(s2.row(), s2.col(), z)), cc, "tnn", "ReplaceTNNSiteTrace ", on, " (", s.row(), ",", s.col(), ")"); }
    }
  }
  if (wide && sl + 1 < other) {
    ct.InitBTen2(tn, a, sl); ct.GrowFullBTen2(tn, a, sl, 1, false); ct.GrowFullBTen2(tn, b, sl, 2, true); ct.GrowFullBTen2(tn, b, sl, 1, false);
    for (size_t k = 0; k + 1 < N; k++) for (int dir = 0; dir < 2; dir++) for (size_t reach = 1; reach <= 2 && k + reach < N; reach++) {
      SiteIdx lu = at(k), le, ri; size_t r1 = lu.row(), c1 = lu.col(), r2 = hor ? r1 + 1 : r1 + reach, c2 = hor ? c1 + reach : c1 + 1;
      if (dir == 0) { le = SiteIdx{r1, c1}; ri = SiteIdx{r2, c2}; } else { le = SiteIdx{r2, c1}; ri = SiteIdx{r1, c2}; }
      DIAGONAL_DIR dd = dir == 0 ? LEFTUP_TO_RIGHTDOWN : LEFTDOWN_TO_RIGHTUP;
      for (int v = 0; v < NC; v++) for (int u = 0; u < NC; u++) { auto cc = c; cc[lin(le)] = v; cc[lin(ri)] = u;
        const TenT &tl = y.ten(le.row(), le.col(), v), &tr = y.ten(ri.row(), ri.col(), u);
        if (reach == 1) VAL(ct.ReplaceNNNSiteTrace(tn, lu, dd, o, tl, tr), cc, "nnn", "ReplaceNNNSiteTrace ", on, " (", r1, ",", c1, ") dir ", dir, " components ", v, u);
        else VAL(ct.ReplaceSqrt5DistTwoSiteTrace(tn, lu, dd, o, tl, tr), cc, "sqrt5", "ReplaceSqrt5DistTwoSiteTrace ", on, " (", r1, ",", c1, ") dir ", dir, " components ", v, u); }
    }
  }
}
// walkers forked from the current caches
static void walker_queries(Sys &y, W &w, const std::string &c) {
  auto &ct = w.contractor; auto &tn = w.tn; size_t R = y.L.R, C = y.L.C;
  for (int p = 0; p < 4; p++) {
    auto wk = ct.GetWalker(tn, BMPSPOSITION(p)); size_t len = (p == 1 || p == 3) ? R : C, k = ct.GetBMPS(BMPSPOSITION(p)).size();
    VP_CHECK(wk.GetPosition() == p && wk.GetStackSize() == k, "walker-fork", "walker of ", PN[p], " has stack size ", wk.GetStackSize(), " expected ", k);
    for (;; k++) { check_bmps(y, wk.GetBMPS(), c, p, k - 1, "walker"); if (k >= len) break; wk.EvolveStep(); VP_CHECK(wk.GetStackSize() == k + 1, "walker-stack", "walker stack size after EvolveStep"); }
  }
  // an UP walker against the DOWN boundary of each row below it
  W full(w); full.contractor.GrowFullBMPS(full.tn, DOWN); auto wk = full.contractor.GetWalker(full.tn, UP);
  for (size_t row = wk.GetStackSize() - 1;; row++) {
    const auto &down = full.contractor.GetBMPS(DOWN)[R - 1 - row]; auto mpo = full.tn.get_row(row);
    VAL(wk.ContractRow(mpo, down), c, "walker-row", "walker ContractRow of row ", row);
    for (size_t col = 0; col < C; col++) for (int v = 0; v < NC; v++) { auto m2 = mpo; TenT t = y.ten(row, col, v); m2[col] = &t; auto cc = c; cc[row * C + col] = v; VAL(wk.ContractRow(m2, down), cc, "walker-row", "walker ContractRow of row ", row, " with column ", col, " replaced"); }
    auto traces = [&](size_t l, size_t r, const char *how) { // caches cover [0,l) and [r,C)
      VP_CHECK(wk.GetBTenLeftCol() == l && wk.GetBTenRightCol() == r, "walker-edges", "walker BTen edges (", wk.GetBTenLeftCol(), ",", wk.GetBTenRightCol(), ") expected (", l, ",", r, ") after ", how);
      for (size_t col = 0; col < C; col++) if (l >= col && r <= col + 1) for (int v = 0; v < NC; v++) { auto cc = c; cc[row * C + col] = v; VAL(wk.TraceWithBTen(y.ten(row, col, v), col, down), cc, "walker-trace", "walker TraceWithBTen row ", row, " column ", col, " after ", how); }
      for (size_t col = 0; col + 1 < C; col++) if (l >= col && r <= col + 2) for (int v = 0; v < NC; v++) for (int u = 0; u < NC; u++) { auto cc = c; cc[row * C + col] = v; cc[row * C + col + 1] = u; VAL(wk.TraceWithTwoSiteBTen(y.ten(row, col, v), y.ten(row, col + 1, u), col, mpo, down), cc, "walker-trace2", "walker TraceWithTwoSiteBTen row ", row, " column ", col, " after ", how); }
    };
    for (size_t l = 0; l <= C; l++) for (size_t r = 0; r < C; r++) {
      wk.InitBTenLeft(mpo, down, l); wk.InitBTenRight(mpo, down, r); size_t re = r + 1; traces(l, re, "init");
      size_t l2 = l, r2 = re; while (l2 > 0 && r2 > 0) { wk.ShiftBTenWindow(mpo, down, LEFT); l2--; r2--; traces(l2, r2, "shift left"); }
      while (r2 < C && l2 < C) { wk.ShiftBTenWindow(mpo, down, RIGHT); l2++; r2++; traces(l2, r2, "shift right"); }
      wk.ClearBTen(); VP_CHECK(wk.GetBTenLeft().empty() && wk.GetBTenRight().empty() && wk.GetBTenLeftCol() == 0 && wk.GetBTenRightCol() == 0, "walker-clear", "ClearBTen leaves cached environments");
    }
    if (row + 1 == R) break;
    if (row + 2 <= R) { if (wk.GetStackSize() < R) wk.EvolveStep(); else break; }
  }
}
static std::unordered_set<std::string> seen;
static uint64_t counter = 0;
static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
// breadth-first closure over cache states
static void cache_states(Sys &y, const std::vector<size_t> &toggles, bool queries, bool global) {
  struct Node { std::shared_ptr<W> w; std::string c; std::string path; };
  std::unordered_set<std::string> done; std::vector<Node> q; size_t R = y.L.R, C = y.L.C;
  std::string c0(y.L.sites(), 0); for (size_t i = 0; i < c0.size(); i++) c0[i] = i % NC;
  auto key = [&](const Node &n) { std::string k = n.c; for (int p = 0; p < 4; p++) k += char(n.w->contractor.GetBMPS(BMPSPOSITION(p)).size()); return k; };
  auto visit = [&](Node n) { if (!done.insert(key(n)).second) return; if (vp::S().shard == 0) { vp::S().states++; vp::outcome(y.name + key(n)); } q.push_back(std::move(n)); };
  if (getenv("VP_TRACE")) std::cerr << vp::elapsed() << " " << y.name << " states " << vp::S().states << "\n";
  vp::begin_case(y.name + " construct");
  { Node n{std::make_shared<W>(y.s, y.conf(c0), y.tp), c0, ""}; VP_CHECK(y.same(n.w->amplitude, y.value(c0)), "amplitude", "constructed amplitude ", n.w->amplitude, " exact ", y.value(c0)); check_cache(y, *n.w, c0, "construct"); visit(n); }
  for (size_t qi = 0; qi < q.size(); qi++) {
    Node cur = q[qi]; q[qi].w.reset();
    auto step = [&](const std::string &nm, const std::function<void(W &, std::string &)> &f) {
      auto p = cur.path + " " + nm; vp::begin_case(y.name + " [" + cstr(cur.c) + "]" + (p.size() > 700 ? p.substr(p.size() - 700) : p));
      Node n{std::make_shared<W>(*cur.w), cur.c, p}; f(*n.w, n.c); if (vp::S().shard == 0) vp::S().transitions++; check_cache(y, *n.w, n.c, nm.c_str()); visit(std::move(n)); };
    auto sz = [&](W &w, int p) { return w.contractor.GetBMPS(BMPSPOSITION(p)).size(); };
    for (size_t r = 0; r < R; r++) step(vp::cat("GrowBMPSForRow(", r, ")"), [&](W &w, std::string &) { w.contractor.GrowBMPSForRow(w.tn, r); VP_CHECK(sz(w, UP) >= r + 1 && sz(w, DOWN) >= R - r, "grow-row", "after GrowBMPSForRow(", r, ") UP has ", sz(w, UP), " DOWN has ", sz(w, DOWN)); });
    for (size_t k = 0; k < C; k++) step(vp::cat("GrowBMPSForCol(", k, ")"), [&](W &w, std::string &) { w.contractor.GrowBMPSForCol(w.tn, k); VP_CHECK(sz(w, LEFT) >= k + 1 && sz(w, RIGHT) >= C - k, "grow-col", "after GrowBMPSForCol(", k, ")"); });
    for (int p = 0; p < 4; p++) {
      size_t len = (p == 1 || p == 3) ? R : C; auto P = BMPSPOSITION(p);
      step(vp::cat("GenerateBMPSApproach(", PN[p], ")"), [&](W &w, std::string &) { w.contractor.GenerateBMPSApproach(w.tn, P); VP_CHECK(sz(w, p) == 1 && sz(w, Opposite(P)) == len, "approach", "GenerateBMPSApproach(", PN[p], ") leaves ", sz(w, p), "/", sz(w, Opposite(P)), " layers"); });
      step(vp::cat("GrowFullBMPS(", PN[p], ")"), [&](W &w, std::string &) { w.contractor.GrowFullBMPS(w.tn, P); VP_CHECK(sz(w, p) == len, "growfull", "GrowFullBMPS(", PN[p], ") leaves ", sz(w, p), " layers"); });
      step(vp::cat("DeleteInnerBMPS(", PN[p], ")"), [&](W &w, std::string &) { w.contractor.DeleteInnerBMPS(P); VP_CHECK(sz(w, p) == 1, "delete", "DeleteInnerBMPS(", PN[p], ") leaves ", sz(w, p), " layers"); });
      size_t a = sz(*cur.w, p), b = sz(*cur.w, Opposite(P));
      if (a > 1 && b < len) step(vp::cat("ShiftBMPSWindow(", PN[p], ")"), [&](W &w, std::string &) { w.contractor.ShiftBMPSWindow(w.tn, P); VP_CHECK(sz(w, p) == a - 1 && sz(w, Opposite(P)) == b + 1, "shift", "ShiftBMPSWindow(", PN[p], ")"); });
    }
    step("EvaluateAmplitude", [&](W &w, std::string &c) { T v = w.EvaluateAmplitude(); VP_CHECK(y.same(v, y.value(c)) && v == w.amplitude, "amplitude", "amplitude ", v, " exact ", y.value(c)); });
    step("assign", [&](W &w, std::string &c) { W o(y.s, y.conf(c0), y.tp); o.contractor.GrowFullBMPS(o.tn, UP); W t(w); w.tn = t.tn; w.config = t.config; });
    for (size_t ti = 0; ti < toggles.size(); ti++) {
      size_t i = toggles[ti]; SiteIdx s{i / C, i % C};
      step(vp::cat("Update(", i, ")"), [&](W &w, std::string &c) { c[i] = c[i] == char(i % NC) ? (i + 1) % NC : i % NC; T v = y.value(c); w.UpdateLocal(y.s, v, std::make_pair(s, (size_t)c[i])); VP_CHECK(w.amplitude == v, "update-amp", "UpdateLocal amplitude"); });
      if (ti + 1 < toggles.size()) { size_t j = toggles[ti + 1]; SiteIdx s2{j / C, j % C};
        step(vp::cat("Update2(", i, ",", j, ")"), [&](W &w, std::string &c) { for (size_t z : {i, j}) c[z] = c[z] == char(z % NC) ? (z + 1) % NC : z % NC; w.UpdateLocal(y.s, y.value(c), std::make_pair(s, (size_t)c[i]), std::make_pair(s2, (size_t)c[j])); }); }
    }
    if (global) step("ReplaceGlobalConfig", [&](W &w, std::string &c) { c = c0; for (size_t i : toggles) c[i] = (i + 1) % NC; w.ReplaceGlobalConfig(y.s, y.conf(c)); VP_CHECK(y.same(w.amplitude, y.value(c)), "amplitude", "amplitude after ReplaceGlobalConfig ", w.amplitude, " exact ", y.value(c)); });
    if (queries && mine()) {
      for (int hor = 0; hor < 2; hor++) for (size_t sl = 0; sl < (hor ? R : C); sl++) { W w(*cur.w); vp::begin_case(y.name + " queries [" + cstr(cur.c) + "] " + (hor ? "row " : "col ") + std::to_string(sl) + " after" + cur.path); slice_queries(y, w, cur.c, hor, sl, true, true); check_cache(y, w, cur.c, "queries"); vp::S().traces++; }
      vp::begin_case(y.name + " walkers [" + cstr(cur.c) + "] after" + cur.path); W w(*cur.w); walker_queries(y, w, cur.c);
    }
  }
}
// environments inside one slice: every reachable (left length, right length, configuration of the slice)
static void bten_states(Sys &y, bool hor, size_t sl, bool two) {
  size_t R = y.L.R, C = y.L.C, N = hor ? C : R, other = hor ? R : C; if (two && sl + 1 >= other) return;
  struct Node { std::shared_ptr<W> w; std::string c; size_t a, b; std::string path; };
  BTenPOSITION PA = hor ? LEFT : UP, PB = hor ? RIGHT : DOWN; BondOrientation o = hor ? HORIZONTAL : VERTICAL;
  std::string c0(y.L.sites(), 0); for (size_t i = 0; i < c0.size(); i++) c0[i] = (i * 2) % NC;
  auto at = [&](size_t k, size_t off = 0) { return hor ? SiteIdx{sl + off, k} : SiteIdx{k, sl + off}; };
  auto lin = [&](SiteIdx s) { return s.row() * C + s.col(); };
  std::unordered_set<std::string> done; std::vector<Node> q; std::string tag = vp::cat(y.name, hor ? " row " : " col ", sl, two ? " pair" : "");
  auto check = [&](Node &n) {
    auto &ct = n.w->contractor; auto &tn = n.w->tn;
    auto V = [&](T g, const std::string &cc, const char *what, size_t k) { T e = y.value(cc); vp::S().evaluations++; VP_CHECK(y.same(g, e), "bten", what, " at position ", k, " with ", n.a, "+", n.b, " cached environments: ", g, " exact ", e); };
    if (!two) for (size_t k = 0; k < N; k++) {
      SiteIdx s = at(k); if (n.a > k && n.b >= N - k) { for (int v = 0; v < NC; v++) { auto cc = n.c; cc[lin(s)] = v; V(ct.ReplaceOneSiteTrace(tn, s, y.ten(s.row(), s.col(), v), o), cc, "ReplaceOneSiteTrace", k); } }
      if (k + 1 < N && n.a > k && n.b >= N - k - 1) { SiteIdx s2 = at(k + 1); for (int v = 0; v < NC; v++) { auto cc = n.c; cc[lin(s)] = v; cc[lin(s2)] = (v + 1) % NC; V(ct.ReplaceNNSiteTrace(tn, s, s2, o, y.ten(s.row(), s.col(), v), y.ten(s2.row(), s2.col(), (v + 1) % NC)), cc, "ReplaceNNSiteTrace", k); } V(ct.Trace(tn, s, o), n.c, "Trace", k); }
    } else for (size_t k = 0; k + 1 < N; k++) if (n.a > k && n.b >= N - k - 1) {
      SiteIdx s = at(k), d = hor ? at(k + 1, 1) : SiteIdx{k + 1, sl + 1}; for (int v = 0; v < NC; v++) { auto cc = n.c; cc[lin(s)] = v; cc[lin(d)] = (v + 2) % NC; V(ct.ReplaceNNNSiteTrace(tn, s, LEFTUP_TO_RIGHTDOWN, o, y.ten(s.row(), s.col(), v), y.ten(d.row(), d.col(), (v + 2) % NC)), cc, "ReplaceNNNSiteTrace", k); }
    }
  };
  auto visit = [&](Node n) { vp::S().transitions++; check(n); std::string k = n.c + char(n.a) + char(n.b); if (done.insert(k).second) { vp::S().states++; vp::outcome(tag + k); q.push_back(std::move(n)); } };
  { auto w = std::make_shared<W>(y.s, y.conf(c0), y.tp); vp::begin_case(tag + " window"); auto P = hor ? UP : LEFT; w->contractor.GenerateBMPSApproach(w->tn, P); for (size_t k = 0; k < sl; k++) w->contractor.ShiftBMPSWindow(w->tn, Opposite(P));
    auto &ct = w->contractor; if (two) { ct.InitBTen2(w->tn, PA, sl); ct.InitBTen2(w->tn, PB, sl); } else { ct.InitBTen(w->tn, PA, sl); ct.InitBTen(w->tn, PB, sl); } visit(Node{w, c0, 1, 1, ""}); }
  for (size_t qi = 0; qi < q.size(); qi++) {
    Node cur = q[qi]; q[qi].w.reset();
    auto step = [&](const std::string &nm, const std::function<void(Node &)> &f) { Node n = cur; n.w = std::make_shared<W>(*cur.w); n.path += " " + nm; vp::begin_case(tag + " [" + cstr(cur.c) + "]" + n.path); f(n); visit(std::move(n)); };
    for (int side = 0; side < 2; side++) { auto P = side ? PB : PA; size_t len = side ? cur.b : cur.a;
      auto set = [side](Node &n, size_t v) { (side ? n.b : n.a) = v; };
      step(vp::cat("Init(", PN[P], ")"), [&](Node &n) { if (two) n.w->contractor.InitBTen2(n.w->tn, P, sl); else n.w->contractor.InitBTen(n.w->tn, P, sl); set(n, 1); });
      for (size_t rem = 1; rem <= 2; rem++) for (int init = 0; init < 2; init++) { if (!init && len == 0) continue;
        step(vp::cat("GrowFull(", PN[P], ",", rem, init ? ",init)" : ")"), [&](Node &n) { if (two) n.w->contractor.GrowFullBTen2(n.w->tn, P, sl, rem, init); else n.w->contractor.GrowFullBTen(n.w->tn, P, sl, rem, init); set(n, std::max(init ? 1 : len, N - rem + 1)); }); }
      if (len >= 1 && len < N) step(vp::cat("Step(", PN[P], ")"), [&](Node &n) { if (two) n.w->contractor.GrowBTen2Step(n.w->tn, P, sl); else n.w->contractor.GrowBTenStep(n.w->tn, P); set(n, len + 1); });
      size_t ol = side ? cur.a : cur.b;
      if (len >= 1 && ol >= 1 && ol < N) step(vp::cat("Shift(", PN[P], ")"), [&](Node &n) { if (two) n.w->contractor.ShiftBTen2Window(n.w->tn, P, sl); else n.w->contractor.ShiftBTenWindow(n.w->tn, P); n.a += side ? 1 : -1; n.b += side ? -1 : 1; });
      if (!two) for (size_t t = 1; t < N; t++) step(vp::cat("Truncate(", PN[P], ",", t, ")"), [&](Node &n) { n.w->contractor.TruncateBTen(P, t); set(n, std::min(len, t)); });
    }
    for (size_t off = 0; off < (two ? 2u : 1u); off++) for (size_t k = 0; k < N; k++) { SiteIdx s = at(k, off); size_t i = lin(s);
      step(vp::cat("Update(", i, ")"), [&](Node &n) { n.c[i] = n.c[i] == c0[i] ? (c0[i] + 1) % NC : c0[i]; n.w->UpdateLocal(y.s, y.value(n.c), std::make_pair(s, (size_t)n.c[i])); n.a = std::min(n.a, k + 1); n.b = std::min(n.b, N - k); }); }
  }
}
static Lat mixed(size_t R, size_t C, int kind) { // bond dimensions 1..3, different along every direction
  return Lat{R, C, (size_t)NC, false, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (r + 2 * c + kind) % 3); }};
}
VP_MAIN([] {
  using P = BMPSTruncateParams<double>; bool th = vp::thorough(); vp::S().hang_s = 120;
  struct Scheme { P p; const char *n; double rtol; };
  std::vector<Scheme> sc = {{P::SVD(1, 81, 0.0), "svd", 1e-8}, {P(), "default", 1e-8}, {P::Variational2Site(1, 81, 0.0, 1e-14, 30), "var2", 1e-6}, {P::Variational1Site(1, 81, 0.0, 1e-14, 30), "var1", 1e-6}};
  auto all = [](size_t n) { std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(i); return v; };
  auto run = [&](size_t R, size_t C, int kind, int salt, const Scheme &s, const std::vector<size_t> &tog, bool q) { Sys y(mixed(R, C, kind), salt, s.p, vp::cat(R, "x", C, " bonds", kind, " ", s.n), s.rtol); cache_states(y, tog, q, true); };
#ifdef SMALL
  const bool small = !th;
#else
  const bool small = false;
#endif
  if (small) for (size_t si = 0; si < sc.size(); si++) { run(2, 2, 0, 1, sc[si], {0, 3}, true); run(2, 3, 1, 2, sc[si], {1, 3}, true); run(3, 2, 1, 3, sc[si], {0, 3}, true); if (si != 1) run(3, 3, 1, 4, sc[si], {}, si == 0); }
  else for (size_t si = 0; si < sc.size(); si++) for (int kind = 0; kind < 2; kind++) {
    if (si < 1) { run(2, 2, kind, 1, sc[si], all(4), true); run(2, 3, kind, 2, sc[si], all(6), kind == 0 || th); run(3, 2, kind, 3, sc[si], all(6), kind == 1 || th); if (th || kind == 1) run(3, 3, kind, 4, sc[si], {0, 4, 5}, true); }
    else if (kind == 1) { run(2, 2, 0, 1, sc[si], all(4), true); run(2, 3, kind, 2, sc[si], {1, 3}, true); run(3, 2, kind, 3, sc[si], {0, 3}, true); run(3, 3, kind, 4, sc[si], {4}, th); }
  }
  for (size_t si = 0; si < sc.size(); si++) for (auto rc : std::vector<std::pair<size_t, size_t>>{{3, 4}, {4, 3}}) for (int kind = 0; !small && kind < (th ? 3 : 1); kind++) run(rc.first, rc.second, kind == 0 ? 0 : kind, 5, sc[si], si == 0 ? std::vector<size_t>{5} : std::vector<size_t>{}, si == 0);
  for (auto rc : std::vector<std::pair<size_t, size_t>>{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 4}, {4, 2}}) for (int kind = small; kind < 2; kind++) if (!small || rc.first * rc.second <= 6) {
    Sys y(mixed(rc.first, rc.second, kind), 7, sc[0].p, vp::cat(rc.first, "x", rc.second, " bonds", kind, " slices"), 1e-8);
    for (int hor = 0; hor < 2; hor++) for (size_t sl = 0; sl < (hor ? rc.first : rc.second); sl++) for (int two = 0; two < 2; two++) if (mine()) bten_states(y, hor, sl, two);
  }
  // the requested maximum bond dimension is respected
  for (size_t D = 1; D <= 4; D++) for (int s = 0; s < 3; s++) if (mine()) { P p = s == 0 ? P::SVD(1, D, 0.0) : s == 1 ? P::Variational2Site(1, D, 0.0, 1e-10, 5) : P::Variational1Site(1, D, 0.0, 1e-10, 5);
    Sys y(mixed(3, 4, 0), 9, p, vp::cat("3x4 Dmax ", D), 1.0); vp::begin_case(vp::cat("3x4 Dmax ", D, " scheme ", s)); std::string c0(12, 0); W w(y.s, y.conf(c0), p);
    for (int q = 0; q < 4; q++) { w.contractor.GrowFullBMPS(w.tn, BMPSPOSITION(q)); for (auto &b : w.contractor.GetBMPS(BMPSPOSITION(q))) for (size_t i = 0; i < b.size(); i++) { VP_CHECK(b[i].GetIndex(0).dim() <= D && b[i].GetIndex(2).dim() <= D, "dmax", "boundary bond dimension ", b[i].GetIndex(0).dim(), "/", b[i].GetIndex(2).dim(), " exceeds the maximum ", D); vp::S().evaluations++; } } }
  vp::sample("every cache state: 4 stack depths x configuration, closed under growth, shifts, deletions, updates and global replacement");
})
