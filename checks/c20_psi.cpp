// C20: amplitude consistency summary, all lists over an alphabet up to a length, real and complex; metamorphic relations.
#include "vp.h"
#include "qlpeps/algorithm/vmc_update/psi_consistency.h"
using namespace qlpeps;
using vp::cat;
typedef std::complex<double> Z;
static double RE(double x) { return x; } static double RE(Z x) { return x.real(); }
static Z CJ(Z x) { return std::conj(x); } static double CJ(double x) { return x; }
template <class T> static std::string str(const std::vector<T> &v) { std::ostringstream o; o.precision(17); for (auto &x : v) o << x << " "; return o.str(); }
template <class T> struct RefOut { T mean; double err; bool orth; };
template <class T> static RefOut<T> ref(const std::vector<T> &l) {
  if (l.empty()) return {T(0), 0, false};
  size_t r = 0; double m = 0;
  for (size_t i = 0; i < l.size(); i++) if (std::abs(l[i]) > m) { m = std::abs(l[i]); r = i; }
  bool orth = false;
  T mean(0); std::vector<T> a;
  for (auto &x : l) {
    T y = x;
    double ov = RE(x * CJ(l[r]));
    if (std::abs(x) > 0 && std::fabs(ov) < 1e-9 * std::abs(x) * m) orth = true;
    if (m > 1e-14 && ov < 0) y = -x;
    a.push_back(y); mean += y;
  }
  mean = mean / (double)l.size();
  double d = 0; for (auto &y : a) d = std::max(d, std::abs(y - mean));
  return {mean, d / std::max((double)std::abs(mean), std::numeric_limits<double>::epsilon()), orth};
}
template <class T> static void one(const std::vector<T> &l, bool meta) {
  vp::set_case("list " + str(l));
  auto &G = vp::S();
  std::vector<T> in = l;
  auto g = ComputePsiConsistencySummaryAligned(in);
  auto w = ref(l);
  double sc = 0; for (auto &x : l) sc = std::max(sc, (double)std::abs(x));
  VP_CHECK(in == l, "inputs", "list modified");
  VP_CHECK(std::abs(g.psi_mean - w.mean) <= 1e-12 * sc, "mean", "psi_mean ", g.psi_mean, " want ", w.mean);
  VP_CHECK(vp::close(g.psi_rel_err, w.err, 1e-9, 1e-12), "spread", "psi_rel_err ", g.psi_rel_err, " want ", w.err);
  VP_CHECK(g.psi_rel_err >= 0, "spread", "negative spread ", g.psi_rel_err);
  G.evaluations++; G.traces++;
  vp::outcome(cat(g.psi_mean, "/", g.psi_rel_err));
  if (!meta || l.empty() || w.orth || sc < 1e-3 || std::abs(w.mean) < 1e-6) return;
  // individual sign flips change neither |mean| nor the spread
  for (uint32_t m = 1; m < (1u << l.size()); m++) {
    std::vector<T> f = l; for (size_t i = 0; i < l.size(); i++) if (m >> i & 1) f[i] = -f[i];
    vp::set_case("list " + str(l) + " flipped to " + str(f));
    auto h = ComputePsiConsistencySummaryAligned(f);
    VP_CHECK(vp::close(std::abs(h.psi_mean), std::abs(g.psi_mean), 1e-12, 1e-15), "flip", "|mean| changed from ", std::abs(g.psi_mean), " to ", std::abs(h.psi_mean));
    VP_CHECK(vp::close(h.psi_rel_err, g.psi_rel_err, 1e-9, 1e-12), "flip", "spread changed from ", g.psi_rel_err, " to ", h.psi_rel_err);
    G.evaluations++; G.transitions++;
  }
  // scale invariance (powers of two, above the numerical floor)
  for (int e : {-20, -7, 9, 40}) {
    double k = std::ldexp(1.0, e);
    std::vector<T> f = l; for (auto &x : f) x *= k;
    vp::set_case("list " + str(l) + " scaled by " + cat(k));
    auto h = ComputePsiConsistencySummaryAligned(f);
    if (std::abs(w.mean) * k > 1e-12) VP_CHECK(vp::close(h.psi_rel_err, g.psi_rel_err, 1e-9, 1e-12), "scale", "spread changed from ", g.psi_rel_err, " to ", h.psi_rel_err);
    VP_CHECK(vp::close(std::abs(h.psi_mean), k * std::abs(g.psi_mean), 1e-12, 0), "scale", "mean did not scale");
    G.evaluations++; G.transitions++;
  }
}
template <class T> static void lists(const std::vector<T> &A, size_t maxlen) {
  std::vector<size_t> ix; std::vector<T> l;
  uint64_t id = 0;
  std::function<void(size_t)> rec = [&](size_t left) {
    if ((int)(id++ % vp::S().nshards) == vp::S().shard) { one(l, true); vp::state(typeid(T).name() + str(l)); }
    if (!left) return;
    for (auto &a : A) { l.push_back(a); rec(left - 1); l.pop_back(); }
  };
  rec(maxlen);
}
// zero spread for lists that agree up to sign, for every sign pattern and length
template <class T> static void agreeing(T v) {
  for (size_t n = 1; n <= 10; n++) for (uint32_t m = 0; m < (1u << n); m++) {
    std::vector<T> l(n, v); for (size_t i = 0; i < n; i++) if (m >> i & 1) l[i] = -v;
    vp::set_case("list " + str(l));
    auto g = ComputePsiConsistencySummaryAligned(l);
    VP_CHECK(g.psi_rel_err <= 1e-14, "agree", "values agreeing up to sign have spread ", g.psi_rel_err);
    VP_CHECK(vp::close(std::abs(g.psi_mean), std::abs(v), 1e-14, 0), "agree", "mean ", g.psi_mean, " of values +-", v);
    vp::S().evaluations++;
  }
}
template <class T> static void formats(const std::vector<T> &A) {
  for (size_t n = 0; n <= 9; n++) for (size_t mx = 0; mx <= 10; mx++) {
    std::vector<T> l; for (size_t i = 0; i < n; i++) l.push_back(A[(i * 3 + 1) % A.size()]);
    std::ostringstream o; o << std::scientific << std::setprecision(6) << "[";
    size_t m = std::min(n, mx);
    for (size_t i = 0; i < m; i++) { if (i) o << ", "; o << l[i]; }
    if (n > m) o << ", ... (n=" << n << ")";
    o << "]";
    vp::set_case(cat("format n=", n, " max=", mx));
    std::string g = FormatPsiListTruncated(l, mx);
    VP_CHECK(g == o.str(), "format", "'", g, "' want '", o.str(), "'");
    vp::S().evaluations++;
  }
}
static void body() {
  std::vector<double> R = {0.0, 1.0, -1.0, 2.5, -2.5, 1.001, -1e-3, 1e-16, -3e-15};
  std::vector<Z> C = {Z(0, 0), Z(1, 0), Z(-1, 0), Z(0, 2), Z(0.6, 0.8), Z(-0.6, -0.8), Z(-1, 0.001), Z(1e-3, -2), Z(1e-16, 1e-16), Z(1.5, -1.5)};
  lists(R, vp::pick(5, 6));
  lists(C, vp::pick(4, 5));
  if (vp::S().shard == 0) {
    for (double v : {1.0, -2.5, 1e-6, 1e10, 0.1}) agreeing(v);
    for (Z v : {Z(1, 0), Z(0, 1), Z(0.3, -0.4), Z(-1e5, 1e-5)}) agreeing(v);
    formats(R); formats(C);
    for (size_t n = 1; n <= 20; n++) { one(std::vector<double>(n, 0.0), false); one(std::vector<Z>(n, Z(0)), false);
      auto g = ComputePsiConsistencySummaryAligned(std::vector<double>(n, 0.0)); VP_CHECK(g.psi_mean == 0 && g.psi_rel_err == 0, "zero", "all-zero list"); }
    auto e = ComputePsiConsistencySummaryAligned(std::vector<Z>{}); VP_CHECK(e.psi_mean == Z(0) && e.psi_rel_err == 0, "empty", "empty list");
    for (size_t n = 2; n <= 64; n++) { std::vector<double> l; for (size_t i = 0; i < n; i++) l.push_back(((i * 7) % 3 ? 1 : -1) * (1.0 + 0.01 * (double)((i * 5) % n))); one(l, false); }
    PsiConsistencyWarningParams p; ConfigurationRescueParams c;
    VP_CHECK(p.enabled && !p.master_only && p.threshold == 1e-3 && p.max_warnings == 50 && p.max_print_elems == 8, "defaults", "PsiConsistencyWarningParams defaults");
    VP_CHECK(c.enabled && c.amplitude_min_threshold == std::numeric_limits<double>::min() && c.amplitude_max_threshold == std::numeric_limits<double>::max(), "defaults", "ConfigurationRescueParams defaults");
    vp::sample("list 1 -1 2.5 -> sign-aligned mean 1.5, spread 2/3");
  }
}
VP_MAIN(body)
