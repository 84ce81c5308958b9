// C15: statistics over every small sample set and rank layout, on the real code over simulated MPI.
#include "simmpi.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#include "qlpeps/vmc_basic/statistics_tensor.h"
using namespace qlpeps;
using ld = long double;
using cld = std::complex<ld>;
using cd = std::complex<double>;
template <class T> std::string show(const std::vector<T> &v) { std::string s = "["; for (auto &x : v) s += vp::cat(x, " "); return s + "]"; }
template <class T> cld omean(const std::vector<T> &v) { cld s = 0; for (auto &x : v) s += cld(std::real(x), std::imag(x)); return v.empty() ? cld(0) : s / (ld)v.size(); }
template <class T> ld ovar(const std::vector<T> &v) { cld m = omean(v); ld s = 0; for (auto &x : v) s += std::norm(cld(std::real(x), std::imag(x)) - m); return s / (ld)v.size(); }
template <class T> ld oerr(const std::vector<T> &v) { if (v.size() == 1) return INFINITY; return std::sqrt(ovar(v) / ((ld)v.size() - 1)); }
template <class T> double scale(const std::vector<T> &v) { double m = 0; for (auto &x : v) m = std::max(m, (double)std::abs(x)); return m; }
static bool eq(ld a, ld b, double sc) { if (std::isinf(a) || std::isinf(b)) return a == b; if (std::isnan(a) || std::isnan(b)) return false; return std::abs(a - b) <= 2e-8 * sc + 1e-9 * std::max(std::abs(a), std::abs(b)); }
template <class T> static bool eqm(T a, cld b, double sc) { return std::abs(cld(std::real(a), std::imag(a)) - b) <= 1e-12 * sc + 1e-300; }
template <class T> std::vector<T> alphabet();
template <> std::vector<double> alphabet() { return {0.1, -0.7, 3, 1e6, 0.0}; }
template <> std::vector<cd> alphabet() { return {cd(0.1, 0), cd(-0.7, 0.3), cd(0, -2), cd(1e6, 1), cd(0.1, -0.9)}; }
template <class T, class F> void all_lists(int len, F f) { auto A = alphabet<T>(); std::vector<int> k(len, 0); std::vector<T> v(len); for (;;) { for (int i = 0; i < len; i++) v[i] = A[k[i]]; f(v); int i = len - 1; while (i >= 0 && ++k[i] == (int)A.size()) k[i--] = 0; if (i < 0) break; } }
template <class T> void serial() {
  for (int n = 0; n <= vp::pick(6, 8); n++) all_lists<T>(n, [&](const std::vector<T> &v) {
    vp::set_case("serial " + show(v)); auto copy = v; double sc = scale(v);
    T m = Mean(v); VP_CHECK(eqm(m, omean(v), sc), "mean", "Mean = ", m, " expected ", (double)omean(v).real());
    if (n) { auto va = Variance(v, m); VP_CHECK(eq(std::sqrt((ld)va), std::sqrt(ovar(v)), sc) && va >= 0, "variance", "Variance = ", va, " expected ", (double)ovar(v)); auto vb = Variance(v); VP_CHECK(vb == va, "variance", "Variance(v) ", vb, " differs from Variance(v, mean) ", va);
      auto e = StandardError(v, m); VP_CHECK(eq(e, oerr(v), sc), "stderr", "StandardError = ", e, " expected ", (double)oerr(v)); }
    double g = IPSInflationFactor(v); VP_CHECK(std::isfinite(g) && g >= 1.0, "ips", "inflation factor ", g, " below 1 or not finite");
    if (n < 3) VP_CHECK(g == 1.0, "ips", "inflation factor of fewer than three samples is ", g);
    bool cst = true; for (auto &x : v) cst = cst && std::real(x) == std::real(v[0]); (void)cst;
    VP_CHECK(v == copy, "input", "input changed");
    vp::S().evaluations++; vp::S().transitions++; vp::S().traces++; vp::outcome(vp::cat(m, n)); vp::state(vp::cat("s", m, n)); });
  // inflation factor against its definition: g = 1 + 2 sum_{k>=1} rho_k while Gamma_k + Gamma_{k+1} > 0, lag <= 20
  for (int n = 3; n <= vp::pick(11, 15); n++) for (int mask = 0; mask < (1 << n); mask++) {
    std::vector<T> v; for (int i = 0; i < n; i++) v.push_back((mask >> i & 1) ? T(1.5) : T(-0.5)); vp::set_case(vp::cat("ips ", show(v)));
    ld mu = omean(v).real(); std::vector<ld> G; for (int k = 0; k < n; k++) { ld a = 0; for (int t = 0; t + k < n; t++) a += ((ld)std::real(v[t]) - mu) * ((ld)std::real(v[t + k]) - mu); G.push_back(a / n); }
    ld g = 1, lim = 1e-9; bool border = false; if (G[0] > 1e-12) for (int k = 1; k <= std::min(20, n - 2); k++) { ld s = G[k] + G[k + 1]; if (std::abs(s) < lim) { border = true; break; } if (s <= 0) break; g += 2 * G[k] / G[0]; } if (!(g >= 1)) g = 1;
    double got = IPSInflationFactor(v), got2 = IPSInflationFactor(v, (double)mu); vp::S().evaluations++;
    if (!border) { VP_CHECK(eq(got, g, 1), "ips", "inflation factor ", got, " expected ", (double)g); VP_CHECK(eq(got2, g, 1), "ips", "inflation factor with given mean ", got2, " expected ", (double)g); } else VP_CHECK(got >= 1, "ips", "inflation factor ", got); }
}
template <class T> void lists() { // AveListOfData
  for (int S = 0; S <= 3; S++) for (int N = 0; N <= 2; N++) all_lists<T>(S * N, [&](const std::vector<T> &f) {
    std::vector<std::vector<T>> d; for (int s = 0; s < S; s++) d.push_back(std::vector<T>(f.begin() + s * N, f.begin() + (s + 1) * N)); vp::set_case(vp::cat("AveListOfData ", S, "x", N, show(f)));
    auto r = AveListOfData(d); VP_CHECK(r.size() == (size_t)(S ? N : 0), "avelist", "size ", r.size());
    for (size_t i = 0; i < r.size(); i++) { std::vector<T> c; for (int s = 0; s < S; s++) c.push_back(d[s][i]); VP_CHECK(eqm(r[i], omean(c), scale(c)), "avelist", "column ", i, " average ", r[i]); }
    vp::S().evaluations++; vp::S().transitions++; });
}
template <class T> void dist(int R, int n) { // R ranks with n samples each
  all_lists<T>(R * n, [&](const std::vector<T> &f) {
    std::vector<std::vector<T>> part; for (int r = 0; r < R; r++) part.push_back(std::vector<T>(f.begin() + r * n, f.begin() + (r + 1) * n));
    std::vector<std::pair<T, double>> binned(R), single(R); std::vector<std::vector<T>> avg(R); std::vector<std::vector<double>> er(R);
    vp::set_case(vp::cat("ranks=", R, " samples/rank=", n, " ", show(f)));
    vp::Mute mu; // the code under test warns on stderr
    sim::explore(R, [&](int r) {
      binned[r] = MeanAndBinnedErrorSqrtNUniformBin(part[r], MPI_COMM_WORLD);
      if (n >= 1) single[r] = GatherStatisticSingleData(part[r][0], MPI_COMM_WORLD);
      GatherStatisticListOfData(part[r], MPI_COMM_WORLD, avg[r], er[r]);
    }, [&](const sim::Result &res, bool) { VP_CHECK(res.ok(), "collectives", res.why()); }, false);
    // documented binning
    size_t b = n ? std::max<size_t>(1, (size_t)std::sqrt((double)n)) : 1; std::vector<T> bm; for (int r = 0; r < R; r++) for (size_t i = 0; i + 1 <= (n / b); i++) { cld s = 0; for (size_t k = 0; k < b; k++) { auto x = part[r][i * b + k]; s += cld(std::real(x), std::imag(x)); } s /= (ld)b; if constexpr (std::is_same_v<T, double>) bm.push_back((double)s.real()); else bm.push_back(cd(s)); }
    double sc = scale(f); cld om = omean(bm); ld oe = bm.empty() ? 0 : oerr(bm);
    VP_CHECK(eqm(binned[0].first, om, sc) && eq(binned[0].second, oe, sc), "binned", "binned mean/error ", binned[0].first, " ", binned[0].second, " expected ", (double)om.real(), " ", (double)oe);
    if (n) { std::vector<T> c; for (int r = 0; r < R; r++) c.push_back(part[r][0]); ld e1 = oerr(c);
      VP_CHECK(eqm(single[0].first, omean(c), sc) && eq(single[0].second, e1, sc), "single", "gathered single value ", single[0].first, " +- ", single[0].second, " expected ", (double)omean(c).real(), " +- ", (double)e1); }
    VP_CHECK(avg[0].size() == (size_t)n, "list", "average list has ", avg[0].size(), " entries");
    if (R == 1) { VP_CHECK(avg[0] == part[0] && er[0].empty(), "list", "single-rank list not passed through"); }
    else { VP_CHECK(er[0].size() == (size_t)n, "list", "error list has ", er[0].size(), " entries"); for (int i = 0; i < n; i++) { std::vector<T> c; for (int r = 0; r < R; r++) c.push_back(part[r][i]); VP_CHECK(eqm(avg[0][i], omean(c), sc) && eq(er[0][i], oerr(c), sc), "list", "entry ", i, ": ", avg[0][i], " +- ", er[0][i], " expected ", (double)omean(c).real(), " +- ", (double)oerr(c)); } }
    vp::S().evaluations++; vp::outcome(vp::cat(binned[0].first, binned[0].second)); vp::state(vp::cat(R, n, binned[0].first, binned[0].second)); });
}
template <class T> void shares(const std::vector<int> &cnt) { // unequal shares: the bins of every rank, concatenated
  int R = cnt.size(), tot = 0; for (int c : cnt) tot += c;
  all_lists<T>(tot, [&](const std::vector<T> &f) {
    std::vector<std::vector<T>> part; int at = 0; for (int r = 0; r < R; r++) { part.push_back(std::vector<T>(f.begin() + at, f.begin() + at + cnt[r])); at += cnt[r]; } std::vector<std::pair<T, double>> got(R); vp::set_case(vp::cat("shares ", show(cnt), " ", show(f)));
    std::vector<T> bm; for (auto &v : part) { size_t n = v.size(), b = std::max<size_t>(1, (size_t)std::sqrt((double)n)); for (size_t i = 0; i < n / b; i++) { cld s = 0; for (size_t k = 0; k < b; k++) s += cld(std::real(v[i * b + k]), std::imag(v[i * b + k])); s /= (ld)b; if constexpr (std::is_same_v<T, double>) bm.push_back((double)s.real()); else bm.push_back(T((double)s.real(), (double)s.imag())); } }
    double sc = scale(f); cld om = omean(bm); ld oe = bm.empty() ? 0 : oerr(bm); vp::Mute mu;
    sim::explore(R, [&](int r) { got[r] = MeanAndBinnedErrorSqrtNUniformBin(part[r], MPI_COMM_WORLD); }, [&](const sim::Result &res, bool) { VP_CHECK(res.ok(), "collectives", res.why()); VP_CHECK(eqm(got[0].first, om, sc) && eq(got[0].second, oe, sc), "shares", "binned mean/error ", got[0].first, " ", got[0].second, " expected ", (double)om.real(), " ", (double)oe); }, false);
    vp::S().evaluations++; vp::outcome(vp::cat("u", got[0].first, got[0].second)); });
}
void long_series() { // lags up to and beyond the documented cap of 20
  auto ips = [](const std::vector<double> &v) { int n = v.size(); ld mu = omean(v).real(); auto G = [&](int k) { ld a = 0; for (int t = 0; t + k < n; t++) a += ((ld)v[t] - mu) * ((ld)v[t + k] - mu); return a / n; }; ld g = 1; bool border = false; if (G(0) > 1e-12) for (int k = 1; k <= std::min(20, n - 2); k++) { ld s = G(k) + G(k + 1); if (std::abs(s) < 1e-9) border = true; if (s <= 0) break; g += 2 * G(k) / G(0); } return std::make_pair(border, std::max<ld>(1, g)); };
  for (int n = 3; n <= 130; n++) for (int kind = 0; kind < 5; kind++) for (int par = 1; par <= (kind < 2 ? n - 1 : 9); par++) { std::vector<double> v(n); for (int i = 0; i < n; i++) v[i] = kind == 0 ? (i < par ? 1.0 : -0.5) : kind == 1 ? ((i / par) % 2 ? 1.25 : -0.5) : kind == 2 ? 0.1 * i * par : kind == 3 ? std::cos(0.02 * par * i) : double((i * i * par + i) % 7) + 0.3 * i / par;
    vp::set_case(vp::cat("long series n ", n, " kind ", kind, " parameter ", par)); auto [border, g] = ips(v); double got = IPSInflationFactor(v), got2 = IPSInflationFactor(v, (double)omean(v).real()); if (!border) VP_CHECK(eq(got, g, 1) && eq(got2, g, 1), "ips", "inflation factor ", got, " / ", got2, " expected ", (double)g); vp::S().evaluations++; vp::outcome(vp::cat("l", got)); }
}
void dump() { // DumpVecData writes every value, or throws
  auto d = vp::scratch(); std::vector<double> v = {1, -2.5, 1e300}; DumpVecData(d + "/x", v); std::ifstream f(d + "/x"); std::vector<double> r; double x; while (f >> x) r.push_back(x); VP_CHECK(r == v, "dump", "dumped values differ");
  bool thrown = false; try { DumpVecData(d + "/no/such", v); } catch (const std::exception &) { thrown = true; } VP_CHECK(thrown, "dump", "unwritable file not reported");
  thrown = false; try { DumpVecData("/dev/full", v); } catch (const std::exception &) { thrown = true; } VP_CHECK(thrown, "dump", "full device not reported"); vp::rm_scratch_tree(d);
}
void tensors() {
  using Q = qlten::special_qn::TrivialRepQN; using Ten = qlten::QLTensor<double, Q>; qlten::Index<Q> ix({qlten::QNSector<Q>(Q(), 2)}, qlten::OUT);
  double A[] = {0.5, -2, 7};
  for (int R = 1; R <= 3; R++) { int tot = 1; for (int i = 0; i < 2 * R; i++) tot *= 3; for (int k = 0; k < tot; k++) {
    std::vector<Ten> in(R, Ten({ix})), out(R); int kk = k; double sum[2] = {0, 0}; for (int r = 0; r < R; r++) for (size_t i = 0; i < 2; i++) { in[r]({i}) = A[kk % 3]; sum[i] += A[kk % 3]; kk /= 3; } vp::set_case(vp::cat("tensor mean ranks=", R, " code=", k));
    sim::explore(R, [&](int r) { out[r] = MPIMeanTensor(in[r], MPI_COMM_WORLD); }, [&](const sim::Result &res, bool) { VP_CHECK(res.ok(), "collectives", res.why());
      for (size_t i = 0; i < 2; i++) VP_CHECK(vp::close(out[0].GetElem({i}), sum[i] / R), "tensor-mean", "component ", i, " is ", out[0].GetElem({i}), " expected ", sum[i] / R);
      for (int r = 1; r < R; r++) VP_CHECK(out[r].IsDefault(), "tensor-mean", "non-master rank returned data"); });
    vp::S().evaluations++; } }
}
VP_MAIN([] {
  int job = 0; auto mine = [&] { return (job++ % vp::S().nshards) == vp::S().shard; };
  if (mine()) serial<double>(); if (mine()) serial<cd>(); if (mine()) lists<double>(); if (mine()) lists<cd>(); if (mine()) dump(); if (mine()) tensors(); if (mine()) long_series();
  int cap = vp::pick(6, 7);
  for (int R = 1; R <= 4; R++) for (int n = 0; R * n <= cap; n++) { if (n > 6) break; if (mine()) dist<double>(R, n); if (R * n <= cap - 1) if (mine()) dist<cd>(R, n); }
  // every split of up to 5 samples over 2 and 3 ranks in unequal shares
  for (int R = 2; R <= 3; R++) for (int code = 0; code < (R == 2 ? 36 : 216); code++) { std::vector<int> c; int k = code, tot = 0; bool same = true; for (int r = 0; r < R; r++) { c.push_back(k % 6); tot += k % 6; k /= 6; same = same && c[r] == c[0]; } if (same || tot > vp::pick(5, 6)) continue; if (mine()) shares<double>(c); if (tot <= 4 && mine()) shares<cd>(c); }
})
