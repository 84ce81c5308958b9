// C14: exact summation (energy, gradient, observables) for every configuration list, rank count and message order, against the dense state vector.
#include "models_exact.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h"
#include "qlpeps/algorithm/vmc_update/exact_summation_measurer.h"
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
static const double TOL = 1e-7;
static Lat lat(size_t R, size_t C, int kind, bool pbc) { return Lat{R, C, 2, pbc, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (r + 2 * c + kind) % 3); }}; }
static std::string bits(size_t b, size_t N) { std::string c(N, 0); for (size_t i = 0; i < N; i++) c[i] = b >> i & 1; return c; }
struct Truth { T e; std::vector<std::vector<std::vector<T>>> g; std::map<std::string, std::vector<T>> obs; double mag; }; // g[site][basis][entry]
static T hpsi(Sys &y, const Ham &H, const std::string &c) { // (H psi)(c), summed straight over the matrix elements
  T v = T(0), d = T(-H.pin * sz(c[0])); for (auto &b : H.b) { d += T(b.jz * sz(c[b.i]) * sz(c[b.j])); if (c[b.i] != c[b.j]) { auto cc = c; std::swap(cc[b.i], cc[b.j]); v += T(0.5 * b.jxy) * y.value(cc); } }
  if (H.ising) for (size_t i = 0; i < c.size(); i++) { auto cc = c; cc[i] = 1 - cc[i]; v -= T(H.hx) * y.value(cc); } return v + d * y.value(c);
}
static Truth truth(Sys &y, const Ham &H, const std::vector<std::string> &list) {
  Truth t; size_t N = y.L.sites(); double Z = 0; T num(0); t.mag = 1; for (auto &c : list) { Z += std::norm(y.value(c)); T x = cj(hpsi(y, H, c)) * y.value(c); num += x; }
  t.e = num / Z; t.g.resize(N); for (auto &c : list) t.mag = std::max(t.mag, (double)std::abs(hpsi(y, H, c)) * std::abs(y.value(c)) / Z);
  for (size_t i = 0; i < N; i++) { t.g[i].assign(2, std::vector<T>(y.hole(list[0], i).size(), T(0))); for (auto &c : list) { auto &h = y.hole(c, i); T w = (hpsi(y, H, c) - cj(t.e) * y.value(c)) / Z; for (size_t k = 0; k < h.size(); k++) t.g[i][c[i]][k] += w * cj(h[k]); } }
  auto add = [&](const char *k, auto f) { std::vector<T> a; for (auto &c : list) { auto v = f(c); if (a.empty()) a.assign(v.size(), T(0)); double w = std::norm(y.value(c)) / Z; for (size_t q = 0; q < v.size(); q++) a[q] += w * v[q]; } t.obs[k] = a; };
  add("energy", [&](auto &c) { return std::vector<T>{expect(y, H, c).e}; }); add("spin_z", [&](auto &c) { std::vector<T> v; for (char x : c) v.push_back(T(sz(x))); return v; });
  if (!H.ising) { add("bond_energy_h", [&](auto &c) { return expect(y, H, c).h; }); add("bond_energy_v", [&](auto &c) { return expect(y, H, c).v; }); } else if (H.hx != 0) add("sigma_x", [&](auto &c) { return expect(y, H, c).sx; });
  return t;
}
template <template <class, class> class CT> auto params() { if constexpr (std::is_same_v<typename CT<T, QN>::TruncateParams, TRGTruncateParams<double>>) return TRGTruncateParams<double>::SVD(1, 1 << 20, 0.0); else return BMPSTruncateParams<double>::SVD(1, 81, 0.0); }
template <template <class, class> class CT, class M> void one(Sys &y, const Ham &H, const M &model, const std::string &what, const std::vector<std::string> &list, const std::vector<int> &ranks) {
  if (!mine()) return; for (auto &c : list) if (std::abs(y.value(c)) < 1e-4 * y.typ) return; // local energies of vanishing amplitudes are ill-conditioned
  std::vector<Configuration> cf; for (auto &c : list) cf.push_back(y.conf(c)); auto t = truth(y, H, list); State<T> empty; auto other = build(tnx::generic<T>(y.L, 77));
  for (int n : ranks) for (int other_ranks = 0; other_ranks < (n > 1 ? 2 : 1); other_ranks++) { // the other ranks hold nothing, or hold some other state: only the master's counts
    std::vector<std::tuple<T, State<T>, double>> out(n); std::vector<ObservableMap<T>> obs(n);
    vp::begin_case(vp::cat(what, " on ", n, " ranks"));
    auto body = [&](int r) { M m(model); const State<T> &mine_ = r == 0 ? y.s : other_ranks ? other : empty;
      out[r] = ExactSumEnergyEvaluatorMPI<M, T, QN, CT>(mine_, cf, params<CT>(), m, y.L.R, y.L.C, MPI_COMM_WORLD, r, n); obs[r].clear(); obs[r] = ExactSumMeasurerMPI<M, T, QN, CT>(mine_, cf, params<CT>(), m, y.L.R, y.L.C, MPI_COMM_WORLD, r, n); };
    auto check = [&](const sim::Result &res, bool sync) {
      VP_CHECK(res.ok(), "collectives", n, " ranks, ", sync ? "unbuffered" : "buffered", " sends: ", res.why());
      auto &[e, g, err] = out[0]; VP_CHECK(std::abs(e - t.e) <= TOL * t.mag, "energy", "energy ", e, ", exact ", t.e); VP_CHECK(err == 0, "error", "statistical error ", err, " reported for an exact sum");
      VP_CHECK(g.rows() == y.L.R && g.cols() == y.L.C, "gradient-shape", "gradient is ", g.rows(), "x", g.cols());
      double sc = 0; for (auto &a : t.g) for (auto &b : a) for (auto x : b) sc = std::max(sc, (double)std::abs(x));
      for (size_t i = 0; i < t.g.size(); i++) { VP_CHECK(g(y.at(i)).size() == 2, "gradient-shape", "gradient at site ", i, " has ", g(y.at(i)).size(), " components"); for (size_t b = 0; b < 2; b++) { const TenT &x = g(y.at(i))[b]; bool none = x.IsDefault() || x.size() == 0; for (size_t k = 0; k < t.g[i][b].size(); k++) { T v = none ? T(0) : x.GetRawDataPtr()[k]; VP_CHECK(std::abs(v - t.g[i][b][k]) <= 1e-6 * std::max(sc, t.mag), "gradient", "gradient at site ", i, " component ", b, " entry ", k, " is ", v, ", exact ", t.g[i][b][k]); } vp::S().evaluations++; } }
      for (auto &kv : t.obs) { auto it = obs[0].find(kv.first); VP_CHECK(it != obs[0].end(), "observable-missing", "observable ", kv.first, " is missing"); VP_CHECK(it->second.size() == kv.second.size(), "observable-size", "observable ", kv.first, " has ", it->second.size(), " entries"); for (size_t k = 0; k < kv.second.size(); k++) VP_CHECK(std::abs(it->second[k] - kv.second[k]) <= TOL * 100 * t.mag, "observable", "mean of ", kv.first, "[", k, "] is ", it->second[k], ", exact ", kv.second[k]); vp::S().evaluations++; }
      vp::outcome(vp::cat(what, n, sync, other_ranks)); };
    if (n == 1) { sim::Options o; o.ranks = 1; auto res = sim::run(o, nullptr, body); vp::S().traces++; vp::S().transitions += res.calls; check(res, true); } else sim::explore(n, body, check);
    vp::S().states++; }
}
template <template <class, class> class CT, class F> void lists(Sys &y, const Ham &H, const char *mn, bool conserving, bool subsets, const std::vector<int> &ranks, F model) {
  size_t N = y.L.sites(); auto name = [&](const char *k, size_t v) { return vp::cat(mn, " ", y.name, " ", k, " ", v); };
  { std::vector<std::string> a; auto all = GenerateAllBinaryConfigs(y.L.C, y.L.R); for (auto &c : all) { std::string s; for (size_t i = 0; i < N; i++) s += char(c(y.at(i))); a.push_back(s); } one<CT>(y, H, model, name("all configurations", a.size()), a, ranks); }
  for (size_t up = 0; up <= N && conserving; up++) { std::vector<std::string> a; for (auto &c : GenerateAllPermutationConfigs({N - up, up}, y.L.C, y.L.R)) { std::string s; for (size_t i = 0; i < N; i++) s += char(c(y.at(i))); a.push_back(s); } one<CT>(y, H, model, name("sector up =", up), a, ranks); }
  if (subsets) for (size_t k = 1; k < (1u << N); k++) { if (N > 4 && k % 97) continue; std::vector<std::string> a; for (size_t b = 0; b < (1u << N); b++) if ((N <= 4 ? (k * 2654435761u >> (b % 16)) : (k * 40503u >> (b % 13))) & 1) a.push_back(bits(b, N)); if (a.size()) one<CT>(y, H, model, name("subset", k), a, ranks); }
  for (size_t b = 0; b < (1u << N); b += N > 4 ? 7 : 1) { one<CT>(y, H, model, name("single configuration", b), {bits(b, N)}, ranks); one<CT>(y, H, model, name("pair", b), {bits(b, N), bits((b * 5 + 3) % (1u << N), N)}, ranks); }
}
// the configuration lists themselves: every composition of every small lattice
static void generators(size_t maxsites) {
  for (size_t R = 1; R <= maxsites; R++) for (size_t C = 1; R * C <= maxsites; C++) {
    size_t N = R * C;
    if (mine()) { vp::begin_case(vp::cat("binary ", R, "x", C)); auto all = GenerateAllBinaryConfigs(C, R); std::set<std::vector<size_t>> s; for (auto &c : all) { VP_CHECK(c.rows() == R && c.cols() == C, "config-shape", "configuration is ", c.rows(), "x", c.cols()); std::vector<size_t> v; for (auto x : c) { VP_CHECK(x < 2, "config-value", "value ", x); v.push_back(x); } VP_CHECK(s.insert(v).second, "config-twice", "a configuration is listed twice"); } VP_CHECK(s.size() == 1u << N, "config-missing", s.size(), " of ", 1u << N, " configurations listed"); vp::S().states++; vp::S().evaluations += s.size(); }
    for (size_t d = 1; d <= 4; d++) { std::vector<size_t> n(d, 0); std::function<void(size_t, size_t)> go = [&](size_t i, size_t left) {
      if (i + 1 == d) { n[i] = left; if (!mine()) return; vp::begin_case(vp::cat("permutations ", R, "x", C, " counts ", vp::cat(n[0], d > 1 ? vp::cat(",", n[1]) : "", d > 2 ? vp::cat(",", n[2]) : "", d > 3 ? vp::cat(",", n[3]) : "")));
        double want = std::tgamma(N + 1); for (auto k : n) want /= std::tgamma(k + 1); std::set<std::vector<size_t>> s; for (auto &c : GenerateAllPermutationConfigs(n, C, R)) { VP_CHECK(c.rows() == R && c.cols() == C, "config-shape", "configuration is ", c.rows(), "x", c.cols()); std::vector<size_t> v, m(d, 0); for (size_t r = 0; r < R; r++) for (size_t q = 0; q < C; q++) { size_t x = c({r, q}); VP_CHECK(x < d, "config-value", "value ", x); m[x]++; v.push_back(x); } VP_CHECK(m == n, "config-counts", "a listed configuration has other particle counts"); VP_CHECK(s.insert(v).second, "config-twice", "a configuration is listed twice"); }
        VP_CHECK(s.size() == (size_t)std::llround(want), "config-missing", s.size(), " of ", want, " configurations listed"); vp::S().states++; vp::S().evaluations += s.size(); return; }
      for (size_t k = 0; k <= left; k++) { n[i] = k; go(i + 1, left - k); } }; go(0, N); }
  }
  if (mine()) for (size_t big : {64ul, 65ul, 1ul << 33}) { vp::begin_case(vp::cat("binary lattice of ", big, " sites per side")); bool threw = false; try { GenerateAllBinaryConfigs(big, big); } catch (const std::invalid_argument &) { threw = true; } VP_CHECK(threw, "too-many-configs", "a lattice whose configurations cannot be counted was accepted"); }
}
// solvers whose observables differ in number, size and name: aggregation must not depend on which rank evaluated what
struct Synth : ModelEnergySolver<Synth>, ModelMeasurementSolver<Synth> {
  int shape; explicit Synth(int s) : shape(s) {}
  template <class E, class Q> ObservableMap<E> EvaluateObservables(const SplitIndexTPS<E, Q> *, TPSWaveFunctionComponent<E, Q> *w) { return values<E>(w->config, shape); }
  template <class E> static ObservableMap<E> values(const Configuration &c, int shape) { ObservableMap<E> o; double x = 1; size_t n = 0; for (auto v : c) { x = 3 * x + v; n += v; } if (shape & 1) o["z"] = {E(x)}; if (shape & 2) o["a_long_observable_name_that_does_not_fit_in_a_short_string"] = {E(n), E(x * x), E(-x)}; if (shape & 4) o["none"] = {}; if (shape & 8) for (int k = 0; k < 7; k++) o[vp::cat("k", (k * 5) % 7)] = std::vector<E>(k + 1, E(x + k)); return o; }
};
static void synthetic(Sys &y, int maxranks) {
  size_t N = y.L.sites(); for (int shape = 0; shape < 16; shape++) for (size_t m : {1, 2, 3, 5, 7}) for (int n = 1; n <= maxranks; n++) { if (!mine()) continue; vp::begin_case(vp::cat("observable set ", shape, ", ", m, " configurations, ", n, " ranks"));
    std::vector<Configuration> cf; std::map<std::string, std::vector<T>> want; double Z = 0; for (size_t k = 0; k < m; k++) { auto c = bits((k * 5 + 3) % (1u << N), N); cf.push_back(y.conf(c)); double w = std::norm(y.value(c)); Z += w; for (auto &kv : Synth::values<T>(cf.back(), shape)) { auto &a = want[kv.first]; a.resize(kv.second.size()); for (size_t q = 0; q < a.size(); q++) a[q] += w * kv.second[q]; } } for (auto &kv : want) for (auto &x : kv.second) x /= Z;
    std::vector<ObservableMap<T>> obs(n); State<T> none;
    auto body = [&](int r) { Synth s(shape); obs[r].clear(); obs[r] = ExactSumMeasurerMPI<Synth, T, QN>(r ? none : y.s, cf, params<BMPSContractor>(), s, y.L.R, y.L.C, MPI_COMM_WORLD, r, n); };
    auto check = [&](const sim::Result &res, bool) { VP_CHECK(res.ok(), "collectives", n, " ranks: ", res.why()); VP_CHECK(obs[0].size() == want.size(), "observable-missing", obs[0].size(), " observables, expected ", want.size()); for (auto &kv : want) { auto it = obs[0].find(kv.first); VP_CHECK(it != obs[0].end() && it->second.size() == kv.second.size(), "observable-size", "observable ", kv.first); for (size_t q = 0; q < kv.second.size(); q++) VP_CHECK(std::abs(it->second[q] - kv.second[q]) <= 1e-8 * (1 + std::abs(kv.second[q])), "observable", "mean of ", kv.first, "[", q, "] is ", it->second[q], ", exact ", kv.second[q]); vp::S().evaluations++; } };
    if (n == 1) { sim::Options o; o.ranks = 1; auto res = sim::run(o, nullptr, body); vp::S().traces++; check(res, true); } else sim::explore(n, body, check); vp::S().states++; vp::outcome(vp::cat("synth", shape, m, n)); }
  if (mine()) for (int n = 1; n <= maxranks; n++) { vp::begin_case(vp::cat("no configurations, ", n, " ranks")); std::vector<bool> threw(n); auto body = [&](int r) { Synth s(1); threw[r] = false; try { ExactSumMeasurerMPI<Synth, T, QN>(y.s, {}, params<BMPSContractor>(), s, y.L.R, y.L.C, MPI_COMM_WORLD, r, n); } catch (const std::invalid_argument &) { threw[r] = true; } }; sim::Options o; o.ranks = n; auto res = sim::run(o, nullptr, body); VP_CHECK(res.ok(), "collectives", res.why()); for (int r = 0; r < n; r++) VP_CHECK(threw[r], "empty-list", "rank ", r, " accepted an empty configuration list"); }
}
VP_MAIN([] {
  bool th = vp::thorough(); vp::S().hang_s = 300; int mr = th ? 6 : 4; std::vector<int> ranks; for (int n = 1; n <= mr; n++) ranks.push_back(n);
  generators(th ? 8 : 6);
  std::vector<std::array<size_t, 3>> ls = {{2, 2, 0}, {2, 2, 1}, {2, 3, 1}, {3, 2, 2}}; if (th) { ls.push_back({3, 3, 1}); }
  for (auto l : ls) { Sys y(lat(l[0], l[1], l[2], false), 3 + l[0], vp::cat(l[0], "x", l[1], " bonds", l[2])); const Lat &L = y.L; bool sub = l[0] * l[1] == 4;
    lists<BMPSContractor>(y, spins(L, 0.7, -1.3, 0, 0, 0.45, 0), "XXZ", true, sub, ranks, SquareSpinOneHalfXXZModelOBC(0.7, -1.3, 0.45)); lists<BMPSContractor>(y, spins(L, 0.7, -1.3, 0.4, 0.9, -0.35, 1), "J1J2", true, false, ranks, SquareSpinOneHalfJ1J2XXZModelOBC(0.7, -1.3, 0.4, 0.9, -0.35)); lists<BMPSContractor>(y, ising(L, 1.7), "TFIM", false, sub, ranks, TransverseFieldIsingSquareOBC(1.7)); }
  { Sys y(lat(2, 4, 2, false), 6, "2x4 bonds2"); lists<BMPSContractor>(y, spins(y.L, 0.7, -1.3, 0, 0, 0.45, 0), "XXZ", true, false, th ? ranks : std::vector<int>{3}, SquareSpinOneHalfXXZModelOBC(0.7, -1.3, 0.45)); }
  { Sys y(lat(2, 2, 0, true), 7, "2x2 PBC"); lists<TRGContractor>(y, spins(y.L, 0.7, -1.3, 0, 0, 0, 0), "Heisenberg PBC", true, true, ranks, HeisenbergSquarePBC(0.7, -1.3)); lists<TRGContractor>(y, ising(y.L, 1.7), "TFIM PBC", false, false, ranks, TransverseFieldIsingSquarePBC(1.7)); }
  { Sys y(lat(2, 2, 1, false), 5, "2x2"); synthetic(y, mr + 1); }
  vp::sample("lists: all configurations, every particle sector, subsets, single configurations; 1..n ranks; master-only state");
})
