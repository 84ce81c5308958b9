// C19: SR/MinSR linear algebra over all small sample sets, rank layouts and message orders; replicated and distributed eigensolves.
#include "sitps_util.h"
#include "simmpi.h"
#include "scalapack_sim.h"
#ifndef ELT
#define ELT double
#endif
#define QLPEPS_HAS_SCALAPACK 1
#include "qlpeps/optimizer/minsr_eigensolve.h"
#include "qlpeps/optimizer/minsr_tmatrix.h"
#include "qlpeps/optimizer/stochastic_reconfiguration_smatrix.h"
using T = ELT;
constexpr bool CPLX = !std::is_same_v<T, double>;
using S_ = su::State<T>;
using cd = std::complex<double>;
static uint64_t cnt = 0;
static bool mine() { uint64_t h = ++cnt * 0x9E3779B97F4A7C15ull; return (int)((h >> 32) % vp::S().nshards) == vp::S().shard; }
static double cj(double x) { return x; }
static cd cj(cd x) { return std::conj(x); }
static T mk(double a, double b) { return su::val<T>(a, b); }
static bool near(T a, T b, double sc = 1) { return std::abs(a - b) <= 1e-10 * (sc + std::abs(a) + std::abs(b)); }
// sample = vector over (2 sites x 2 components), NaN = absent component
using Vx = std::vector<T>;
static Vx alpha(int k) {
  const double N = std::nan("");
  switch (k) {
    case 0: return {mk(1, 0.5), mk(N, N), mk(N, N), mk(2, -1)};
    case 1: return {mk(N, N), mk(-1, 2), mk(0.5, 0.25), mk(N, N)};
    case 2: return {mk(1, -1), mk(N, N), mk(-3, 0), mk(N, N)};
    case 3: return {mk(2, 1), mk(1, 1), mk(-1, 0.5), mk(0, 3)};
    default: return {mk(0, 0), mk(0, 0), mk(0, 0), mk(0, 0)};
  }
}
static T comp(const Vx &v, size_t i) { return std::isnan(std::abs(v[i])) ? T(0) : v[i]; }
static T dot(const Vx &a, const Vx &b) { T s(0); for (size_t i = 0; i < a.size(); i++) s += cj(comp(a, i)) * comp(b, i); return s; }
static S_ tps(const Vx &v) {
  S_ s(1, 2, 2);
  for (size_t i = 0; i < 4; i++) if (!std::isnan(std::abs(v[i]))) s({0, i / 2})[i % 2] = su::make_ten<T>({1, 1, 1, 1}, {v[i]});
  return s;
}
static T entry(const S_ &s, size_t i) { auto &t = s({0, i / 2})[i % 2]; return t.IsDefault() ? T(0) : t({0, 0, 0, 0}); }

static void cutoff_cases() {
  std::vector<double> al{-2, -1e-3, 0, 1e-12, 1e-3, 0.5, 3};
  for (int len = 0; len <= vp::pick(4, 5); len++) {
    int tot = 1; for (int i = 0; i < len; i++) tot *= al.size();
    for (int c = 0; c < tot; c++) {
      if (!mine()) continue;
      std::vector<double> ev; int q = c; for (int i = 0; i < len; i++) { ev.push_back(al[q % al.size()]); q /= al.size(); }
      for (double r : {0.0, 1e-12, 0.25, 1.0}) for (double a : {0.0, 1e-3, 0.7}) for (int soft = 0; soft < 2; soft++) {
        auto in = ev; auto g = qlpeps::minsr_detail::ApplyPseudoInverseCutoff(in, r, a, soft);
        vp::set_case(vp::cat("cutoff list ", c, " of length ", len, " r ", r, " a ", a, " soft ", soft));
        VP_CHECK(g.size() == ev.size() && in == ev, "cutoff-size", "wrong size");
        long double mx = 0; for (double e : ev) mx = std::max(mx, (long double)std::abs(e));
        long double cut = r * mx + a;
        for (size_t i = 0; i < ev.size(); i++) {
          long double e = ev[i], want, den = powl(e, 6) + powl(cut, 6);
          if (soft) want = den == 0 ? 0 : powl(e, 5) / den;
          else { if (std::abs((double)(fabsl(e) - cut)) < 1e-12 * (double)(cut + fabsl(e)) && cut > 0) continue; want = fabsl(e) > cut ? 1 / e : 0; }
          VP_CHECK(vp::close(g[i], (double)want, 1e-9, 1e-300), "cutoff", "eigenvalue ", ev[i], " cutoff ", (double)cut, " gives ", g[i], " expected ", (double)want);
          vp::outcome(vp::cat("cut ", want == 0, soft, e > 0));
        }
        vp::S().evaluations++;
      }
    }
  }
}
static std::vector<std::vector<T>> gram(const std::vector<Vx> &s) {
  size_t N = s.size(); Vx mean(4, T(0)); for (auto &v : s) for (int i = 0; i < 4; i++) mean[i] += comp(v, i) / double(N);
  std::vector<Vx> c; for (auto &v : s) { Vx x(4); for (int i = 0; i < 4; i++) x[i] = comp(v, i) - mean[i]; c.push_back(x); }
  std::vector<std::vector<T>> g(N, std::vector<T>(N)); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) g[i][j] = dot(c[i], c[j]) / double(N);
  return g;
}
static void sample_cases() {
  std::vector<std::pair<int, int>> lay{{1, 1}, {1, 2}, {1, 3}, {1, 4}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {4, 1}, {4, 2}, {5, 1}};
  for (auto [P, L] : lay) {
    int N = P * L, tot = 1; for (int i = 0; i < N && tot < 100000; i++) tot *= 5;
    int step = tot <= 625 ? 1 : tot <= 3125 ? vp::pick(5, 1) : vp::pick(173, 29);
    for (int code = 0; code < tot; code += step) {
      if (!mine()) continue;
      std::vector<Vx> s; int q = code; for (int i = 0; i < N; i++) { s.push_back(alpha(q % 5)); q /= 5; }
      if (N > 7) for (int i = 7; i < N; i++) s[i] = alpha((code + i * i) % 5);
      auto g = gram(s);
      vp::begin_case(vp::cat("samples code ", code, " on ", P, " ranks x ", L));
      vp::state(vp::cat(P, " ", L, " ", code));
      sim::explore(P, [&, P = P, L = L](int r) {
        std::vector<S_> loc; for (int i = 0; i < L; i++) loc.push_back(tps(s[r * L + i]));
        qlpeps::MinSRTMatrix<T, su::QN> m;
        for (int rep = 0; rep < 2; rep++) { // a second construction starts clean
          m.Construct(loc, MPI_COMM_WORLD);
          VP_CHECK(m.LocalRows() == (size_t)L && m.GlobalSize() == (size_t)N, "tmat-size", "rows ", m.LocalRows(), " size ", m.GlobalSize());
          for (int i = 0; i < L; i++) for (int j = 0; j < N; j++) VP_CHECK(near(m.RowBlockData()[i * N + j], g[r * L + i][j]), "tmat", "T(", r * L + i, ",", j, ") = ", m.RowBlockData()[i * N + j], " expected ", g[r * L + i][j], " (rank ", r, ")");
          for (int i = 0; i < L; i++) for (size_t k = 0; k < 4; k++) VP_CHECK(entry(loc[i], k) == comp(s[r * L + i], k), "tmat-samples", "constructing T changed a sample");
        }
        vp::S().transitions += (uint64_t)L * N;
      }, [&](const sim::Result &r, bool sync) { VP_CHECK(r.ok(), "tmat-run", "Gram matrix construction did not complete (", sync ? "unbuffered" : "buffered", "): ", r.why()); vp::S().evaluations++; });
      // covariance product: sum of the ranks' partial products
      if (P <= 3) for (int vi = 0; vi < vp::pick(2, 4); vi++) for (T sh : {mk(0, 0), mk(0.5, 0)}) {
        Vx v = alpha((vi + code) % 4), want(4, T(0)); Vx mean(4, T(0));
        for (auto &x : s) for (int i = 0; i < 4; i++) mean[i] += comp(x, i) / double(N);
        for (auto &x : s) { T d = dot(x, v) - dot(mean, v); for (int i = 0; i < 4; i++) want[i] += d * comp(x, i) / double(N); }
        for (int i = 0; i < 4; i++) want[i] += sh * comp(v, i);
        std::vector<Vx> got(P);
        vp::begin_case(vp::cat("S*v samples code ", code, " on ", P, " ranks x ", L, " v ", vi, " shift ", sh));
        sim::explore(P, [&, P = P, L = L](int r) {
          std::vector<S_> loc; for (int i = 0; i < L; i++) loc.push_back(tps(s[r * L + i]));
          S_ mn = tps(mean);
          qlpeps::SRSMatrix<T, su::QN> m(&loc, r == 0 ? &mn : nullptr, P, MPI_COMM_WORLD);
          m.diag_shift = sh;
          S_ vv = tps(v);
          const S_ o = m * vv;
          got[r].clear(); for (size_t k = 0; k < 4; k++) { got[r].push_back(entry(o, k)); VP_CHECK(entry(vv, k) == comp(v, k), "smat-v", "the product changed its argument"); }
        }, [&](const sim::Result &r, bool) {
          VP_CHECK(r.ok(), "smat-run", "covariance product did not complete: ", r.why());
          for (int i = 0; i < 4; i++) { T t(0); for (auto &x : got) t += x[i]; VP_CHECK(near(t, want[i]), "smat", "component ", i, " of S*v = ", t, " expected ", want[i]); }
          vp::S().evaluations++;
        }, false); // collectives only: the send mode makes no difference
      }
    }
  }
}
// T = Q diag(l) Q^+ with a known unitary Q (product of reflections)
struct Sys { int N; std::vector<T> t; std::vector<double> l; std::vector<std::vector<T>> q; };
static Sys make_sys(int N, int fam) {
  Sys s; s.N = N;
  static const double al[3][5] = {{0, 1, 2, 0.25, 1e-9}, {1, 1, 1, 3, 0}, {-0.5, 0.1, 4, 2, 1}};
  for (int i = 0; i < N; i++) s.l.push_back(al[fam % 3][(i * (1 + fam / 3) + fam) % 5]);
  std::vector<std::vector<T>> Q(N, std::vector<T>(N, T(0))); for (int i = 0; i < N; i++) Q[i][i] = T(1);
  for (int h = 0; h < (N > 1 ? 2 : 0); h++) {
    std::vector<T> v(N); double nn = 0; for (int i = 0; i < N; i++) { v[i] = mk(((i * 7 + h * 3 + fam) % 5) - 1.5, ((i * 3 + h + fam) % 4) - 1.0); nn += std::norm(v[i]); }
    for (int c = 0; c < N; c++) { T d(0); for (int i = 0; i < N; i++) d += cj(v[i]) * Q[i][c]; d *= 2.0 / nn; for (int i = 0; i < N; i++) Q[i][c] -= d * v[i]; }
  }
  s.q = Q; s.t.assign((size_t)N * N, T(0));
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { T x(0); for (int k = 0; k < N; k++) x += Q[i][k] * s.l[k] * cj(Q[j][k]); s.t[(size_t)i * N + j] = x; }
  return s;
}
static std::vector<T> expected(const Sys &s, const std::vector<T> &rhs, double r, double a, bool soft) {
  double mx = 0; for (double e : s.l) mx = std::max(mx, std::abs(e)); double cut = r * mx + a;
  std::vector<T> y(s.N, T(0));
  for (int k = 0; k < s.N; k++) {
    double e = s.l[k], p = soft ? (e == 0 && cut == 0 ? 0 : std::pow(e, 5) / (std::pow(e, 6) + std::pow(cut, 6))) : (std::abs(e) > cut ? 1 / e : 0);
    T d(0); for (int i = 0; i < s.N; i++) d += cj(s.q[i][k]) * rhs[i]; d *= p; for (int i = 0; i < s.N; i++) y[i] += s.q[i][k] * d;
  }
  return y;
}
static void solve_cases() {
  std::vector<std::pair<int, int>> lay; // ranks, N
  for (int P = 1; P <= 4; P++) for (int L = 1; L <= 5 && P * L <= 8; L++) lay.push_back({P, P * L});
  for (int N : {60, 66, 72, 130, 132}) for (int P : {2, 3, 4, 5, 6}) if (N % P == 0 && (N < 100 || vp::thorough() || P == 2 || P == 5 || P == 6)) lay.push_back({P, N});
  for (auto [P, N] : lay) for (int fam = 0; fam < (N > 10 ? vp::pick(2, 6) : 15); fam++) {
    if (!mine()) continue;
    Sys s = make_sys(N, fam);
    std::vector<T> rhs(N); for (int i = 0; i < N; i++) rhs[i] = mk((i * 5 + fam) % 7 - 3.0, (i + fam) % 3 - 1.0);
    // cutoffs far away from the eigenvalues (rounding of an eigensolver must not matter)
    std::vector<std::array<double, 3>> cuts{{0, 0.03, 0}, {0, 0.03, 1}, {0.15, 0, 1}, {1e-3, 1e-3, 0}, {1e-3, 1e-3, 1}};
    for (auto &c : cuts) {
      if (N > 10 && &c != &cuts[1] && &c != &cuts[3] && !vp::thorough()) continue;
      auto want = expected(s, rhs, c[0], c[1], c[2] != 0);
      double sc = 0; for (auto &x : want) sc = std::max(sc, std::abs(x));
      for (int route = 0; route < 4; route++) { // replicated direct, distributed direct, dispatch auto, dispatch distributed
        vp::begin_case(vp::cat("solve N ", N, " ranks ", P, " family ", fam, " r ", c[0], " a ", c[1], " soft ", c[2], " route ", route));
        if (N > 10 && route == 3) continue;
        const int L = N / P;
        sim::explore(P, [&, P = P, N = N](int r) {
          scal::reset();
          std::vector<T> blk(s.t.begin() + (size_t)r * L * N, s.t.begin() + (size_t)(r + 1) * L * N), y;
          const auto keep = blk; auto rh = rhs;
          using M = qlpeps::MinSRSolverMode;
          if (route == 0) y = qlpeps::ReplicatedEigenSolveWithPseudoInverse<T>(blk.data(), L, N, rh, MPI_COMM_WORLD, c[0], c[1], c[2] != 0);
          else if (route == 1) y = qlpeps::minsr_detail::ScaLAPACKEigenSolveWithPseudoInverse<T>(blk.data(), L, N, rh, MPI_COMM_WORLD, c[0], c[1], c[2] != 0);
          else y = qlpeps::MinSREigenSolveDispatch<T>(blk.data(), L, N, rh, MPI_COMM_WORLD, c[0], c[1], c[2] != 0, route == 2 ? M::kAuto : M::kDistributed);
          VP_CHECK(y.size() == (size_t)N, "solve-size", "solution has ", y.size(), " entries");
          for (int i = 0; i < N; i++) VP_CHECK(std::abs(y[i] - want[i]) <= 1e-7 * (sc + 1), "solve", "y[", i, "] = ", y[i], " expected ", want[i], " (rank ", r, ")");
          VP_CHECK(blk == keep && rh == rhs, "solve-inputs", "the solve changed its inputs");
          VP_CHECK(scal::open_contexts() == 0, "solve-leak", scal::open_contexts(), " process grids left open");
          if (route == 2) VP_CHECK(scal::ctxs.empty(), "dispatch-auto", "a small system was sent to the distributed solver in automatic mode");
          if (route == 3) VP_CHECK(!scal::ctxs.empty(), "dispatch-distributed", "distributed mode used the replicated solver");
        }, [&](const sim::Result &r, bool sync) { VP_CHECK(r.ok(), "solve-run", "eigensolve did not complete: ", r.why()); vp::S().evaluations++; vp::S().transitions += N; }, N <= 10);
        vp::outcome(vp::cat("solve ", P, N, fam, route));
      }
    }
  }
}
// automatic mode: replicated up to 5000 samples, distributed above (the solve itself is cut short)
static void threshold() {
  if constexpr (!CPLX) for (int N : {5000, 5001}) {
    if (!mine()) continue;
    vp::begin_case(vp::cat("automatic route for ", N, " samples"));
    vp_heev_limit() = 1000;
    sim::explore(1, [&](int) {
      scal::reset();
      std::vector<T> blk((size_t)N * N, T(0)), rhs(N, T(1)); bool cut = false;
      try { qlpeps::MinSREigenSolveDispatch<T>(blk.data(), N, N, rhs, MPI_COMM_WORLD, 0, 0.1, false, qlpeps::MinSRSolverMode::kAuto); } catch (const std::runtime_error &) { cut = true; }
      VP_CHECK(cut && scal::ctxs.empty() == (N <= 5000), "dispatch-threshold", N, " samples were sent to the ", scal::ctxs.empty() ? "replicated" : "distributed", " solver");
    }, [&](const sim::Result &r, bool) { VP_CHECK(r.ok(), "threshold-run", r.why()); vp::S().evaluations++; }, false);
    vp_heev_limit() = 1 << 30;
  }
}
VP_MAIN([] {
  threshold();
  cutoff_cases(); sample_cases(); solve_cases();
  vp::sample("3 ranks x 2 samples: Gram matrix by ring exchange with unbuffered sends, every entry compared with the centred inner products");
})
