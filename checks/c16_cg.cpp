// C16: conjugate-gradient solver, serial and distributed, over all small systems, parameters, faults and message orders.
#include "vp.h"
#include "simmpi.h"
#include "qlten/qlten.h"
template <class T> struct Vec {
  std::vector<T> e;
  Vec() = default;
  explicit Vec(std::vector<T> v) : e(std::move(v)) {}
  double NormSquare() const { double s = 0; for (auto &x : e) s += std::norm(x); return s; }
};
inline double cj(double x) { return x; }
inline std::complex<double> cj(std::complex<double> x) { return std::conj(x); }
template <class T> T operator*(const Vec<T> &a, const Vec<T> &b) { T s{}; for (size_t i = 0; i < a.e.size(); i++) s += cj(a.e[i]) * b.e[i]; return s; }
template <class T> Vec<T> operator+(const Vec<T> &a, const Vec<T> &b) { Vec<T> r(a); for (size_t i = 0; i < r.e.size(); i++) r.e[i] += b.e[i]; return r; }
template <class T> Vec<T> operator-(const Vec<T> &a, const Vec<T> &b) { Vec<T> r(a); for (size_t i = 0; i < r.e.size(); i++) r.e[i] -= b.e[i]; return r; }
template <class T> Vec<T> &operator+=(Vec<T> &a, const Vec<T> &b) { for (size_t i = 0; i < a.e.size(); i++) a.e[i] += b.e[i]; return a; }
template <class T> Vec<T> &operator-=(Vec<T> &a, const Vec<T> &b) { for (size_t i = 0; i < a.e.size(); i++) a.e[i] -= b.e[i]; return a; }
template <class T> Vec<T> operator-(const Vec<T> &a) { Vec<T> r(a); for (auto &x : r.e) x = -x; return r; }
template <class T> Vec<T> operator*(double s, const Vec<T> &a) { Vec<T> r(a); for (auto &x : r.e) x *= s; return r; }
inline Vec<std::complex<double>> operator*(std::complex<double> s, const Vec<std::complex<double>> &a) { auto r = a; for (auto &x : r.e) x *= s; return r; }
template <class T> Vec<T> operator*(const Vec<T> &a, double s) { return s * a; }
inline Vec<std::complex<double>> operator*(const Vec<std::complex<double>> &a, std::complex<double> s) { return s * a; }
// communication hooks the solver asks for
template <class T> void MPI_Bcast(Vec<T> &v, const MPI_Comm &comm) {
  int n = (int)v.e.size();
  ::MPI_Bcast(&n, 1, MPI_INT, 0, comm); v.e.resize(n);
  ::MPI_Bcast(v.e.data(), (int)(n * sizeof(T) / sizeof(double)), MPI_DOUBLE, 0, comm);
}
template <class T> void MPI_Send(const Vec<T> &v, int dest, const MPI_Comm &comm, int tag = 0) { int n = (int)v.e.size(); ::MPI_Send(&n, 1, MPI_INT, dest, tag, comm); ::MPI_Send(const_cast<T *>(v.e.data()), (int)(v.e.size() * sizeof(T) / sizeof(double)), MPI_DOUBLE, dest, tag, comm); }
template <class T> MPI_Status MPI_Recv(Vec<T> &v, int src, const MPI_Comm &comm, int tag = 0) {
  MPI_Status st, s2; int n = 0; ::MPI_Recv(&n, 1, MPI_INT, src, tag, comm, &st);
  v.e.resize(n); ::MPI_Recv(v.e.data(), (int)(n * sizeof(T) / sizeof(double)), MPI_DOUBLE, st.MPI_SOURCE, st.MPI_TAG, comm, &s2); return s2;
}
#include "qlpeps/utility/conjugate_gradient_solver.h"
using namespace qlpeps;
using cd = std::complex<double>;
template <class T> struct Mat {
  size_t n = 0; std::vector<T> a;
  mutable int calls = 0; int fault_call = -1; size_t fault_comp = 0; double fault_val = 0;
  Vec<T> operator*(const Vec<T> &v) const {
    Vec<T> r; r.e.assign(n, T{});
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) r.e[i] += a[i * n + j] * v.e[j];
    if (calls++ == fault_call) r.e[fault_comp % n] = T(fault_val);
    return r;
  }
  double norm() const { double s = 0; for (auto &x : a) s += std::norm(x); return std::sqrt(s); }
};
using P = ConjugateGradientParams;
using Rz = CGTerminationReason;
template <class T> static double vnorm(const Vec<T> &v) { return std::sqrt(v.NormSquare()); }
template <class T> static double mineig(const Mat<T> &m) { // n <= 3, Hermitian: Jacobi on the real embedding
  size_t n = m.n, N = 2 * n; std::vector<double> s(N * N);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { cd x = m.a[i * n + j]; s[i * N + j] = x.real(); s[(i + n) * N + j + n] = x.real(); s[(i + n) * N + j] = x.imag(); s[i * N + j + n] = -x.imag(); }
  for (int sweep = 0; sweep < 60; sweep++) for (size_t p = 0; p < N; p++) for (size_t q = p + 1; q < N; q++) {
    double apq = s[p * N + q]; if (std::abs(apq) < 1e-300) continue;
    double th = 0.5 * std::atan2(2 * apq, s[q * N + q] - s[p * N + p]), c = std::cos(th), sn = std::sin(th);
    for (size_t k = 0; k < N; k++) { double x = s[k * N + p], y = s[k * N + q]; s[k * N + p] = c * x - sn * y; s[k * N + q] = sn * x + c * y; }
    for (size_t k = 0; k < N; k++) { double x = s[p * N + k], y = s[q * N + k]; s[p * N + k] = c * x - sn * y; s[q * N + k] = sn * x + c * y; }
  }
  double mn = 1e300; for (size_t i = 0; i < N; i++) mn = std::min(mn, s[i * N + i]); return mn;
}
template <class T> static std::string sh(const Vec<T> &v) { std::ostringstream o; o.precision(17); o << "("; for (auto &x : v.e) o << x << " "; o << ")"; return o.str(); }
template <class T> static std::string sh(const Mat<T> &m) { return sh(Vec<T>(m.a)); }
static std::string sh(const P &p) { return vp::cat("{max_iter ", p.max_iter, " rel ", p.relative_tolerance, " abs ", p.absolute_tolerance, " recompute ", p.residual_recompute_interval, " ortho ", p.orthogonality_threshold, "}"); }
static double tol_of(const P &p, double bn) { return std::max(p.relative_tolerance * bn, p.absolute_tolerance); }

// truthfulness of one verdict (matrix without faults)
template <class T> static void verdict(const Mat<T> &m, double mn, const Vec<T> &b, const Vec<T> &x0, const P &p, const CGResult<Vec<T>> &r) {
  double an = m.norm(), bn = vnorm(b), r0 = vnorm(b - m * x0);
  VP_CHECK(r.x.e.size() == m.n, "size", "solution has ", r.x.e.size(), " components");
  double xn = vnorm(r.x), tr = vnorm(b - m * r.x), slack = 1e-11 * (an * (xn + vnorm(x0)) + bn + r0) + 1e-6 * tr, tol = tol_of(p, bn);
  VP_CHECK(std::isfinite(tr) && std::isfinite(r.residual_norm), "finite", "non-finite result for a finite system");
  VP_CHECK(std::abs(tr - r.residual_norm) <= slack, "residual", "reported residual ", r.residual_norm, " but ||b - A x|| = ", tr, " reason ", to_string(r.reason), " x ", sh(r.x));
  VP_CHECK(r.residual_norm <= r0 * (1 + 1e-12), "worse", "the returned vector is worse (", r.residual_norm, ") than the initial guess (", r0, ")");
  VP_CHECK(r.iterations <= p.max_iter, "iterations", "reports ", r.iterations, " iterations, limit ", p.max_iter);
  VP_CHECK(r.converged() == (r.reason == Rz::kConverged), "converged", "converged() disagrees with the reason");
  switch (r.reason) {
    case Rz::kConverged: VP_CHECK(tr <= tol + slack && r.residual_norm <= tol * (1 + 1e-12), "false-converged", "reports convergence with residual ", tr, " > ", tol); break;
    case Rz::kMaxIterations: VP_CHECK(r.iterations == p.max_iter && r.residual_norm > tol * (1 - 1e-12), "false-maxiter", "reports the iteration limit after ", r.iterations, " iterations, residual ", r.residual_norm, " tolerance ", tol); break;
    case Rz::kIndefiniteMatrix: VP_CHECK(mn <= 1e-10 * an || tol < 1e-13 * (an * (xn + vnorm(x0)) + bn), "false-indefinite", "reports an indefinite matrix; smallest eigenvalue is ", mn); break;
    case Rz::kNumericalBreakdown: VP_CHECK(tol < 1e-13 * (an * (xn + vnorm(x0)) + bn) || mn <= 1e-10 * an, "false-breakdown", "reports a numerical breakdown on a harmless system"); break;
    case Rz::kStagnated: VP_CHECK(r.iterations >= 3 && (tr <= 1e-9 * (an * (xn + vnorm(x0)) + bn) || mn <= 1e-10 * an), "false-stagnated", "reports stagnation at residual ", tr); break;
    default: VP_CHECK(false, "reason", "unknown reason");
  }
  if (r.reason != Rz::kConverged) VP_CHECK(!(r0 <= tol * (1 - 1e-12)), "missed", "initial guess already satisfies the tolerance but reason is ", to_string(r.reason));
  vp::S().evaluations++;
  vp::outcome(vp::cat((int)r.reason, " ", r.iterations, " ", m.n, " ", (int)std::floor(std::log10(r.residual_norm + 1e-300))));
}
template <class T> static CGResult<Vec<T>> solve(const Mat<T> &m, const Vec<T> &b, const Vec<T> &x0, const P &p) {
  vp::Mute q; Vec<T> b2 = b, x2 = x0;
  auto r = ConjugateGradientSolver(m, b2, x2, p);
  VP_CHECK(b2.e == b.e && x2.e == x0.e, "inputs", "inputs were modified");
  return r;
}
static uint64_t cnt = 0;
static bool mine() { uint64_t h = ++cnt * 0x9E3779B97F4A7C15ull; return (int)((h >> 32) % vp::S().nshards) == vp::S().shard; }
static std::vector<P> params() {
  std::vector<P> v;
  for (size_t mi : {0, 1, 2, 3, 5, 3000}) for (double rel : {1e-9, 1e-2}) for (int rc : {0, 1, 2, 20}) for (double o : {0.0, 0.5, 1e9}) {
    if (mi < 3 && (rc == 2 || rc == 20)) continue;
    v.push_back(P{mi, rel, 0.0, rc, o});
  }
  v.push_back(P{3000, 1e-9, 0.7, 20, 0.5}); v.push_back(P{3, 0.0, 0.7, 0, 0.5}); v.push_back(P{50, 1e-30, 0.0, 20, 0.5}); v.push_back(P{0, 0.5, 0.0, 20, 0.5}); v.push_back(P{3000, 1e-9, 1e-3, 3, 0.5});
  return v;
}
template <class T> static void one_system(const Mat<T> &m, const Vec<T> &b, const Vec<T> &x0, const std::vector<P> &ps, double scale = 1) {
  double mn = mineig(m), an = m.norm();
  vp::state(vp::cat(sh(m), sh(b), sh(x0)));
  std::map<std::string, std::map<size_t, double>> best; // parameters without max_iter -> residual by max_iter
  for (auto &p : ps) {
    vp::begin_case(vp::cat("A ", sh(m), " b ", sh(b), " x0 ", sh(x0), " ", sh(p)));
    auto r = solve(m, b, x0, p);
    verdict(m, mn, b, x0, p, r);
    double bn = vnorm(b), r0 = vnorm(b - m * x0);
    bool posdef = mn > 1e-3 * an, attainable = tol_of(p, bn) > 1e-10 * (r0 + bn) && tol_of(p, bn) > 0;
    if (posdef && attainable && p.max_iter >= 3000) VP_CHECK(r.converged(), "no-convergence", "positive-definite system not solved: ", to_string(r.reason), " residual ", r.residual_norm);
    // without restarts and residual refresh n+1 steps are enough
    if (posdef && attainable && p.max_iter >= m.n + 2 && p.orthogonality_threshold > 1e8) VP_CHECK(r.converged(), "slow", "not solved within n+2 steps");
    if (r0 <= tol_of(p, bn)) VP_CHECK(r.converged() && r.iterations == 0 && r.x.e == x0.e, "already", "the initial guess satisfies the tolerance; solver says ", to_string(r.reason), " after ", r.iterations);
    P k = p; k.max_iter = 0;
    best[sh(k)][p.max_iter] = r.residual_norm;
    vp::S().transitions += r.iterations;
  }
  for (auto &[k, v] : best) { double last = INFINITY; for (auto &[mi, res] : v) { VP_CHECK(res <= last * (1 + 1e-9) + 1e-13 * (an + 1) * scale, "best-iterate", "allowing more iterations gives a worse vector: max_iter ", mi, " residual ", res, " before ", last, " for ", k); last = std::min(last, res); } }
}
// textbook CG in extended precision: the returned vector is the best of its iterates
template <class T> static void textbook(const Mat<T> &m, const Vec<T> &b, const Vec<T> &x0) {
  using L = std::conditional_t<std::is_same_v<T, double>, long double, std::complex<long double>>;
  auto lcj = [](L x) { if constexpr (std::is_same_v<T, double>) return x; else return std::conj(x); };
  size_t n = m.n; if (!(mineig(m) > 1e-3 * m.norm())) return;
  std::vector<L> x(n), r(n), p(n), ap(n);
  auto res = [&] { long double s = 0; for (auto &v : r) s += std::norm(v); return s; };
  for (size_t i = 0; i < n; i++) { x[i] = x0.e[i]; r[i] = b.e[i]; for (size_t j = 0; j < n; j++) r[i] -= L(m.a[i * n + j]) * L(x0.e[j]); }
  p = r; std::vector<L> bestx = x; long double br = res();
  for (size_t k = 1; k <= n; k++) {
    long double rr = res(); if (rr < 1e-18L) return;
    L pap{}; for (size_t i = 0; i < n; i++) { ap[i] = L{}; for (size_t j = 0; j < n; j++) ap[i] += L(m.a[i * n + j]) * p[j]; }
    for (size_t i = 0; i < n; i++) pap += lcj(p[i]) * ap[i];
    L al = L(rr) / pap;
    for (size_t i = 0; i < n; i++) { x[i] += al * p[i]; r[i] -= al * ap[i]; }
    long double r2 = res();
    bool tie = std::abs((double)(r2 - br)) < 1e-9 * (double)br;
    if (r2 < br) { br = r2; bestx = x; }
    for (size_t i = 0; i < n; i++) p[i] = r[i] + L(r2 / rr) * p[i];
    if (tie) return;
    for (int rc : {0, 1, 20}) {
      P pp{k, 1e-12, 0, rc, 1e9};
      vp::begin_case(vp::cat("textbook A ", sh(m), " b ", sh(b), " x0 ", sh(x0), " ", sh(pp)));
      auto g = solve(m, b, x0, pp);
      for (size_t i = 0; i < n; i++) VP_CHECK(std::abs(L(g.x.e[i]) - bestx[i]) <= 1e-7L * (1 + std::abs(bestx[i])), "textbook", "after ", k, " steps component ", i, " is ", g.x.e[i], " expected ", (double)std::abs(bestx[i]), " (modulus)");
      vp::S().evaluations++;
    }
  }
}
// faulty operator: NaN/Inf at any product in any component
template <class T> static void faulty(const Mat<T> &m0, const Vec<T> &b, const Vec<T> &x0) {
  for (double fv : {std::nan(""), (double)INFINITY, -(double)INFINITY}) for (int call = 0; call < 6; call++) for (size_t comp = 0; comp < m0.n; comp++) for (int rc : {0, 1, 2}) {
    Mat<T> m = m0; m.fault_call = call; m.fault_comp = comp; m.fault_val = fv;
    P p{40, 1e-12, 0, rc, 0.5};
    vp::begin_case(vp::cat("A ", sh(m), " b ", sh(b), " x0 ", sh(x0), " product ", call, " returns ", fv, " in component ", comp, " ", sh(p)));
    m.calls = 0;
    auto r = solve(m, b, x0, p);
    bool hit = m.calls > call;
    if (hit) {
      // (a residual recomputed from clean products may recover from a transient infinity)
      VP_CHECK(!r.converged() || (std::isinf(fv) && rc > 0 && vnorm(b - m0 * r.x) <= 1e-9 * (vnorm(b) + vnorm(x0) * m0.norm())), "nan-converged", "convergence reported although an operator product was not finite, residual ", r.residual_norm);
      if (!std::isinf(fv)) VP_CHECK(r.reason == Rz::kNumericalBreakdown, "nan-reason", "a NaN product ended with ", to_string(r.reason));
      if (std::isinf(fv) && rc == 0) VP_CHECK(r.reason == Rz::kNumericalBreakdown || r.reason == Rz::kIndefiniteMatrix, "inf-reason", "an infinite product ended with ", to_string(r.reason));
    }
    for (auto &c : r.x.e) VP_CHECK(std::isfinite(std::abs(c)), "nan-x", "returned vector is not finite");
    vp::S().evaluations++;
    vp::outcome(vp::cat("fault ", (int)r.reason, r.iterations));
  }
}
template <class T> static std::vector<Vec<T>> vecs(size_t n, const std::vector<T> &al) {
  std::vector<Vec<T>> v; size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= al.size();
  for (size_t c = 0; c < tot; c++) { Vec<T> x; size_t q = c; for (size_t i = 0; i < n; i++) { x.e.push_back(al[q % al.size()]); q /= al.size(); } v.push_back(x); }
  return v;
}
static void serial_real() {
  auto ps = params();
  std::vector<P> few; for (size_t i = 0; i < ps.size(); i++) if (i % 5 == 0 || i + 5 >= ps.size()) few.push_back(ps[i]);
  std::vector<Mat<double>> ms;
  for (double a : {-2.0, 0.0, 1e-8, 0.5, 3.0, 1e6}) ms.push_back({1, {a}});
  for (double a : {-1.0, 0.0, 1.0, 2.0, 5.0}) for (double d : {-1.0, 0.0, 1.0, 3.0}) for (double o : {-1.0, 0.0, 0.5, 2.0}) ms.push_back({2, {a, o, o, d}});
  size_t full = ms.size();
  for (double a : {1.0, 2.0, 4.0}) for (double d : {1.0, 3.0}) for (double f : {-1.0, 0.0, 1.0, 5.0}) for (double x : {-1.0, 0.0, 1.0}) for (double y : {0.0, 1.0}) for (double z : {-0.5, 0.0, 1.0}) ms.push_back({3, {a, x, y, x, d, z, y, z, f}});
  for (size_t i = 0; i < ms.size(); i++) {
    size_t n = ms[i].n;
    auto bs = vecs<double>(n, n < 3 ? std::vector<double>{0, 1, -2, 0.3} : std::vector<double>{0, 1, -2});
    auto xs = vecs<double>(n, n < 3 ? std::vector<double>{0, 1, -3} : std::vector<double>{0, 2});
    for (auto &b : bs) for (size_t k = 0; k < xs.size(); k++) {
      if (!mine()) continue;
      if (n == 3 && k != 0 && k != 5 && !vp::thorough()) continue;
      one_system(ms[i], b, xs[k], (i < full || vp::thorough()) ? ps : few);
      textbook(ms[i], b, xs[k]);
      if (n > 1 && mineig(ms[i]) > 0.1 && (i < full || i % 7 == 0)) faulty(ms[i], b, xs[k]);
      if (i < full && k == 0) for (double s : {1e-120, 1e-8, 1e8, 1e120}) { Mat<double> m = ms[i]; for (auto &x : m.a) x *= s; Vec<double> bb = s * b; if (s > 1e-100 && s < 1e100) one_system(m, bb, xs[k], few, s); else { one_system(m, b, xs[k], few, 1); } }
    }
  }
}
static void serial_cplx() {
  auto ps = params(); std::vector<P> few; for (size_t i = 0; i < ps.size(); i++) if (i % 5 == 0 || i + 5 >= ps.size()) few.push_back(ps[i]);
  std::vector<Mat<cd>> ms;
  for (double a : {-1.0, 1.0, 3.0}) ms.push_back({1, {cd(a)}});
  for (double a : {-1.0, 1.0, 4.0}) for (double d : {0.0, 2.0, 3.0}) for (cd o : {cd(0), cd(0, 1), cd(0.5, -0.5), cd(1, 1), cd(-1, 0.3)}) ms.push_back({2, {cd(a), o, std::conj(o), cd(d)}});
  for (double a : {1.0, 4.0}) for (double f : {-1.0, 3.0, 7.0}) for (cd o : {cd(0, 1), cd(0.3, -0.7)}) for (cd u : {cd(0), cd(0.1, 0.9)}) ms.push_back({3, {cd(a), o, u, std::conj(o), cd(3), o * u, std::conj(u), std::conj(o * u), cd(f)}});
  for (size_t i = 0; i < ms.size(); i++) {
    size_t n = ms[i].n;
    auto bs = vecs<cd>(n, n < 3 ? std::vector<cd>{0, 1, cd(0, -2), cd(0.3, 0.4)} : std::vector<cd>{0, cd(1.1, 0.3), cd(0, -2)});
    auto xs = vecs<cd>(n, {0, cd(1, 0.7)});
    for (auto &b : bs) for (size_t k = 0; k < xs.size(); k++) {
      if (!mine()) continue;
      if (k && k + 1 < xs.size()) continue;
      one_system(ms[i], b, xs[k], (n < 3 || vp::thorough()) ? ps : few);
      textbook(ms[i], b, xs[k]);
      if (n > 1 && mineig(ms[i]) > 0.1) faulty(ms[i], b, xs[k]);
      for (double s : {1e-9, 1e3, 1e6, 1e9}) { Mat<cd> m = ms[i]; for (auto &x : m.a) x *= s; one_system(m, s * b, xs[k], few, s); one_system(m, b, xs[k], few, 1); one_system(ms[i], s * b, xs[k], few, s); }
    }
  }
}
// distributed: A = sum over ranks
template <class T> static void distributed(const std::vector<Mat<T>> &ms, const std::vector<T> &al) {
  std::vector<P> ps{P{0, 1e-9, 0, 20, 0.5}, P{1, 1e-9, 0, 20, 0.5}, P{2, 1e-9, 0, 1, 0.5}, P{6, 1e-9, 0, 0, 0.5}, P{5, 1e-9, 0, 2, 0.01}, P{4, 1e-9, 0, 2, 0.0}, P{4, 0.2, 0, 20, 1e9}, P{6, 1e-9, 0.7, 3, 0.5}, P{40, 1e-30, 0, 20, 0.5}};
  for (auto &m : ms) { size_t n = m.n; auto bs = vecs<T>(n, al); double mn = mineig(m), an = m.norm();
    for (size_t bi = 0; bi < bs.size(); bi++) for (int xi = 0; xi < 3; xi++) {
      Vec<T> b = bs[bi], x0; x0.e.assign(n, T(xi == 1 ? 0.5 : 0)); if (xi == 2) x0 = b;
      for (auto &p : ps) for (int ranks = 1; ranks <= 6; ranks++) for (int split = 0; split < 3; split++) {
        if (!mine()) continue;
        if (split == 2 && ranks == 1) continue;
        if (p.max_iter > 10 && ranks > 2) continue;
        bool all_orders = ranks <= 3 || (ranks == 4 && p.max_iter <= 1 && vp::thorough()); if (!all_orders && (split != 2 || xi == 2)) continue; // more ranks: one schedule with and one without buffering
        vp::begin_case(vp::cat("distributed ranks ", ranks, " split ", split, " A ", sh(m), " b ", sh(b), " x0 ", sh(x0), " ", sh(p)));
        auto ser = solve(m, b, x0, p);
        std::vector<Mat<T>> parts(ranks, Mat<T>{n, std::vector<T>(n * n, T{})});
        for (size_t i = 0; i < n * n; i++) {
          if (split == 0) parts[ranks - 1].a[i] = m.a[i];
          else if (split == 1) parts[i % ranks].a[i] = m.a[i];
          else { for (int r = 0; r < ranks; r++) parts[r].a[i] = m.a[i] * (r == 0 ? 1.0 - 0.5 * (ranks - 1) : 0.5); }
        }
        std::unique_ptr<CGResult<Vec<T>>> got;
        auto rank_body = [&](int r) {
          Vec<T> rb = b, rx = x0; if (r) { for (auto &c : rb.e) c = T(99); }
          auto res = ConjugateGradientSolver(parts[r], rb, rx, p, MPI_COMM_WORLD);
          if (r == 0) got = std::make_unique<CGResult<Vec<T>>>(res);
          else VP_CHECK(!res.converged(), "slave", "a worker rank claims convergence");
          int token = r; ::MPI_Bcast(&token, 1, MPI_INT, 0, MPI_COMM_WORLD); VP_CHECK(token == 0, "stream", "communication after the solver is out of step");
        }; auto rank_check = [&](const sim::Result &r, bool sync) {
          VP_CHECK(r.ok(), "run", "distributed solver did not finish cleanly (", sync ? "unbuffered" : "buffered", " sends): ", r.why());
          verdict(m, mn, b, x0, p, *got);
          // restart decisions at threshold 0 and steps below the attainable accuracy hang on the last bit: only truthfulness is required there
          bool robust = p.relative_tolerance > 1e-20 && p.orthogonality_threshold > 0 && (ranks <= 3 || tol_of(p, vnorm(b)) > 1e-10 * (vnorm(b) + vnorm(b - m * x0)));
          if (robust && (mn > 1e-3 * an || split == 0)) {
            VP_CHECK(got->reason == ser.reason && got->iterations == ser.iterations, "serial-reason", "serial: ", to_string(ser.reason), " after ", ser.iterations, "; distributed: ", to_string(got->reason), " after ", got->iterations);
            VP_CHECK(vnorm(got->x - ser.x) <= 1e-7 * (1 + vnorm(ser.x)), "serial-x", "serial ", sh(ser.x), " distributed ", sh(got->x));
          }
        };
        if (all_orders) sim::explore(ranks, rank_body, rank_check); else for (int sy = 0; sy < 2; sy++) { sim::Options o; o.ranks = ranks; o.sync = sy; auto r = sim::run(o, nullptr, rank_body); vp::S().traces++; vp::S().transitions += r.calls; rank_check(r, sy); }
        // a rank whose operator returns NaN/Inf: everybody still gets out
        if (split == 1 && all_orders && ranks > 1 && xi == 1 && p.max_iter >= 2) for (int fr = 0; fr < ranks; fr++) for (int call = 0; call < 3; call++) for (double fv : {std::nan(""), (double)INFINITY}) {
          auto pf = parts; pf[fr].fault_call = call; pf[fr].fault_val = fv;
          vp::begin_case(vp::cat("distributed ranks ", ranks, " A ", sh(m), " b ", sh(b), " ", sh(p), " rank ", fr, " product ", call, " returns ", fv));
          sim::explore(ranks, [&](int r) {
            Vec<T> rb = b, rx = x0; pf[r].calls = 0;
            auto res = ConjugateGradientSolver(pf[r], rb, rx, p, MPI_COMM_WORLD);
            if (r == 0) got = std::make_unique<CGResult<Vec<T>>>(res);
          }, [&](const sim::Result &r, bool) {
            VP_CHECK(r.ok(), "run-fault", "distributed solver did not finish after a non-finite product: ", r.why());
            if (pf[0].calls > call) VP_CHECK(std::isinf(fv) ? (!got->converged() || vnorm(b - m * got->x) <= 1e-9 * (1 + vnorm(b)) + tol_of(p, vnorm(b))) : got->reason == Rz::kNumericalBreakdown, "fault-verdict", "verdict after a non-finite product: ", to_string(got->reason));
            for (auto &c : got->x.e) VP_CHECK(std::isfinite(std::abs(c)), "fault-x", "returned vector is not finite");
            vp::S().evaluations++;
          }, false);
        }
      }
    } }
}
VP_MAIN([] {
  serial_real();
  serial_cplx();
  std::vector<Mat<double>> dm{{1, {2}}, {1, {-1}}, {1, {0}}, {2, {2, 1, 1, 3}}, {2, {4, -1, -1, 1}}, {2, {1, 0, 0, -1}}, {2, {1, 2, 2, 1}}, {2, {1, 0, 0, 0}}, {2, {3, 0, 0, 3}}};
  distributed<double>(dm, {0.0, 1.0, -2.0});
  std::vector<Mat<cd>> dc{{2, {cd(2), cd(0, 1), cd(0, -1), cd(3)}}, {2, {cd(1), cd(1, 1), cd(1, -1), cd(1)}}};
  distributed<cd>(dc, {cd(0.0), cd(1.0, 0.4)});
  std::vector<Mat<double>> d3{{3, {2, 1, 0, 1, 3, -1, 0, -1, 4}}};
  distributed<double>(d3, {1.0, -2.0});
  vp::sample("A = [[2,1],[1,3]] on 3 ranks, every order in which partial products can arrive, unbuffered and buffered");
})
