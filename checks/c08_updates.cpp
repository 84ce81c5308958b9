// C08: update rules on every gradient history.
#include "opt_model.h"
using namespace om;
#ifdef VP_SMALL
const int LESS = 2;
#else
const int LESS = 0;
#endif
static const V x0 = {mk(1, 0.25), mk(-0.5, 1), mk(2, -0.5), mk(0.75, -1)};
static V grad(int s) {
  switch (s) {
    case 0: return {mk(0), mk(0), mk(0), mk(0)};
    case 1: return {mk(1, -1), mk(0.5, 2), mk(-2), mk(0.25, 0.5)};
    case 2: return {mk(-0.5), mk(3, -4), mk(0, 1), mk(-1, -1)};
    case 3: return {mk(0), mk(-0.5, 0.5), mk(1e3, 2e3), mk(0)};
    default: return {mk(1e-3, 1e-3), mk(-1e-3), mk(0, 2e-3), mk(1e-3)};
  }
}
template <class F> static void one(const Cfg &c, const std::string &what, F &&eval, int repeats = 1) {
  vp::begin_case(vp::cat(c.str(), " ", what, repeats > 1 ? " (second run of the same optimiser)" : ""));
  RealOut r;
  single(c.algo == SR || c.algo == MINSR, [&](MPI_Comm cm) { r = real_run(c, x0, cm, 0, 1, eval, 1000, repeats); });
  compare(c, x0, r);
  vp::S().evaluations++; vp::S().traces++; vp::S().transitions += r.calls.size(); vp::state(vp::S().cur);
}
static void histories(Cfg c, int L, int A, bool rep) {
  const int first = c.algo == SR && c.normalize; // a zero gradient has no direction to normalise
  L -= LESS; c.max_iter = L;
  int tot = 1; for (int i = 0; i < L; i++) tot *= A;
  for (int k = 0; k < tot; k++) {
    if (!mine()) continue;
    std::vector<int> h; int q = k; std::string w = "gradients"; for (int i = 0; i < L; i++) { h.push_back(q % A + first); w += vp::cat(" ", q % A + first); q /= A; }
    auto ev = [&](const V &, bool, size_t n) { Ans a; a.E = mk(-double(n % 3), 0.5); a.err = 0.5; a.g = grad(h[n]); a.sr = h[n] % 3; return a; };
    one(c, w, ev);
    if (rep && k % 7 == 0) one(c, w, ev, 2);
  }
}
// smooth functions of the state for L-BFGS: E = 1/2 (x-z)^H A (x-z) (+ quartic), gradient consistent with the real inner product
static std::vector<V> hess(int k) { std::vector<V> A(NP, V(NP, T(0))); for (size_t i = 0; i < NP; i++) A[i][i] = T(k == 0 ? 1 : k == 1 ? double(1 << i) : 0.5 + i); if (k == 2) { A[0][1] = mk(0.25, 0.25); A[1][0] = cj(A[0][1]); A[2][3] = mk(-0.5, 1); A[3][2] = cj(A[2][3]); } return A; }
static Ans smooth(int k, double quartic, const V &x) {
  V z = {mk(0.5, 0.5), mk(-1), mk(0, 1), mk(2, -1)}; V d = axpy(x, T(-1), z); auto A = hess(k % 3); V g(NP, T(0)); for (size_t i = 0; i < NP; i++) for (size_t j = 0; j < NP; j++) g[i] += A[i][j] * d[j];
  Ans a; a.E = T(0.5 * std::real(dot(d, g)) + quartic * std::pow(nrm(d), 4) / 4); double n2 = std::real(dot(d, d)); for (size_t i = 0; i < NP; i++) g[i] += quartic * n2 * d[i]; a.g = g; a.err = 0; return a;
}
VP_MAIN([] {
  hush();
  for (double mu : {0.0, 0.5}) for (int nes = 0; nes < 2; nes++) for (double wd : {0.0, 0.25}) for (int clip = 0; clip < 4; clip++) for (int sc = 0; sc < 3; sc++) for (int p = 0; p < 2; p++) {
    if (p && (clip || sc)) continue;
    Cfg c; c.mu = mu; c.nesterov = nes; c.wd = wd; c.sched = sc; c.pbc = p; if (clip & 1) c.clip_value = 1.5; if (clip & 2) c.clip_norm = 2.5; histories(c, vp::pick(5, 6), 4, sc != 2); }
  for (double v : {0.0, 1.0}) { Cfg c; c.algo = ADAGRAD; c.acc0 = v; histories(c, vp::pick(5, 6), 5, true); c.clip_norm = 2.5; histories(c, vp::pick(4, 5), 4, true); c.clip_norm.reset(); c.clip_value = 1; c.sched = 1; histories(c, vp::pick(4, 5), 4, true); c.sched = 0; c.pbc = true; histories(c, 4, 4, true); }
  for (double b1 : {0.0, 0.5, 0.9}) for (double b2 : {0.75, 0.999}) for (double wd : {0.0, 0.25}) { Cfg c; c.algo = ADAM; c.b1 = b1; c.b2 = b2; c.wd = wd; histories(c, vp::pick(5, 6), 5, true); c.clip_value = 1; histories(c, vp::pick(4, 5), 4, true); c.pbc = true; histories(c, 3 + LESS, 4, true); }
  for (double sh : {0.5, 0.0078125}) for (int n = 0; n < 2; n++) for (int p = 0; p < 2; p++) { Cfg c; c.algo = SR; c.shift = sh; c.normalize = n; c.pbc = p; c.clip_norm = 1; histories(c, vp::pick(5, 6), 4, true); c.sched = 1; histories(c, 3 + LESS, 4, true); }
  for (int p = 0; p < 2; p++) { Cfg c; c.algo = MINSR; c.pbc = p; c.lr = 0.125; c.clip_value = 0.01; histories(c, vp::pick(4, 5), 4, true); }
  // L-BFGS: scripted gradients (all curvature signs) and smooth functions
  for (size_t h : {1, 2, 5}) for (double md : {0.0, 1.5}) { Cfg c; c.algo = LBFGS; c.hist = h; c.max_dir = md; c.clip_norm = 0.1; histories(c, vp::pick(5, 6), 4, true); c.damping = true; histories(c, vp::pick(4, 5), 4, false); }
  for (int k = 0; k < 3; k++) for (double q : {0.0, 0.25}) for (size_t h : {1, 2, 5}) for (double lr : {0.125, 0.5, 1.0, 8.0}) for (int w = 0; w < 2; w++) for (int damp = 0; damp < 2; damp++) for (int sc = 0; sc < 2; sc++) {
    if (!mine()) continue;
    Cfg c; c.algo = LBFGS; c.hist = h; c.lr = lr; c.wolfe = w; c.damping = damp; c.max_iter = 6; c.max_step = 4; c.sched = sc; c.max_eval = 40; c.etol = -1; c.gtol = 1e-5;
    if (!w && (lr > 0.5 || (q > 0 && lr > 0.125))) continue;
    one(c, vp::cat("function ", k, " quartic ", q), [&](const V &x, bool, size_t) { return smooth(k, q, x); }, 1 + (k == 1));
    c.gtol = 0; c.max_iter = 3; one(c, vp::cat("function ", k, " quartic ", q), [&](const V &x, bool, size_t) { return smooth(k, q, x); });
  }
  // line-search failure: a linear function never meets the curvature condition
  for (int fb = 0; fb < 2; fb++) for (size_t me : {1, 2, 3, 5}) for (double lr : {0.25, 1.0}) { if (!mine()) continue; Cfg c; c.algo = LBFGS; c.wolfe = true; c.fallback = fb; c.max_eval = me; c.max_step = 1e6; c.lr = lr; c.max_iter = 2;
    one(c, "linear function", [&](const V &x, bool, size_t) { Ans a; a.g = grad(1); a.E = T(std::real(dot(a.g, x))); a.err = 0; return a; }); }
})
