// Reference model of the documented optimisation loop on plain vectors, and a driver that runs the real
// Optimizer with scripted evaluators and compares every evaluated state and every reported number.
#ifndef VP_OPT_MODEL_H
#define VP_OPT_MODEL_H
#include "simmpi.h"
#include "sitps_util.h"
#include "qlpeps/optimizer/optimizer.h"
#include "qlpeps/optimizer/optimizer_impl.h"
#include <deque>
#include <optional>
namespace om {
#ifndef ELT
#define ELT double
#endif
using T = ELT;
using V = std::vector<T>;
using St = su::State<T>;
using Opt = qlpeps::Optimizer<T, su::QN>;
constexpr size_t NP = 4; // 1x2 lattice, 2 components, scalar tensors
inline T mk(double a, double b = 0) { return su::val<T>(a, b); }
template <class X> inline X cj(X x) { if constexpr (std::is_same_v<X, double>) return x; else return std::conj(x); }
inline St tps(const V &v, bool pbc = false) {
  St s(1, 2, 2, pbc ? qlpeps::BoundaryCondition::Periodic : qlpeps::BoundaryCondition::Open);
  for (size_t i = 0; i < NP; i++) s({0, i / 2})[i % 2] = su::make_ten<T>({1, 1, 1, 1}, {v[i]});
  return s;
}
inline V vec(const St &s) {
  VP_CHECK(s.rows() == 1 && s.cols() == 2, "lattice", "state has lost its lattice: ", s.rows(), "x", s.cols());
  V v;
  for (size_t i = 0; i < NP; i++) { VP_CHECK(s({0, i / 2}).size() == 2, "components", "state lost components"); auto &t = s({0, i / 2})[i % 2]; v.push_back(t.IsDefault() ? T(0) : t({0, 0, 0, 0})); }
  return v;
}
inline bool same(const V &a, const V &b, double tol = 1e-9) { if (a.size() != b.size()) return false; double m = 0; for (auto &x : a) m = std::max(m, std::abs(x)); tol *= 1 + m; for (size_t i = 0; i < a.size(); i++) if (!(std::abs(a[i] - b[i]) <= tol)) return false; return true; }
inline std::string show(const V &v) { std::string s = "("; for (auto &x : v) s += vp::cat(x, " "); return s + ")"; }
inline V axpy(const V &a, T c, const V &b) { V r(a); for (size_t i = 0; i < a.size(); i++) r[i] += c * b[i]; return r; }
inline T dot(const V &a, const V &b) { T s(0); for (size_t i = 0; i < a.size(); i++) s += cj(a[i]) * b[i]; return s; }
inline double nrm(const V &a) { return std::sqrt(std::real(dot(a, a))); }
enum Algo { SGD, ADAGRAD, ADAM, SR, MINSR, LBFGS };
struct Cfg {
  size_t max_iter = 5; double etol = 0, gtol = 0; size_t patience = 1000; double lr = 0.5;
  std::optional<double> clip_value, clip_norm;
  Algo algo = SGD; bool pbc = false;
  double mu = 0, wd = 0; bool nesterov = false;                      // SGD
  double eps = 1e-13, acc0 = 0;                                       // AdaGrad
  double b1 = 0.5, b2 = 0.75;                                         // Adam (eps, wd shared)
  double shift = 0.5; bool normalize = false;                         // SR
  size_t hist = 3; double max_dir = 0, min_curv = 1e-12; bool damping = false, wolfe = false, fallback = false; size_t max_eval = 20; double fb_scale = 0.25, min_step = 1e-8, max_step = 1, c1 = 1e-4, c2 = 0.9, tol_change = 1e-9;
  bool autorec = false, rollback = false; size_t retries = 2; double ferr = 4, fgrad = 16, fng = 10; size_t minit = 1, window = 3; double sigma = 2;
  bool isel = false, psel = false; size_t isteps = 3, pevery = 2; double pratio = 0.5; bool idet = false, pdet = false;
  int sched = 0; // 1: StepLR(0.5 every 2)  2: PlateauLR(0.5, patience 2, threshold 0)
  size_t ckpt = 0; std::string ckpt_dir, jsonl, csv; size_t stop_at = SIZE_MAX; bool energy_only = false;
  std::string str() const {
    static const char *n[] = {"SGD", "AdaGrad", "Adam", "SR", "MinSR", "L-BFGS"};
    std::string s = vp::cat(n[algo], " iterations<=", max_iter, " lr ", lr);
    if (algo == SGD) s += vp::cat(" mu ", mu, " nesterov ", nesterov, " wd ", wd);
    if (algo == ADAM) s += vp::cat(" b1 ", b1, " b2 ", b2, " wd ", wd);
    if (algo == ADAGRAD) s += vp::cat(" acc0 ", acc0);
    if (algo == SR) s += vp::cat(" shift ", shift, " normalize ", normalize);
    if (algo == LBFGS) s += vp::cat(" hist ", hist, " maxdir ", max_dir, " wolfe ", wolfe, " damping ", damping, " fallback ", fallback, " max_eval ", max_eval);
    if (clip_value) s += vp::cat(" clip_value ", *clip_value); if (clip_norm) s += vp::cat(" clip_norm ", *clip_norm);
    if (etol > 0 || gtol > 0 || patience < 1000) s += vp::cat(" etol ", etol, " gtol ", gtol, " patience ", patience);
    if (autorec) s += vp::cat(" recover retries ", retries); if (rollback) s += " rollback"; if (autorec || rollback) s += vp::cat(" window ", window);
    if (isel) s += vp::cat(" initial-selector ", isteps, " det ", idet); if (psel) s += vp::cat(" periodic-selector every ", pevery, " ratio ", pratio, " det ", pdet);
    if (sched) s += vp::cat(" scheduler ", sched); if (ckpt) s += vp::cat(" checkpoint every ", ckpt); if (stop_at != SIZE_MAX) s += vp::cat(" stop at ", stop_at); if (pbc) s += " periodic";
    return s;
  }
  qlpeps::OptimizerParams real() const {
    using namespace qlpeps;
    OptimizerParams p;
    p.base_params.max_iterations = max_iter; p.base_params.energy_tolerance = etol; p.base_params.gradient_tolerance = gtol; p.base_params.plateau_patience = patience; p.base_params.learning_rate = lr;
    if (clip_value) p.base_params.clip_value = clip_value; if (clip_norm) p.base_params.clip_norm = clip_norm;
    if (sched == 1) p.base_params.lr_scheduler = std::make_unique<StepLR>(lr, 2, 0.5);
    if (sched == 2) p.base_params.lr_scheduler = std::make_unique<PlateauLR>(lr, 0.5, 2, 0.0);
    p.base_params.initial_step_selector.enabled = isel; p.base_params.initial_step_selector.max_line_search_steps = isteps; p.base_params.initial_step_selector.enable_in_deterministic = idet;
    p.base_params.periodic_step_selector.enabled = psel; p.base_params.periodic_step_selector.every_n_steps = pevery; p.base_params.periodic_step_selector.phase_switch_ratio = pratio; p.base_params.periodic_step_selector.enable_in_deterministic = pdet;
    p.base_params.jsonl_log_path = jsonl;
    switch (algo) {
      case SGD: p.algorithm_params = SGDParams(mu, nesterov, wd); break;
      case ADAGRAD: p.algorithm_params = AdaGradParams(eps, acc0); break;
      case ADAM: p.algorithm_params = AdamParams(b1, b2, eps, wd); break;
      case SR: { StochasticReconfigurationParams s; s.cg_params.max_iter = 60; s.cg_params.relative_tolerance = 1e-13; s.cg_params.absolute_tolerance = 1e-13; s.cg_params.residual_recompute_interval = 20; s.diag_shift = shift; s.normalize_update = normalize; p.algorithm_params = s; break; }
      case MINSR: p.algorithm_params = MinSRParams(1e-12, 0.0, true, MinSRSolverMode::kReplicated); break;
      case LBFGS: { LBFGSParams l; l.history_size = hist; l.max_direction_norm = max_dir; l.min_curvature = min_curv; l.use_damping = damping; l.step_mode = wolfe ? LBFGSStepMode::kStrongWolfe : LBFGSStepMode::kFixed; l.allow_fallback_to_fixed_step = fallback; l.fallback_fixed_step_scale = fb_scale; l.max_eval = max_eval; l.min_step = min_step; l.max_step = max_step; l.wolfe_c1 = c1; l.wolfe_c2 = c2; l.tolerance_change = tol_change; l.tolerance_grad = 0; p.algorithm_params = l; break; }
    }
    auto &s = p.spike_recovery_params;
    s.enable_auto_recover = autorec; s.redo_mc_max_retries = retries; s.factor_err = ferr; s.factor_grad = fgrad; s.factor_ngrad = fng; s.sr_min_iters_suspicious = minit; s.enable_rollback = rollback; s.ema_window = window; s.sigma_k = sigma; s.log_trigger_csv_path = csv;
    p.checkpoint_params.every_n_steps = ckpt; p.checkpoint_params.base_path = ckpt_dir;
    return p;
  }
};
// what an evaluation answers; sr selects the O* sample set visible afterwards
struct Ans { T E{}; V g; double err = 0; int sr = 0; };
struct Call { V x; Ans a; bool only = false; }; // only: energy-only evaluation
// ---- sample sets for SR / MinSR: six samples, split evenly over the ranks --------------------------------------------
constexpr size_t NS = 6;
inline const std::vector<V> &samples(int k) {
  static std::vector<std::vector<V>> s = [] {
    std::vector<std::vector<V>> r(3);
    for (size_t i = 0; i < NS; i++) {
      r[0].push_back({mk(1, 0.5), mk(-2, 1), mk(0.5), mk(1, -1)});                                            // no spread: S = shift * 1
      double a = double(i % 3) - 1, b = double(i % 2), c = double(i == 4), d = double(i * i % 5);
      r[1].push_back({mk(a, b), mk(2 * b, -a), mk(c + a, 0.5 * d), mk(d, c)});                                // generic spread
      r[2].push_back({mk(0.25 * a, 0.125 * b), mk(b, 0.5 * c), mk(c, a), mk(0.5 * d - a, 0.25)});             // another one
    }
    return r;
  }();
  return s[k];
}
inline T esample(int k, size_t i) { return mk(double((i * 5 + k * 3) % 7) - 3, double((i * 2 + k) % 5) - 2); }
inline V mean_of(const std::vector<V> &s) { V m(NP, T(0)); for (auto &v : s) for (size_t i = 0; i < NP; i++) m[i] += v[i] / double(s.size()); return m; }
// dense solve (Gaussian elimination with pivoting); returns false when singular
inline bool solve(std::vector<V> A, V b, V &x) {
  size_t n = b.size();
  for (size_t c = 0; c < n; c++) {
    size_t p = c; for (size_t r = c; r < n; r++) if (std::abs(A[r][c]) > std::abs(A[p][c])) p = r;
    if (std::abs(A[p][c]) < 1e-13) return false;
    std::swap(A[p], A[c]); std::swap(b[p], b[c]);
    for (size_t r = 0; r < n; r++) if (r != c) { T f = A[r][c] / A[c][c]; for (size_t k = c; k < n; k++) A[r][k] -= f * A[c][k]; b[r] -= f * b[c]; }
  }
  x.resize(n); for (size_t i = 0; i < n; i++) x[i] = b[i] / A[i][i];
  return true;
}
inline std::vector<V> smat(int k) { // covariance of the O* samples
  auto &s = samples(k); V m = mean_of(s); std::vector<V> S(NP, V(NP, T(0)));
  for (auto &v : s) for (size_t i = 0; i < NP; i++) for (size_t j = 0; j < NP; j++) S[i][j] += (v[i] * cj(v[j])) / double(s.size());
  for (size_t i = 0; i < NP; i++) for (size_t j = 0; j < NP; j++) S[i][j] -= m[i] * cj(m[j]);
  return S;
}
inline V natural(int k, const V &g, double shift) { auto S = smat(k); for (size_t i = 0; i < NP; i++) S[i][i] += shift; V x; VP_CHECK(solve(S, g, x), "harness", "singular reference system"); return x; }
// minimum-norm solution of S x = (1/N) sum conj(E_i - E) (O_i - mean), on the span of the centred samples
inline V minsr_dir(int k, T E) {
  auto &s = samples(k); V m = mean_of(s); std::vector<V> c; for (auto &v : s) c.push_back(axpy(v, T(-1), m));
  std::vector<V> q; for (auto v : c) { for (int rep = 0; rep < 2; rep++) for (auto &u : q) v = axpy(v, -dot(u, v), u); double n = nrm(v); if (n > 1e-9) { for (auto &x : v) x /= n; q.push_back(v); } }
  if (q.empty()) return V(NP, T(0));
  V f(NP, T(0)); for (size_t i = 0; i < NS; i++) f = axpy(f, cj(esample(k, i) - E) / double(NS), c[i]);
  auto S = smat(k); size_t r = q.size(); std::vector<V> A(r, V(r)); V b(r), y;
  for (size_t i = 0; i < r; i++) { V Sq(NP, T(0)); for (size_t a = 0; a < NP; a++) for (size_t d = 0; d < NP; d++) Sq[a] += S[a][d] * q[i][d]; for (size_t j = 0; j < r; j++) A[j][i] = dot(q[j], Sq); b[i] = dot(q[i], f); }
  VP_CHECK(solve(A, b, y), "harness", "singular reference system");
  V x(NP, T(0)); for (size_t i = 0; i < r; i++) x = axpy(x, y[i], q[i]);
  return x;
}
// ---- reference -------------------------------------------------------------------------------------------------------
struct Ema { double a; bool init = false; double m = 0, v = 0; explicit Ema(size_t w) : a(2.0 / (w + 1)) {} void up(double x) { if (!init) { m = x; v = 0; init = true; return; } double d = x - m; m += a * d; v = (1 - a) * (v + a * d * d); } };
struct Event { size_t step, attempt; int signal, action; }; // signal 1..4; action 1 resample 2 rollback 3 accept-with-warning
struct Rec { size_t iter; double E, err, gn, lr; bool trig; double eta; };
struct Out {
  std::string thrown; V x, lowest; double fin = 0, mn = 0; std::vector<T> E; std::vector<double> err, gn, lr; size_t iters = 0; bool conv = false;
  std::vector<Event> ev; std::vector<Rec> rec; std::vector<std::pair<double, V>> low; std::vector<size_t> cb; std::vector<std::pair<size_t, V>> ck;
  bool lenient = false; // accumulators after a rollback are not specified
};
struct Ambiguous {};      // a threshold comparison too close to call
struct Replay { const std::vector<Call> &c; size_t pos = 0; Ans get(const V &x, bool only, bool check) {
  VP_CHECK(pos < c.size(), "too-few-evaluations", "the optimiser stopped evaluating after ", c.size(), " evaluations; the documented behaviour needs another one at ", show(x));
  if (check) VP_CHECK(same(x, c[pos].x), "evaluated-state", "evaluation ", pos, " is at ", show(c[pos].x), " but the documented state is ", show(x));
  VP_CHECK(only == c[pos].only, "evaluator", "evaluation ", pos, " uses the wrong evaluator");
  return c[pos++].a; } };
struct Ref {
  const Cfg &c; Replay &rp; Out o;
  Ema eE, eErr, eG, eN; V vel, acc, m1, m2; size_t t = 0; bool velinit = false;
  struct Pair { V s, y; double rho; }; std::deque<Pair> hist; std::optional<std::pair<V, V>> anchor;
  Ref(const Cfg &c, Replay &r) : c(c), rp(r), eE(c.window), eErr(c.window), eG(c.window), eN(c.window), vel(NP, T(0)), acc(NP, T(c.acc0)), m1(NP, T(0)), m2(NP, T(0)) {}
  static bool gt(double a, double b) { double d = a - b; if (d != 0 && std::abs(d) < 1e-9 * (std::abs(a) + std::abs(b))) throw Ambiguous(); return d > 0; }
  double pl_best = std::numeric_limits<double>::max(), pl_lr = 0; size_t pl_cnt = 0;
  double sched(size_t it, double E) {
    if (c.sched == 1) return c.lr * std::pow(0.5, double(it / 2));
    if (c.sched == 2) { if (!pl_lr) pl_lr = c.lr; if (E < pl_best) { pl_best = E; pl_cnt = 0; } else if (++pl_cnt >= 2) { pl_lr *= 0.5; pl_cnt = 0; pl_best = E; } return pl_lr; }
    return c.lr;
  }
  V clip(V g) {
    if (c.algo > ADAM) return g;
    if (c.clip_value && *c.clip_value > 0) for (auto &x : g) if (std::abs(x) > *c.clip_value) x *= *c.clip_value / std::abs(x);
    if (c.clip_norm && *c.clip_norm > 0) { double n = nrm(g); if (n > *c.clip_norm) for (auto &x : g) x *= *c.clip_norm / n; }
    return g;
  }
  V sgd(const V &x, const V &g, double lr, bool commit) {
    V v(NP), r(x);
    for (size_t i = 0; i < NP; i++) { v[i] = c.mu * vel[i] + g[i]; if (c.wd > 0) r[i] *= 1 - lr * c.wd; r[i] -= lr * (c.mu > 0 ? (c.nesterov ? c.mu * v[i] + g[i] : v[i]) : g[i]); }
    if (commit && c.mu > 0) vel = v;
    return r;
  }
  V lbfgs_dir(const V &g) {
    V q = g; std::vector<double> al(hist.size());
    for (size_t i = hist.size(); i-- > 0;) { al[i] = hist[i].rho * std::real(dot(hist[i].s, q)); q = axpy(q, T(-al[i]), hist[i].y); }
    if (!hist.empty()) { double yy = std::real(dot(hist.back().y, hist.back().y)), sy = std::real(dot(hist.back().s, hist.back().y)); for (auto &x : q) x *= sy / yy; }
    for (size_t i = 0; i < hist.size(); i++) { double be = hist[i].rho * std::real(dot(hist[i].y, q)); q = axpy(q, T(al[i] - be), hist[i].s); }
    for (auto &x : q) x = -x;
    if (c.max_dir > 0 && nrm(q) > c.max_dir) { double n = nrm(q); for (auto &x : q) x *= c.max_dir / n; }
    return q;
  }
  // strong-Wolfe search: any trial sequence is allowed; the accepted step must satisfy both conditions
  bool wolfe(const V &x, const V &d, double phi0, double dphi0, V &next, double &alpha) {
    size_t n = 0; V last; Ans a; double al = 0;
    while (rp.pos < rp.c.size() && n < c.max_eval) {
      const V &p = rp.c[rp.pos].x; // is this evaluation a trial on the ray?
      V dx = axpy(p, T(-1), x); al = std::real(dot(d, dx)) / std::real(dot(d, d));
      if (!same(axpy(x, T(al), d), p)) break;
      a = rp.get(p, false, false); n++; last = p;
      VP_CHECK(al >= 0 && al <= c.max_step * (1 + 1e-9), "wolfe-step", "trial step ", al, " outside [0, max_step]");
      double phi = std::real(a.E), dphi = std::real(dot(a.g, d)), e = 1e-10 * (1 + std::abs(phi0) + std::abs(dphi0));
      // stops at the first trial satisfying both conditions (a trial behind a worse bracket end is not allowed to be accepted, so it may continue)
      if (phi <= phi0 + c.c1 * al * dphi0 + e && std::abs(dphi) <= -c.c2 * dphi0 + e && rp.pos < rp.c.size()) {
        V nx = rp.c[rp.pos].x; // next evaluation at the same point: accepted (it is the next iteration's evaluation)
        if (same(nx, p)) { next = p; alpha = al; return true; }
      }
      if (phi <= phi0 + c.c1 * al * dphi0 + e && std::abs(dphi) <= -c.c2 * dphi0 + e && rp.pos == rp.c.size()) { next = p; alpha = al; return true; }
    }
    return false;
  }
  void run(const V &x0) { try { loop(x0); } catch (const std::runtime_error &e) { o.thrown = "runtime_error"; } catch (const std::invalid_argument &e) { o.thrown = "invalid_argument"; } }
  void loop(V x) {
    const bool sel = c.isel || c.psel;
    o.mn = o.fin = std::numeric_limits<double>::max(); o.x = o.lowest = x;
    if (sel && !(c.algo == SGD || c.algo == SR || c.algo == MINSR)) throw std::invalid_argument("sel");
    if (sel && c.sched) throw std::invalid_argument("sel");
    if (c.isel && c.isteps == 0) throw std::invalid_argument("sel");
    if (c.psel && (c.pevery == 0 || c.pratio < 0 || c.pratio > 1)) throw std::invalid_argument("sel");
    if (sel && c.lr <= 0) throw std::invalid_argument("sel");
    double base = c.lr, prevE = 0; size_t noimp = 0; std::optional<V> prev; bool done = false;
    for (size_t it = 0; it < c.max_iter && !done; it++) {
      size_t att = 0; std::optional<double> slr;
      for (;;) {
        Ans a = rp.get(x, false, !o.lenient); if (o.lenient) x = rp.c[rp.pos - 1].x;
        double E = std::real(a.E), gn = nrm(a.g);
        bool again = false;
        auto recover = [&](int sig) { // S1..S3
          int act = att < c.retries ? 1 : (c.rollback && prev) ? 2 : 3;
          o.ev.push_back({it, att, sig, act});
          if (act == 1) { att++; again = true; }
          if (act == 2) { x = *prev; prev.reset(); att = 0; again = true; if (c.algo == LBFGS || c.algo == ADAM || c.algo == ADAGRAD || c.mu > 0) o.lenient = true; }
        };
        if (c.autorec && it > 0) {
          if (eErr.m > 0 && gt(a.err, c.ferr * eErr.m)) recover(1); else if (eG.m > 0 && gt(gn, c.fgrad * eG.m)) recover(2);
          if (again) continue;
        }
        if (!sel && !slr) slr = sched(it, it == 0 ? E : prevE);
        double lr = sel ? base : *slr, eff = lr;
        V g = clip(a.g), nat; double nn = 0;
        bool it_i = c.isel && it == 0, it_p = c.psel && it > 0 && it % c.pevery == 0, trig = it_i || it_p;
        if (c.algo == SR) nat = natural(a.sr, a.g, c.shift);
        if (c.algo == MINSR) nat = minsr_dir(a.sr, a.E);
        if (c.algo == SR || c.algo == MINSR) nn = nrm(nat);
        double natscale = c.algo == SR && c.normalize && nn > 0 ? 1 / nn : 1;
        if (trig) {
          if (((it_i && !c.idet) || (it_p && !c.pdet)) && a.err <= 0) throw std::invalid_argument("err");
          std::vector<double> et; if (it_i) for (size_t k = 1; k <= c.isteps; k++) et.push_back(base * k); else et = {base, base * 0.5};
          std::vector<Ans> r;
          for (double e : et) { V tx = c.algo == SGD ? sgd(x, g, e, false) : axpy(x, T(-e * natscale), nat); Ans q = rp.get(tx, c.energy_only, !o.lenient); if (!std::isfinite(std::real(q.E)) || !std::isfinite(q.err)) throw std::runtime_error("nonfinite"); r.push_back(q); }
          double s = et[0];
          if (it_i) { double b = std::real(r[0].E); for (size_t k = 1; k < et.size(); k++) if (std::real(r[k].E) < b) { b = std::real(r[k].E); s = et[k]; } }
          else { double d = std::real(r[0].E) - std::real(r[1].E); if (double(it) < c.pratio * double(c.max_iter) ? d > 0 : gt(d, std::max(r[0].err, r[1].err))) s = et[1]; }
          lr = eff = s;
        }
        V nx; bool failed = false;
        // L-BFGS memory as if this step were accepted (kept only if it is)
        auto hist0 = hist; auto anchor0 = anchor;
        switch (c.algo) {
          case SGD: nx = sgd(x, g, lr, true); break;
          case ADAGRAD: nx = x; for (size_t i = 0; i < NP; i++) { acc[i] += std::norm(g[i]); double s = std::sqrt(std::real(acc[i])); if (s > 0) nx[i] -= lr * g[i] / s; } break;
          case ADAM: t++; nx = x; for (size_t i = 0; i < NP; i++) { if (c.wd > 0) nx[i] *= 1 - lr * c.wd; m1[i] = c.b1 * m1[i] + (1 - c.b1) * g[i]; m2[i] = c.b2 * m2[i] + (1 - c.b2) * std::norm(g[i]); T mh = m1[i] / (1 - std::pow(c.b1, double(t))); double vh = std::real(m2[i]) / (1 - std::pow(c.b2, double(t))); if (vh > 0) nx[i] -= lr * mh / (std::sqrt(vh) + c.eps); } break;
          case SR: case MINSR: nx = axpy(x, T(-lr * natscale), nat); break;
          case LBFGS: {
            if (anchor) { V s = axpy(x, T(-1), anchor->first), y = axpy(a.g, T(-1), anchor->second); double cv = std::real(dot(s, y));
              if (cv <= c.min_curv && c.damping) o.lenient = true;
              else if (cv > c.min_curv) { hist.push_back({s, y, 1 / cv}); while (hist.size() > c.hist) hist.pop_front(); } }
            V d = lbfgs_dir(a.g); double dphi = std::real(dot(a.g, d));
            if (o.lenient) { nx = x; break; }
            if (dphi != 0 && std::abs(dphi) < 1e-9 * nrm(a.g) * nrm(d)) throw Ambiguous();
            if (dphi >= 0) { hist.clear(); d = a.g; for (auto &q : d) q = -q; dphi = std::real(dot(a.g, d)); }
            if (!c.wolfe) { nx = axpy(x, T(std::max(0.0, lr)), d); eff = std::max(0.0, lr); }
            else { double al = 0; if (dphi < 0 && wolfe(x, d, E, dphi, nx, al)) eff = al; else if (c.fallback) { eff = std::max(c.min_step, lr * c.fb_scale); nx = axpy(x, T(eff), d); } else failed = true; }
            break; }
        }
        if (failed) throw std::runtime_error("wolfe");
        if ((c.algo == SR || c.algo == MINSR) && c.autorec && it > 0) {
          bool few = c.algo == SR && a.sr == 0 && c.minit >= 1; // S = shift*1 is solved in one iteration
          if ((eN.m > 0 && gt(nn, c.fng * eN.m)) || few) { recover(3); if (again) continue; }
        }
        if (c.rollback && it > 0 && E > eE.m && eE.v > 0 && gt(E - eE.m, c.sigma * std::sqrt(eE.v))) {
          if (prev) { o.ev.push_back({it, att, 4, 2}); x = *prev; prev.reset(); att = 0; if (c.algo == LBFGS || c.algo == ADAM || c.algo == ADAGRAD || c.mu > 0) o.lenient = true; hist = hist0; anchor = anchor0; continue; }
          o.ev.push_back({it, att, 4, 3});
        }
        if (trig) base = lr;
        eE.up(E); eErr.up(a.err); eG.up(gn); if (c.algo == SR || c.algo == MINSR) eN.up(nn);
        o.E.push_back(a.E); o.err.push_back(a.err); o.gn.push_back(gn); o.lr.push_back(eff); o.fin = E; o.iters = it + 1;
        if (E < o.mn) { o.mn = E; o.lowest = x; noimp = 0; o.low.push_back({E, x}); } else noimp++;
        o.rec.push_back({it, E, a.err, gn, eff, trig, trig ? eff : 0.0}); o.cb.push_back(it);
        if (it > 0 && (gn < c.gtol || std::abs(E - prevE) < c.etol || noimp >= c.patience)) { o.conv = true; done = true; break; }
        prevE = E; if (c.rollback) prev = x;
        anchor = {x, a.g};
        x = nx;
        if (it == c.stop_at) { done = true; break; }
        if (c.ckpt && it > 0 && it % c.ckpt == 0) o.ck.push_back({it, x});
        break;
      }
    }
    o.x = x;
  }
};
// ---- real run ----------------------------------------------------------------------------------------------------------
struct TooMany {};
struct RealOut { Out o; std::vector<Call> calls; std::vector<double> cbE; St lowest, fin; };
struct Shared { std::vector<St> os; St mean; std::vector<T> en; };
inline std::string dstr(double x) { return vp::cat(x); }
template <class Eval> RealOut real_run(const Cfg &c, const V &x0, MPI_Comm comm, int rank, int size, Eval &&eval, size_t max_calls = 80, int repeats = 1) {
  RealOut r; Shared sh;
  qlpeps::OptimizerParams p = c.real();
  Opt opt(p, comm, rank, size);
  auto load = [&](int k) { if (c.algo != SR && c.algo != MINSR) return; sh.os.clear(); sh.en.clear(); size_t per = NS / size; for (size_t i = 0; i < per; i++) { sh.os.push_back(tps(samples(k)[rank * per + i], c.pbc)); sh.en.push_back(esample(k, rank * per + i)); } if (rank == 0) sh.mean = tps(mean_of(samples(k)), c.pbc); else sh.mean = St(); };
  auto base = [&](const St &s, bool only) -> Ans {
    if (rank == 0 && r.calls.size() >= max_calls) throw TooMany();
    V x = rank == 0 ? vec(s) : V(NP, T(0));
    if (rank == 0) VP_CHECK((s.GetBoundaryCondition() == qlpeps::BoundaryCondition::Periodic) == c.pbc, "boundary", "the evaluated state has lost its boundary condition");
    Ans a = eval(x, only, r.calls.size()); r.calls.push_back({x, a, only}); return a; };
  auto f = [&](const St &s) -> std::tuple<T, St, double> { Ans a = base(s, false); load(a.sr); if (rank == 0) return {a.E, tps(a.g, c.pbc), a.err}; return {a.E, St(1, 2, 2), 1e300}; };
  std::function<std::pair<double, double>(const St &)> fo = nullptr;
  if (c.energy_only) fo = [&](const St &s) -> std::pair<double, double> { Ans a = base(s, true); return {std::real(a.E), rank == 0 ? a.err : 1e300}; };
  typename Opt::OptimizationCallback cb;
  cb.on_iteration = [&](size_t i, double E, double err, double gn) { r.o.cb.push_back(i); r.cbE.push_back(E); if (rank == 0) r.o.rec.push_back({i, E, err, gn, 0, false, 0}); };
  cb.on_lowest_state_found = [&](const St &s, double E) { r.o.low.push_back({E, rank == 0 ? vec(s) : V()}); };
  cb.should_stop = [&](size_t i, double, double) { return i == c.stop_at; };
  const St init = tps(x0, c.pbc); const V keep = x0;
  const bool nat = c.algo == SR || c.algo == MINSR;
  for (int rep = 0; rep < repeats; rep++) try {
    r = RealOut();
    auto res = opt.IterativeOptimize(init, f, cb, nat ? &sh.os : nullptr, nat ? &sh.mean : nullptr, nat ? &sh.en : nullptr, fo);
    VP_CHECK(vec(init) == keep, "input-changed", "the initial state was modified");
    if (rank == 0) { r.o.x = vec(res.optimized_state); r.o.lowest = vec(res.lowest_state); r.fin = res.optimized_state; }
    r.o.fin = res.final_energy; r.o.mn = res.min_energy; r.o.E = res.energy_trajectory; r.o.err = res.energy_error_trajectory; r.o.gn = res.gradient_norms; r.o.lr = res.learning_rate_trajectory; r.o.iters = res.total_iterations; r.o.conv = res.converged;
    for (auto &e : res.spike_stats.event_log) r.o.ev.push_back({e.step, e.attempt, int(e.signal), int(e.action)});
    if (rank == 0) { size_t a[4] = {0, 0, 0, 0}; using A = qlpeps::SpikeAction; for (auto &e : res.spike_stats.event_log) a[e.action == A::kResample ? 1 : e.action == A::kRollback ? 2 : e.action == A::kAcceptWithWarning ? 3 : 0]++;
      VP_CHECK(res.spike_stats.total_resamples == a[1] && res.spike_stats.total_rollbacks == a[2] && res.spike_stats.total_forced_accepts == a[3], "spike-counts", "spike counters disagree with the event log"); }
  } catch (const std::invalid_argument &) { r.o.thrown = "invalid_argument"; } catch (const std::runtime_error &) { r.o.thrown = "runtime_error"; }
  return r;
}
inline int signal_no(int s) { using S = qlpeps::SpikeSignal; auto v = static_cast<S>(s); return v == S::kS1_ErrorbarSpike ? 1 : v == S::kS2_GradientNormSpike ? 2 : v == S::kS3_NaturalGradientAnomaly ? 3 : v == S::kS4_EMAEnergySpikeUpward ? 4 : 0; }
inline int action_no(int s) { using A = qlpeps::SpikeAction; auto v = static_cast<A>(s); return v == A::kResample ? 1 : v == A::kRollback ? 2 : v == A::kAcceptWithWarning ? 3 : 0; }
template <class X> std::string list(const std::vector<X> &v) { std::string s; for (auto &x : v) s += vp::cat(x, " "); return s; }
// compare the master's results with the reference
inline bool eqd(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool eqt(T a, T b) { return eqd(std::real(a), std::real(b)) && eqd(std::imag(a), std::imag(b)); }
template <class X, class F> bool eqv(const std::vector<X> &a, const std::vector<X> &b, F f) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!f(a[i], b[i])) return false; return true; }
inline bool compare(const Cfg &c, const V &x0, const RealOut &r, Out *keep = nullptr) {
  Replay rp{r.calls}; Ref ref(c, rp);
  try { ref.run(x0); } catch (const Ambiguous &) { vp::S().extra["ties not compared"]++; return false; }
  const Out &o = ref.o; if (keep) *keep = o;
  VP_CHECK(rp.pos == r.calls.size(), "too-many-evaluations", "the optimiser made ", r.calls.size(), " evaluations, documented ", rp.pos);
  VP_CHECK(o.thrown == r.o.thrown, "exception", "outcome '", r.o.thrown, "' documented '", o.thrown, "'");
  if (!o.thrown.empty()) return true;
  VP_CHECK(o.iters == r.o.iters, "iterations", "reports ", r.o.iters, " iterations, happened ", o.iters);
  VP_CHECK(eqv(o.E, r.o.E, eqt), "energies", "energy trajectory ", list(r.o.E), " happened ", list(o.E));
  VP_CHECK(eqv(o.err, r.o.err, eqd), "errors", "error trajectory ", list(r.o.err), " happened ", list(o.err));
  VP_CHECK(r.o.gn.size() == o.gn.size() && r.o.lr.size() == o.lr.size(), "lengths", "trajectory lengths differ");
  for (size_t i = 0; i < o.gn.size(); i++) VP_CHECK(vp::close(o.gn[i], r.o.gn[i]), "gradient-norm", "gradient norm ", i, " is ", r.o.gn[i], " happened ", o.gn[i]);
  for (size_t i = 0; i < o.lr.size(); i++) VP_CHECK(o.lenient || vp::close(o.lr[i], r.o.lr[i], c.wolfe ? 1e-4 : 1e-9), "learning-rate", "learning rate ", i, " is ", r.o.lr[i], " documented ", o.lr[i]);
  VP_CHECK(eqd(o.fin, r.o.fin) && eqd(o.mn, r.o.mn), "reported-energy", "final/lowest energy ", r.o.fin, "/", r.o.mn, " happened ", o.fin, "/", o.mn);
  VP_CHECK(same(o.lowest, r.o.lowest), "lowest-state", "lowest state ", show(r.o.lowest), " was evaluated at ", show(o.lowest));
  VP_CHECK(o.lenient || same(o.x, r.o.x), "final-state", "final state ", show(r.o.x), " documented ", show(o.x));
  VP_CHECK(o.conv == r.o.conv, "converged", "converged=", r.o.conv, " documented ", o.conv);
  VP_CHECK(r.fin.GetBoundaryCondition() == (c.pbc ? qlpeps::BoundaryCondition::Periodic : qlpeps::BoundaryCondition::Open), "boundary", "final state has the wrong boundary condition");
  VP_CHECK(o.cb == r.o.cb, "callback", "on_iteration called for ", list(r.o.cb), "accepted iterations ", list(o.cb));
  for (size_t i = 0; i < o.rec.size(); i++) VP_CHECK(eqd(r.o.rec[i].E, o.rec[i].E) && eqd(r.o.rec[i].err, o.rec[i].err) && vp::close(r.o.rec[i].gn, o.rec[i].gn), "callback-values", "on_iteration reports other numbers at ", i);
  VP_CHECK(o.low.size() == r.o.low.size(), "lowest-callback", "on_lowest_state_found called ", r.o.low.size(), " times, improvements ", o.low.size());
  for (size_t i = 0; i < o.low.size(); i++) VP_CHECK(o.low[i].first == r.o.low[i].first && same(o.low[i].second, r.o.low[i].second), "lowest-callback", "improvement ", i, " reported with the wrong energy or state");
  VP_CHECK(o.ev.size() == r.o.ev.size(), "spike-events", "logged ", r.o.ev.size(), " spike events, documented ", o.ev.size());
  for (size_t i = 0; i < o.ev.size(); i++) { auto &a = o.ev[i]; auto &b = r.o.ev[i]; VP_CHECK(a.step == b.step && a.attempt == b.attempt && a.signal == signal_no(b.signal) && a.action == action_no(b.action), "spike-event", "event ", i, ": step ", b.step, " attempt ", b.attempt, " signal S", signal_no(b.signal), " action ", action_no(b.action), "; documented step ", a.step, " attempt ", a.attempt, " S", a.signal, " action ", a.action); }
  std::string h; for (auto &e : o.ev) h += vp::cat(e.step, e.attempt, e.signal, e.action, ";"); h += vp::cat(o.iters, o.conv, show(o.x), list(o.lr)); vp::outcome(h);
  if (std::getenv("VP_SHOW")) fprintf(stderr, "%s -> %s\n", vp::S().cur, h.c_str());
  return true;
}
inline void hush() { std::cout.setstate(std::ios::badbit); std::cerr.setstate(std::ios::badbit); }
inline uint64_t &counter() { static uint64_t c = 0; return c; }
inline bool mine() { uint64_t h = ++counter() * 0x9E3779B97F4A7C15ull; return (int)((h >> 32) % vp::S().nshards) == vp::S().shard; }
// run body on a single simulated rank (needed when the algorithm communicates)
template <class F> void single(bool sim_needed, F &&f) {
  if (!sim_needed) { f(MPI_Comm{}); return; }
  sim::explore(1, [&](int) { f(MPI_COMM_WORLD); }, [&](const sim::Result &res, bool) { VP_CHECK(res.ok(), "run", "single-rank run failed: ", res.why()); }, false);
}
} // namespace om
#endif
