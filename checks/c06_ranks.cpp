// C06: the optimisation loop on several ranks: same collectives, same exit, master result independent of the rank count.
#include "opt_model.h"
#include <filesystem>
using namespace om;
#ifdef VP_SMALL
const int LESS = 2;
#else
const int LESS = 0;
#endif
static const V x0 = {mk(1, 0.25), mk(-0.5, 1), mk(2, -0.5), mk(0.75, -1)};
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static Ans answer(int s, size_t k) {
  auto A = [&](double E, double err, double g, int sr) { Ans a; a.E = mk(E, 0.125); a.err = err; a.g = {mk(k % 2 ? 0.25 : g), mk(k % 2 ? g : 0, 0.5), mk(0), mk(0.125)}; a.sr = sr; return a; };
  switch (s) {
    case 0: return A(-1, 0.25, 1, 1);
    case 1: return A(-1.5, 0.5, 0.5, 2);
    case 2: return A(-1, 64, 1, 1);        // error spike
    case 3: return A(4, 0.25, 1, 1);       // energy jump
    case 4: return A(-1, 0.25, 1e-3, 1);   // converged gradient
    case 5: return A(NaN, 0.25, 1, 1);
    case 6: return A(-1, std::numeric_limits<double>::infinity(), 1, 1);
    case 7: return A(-1.25, 0, 1, 1);      // no error bar
    case 8: return A(-1.25, 0.25, 1, 0);   // SR system solved in one iteration
    default: return A(-1, 0.25, 512, 2);   // gradient spike
  }
}
static Ans smooth(const V &x) { V z = {mk(0.5, 0.5), mk(-1), mk(0, 1), mk(2, -1)}; V d = axpy(x, T(-1), z); Ans a; a.g = d; for (size_t i = 0; i < NP; i++) a.g[i] *= double(1 << i); a.E = T(0.5 * std::real(dot(d, a.g))); return a; }
static void ranks(const Cfg &c0, int n, bool all_orders, const std::vector<Ans> &script, const RealOut &ref, const std::string &head, int fn) {
  Cfg c = c0; static int kk = 0; if (c.ckpt) { c.ckpt_dir = vp::cat(vp::scratch(), "/m", kk++ % 4); std::filesystem::remove_all(c.ckpt_dir); }
  std::vector<RealOut> out(n);
  auto body = [&](int rank) {
    auto ev = [&](const V &x, bool, size_t k) {
      int kk[2] = {(int)k, (int)k}; MPI_Bcast(kk, 2, MPI_INT, 0, MPI_COMM_WORLD); // the evaluator is a collective operation
      VP_CHECK(kk[0] == (int)k, "different-evaluation", "rank ", rank, " is at evaluation ", k, " while the master is at ", kk[0]);
      V y = x; double b[2 * NP]; for (size_t i = 0; i < NP; i++) { b[2 * i] = std::real(y[i]); b[2 * i + 1] = std::imag(y[i]); } MPI_Bcast(b, 2 * NP, MPI_DOUBLE, 0, MPI_COMM_WORLD); for (size_t i = 0; i < NP; i++) y[i] = mk(b[2 * i], b[2 * i + 1]);
      if (fn) return smooth(y);
      VP_CHECK(k < script.size(), "extra-evaluation", "with ", n, " ranks the run makes more evaluations than with one rank"); return script[k]; };
    out[rank] = RealOut(); out[rank] = real_run(c, x0, MPI_COMM_WORLD, rank, n, ev); };
  auto check = [&](const sim::Result &res, bool sync) {
    VP_CHECK(res.ok(), "collectives", n, " ranks, ", sync ? "unbuffered" : "buffered", " sends: ", res.why());
    const Out &a = ref.o, &b = out[0].o;
    VP_CHECK(a.thrown == b.thrown, "outcome", n, " ranks end with '", b.thrown, "', one rank with '", a.thrown, "'");
    for (int r = 0; r < n; r++) {
      const Out &q = out[r].o;
      VP_CHECK(q.thrown == a.thrown, "outcome", "rank ", r, " ends with '", q.thrown, "', the master with '", a.thrown, "'");
      VP_CHECK(out[r].calls.size() == ref.calls.size(), "evaluations", "rank ", r, " of ", n, " made ", out[r].calls.size(), " evaluations, a single rank ", ref.calls.size());
      if (!a.thrown.empty()) continue;
      VP_CHECK(q.iters == a.iters && eqv(q.E, a.E, eqt) && eqd(q.fin, a.fin) && eqd(q.mn, a.mn), "trajectory", "rank ", r, " of ", n, " reports ", q.iters, " iterations ", list(q.E), " single rank ", a.iters, ": ", list(a.E));
      VP_CHECK(q.lr.size() == a.lr.size(), "learning-rate", "learning-rate trajectory of another length"); for (size_t i = 0; i < q.lr.size(); i++) VP_CHECK(vp::close(q.lr[i], a.lr[i], 1e-7), "learning-rate", "rank ", r, " used learning rate ", q.lr[i], " at ", i, ", single rank ", a.lr[i]);
      VP_CHECK(q.cb == a.cb && q.low.size() == a.low.size(), "callbacks", "rank ", r, " reported other iterations: ", list(q.cb), "single rank ", list(a.cb));
    }
    for (size_t i = 0; i < ref.calls.size(); i++) VP_CHECK(same(out[0].calls[i].x, ref.calls[i].x, 1e-8), "evaluated-state", "evaluation ", i, " with ", n, " ranks is at ", show(out[0].calls[i].x), " with one rank at ", show(ref.calls[i].x));
    if (a.thrown.empty()) {
      VP_CHECK(same(a.x, b.x, 1e-8) && same(a.lowest, b.lowest, 1e-8) && a.conv == b.conv && eqv(a.err, b.err, eqd), "master-result", "result with ", n, " ranks differs: ", show(b.x), " one rank ", show(a.x));
      VP_CHECK(a.ev.size() == b.ev.size(), "spikes", "spike events differ"); for (size_t i = 0; i < a.ev.size(); i++) VP_CHECK(a.ev[i].step == b.ev[i].step && a.ev[i].action == b.ev[i].action && a.ev[i].signal == b.ev[i].signal, "spikes", "spike event ", i, " differs");
      vp::outcome(vp::cat(n, b.iters, b.conv, list(b.E), show(b.x)));
    }
    vp::S().evaluations++; };
  vp::begin_case(vp::cat(head, " on ", n, " ranks"));
  if (all_orders) sim::explore(n, body, check);
  else for (int sync = 1; sync >= 0; sync--) { sim::Options o; o.ranks = n; o.sync = sync; auto res = sim::run(o, nullptr, body); vp::S().traces++; vp::S().transitions += res.calls; check(res, sync); }
}
static void explore(const Cfg &c, const std::vector<int> &al, int L, int maxranks = 3, bool orders3 = true) {
  L = std::max(2, L - LESS);
  for (int s0 : al) for (int s1 : al) {
    if (!mine()) continue;
    vp::Explorer ex;
    ex.run([&](vp::Explorer &e) {
      std::vector<Ans> sc; std::string head = vp::cat(c.str(), " answers:"); RealOut r;
      Cfg c1 = c; c1.ckpt = 0;
      vp::begin_case(head);
      auto ev = [&](const V &, bool, size_t k) { int s = k == 0 ? s0 : k == 1 ? s1 : (int)k < L ? al[e.choose((int)al.size())] : al[0]; head += vp::cat(" ", s); vp::set_case(head); sc.push_back(answer(s, k)); return sc.back(); };
      single(c.algo == SR || c.algo == MINSR, [&](MPI_Comm cm) { r = real_run(c1, x0, cm, 0, 1, ev); });
      vp::state(head);
      for (int n = 2; n <= maxranks; n++) ranks(c, n, n < 3 || orders3, sc, r, head, 0);
    });
  }
}
VP_MAIN([] {
  hush();
  std::vector<int> al{0, 1, 2, 3, 4};
  for (int a : {SGD, ADAM, ADAGRAD, LBFGS}) for (int rb = 0; rb < 2; rb++) for (size_t pa : {2, 1000}) { Cfg c; c.algo = Algo(a); c.autorec = true; c.rollback = rb; c.retries = 1; c.max_iter = 4; c.gtol = 0.7; c.etol = 0.125; c.patience = pa; if (a == SGD) c.mu = 0.5; explore(c, al, vp::pick(a == SGD ? 5 : 4, 6)); }
  { Cfg c; c.sched = 2; c.max_iter = 4; c.autorec = true; c.retries = 1; explore(c, {0, 1, 2}, vp::pick(4, 6)); c.sched = 1; c.clip_norm = 0.5; explore(c, {0, 1, 9}, vp::pick(4, 6)); }
  { Cfg c; c.max_iter = 4; for (size_t st : {0, 1, 2}) { c.stop_at = st; explore(c, {0, 1, 3}, vp::pick(3, 4)); } }
  { Cfg c; c.max_iter = 4; c.ckpt = 1; explore(c, {0, 1, 3}, vp::pick(3, 4)); c.ckpt = 2; c.patience = 2; explore(c, {0, 1, 3}, vp::pick(3, 4)); }
  for (int w = 1; w < 4; w++) for (int det = 0; det < 2; det++) for (int eo = 0; eo < 2; eo++) { Cfg c; c.isel = w & 1; c.psel = w & 2; c.idet = c.pdet = det; c.isteps = 2; c.pevery = 1; c.max_iter = 3; c.energy_only = eo; explore(c, {0, 1, 7}, vp::pick(5, 7)); explore(c, {0, 5, 6, 1}, vp::pick(4, 5)); c.autorec = c.rollback = true; c.retries = 1; c.psel = true; explore(c, {0, 1, 2}, vp::pick(5, 6)); }
  // natural-gradient methods (the solver's own messages: all arrival orders when the system is solved at once, otherwise one order)
  for (int n = 0; n < 2; n++) { Cfg c; c.algo = SR; c.normalize = n; c.max_iter = 3; c.gtol = 0.7; explore(c, {0, 1, 4}, vp::pick(3, 4), 3, false); c.autorec = true; c.retries = 1; c.rollback = n; explore(c, {0, 8, 2}, vp::pick(3, 4), 3, false); c.isel = c.psel = c.idet = c.pdet = true; c.isteps = 2; c.pevery = 1; explore(c, {0, 1}, vp::pick(5, 7), 3, false); }
  { Cfg c; c.algo = SR; c.max_iter = 2; explore(c, {8}, 2, 3, true); }
  for (int s = 0; s < 2; s++) { Cfg c; c.algo = MINSR; c.max_iter = 3; c.autorec = true; c.retries = 1; c.isel = c.psel = c.idet = c.pdet = s; c.isteps = 2; c.pevery = 1; explore(c, {0, 1, 2}, vp::pick(3, 5)); }
  // line search on a smooth function
  for (int fb = 0; fb < 2; fb++) for (double lr : {0.125, 1.0, 8.0}) for (size_t me : {1, 3, 20}) for (size_t mi : {2, 4}) {
    if (!mine()) continue;
    Cfg c; c.algo = LBFGS; c.wolfe = true; c.fallback = fb; c.lr = lr; c.max_eval = me; c.max_step = 4; c.max_iter = mi; c.gtol = 1e-4;
    RealOut r; std::string head = vp::cat(c.str(), " smooth function"); vp::begin_case(head); vp::state(head);
    single(false, [&](MPI_Comm cm) { r = real_run(c, x0, cm, 0, 1, [&](const V &x, bool, size_t) { return smooth(x); }); });
    for (int n = 2; n <= 3; n++) ranks(c, n, true, {}, r, head, 1);
  }
  vp::rm_scratch_tree(vp::scratch());
})
