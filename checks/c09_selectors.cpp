// C09: step selectors on every history of trial answers.
#include "opt_model.h"
using namespace om;
#ifdef VP_SMALL
const int LESS = 3;
#else
const int LESS = 0;
#endif
static const V x0 = {mk(1, 0.25), mk(-0.5, 1), mk(2, -0.5), mk(0.75, -1)};
static Ans answer(int s, size_t k) {
  auto A = [&](double E, double err) { Ans a; a.E = mk(E, 0.25); a.err = err; a.g = {mk(1, 0.5), mk(-0.5, k % 2), mk(0.25 * double(k % 3)), mk(0, -1)}; a.sr = 1 + k % 2; return a; };
  switch (s) {
    case 0: return A(-1, 0.25);
    case 1: return A(-1.25, 0.25);   // better by exactly one error bar
    case 2: return A(-1.5, 0.125);
    case 3: return A(-1.125, 0.5);
    case 4: return A(-2, 0);         // no error bar
    case 5: return A(-1, 2);
    case 6: return A(std::numeric_limits<double>::quiet_NaN(), 0.25);
    case 7: return A(-1, std::numeric_limits<double>::infinity());
    default: return A(1, 0.25);
  }
}
static void explore(Cfg c, const std::vector<int> &al, int L) {
  L -= LESS;
  for (int eo = 0; eo < 2; eo++) for (int s0 : al) for (int s1 : al) for (int s2 : al) {
    if (!mine()) continue;
    c.energy_only = eo; vp::Explorer ex;
    ex.run([&](vp::Explorer &e) {
      RealOut r; std::string head = vp::cat(c.str(), eo ? " energy-only trials" : "", " answers:"); vp::begin_case(head);
      auto eval = [&](const V &, bool, size_t k) { int s = k == 0 ? s0 : k == 1 ? s1 : k == 2 ? s2 : (int)k < L ? al[e.choose((int)al.size())] : al[0]; head += vp::cat(" ", s); vp::set_case(head); return answer(s, k); };
      try { single(c.algo == SR || c.algo == MINSR, [&](MPI_Comm cm) { r = real_run(c, x0, cm, 0, 1, eval); }); } catch (const TooMany &) { vp::violation("no-termination", "the optimisation does not finish"); }
      compare(c, x0, r);
      vp::S().evaluations++; vp::S().transitions += r.calls.size(); vp::S().traces++; vp::state(head);
    });
  }
}
VP_MAIN([] {
  hush();
  std::vector<int> al{0, 1, 2, 3, 4}, few{0, 1, 5}, odd{0, 2, 6, 7, 4};
  // initial selector
  for (size_t st : {0, 1, 2, 3, 5}) for (int det = 0; det < 2; det++) for (double mu : {0.0, 0.5}) for (int nes = 0; nes < 2; nes++) for (double wd : {0.0, 0.25}) {
    if (nes && mu == 0) continue;
    Cfg c; c.isel = true; c.isteps = st; c.idet = det; c.mu = mu; c.nesterov = nes; c.wd = wd; c.max_iter = 2; c.clip_norm = wd > 0 ? std::optional<double>(0.75) : std::nullopt; explore(c, st == 5 ? few : al, vp::pick(6, 7)); if (!mu && !wd) explore(c, odd, vp::pick(5, 6)); }
  // periodic selector, early and late phase, boundary at exactly an iteration
  for (size_t ev : {0, 1, 2, 3}) for (double ra : {-0.5, 0.0, 0.25, 0.5, 1.0, 1.5}) for (int det = 0; det < 2; det++) {
    Cfg c; c.psel = true; c.pevery = ev; c.pratio = ra; c.pdet = det; c.max_iter = 4; explore(c, al, vp::pick(6, 7)); if (ra == 0.5) explore(c, odd, vp::pick(5, 6));
    c.mu = 0.5; c.nesterov = det; explore(c, few, vp::pick(8, 9)); }
  // both selectors
  for (double ra : {0.0, 0.5}) { Cfg c; c.isel = c.psel = c.idet = c.pdet = true; c.isteps = 2; c.pevery = 1; c.pratio = ra; c.max_iter = 4; explore(c, few, vp::pick(9, 10)); c.pbc = true; c.pevery = 2; explore(c, few, vp::pick(7, 9)); }
  // mixed determinism requirements, gradient tolerance, patience
  for (int d = 0; d < 4; d++) { Cfg c; c.isel = c.psel = true; c.idet = d & 1; c.pdet = d & 2; c.isteps = 2; c.pevery = 1; c.max_iter = 3; explore(c, {0, 4}, vp::pick(8, 9)); }
  // natural-gradient methods
  for (Algo a : {SR, MINSR}) for (int n = 0; n < 2; n++) {
    if (a == MINSR && n) continue;
    Cfg c; c.algo = a; c.normalize = n; c.idet = c.pdet = true; c.max_iter = 3; c.lr = 0.25; c.isel = true; explore(c, al, vp::pick(4, 6)); c.psel = true; c.pevery = 1; explore(c, few, vp::pick(7, 8)); c.isel = false; c.pratio = 0; explore(c, al, vp::pick(5, 6)); c.pdet = false; if (a == SR) explore(c, odd, vp::pick(4, 5)); }
  // rejected parameter combinations
  for (int a = 0; a < 6; a++) for (int sc = 0; sc < 2; sc++) for (double lr : {0.5, 0.0, -1.0}) for (int which = 1; which < 4; which++) { Cfg c; c.algo = Algo(a); c.sched = sc; c.lr = lr; c.isel = which & 1; c.psel = which & 2; c.idet = c.pdet = true; c.max_iter = 2; if (c.algo == LBFGS || sc || lr <= 0 || a == ADAM || a == ADAGRAD) explore(c, {0}, 3 + LESS); }
})
