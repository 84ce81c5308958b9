// C05: spike recovery actions on every answer history.
#include "opt_model.h"
using namespace om;
static const V x0 = {mk(1, 0.25), mk(-0.5, 1), mk(2), mk(0.75, -1)};
// symbols: dyadic numbers, so ties with the thresholds are exact
static Ans answer(int s, size_t k) {
  auto A = [&](double E, double err, double g, int sr) { Ans a; a.E = mk(E, 0.125); a.err = err; a.g = {mk(0.6 * 0 + (k % 2 ? 0 : g)), mk(k % 2 ? g : 0), mk(0), mk(0)}; a.sr = sr; return a; };
  switch (s) {
    case 0: return A(-1, 1, 1, 1);
    case 1: return A(-1.25, 0.5, 0.5, 1);
    case 2: return A(-1, 4, 1, 1);       // error exactly at the threshold when the mean is 1
    case 3: return A(-1, 64, 1, 1);      // error spike
    case 4: return A(-1, 1, 16, 1);      // gradient at the threshold
    case 5: return A(-1.125, 1, 512, 1); // gradient spike
    case 6: return A(3, 1, 1, 1);        // energy jump
    case 7: return A(8, 256, 1024, 1);   // everything at once
    case 8: return A(-1, 1, 1, 0);       // SR system solved in one iteration
    case 9: return A(-1, 1, 8, 2);       // large natural gradient
    default: return A(-4, 0, 1, 1);      // energy drop, no error bar
  }
}
#ifdef VP_SMALL
const int LESS = 2; // sanitised pass, shorter histories
#else
const int LESS = 0;
#endif
static void explore(const Cfg &c, const std::vector<int> &al, int L) {
  L -= LESS;
  for (int tail = 0; tail < 2; tail++) {
    // the first two symbols select the shard
    for (int s0 : al) for (int s1 : al) {
      if (!mine()) continue;
      vp::Explorer ex;
      ex.run([&](vp::Explorer &e) {
        std::vector<int> used; RealOut r;
        std::string head = vp::cat(c.str(), tail ? " (last answer repeats)" : "", " answers:");
        vp::begin_case(head);
        auto eval = [&](const V &, bool, size_t k) {
          int s = k == 0 ? s0 : k == 1 ? s1 : (int)k < L ? al[e.choose((int)al.size())] : tail ? used.back() : al[0];
          used.push_back(s); head += vp::cat(" ", s); vp::set_case(head); return answer(s, k); };
        try { single(c.algo == SR || c.algo == MINSR, [&](MPI_Comm cm) { r = real_run(c, x0, cm, 0, 1, eval); }); }
        catch (const TooMany &) { vp::violation("no-termination", "the optimisation keeps re-evaluating without finishing a step"); }
        compare(c, x0, r);
        vp::S().evaluations++; vp::S().transitions += r.calls.size(); vp::S().traces++; vp::state(head);
      });
    }
  }
}
VP_MAIN([] {
  hush();
  std::vector<int> al{0, 1, 2, 3, 4, 5, 6, 7, 10};
  for (int rb = 0; rb < 2; rb++) for (int au = 0; au < 2; au++) for (size_t re : {0, 1, 2}) {
    if (!au && re) continue;
    for (size_t w : {1, 3}) { Cfg c; c.max_iter = 4; c.autorec = au; c.rollback = rb; c.retries = re; c.window = w; explore(c, al, vp::pick(w == 3 && au && re == 1 ? 6 : 5, w == 3 ? 7 : 6)); }
  }
  { Cfg c; c.max_iter = 4; c.autorec = c.rollback = true; c.retries = 1; c.sched = 2; explore(c, al, vp::pick(5, 6)); c.sched = 1; explore(c, al, vp::pick(5, 6)); }
  { Cfg c; c.max_iter = 4; c.autorec = c.rollback = true; c.retries = 1; c.mu = 0.5; explore(c, al, vp::pick(5, 6)); c.rollback = false; explore(c, al, vp::pick(5, 6)); c.algo = ADAM; explore(c, al, vp::pick(5, 6)); c.algo = ADAGRAD; c.acc0 = 1; explore(c, al, vp::pick(5, 6)); }
  std::vector<int> sr{0, 3, 6, 8, 9};
  for (Algo a : {SR, MINSR}) for (int rb = 0; rb < 2; rb++) for (size_t re : {0, 1, 2}) {
    Cfg c; c.algo = a; c.max_iter = 4; c.autorec = true; c.rollback = rb; c.retries = re; c.fng = 3; c.fgrad = 1e9; explore(c, sr, vp::pick(5, 6));
    if (re == 1) { c.sched = 2; explore(c, sr, vp::pick(5, 6)); c.sched = 0; c.psel = true; c.pevery = 1; c.pdet = true; explore(c, sr, vp::pick(5, 6)); }
  }
  { Cfg c; c.psel = true; c.pevery = 1; c.pdet = true; c.max_iter = 4; c.autorec = c.rollback = true; c.retries = 1; explore(c, {0, 1, 3, 6}, vp::pick(7, 9)); }
})
