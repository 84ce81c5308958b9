// C03: learning-rate schedulers. Stateless ones: every parameter set x iteration x energy x query order in the bound against
// the documented closed form; PlateauLR: every history of queries / clones / Step() calls up to the depth.
#include "vp.h"
#include "qlpeps/optimizer/lr_schedulers.h"
using namespace qlpeps;
using vp::cat;
typedef std::unique_ptr<LearningRateScheduler> P;
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::nan("");
static bool eq(double a, long double b, long double slack = 0) {
  if (std::isnan((double)b)) return std::isnan(a);
  if (a == (double)b) return true;
  return std::fabs((long double)a - b) <= 4e-13L * std::max(std::fabs((long double)a), std::fabs(b)) + 1e-300L + 1e-14L * slack;
}
static const std::vector<size_t> ITERS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 19, 20, 21, 29, 30, 31, 49, 50, 51, 64, 99, 100, 101,
                                          127, 128, 199, 200, 255, 256, 499, 500, 999, 1000, 1001, 4095, 4096, 100000, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 5};
static const std::vector<double> ENERGIES = {0.0, -1.0, 3.5, -1e300, INF, NaN};

template <class F> void stateless(const std::string &what, const LearningRateScheduler &s, const std::string &name, F ref,
                                  double lo = -INF, double hi = INF, double slack = 0) {
  vp::set_case(what);
  vp::state(what);
  auto &G = vp::S();
  VP_CHECK(s.Name() == name, "name", "Name() is ", s.Name(), " want ", name);
  std::string d0 = s.Describe();
  auto one = [&](const LearningRateScheduler &x, size_t it, double e, const char *how) {
    double g = x.GetLearningRate(it, e);
    long double r = ref(it);
    G.evaluations++;
    VP_CHECK(eq(g, r, slack), "formula", "lr(", it, ", E=", e, ") = ", g, " want ", (double)r, " [", how, "]");
    VP_CHECK(!(g < lo - 1e-12 * std::fabs(lo) - 1e-14 * slack) && !(g > hi + 1e-12 * std::fabs(hi) + 1e-14 * slack), "bounds", "lr(", it, ") = ", g, " outside [", lo, ",", hi, "]");
    vp::outcome(cat(what, "@", g));
  };
  P c0 = s.Clone();
  for (size_t it : ITERS) for (double e : ENERGIES) one(s, it, e, "ascending");
  for (size_t k = ITERS.size(); k-- > 0;) one(s, ITERS[k], ENERGIES[k % ENERGIES.size()], "descending");
  // every ordered pair / triple of early queries, and Step() between: order independence
  for (size_t a = 0; a < 12; a++) for (size_t b = 0; b < 12; b++) for (int st = 0; st < 2; st++) {
    P c = s.Clone();
    one(*c, a, -1.0, "pair1");
    if (st) c->Step();
    one(*c, b, 2.0, "pair2");
    if (st) c->Step();
    one(*c, a, 7.0, "pair3");
    G.traces++; G.transitions += 3;
  }
  P c1 = s.Clone(), c2 = c1->Clone();
  for (size_t it : ITERS) { one(*c0, it, 0, "clone before"); one(*c1, it, 0, "clone after"); one(*c2, it, 0, "clone of clone"); }
  VP_CHECK(c0->Name() == name && c2->Name() == name, "name", "clone Name()");
  VP_CHECK(s.Describe() == d0 && c1->Describe() == d0 && c0->Describe() == d0, "describe-stable", "Describe() differs between original and clone: '", d0, "' vs '", c1->Describe(), "'");
  // through the interface default argument
  const LearningRateScheduler &base = s;
  for (size_t it = 0; it < 20; it++) { double g = base.GetLearningRate(it); VP_CHECK(eq(g, ref(it), slack), "formula", "default-energy query at ", it, " = ", g); }
}
static double field(const std::string &d, const std::string &k) {
  size_t p = d.rfind(k + "=");
  while (p != std::string::npos && p > 0 && d[p - 1] != ' ' && d[p - 1] != ',') { if (p == 0) break; p = d.rfind(k + "=", p - 1); }
  if (p == std::string::npos) return NaN;
  return atof(d.c_str() + p + k.size() + 1);
}
#define FIELD(S, k, v) do { std::string dd = (S).Describe(); VP_CHECK(field(dd, k) == (double)(v), "describe", "Describe() '", dd, "' does not state ", k, "=", (double)(v)); } while (0)

// ---- PlateauLR ------------------------------------------------------------------------------------------------------
struct Ref { double lr, best = std::numeric_limits<double>::max(); size_t cnt = 0; double factor; size_t pat; double thr;
  double q(double e) {
    if (e < best - thr) { best = e; cnt = 0; }
    else { cnt++; if (cnt >= pat) { lr *= factor; cnt = 0; best = e; } }
    return lr;
  }
  std::string key() const { return cat(lr, "/", best, "/", cnt); } };
static void plateau(double lr, double factor, size_t pat, double thr, int depth, bool defaults = false) {
  static const double E[] = {-1.0, -0.75, -1.25, -0.5, -3.0, NaN, 0.0};
  const int NE = 7, NOPS = NE + 3;
  std::vector<int> h;
  auto &G = vp::S();
  std::string pname = cat("PlateauLR(", lr, ",", factor, ",", pat, ",", thr, ")");
  std::function<void()> rec = [&]() {
    if ((int)h.size() == depth) return;
    for (int op = 0; op < NOPS; op++) {
      h.push_back(op);
      // replay the whole history on fresh objects
      std::string d = pname;
      for (int o : h) d += cat(" ", o < NE ? cat("E=", E[o]) : o == NE ? "clone+use-clone" : o == NE + 1 ? "clone+perturb-clone" : "Step");
      vp::set_case(d);
      P s = defaults ? std::make_unique<PlateauLR>(lr) : std::make_unique<PlateauLR>(lr, factor, pat, thr);
      Ref r{lr, std::numeric_limits<double>::max(), 0, factor, pat, thr};
      std::vector<P> keep; std::vector<Ref> keepr;
      size_t it = 0;
      for (int o : h) {
        if (o < NE) { double g = s->GetLearningRate(it++, E[o]); double w = r.q(E[o]);
          VP_CHECK(eq(g, w), "plateau", "query returned ", g, " want ", w); }
        else if (o == NE) { P c = s->Clone(); keep.push_back(std::move(s)); keepr.push_back(r); s = std::move(c); }
        else if (o == NE + 1) { P c = s->Clone(); keep.push_back(std::move(c)); keepr.push_back(r);
          for (double e : {-0.5, -0.5, -0.5, -7.0}) { double g = keep.back()->GetLearningRate(3, e), w = keepr.back().q(e); VP_CHECK(eq(g, w), "plateau-clone", "clone returned ", g, " want ", w); } }
        else s->Step();
      }
      // independence: every object left behind still continues from its own state
      for (size_t k = 0; k < keep.size(); k++) for (double e : {-0.75, -0.75, -9.0, -9.0}) {
        double g = keep[k]->GetLearningRate(1, e), w = keepr[k].q(e);
        VP_CHECK(eq(g, w), "plateau-clone", "original/clone ", k, " was disturbed: returned ", g, " want ", w); }
      std::string ds = s->Describe();
      VP_CHECK(field(ds, "current_lr") == r.lr || eq(field(ds, "current_lr"), r.lr), "describe", "Describe() '", ds, "' but lr is ", r.lr);
      VP_CHECK(field(ds, "patience") == (double)pat && field(ds, "factor") == factor && field(ds, "threshold") == thr, "describe", "Describe() '", ds, "'");
      G.evaluations++; G.transitions++; G.traces++;
      vp::state(pname + r.key());
      vp::outcome(pname + r.key());
      if (h.size() == 4 && G.evaluations % 977 == 0) vp::sample(d + " -> " + r.key());
      rec();
      h.pop_back();
    }
  };
  rec();
}
// long plateau histories: all two-symbol patterns of length n (better / not better), default patience reached
static void plateau_long(size_t pat, size_t n) {
  for (uint32_t m = 0; m < (1u << n); m++) {
    if ((int)(m % vp::S().nshards) != vp::S().shard) continue;
    PlateauLR s(1.0, 0.5, pat, 0.25);
    Ref r{1.0, std::numeric_limits<double>::max(), 0, 0.5, pat, 0.25};
    double e = 8.0;
    vp::set_case(cat("PlateauLR long history mask=", m, " patience=", pat));
    for (size_t i = 0; i < n; i++) {
      e += (m >> i & 1) ? -0.5 : 0.0;   // (0: not better than best - threshold)
      double g = s.GetLearningRate(i, e), w = r.q(e);
      VP_CHECK(eq(g, w), "plateau", "step ", i, " returned ", g, " want ", w);
    }
    vp::S().evaluations++; vp::S().traces++; vp::S().transitions += n;
    vp::outcome(cat("long", pat, r.key()));
  }
}

static void body() {
  auto &G = vp::S();
  if (G.shard == 0) {
    std::vector<double> LR = {0.0, 1e-12, 0.01, 0.1, 1.0, 3.7};
    for (double lr : LR) { ConstantLR s(lr); stateless(cat("ConstantLR(", lr, ")"), s, "ConstantLR", [&](size_t) { return (long double)lr; }, lr, lr); FIELD(s, "lr", lr); }
    for (double lr : LR) for (double rate : {0.5, 0.9, 0.95, 1.0, 0.0, 1.01}) for (size_t st : {1, 2, 3, 7, 10, 100}) {
      ExponentialDecayLR s(lr, rate, st);
      if (rate > 1) continue;
      stateless(cat("ExponentialDecayLR(", lr, ",", rate, ",", st, ")"), s, "ExponentialDecayLR",
                [&](size_t it) { return (long double)lr * powl((long double)rate, (long double)it / (long double)st); }, 0, lr);
      FIELD(s, "initial_lr", lr); FIELD(s, "decay_rate", rate); FIELD(s, "decay_steps", st);
    }
    for (double lr : LR) for (double g : {0.5, 0.1, 1.0, 0.0, -1.0}) for (size_t st : {1, 2, 3, 7, 10, 100}) {
      StepLR s(lr, st, g);
      if (g < 0) continue;
      stateless(cat("StepLR(", lr, ",", st, ",", g, ")"), s, "StepLR", [&](size_t it) { return (long double)lr * powl((long double)g, (long double)(it / st)); }, 0, lr);
      FIELD(s, "initial_lr", lr); FIELD(s, "step_size", st); FIELD(s, "gamma", g);
    }
    { StepLR s(1.0, 5); stateless("StepLR(1,5)", s, "StepLR", [&](size_t it) { return powl(0.1L, it / 5); }); }
    for (double hi : LR) for (double lo : {0.0, 1e-3, 0.05}) for (size_t T : {0, 1, 2, 3, 7, 10, 100, 1000}) {
      CosineAnnealingLR s(hi, T, lo);
      stateless(cat("CosineAnnealingLR(", hi, ",", T, ",", lo, ")"), s, "CosineAnnealingLR", [&](size_t it) -> long double {
        if (T == 0) return lo;
        long double t = (long double)std::min(it, T) / (long double)T;
        return (long double)lo + 0.5L * ((long double)hi - lo) * (1.0L + cosl(3.14159265358979323846264338327950288L * t));
      }, std::min(lo, hi), std::max(lo, hi), hi + lo);
      FIELD(s, "eta_max", hi); FIELD(s, "eta_min", lo); FIELD(s, "T_max", T);
    }
    { CosineAnnealingLR s(1.0, 5); VP_CHECK(eq(s.GetLearningRate(5, 0.) + 1.0, 1.0), "formula", "default eta_min is not 0"); }
    for (double b : LR) for (double st : {0.0, 1e-3, 0.05, 2.0}) for (size_t n : {0, 1, 2, 3, 7, 10, 100}) {
      WarmupLR s(b, n, st);
      stateless(cat("WarmupLR(", b, ",", n, ",", st, ")"), s, "WarmupLR", [&](size_t it) -> long double {
        if (n == 0 || it >= n) return b;
        return (long double)st + ((long double)b - st) * ((long double)(it + 1) / (long double)n); }, std::min(b, st), std::max(b, st), 10 * (b + st));
      FIELD(s, "base_lr", b); FIELD(s, "start_lr", st); FIELD(s, "warmup_steps", n);
    }
    { WarmupLR s(1.0, 4); VP_CHECK(eq(s.GetLearningRate(0, 0.), 0.25L), "formula", "default start_lr"); }
    // MultiStep: every milestone list over {0,1,2,3,5,100} up to length 3 (any order, repeats)
    std::vector<size_t> A = {0, 1, 2, 3, 5, 100};
    std::vector<std::vector<size_t>> lists = {{}};
    for (size_t a : A) lists.push_back({a});
    for (size_t a : A) for (size_t b : A) lists.push_back({a, b});
    for (size_t a : A) for (size_t b : A) for (size_t c : A) lists.push_back({a, b, c});
    for (auto &l : lists) for (double g : {0.5, 0.1, 1.0}) {
      MultiStepLR s(0.8, l, g);
      std::string n; for (size_t x : l) n += cat(x, ",");
      stateless(cat("MultiStepLR(0.8,[", n, "],", g, ")"), s, "MultiStepLR", [&](size_t it) {
        long c = 0; for (size_t m : l) c += m <= it; return (long double)0.8 * powl((long double)g, (long double)c); }, 0, 0.8);
    }
    vp::sample(cat("stateless schedulers checked: ", G.state_set.size(), " parameter sets x ", ITERS.size(), " iterations x ", ENERGIES.size(), " energies + all query pairs"));
  }
  int depth = vp::pick(5, 6);
  int k = 0;
  for (size_t pat : {0, 1, 2, 3}) for (double thr : {0.0, 0.25}) for (double f : {0.5, 1.0})
    if (k++ % G.nshards == G.shard) plateau(1.0, f, pat, thr, depth);
  if (G.shard == 0) plateau(0.125, 0.5, 10, 1e-4, 4, true);
  for (size_t pat : {2, 3, 5, 10}) plateau_long(pat, vp::pick(14, 18));
}
VP_MAIN(body)
