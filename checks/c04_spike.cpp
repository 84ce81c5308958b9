// C04: EMATracker: every update/reset/query/copy history over an exactly representable alphabet, plus names.
#include "vp.h"
#include "histories.h"
#include "qlpeps/optimizer/spike_detection.h"
using namespace qlpeps;
using vp::cat;
static bool eq(double a, long double b) {
  if (std::isnan((double)b)) return std::isnan(a);
  if (std::isinf((double)b)) return a == (double)b;
  return std::fabs((long double)a - b) <= 1e-12L * std::max({std::fabs((long double)a), std::fabs(b), 1e-290L});
}
struct Ref { long double a, m = 0, v = 0; bool init = false; long double scale = 0;
  void up(long double x) { scale = std::max(scale, std::fabs(x)); if (!init) { m = x; v = 0; init = true; return; } long double d = x - m; m += a * d; v = (1 - a) * (v + a * d * d); }
  void reset() { m = v = 0; init = false; scale = 0; } };
static bool agree(const EMATracker &t, const Ref &r, std::string &why) {
  // absolute slack proportional to the largest value seen (cancellation), tight relative otherwise
  auto near = [&](double g, long double w, long double slack) { return std::fabs((long double)g - w) <= 1e-13L * slack + 1e-300L || eq(g, w); };
  for (int rep = 0; rep < 2; rep++) { // queries do not change anything
    if (t.IsInitialized() != r.init) { why = cat("IsInitialized ", t.IsInitialized(), " want ", r.init); return false; }
    if (!near(t.Mean(), r.m, r.scale)) { why = cat("Mean ", t.Mean(), " want ", (double)r.m); return false; }
    if (!near(t.Var(), r.v, r.scale * r.scale)) { why = cat("Var ", t.Var(), " want ", (double)r.v); return false; }
    if (!(t.Var() >= 0)) { why = cat("Var negative or nan: ", t.Var()); return false; }
    if (!eq(t.Std(), sqrtl((long double)t.Var()))) { why = cat("Std ", t.Std(), " is not sqrt(Var) = ", std::sqrt(t.Var())); return false; }
  }
  return true;
}
static void histories(size_t window, bool dflt, int full, int merged) {
  static const double X[] = {0.0, 1.0, -2.0, 1e6, 1e-9, -0.3};
  const int NX = 6, NOPS = NX + 4;
  auto run = [&](const std::vector<int> &h) -> std::string {
    std::string d = cat("window=", dflt ? "default" : std::to_string(window));
    for (int o : h) d += o < NX ? cat(" Update(", X[o], ")") : o == NX ? " Reset" : o == NX + 1 ? " copy" : o == NX + 2 ? " copy-assign-to-used" : " swap";
    vp::set_case(d);
    EMATracker t = dflt ? EMATracker() : EMATracker(window), u = t; // u: second tracker that must never be disturbed
    Ref r; r.a = 2.0L / ((long double)(dflt ? 50 : window) + 1.0L);
    Ref ru = r;
    std::string why;
    VP_CHECK(agree(t, r, why), "initial", why);
    for (int o : h) {
      if (o < NX) { t.Update(X[o]); r.up(X[o]); }
      else if (o == NX) { t.Reset(); r.reset(); }
      else if (o == NX + 1) { EMATracker c(t); Ref rc = r; c.Update(5.0); rc.up(5.0); VP_CHECK(agree(c, rc, why), "copy", "copy: ", why); u = c; ru = rc; }
      else if (o == NX + 2) { u = t; ru = r; }
      else { std::swap(t, u); std::swap(r, ru); }
      VP_CHECK(agree(t, r, why), "recurrence", why);
      VP_CHECK(agree(u, ru, why), "independence", "second tracker: ", why);
    }
    return cat((double)r.m, "/", (double)r.v, "/", r.init, "|", (double)ru.m, "/", (double)ru.v, "/", ru.init);
  };
  vp::explore_histories(NOPS, full, merged, 200000, run);
}
static void names() {
  std::vector<std::pair<SpikeSignal, std::string>> s = {{SpikeSignal::kNone, "NONE"}, {SpikeSignal::kS1_ErrorbarSpike, "S1_ERRORBAR"}, {SpikeSignal::kS2_GradientNormSpike, "S2_GRAD_NORM"},
    {SpikeSignal::kS3_NaturalGradientAnomaly, "S3_NGRAD_ANOMALY"}, {SpikeSignal::kS4_EMAEnergySpikeUpward, "S4_ENERGY_SPIKE"}};
  std::vector<std::pair<SpikeAction, std::string>> a = {{SpikeAction::kAccept, "ACCEPT"}, {SpikeAction::kResample, "RESAMPLE"}, {SpikeAction::kRollback, "ROLLBACK"}, {SpikeAction::kAcceptWithWarning, "ACCEPT_WARN"}};
  std::set<std::string> seen; std::set<int> vals;
  for (auto &p : s) { VP_CHECK(p.second == SignalName(p.first), "names", "SignalName ", (int)p.first, " = ", SignalName(p.first)); vals.insert((int)p.first); }
  VP_CHECK(vals.size() == 5, "names", "signals share a value");
  for (auto &p : a) VP_CHECK(p.second == ActionName(p.first), "names", "ActionName ", (int)p.first, " = ", ActionName(p.first));
  SpikeStatistics st;
  VP_CHECK(st.total_resamples == 0 && st.total_rollbacks == 0 && st.total_forced_accepts == 0 && st.event_log.empty(), "stats-default", "SpikeStatistics not zero");
  vp::S().evaluations += 9;
}
static void body() {
  if (vp::S().shard == 0) names();
  for (size_t w : {1, 2, 3, 4, 10, 50, 1000}) histories(w, false, vp::pick(4, 5), vp::pick(0, 6));
  histories(50, true, vp::pick(5, 6), 0);
  // every window length up to a bound on a fixed family of all length-6 histories over two values
  for (size_t w = 1; w <= (size_t)vp::pick(300, 3000); w++) {
    if ((int)(w % vp::S().nshards) != vp::S().shard) continue;
    for (int m = 0; m < 64; m++) {
      vp::set_case(cat("window=", w, " mask=", m));
      EMATracker t(w); Ref r; r.a = 2.0L / ((long double)w + 1.0L);
      std::string why;
      for (int i = 0; i < 6; i++) { double x = (m >> i & 1) ? -3.25 : 0.5; t.Update(x); r.up(x); VP_CHECK(agree(t, r, why), "recurrence", why); }
      vp::S().evaluations++; vp::S().traces++; vp::S().transitions += 6;
    }
    vp::state(cat("w", w));
  }
}
VP_MAIN(body)
