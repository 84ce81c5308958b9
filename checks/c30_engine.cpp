// C30: every pattern of usable and unusable starting configurations over the ranks, through the real engine on the simulated MPI.
#include "engine_util.h"
#include <cfloat>
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
// component at site 0 decides what a configuration is worth
enum Kind { A, B, Cc, TINY, HUGE_, ZERO, FAIL, NAN_, NK };
static const char *kname[] = {"good", "good(0.01)", "good(30)", "tiny", "huge", "zero", "failing", "nan"};
static const double POISON = 12345.678;
template <template <class, class> class CT> struct Bench {
  using Eng = MonteCarloEngine<T, QN, Scripted, CT>;
  Lat L; State<T> s; std::map<std::string, T> vals; double N;
  Bench(size_t R, size_t C, bool pbc) : L{R, C, NK, pbc, [](size_t, size_t) { return size_t(2); }, [](size_t, size_t) { return size_t(2); }}, N(R * C) {
    auto m = tnx::generic<T>(L, 3); s = build(m); static const double f[] = {1, 0.01, 30, 1e-40, 1e40, 0, 0, 0};
    for (int k = 0; k < NK; k++) { TenT &t = s({0, 0})[k]; for (size_t i = 0; i < t.size(); i++) { T &x = const_cast<T &>(t.GetRawDataPtr()[i]); x = k == FAIL ? T(POISON) : k == NAN_ ? T(std::nan("")) : x * f[k]; } }
  }
  std::string conf(int kind, int tag) const { std::string c(L.sites(), 0); c[0] = kind; for (size_t i = 1; i < c.size(); i++) c[i] = (tag >> (i - 1)) & 1; return c; } // tag makes the configurations of different ranks distinct
  Configuration cfg(const std::string &c) const { Configuration f(L.R, L.C); for (size_t i = 0; i < c.size(); i++) f({i / L.C, i % L.C}) = c[i]; return f; }
  T value(const std::string &c) { auto it = vals.find(c); if (it != vals.end()) return it->second; tnx::Net<T> n{L.R, L.C, L.pbc, {}}; for (size_t i = 0; i < L.sites(); i++) n.t.push_back(s({i / L.C, i % L.C})[c[i]]); return vals[c] = n.value(); }
  static bool throws(const std::string &c) { return c[0] == FAIL; }
  bool valid(const std::string &c, const ConfigurationRescueParams &p) { if (throws(c) || c[0] == NAN_) return false; double a = std::abs(value(c)); return a > p.amplitude_min_threshold && a < p.amplitude_max_threshold; }
  PEPSParams peps() const { return PEPSParams(exact_params<CT>()); }
  // start kinds, flags, kinds after the first warm-up sweep (-1: stays)
  void run(const std::vector<int> &kind, const ConfigurationRescueParams &rp, unsigned warmed, const std::vector<int> &after, size_t sweeps, size_t total, bool temporary, bool all_orders = true) {
    int n = kind.size(); if (!mine()) return; std::string what = vp::cat(L.R, "x", L.C, L.pbc ? " PBC" : "", " start"); for (int k : kind) what += vp::cat(" ", kname[k]); what += vp::cat(rp.enabled ? " rescue" : " no-rescue", " min ", rp.amplitude_min_threshold, " warmed ", warmed, " sweeps ", sweeps, " after"); for (int k : after) what += vp::cat(" ", k < 0 ? "same" : kname[k]);
    vp::begin_case(what);
    std::vector<std::string> start(n), held(n); std::vector<bool> ok(n); int good = 0; for (int r = 0; r < n; r++) { start[r] = conf(kind[r], r + 1); ok[r] = valid(start[r], rp); good += ok[r]; }
    bool abort1 = good < n && (!rp.enabled || good == 0); int src = -1; for (int r = 0; r < n && src < 0; r++) if (ok[r]) src = r;
    // after the constructor
    struct Obs { bool built = false, warmed = false; std::string c1, c2; T a1, a2; double f1 = 0, f2 = 0, spread1 = 0, spread2 = 0; size_t calls1 = 0, calls2 = 0, spr = 0; int ret = -9, rank = -1, size = -1; }; std::vector<Obs> o(n); std::vector<Script> sc(n);
    auto scale = [&](const State<T> &st, double &f, double &spread) { f = 0; spread = 0; for (size_t i = 0; i < L.sites(); i++) for (int k = 0; k < NK; k++) { if (i == 0 && (k >= ZERO)) continue; const TenT &x = st({i / L.C, i % L.C})[k], &y = s({i / L.C, i % L.C})[k]; for (size_t q = 0; q < y.size(); q++) { T ratio = x.GetRawDataPtr()[q] / y.GetRawDataPtr()[q]; if (f == 0) f = std::real(ratio); spread = std::max(spread, (double)std::abs(ratio / f - 1.0)); if (!(std::abs(ratio / f - 1.0) < 1)) spread = 1e9; } } };
    auto body = [&](int r) { o[r] = Obs(); sc[r] = Script(); sc[r].C = L.C; if (after[r] >= 0) sc[r].stream = {conf(after[r], r + 5)};
      MonteCarloParams mp(total, sweeps, 1, cfg(start[r]), (warmed >> r) & 1); std::unique_ptr<Eng> e; MPI_Comm named = MPI_COMM_WORLD;
      if (temporary) { MPI_Comm gone = MPI_COMM_WORLD; e = std::make_unique<Eng>(s, mp, peps(), gone, Scripted{&sc[r]}, rp); *(volatile MPI_Comm *)&gone = MPI_COMM_NULL; } else e = std::make_unique<Eng>(s, mp, peps(), named, Scripted{&sc[r]}, rp);
      Obs &b = o[r]; b.built = true; b.c1 = conf_str(e->WavefuncComp().config); b.a1 = e->WavefuncComp().amplitude; scale(e->State(), b.f1, b.spread1); b.calls1 = sc[r].calls; b.spr = e->SamplesPerRank(); b.rank = e->Rank(); b.size = e->MpiSize();
      b.ret = e->WarmUp(); b.warmed = true; b.calls2 = sc[r].calls; b.c2 = conf_str(e->WavefuncComp().config); b.a2 = e->WavefuncComp().amplitude; scale(e->State(), b.f2, b.spread2); size_t before = sc[r].calls; e->WarmUp(); if (sc[r].calls != before) b.calls2 = 1000000; };
    auto check = [&](const sim::Result &res, bool sync) {
      (void)sync; vp::S().evaluations++;
      if (abort1) { VP_CHECK(res.aborted && !res.deadlock && !res.mismatch, "abort", good, " of ", n, " ranks start from a usable configuration, rescue ", rp.enabled ? "on" : "off", ", yet the job was not aborted: ", res.why()); VP_CHECK(res.abort_code != 0, "abort-code", "aborted with code 0"); return; }
      for (int r = 0; r < n; r++) { VP_CHECK(o[r].built, "built", "rank ", r, " got no engine although a usable configuration exists: ", res.why()); VP_CHECK(o[r].rank == r && o[r].size == n, "ranks", "rank ", o[r].rank, " of ", o[r].size, " reported on rank ", r, " of ", n); VP_CHECK(o[r].spr == (total + n - 1) / n, "samples-per-rank", o[r].spr, " samples per rank for ", total, " samples on ", n, " ranks"); }
      for (int r = 0; r < n; r++) { if (ok[r]) VP_CHECK(o[r].c1 == start[r], "kept", "healthy rank ", r, " lost its configuration"); else { bool from = false; for (int q = 0; q < n; q++) from |= ok[q] && o[r].c1 == start[q]; VP_CHECK(from, "rescued", "rank ", r, " was unusable and ended with a configuration no healthy rank holds"); } held[r] = o[r].c1; }
      auto norm = [&](int stage, auto cf, auto am, auto f, auto spread) { double mx = 0; for (int r = 0; r < n; r++) mx = std::max(mx, (double)std::abs(value(cf(o[r])))); double want = std::pow(1.0 / mx, 1.0 / N);
        for (int r = 0; r < n; r++) { VP_CHECK(spread(o[r]) < 1e-9, "uniform-scale", "stage ", stage, ": the tensors on rank ", r, " are not all scaled by one factor"); VP_CHECK(std::abs(f(o[r]) / want - 1) < 1e-9, "scale", "stage ", stage, ": state on rank ", r, " scaled by ", f(o[r]), " per site, expected ", want); T a = value(cf(o[r])) / mx; VP_CHECK(std::abs(am(o[r]) - a) < 1e-9 * std::abs(a), "amplitude", "stage ", stage, ": rank ", r, " holds amplitude ", am(o[r]), ", its configuration has ", a); } };
      norm(1, [](Obs &b) { return b.c1; }, [](Obs &b) { return b.a1; }, [](Obs &b) { return b.f1; }, [](Obs &b) { return b.spread1; });
      for (int r = 0; r < n; r++) VP_CHECK(o[r].calls1 == 0, "early-sweep", "sweeps before the warm-up");
      // warm-up
      double mx1 = 0; for (int r = 0; r < n; r++) mx1 = std::max(mx1, (double)std::abs(value(held[r]))); bool abort2 = false;
      std::vector<std::string> end(n); for (int r = 0; r < n; r++) { bool active = !ok[r] || !((warmed >> r) & 1); end[r] = active && sweeps && after[r] >= 0 ? conf(after[r], r + 5) : held[r]; double a = std::abs(value(end[r])) / mx1; abort2 |= !(a > rp.amplitude_min_threshold && a < rp.amplitude_max_threshold); }
      if (abort2) { VP_CHECK(res.aborted && !res.deadlock && !res.mismatch, "abort-after-warm-up", "an unusable amplitude after the warm-up did not abort the job: ", res.why()); return; }
      VP_CHECK(res.ok(), "collectives", res.why());
      for (int r = 0; r < n; r++) { bool active = !ok[r] || !((warmed >> r) & 1); VP_CHECK(o[r].warmed && o[r].ret == 0, "warm-up-result", "rank ", r, " WarmUp returned ", o[r].ret); VP_CHECK(o[r].calls2 == (active ? sweeps : 0), "warm-up-sweeps", "rank ", r, ok[r] ? "" : " (rescued)", " performed ", o[r].calls2, " warm-up sweeps, expected ", active ? sweeps : 0); VP_CHECK(o[r].c2 == end[r], "warm-up-config", "rank ", r, " holds another configuration than its sweeps left"); }
      norm(2, [](Obs &b) { return b.c2; }, [](Obs &b) { return b.a2; }, [](Obs &b) { return b.f2; }, [](Obs &b) { return b.spread2; });
      vp::outcome(vp::cat(what, n)); };
    if (n == 1 || !all_orders) { auto res = run_ranks(n, body); check(res, true); } else sim::explore(n, body, check);
    vp::S().states++;
  }
};
template <class B> void patterns(B &b, int n, const std::vector<int> &kinds, const std::vector<ConfigurationRescueParams> &rps, bool warm_masks, size_t sweeps, bool temporary) {
  std::vector<int> k(n, 0); std::vector<int> same(n, -1);
  std::function<void(int)> go = [&](int i) { if (i == n) { for (auto &rp : rps) for (unsigned w = 0; w < (1u << n); w++) { if (!warm_masks && w && w + 1 != (1u << n)) continue; b.run(k, rp, w, same, sweeps, 7, temporary); } return; } for (int x : kinds) { k[i] = x; go(i + 1); } }; go(0);
}
VP_MAIN([] {
  bool th = vp::thorough(); vp::S().hang_s = 300; qlten::vp_poison = POISON;
  ConfigurationRescueParams def, off, strict, soff; off.enabled = false; strict.amplitude_min_threshold = 1e-20; strict.amplitude_max_threshold = 1e20; soff = strict; soff.enabled = false;
  std::vector<ConfigurationRescueParams> all{def, off, strict, soff}; std::vector<int> every{A, B, Cc, TINY, HUGE_, ZERO, FAIL, NAN_};
  Bench<BMPSContractor> b(2, 2, false);
  patterns(b, 1, every, all, true, 3, false); patterns(b, 2, every, all, true, 2, false); patterns(b, 3, every, all, false, 1, false); patterns(b, 4, th ? every : std::vector<int>{B, Cc, TINY, FAIL}, th ? std::vector{strict, soff, def} : std::vector{strict, soff}, false, 1, false);
  if (th) patterns(b, 5, {A, Cc, TINY, FAIL}, {strict, soff}, false, 1, false);
  patterns(b, 1, {A, TINY}, all, true, 0, true); patterns(b, 2, {A, B, TINY, FAIL}, {strict}, true, 1, true);
  // where the warm-up ends
  for (int n = 1; n <= (th ? 4 : 3); n++) { std::vector<int> a(n); std::function<void(int)> go = [&](int i) { if (i == n) { for (unsigned w : {0u, (1u << n) - 1}) for (int bad = 0; bad < (n > 1 ? 2 : 1); bad++) for (size_t sw : {0, 1, 3}) { std::vector<int> k(n, A); k[n - 1] = bad ? TINY : B; b.run(k, strict, w, a, sw, 5, false); } return; } for (int x : {-1, (int)A, (int)B, (int)Cc, (int)TINY, (int)ZERO}) { a[i] = x; go(i + 1); } }; go(0); }
  // samples per rank
  for (int n = 1; n <= 5; n++) for (size_t total = 1; total <= 12; total++) { std::vector<int> k(n, A), same(n, -1); b.run(k, def, 0, same, 0, total, false, false); }
  { Bench<BMPSContractor> w(3, 2, false); patterns(w, 1, {A, Cc, TINY, HUGE_, ZERO, FAIL}, all, true, 1, false); patterns(w, 2, {A, Cc, TINY, HUGE_, ZERO, FAIL}, all, false, 1, false); }
  { Bench<TRGContractor> p(2, 2, true); patterns(p, 1, {A, Cc, TINY, ZERO}, all, true, 1, false); patterns(p, 2, {A, Cc, TINY, ZERO, FAIL}, all, false, 1, false); patterns(p, 3, {A, Cc, TINY, ZERO, FAIL}, {strict, soff}, false, 1, false); }
  vp::sample("start kinds: three good magnitudes, below/above the thresholds, zero, NaN, failing contraction; every assignment to ranks");
})
