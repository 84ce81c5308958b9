// C32: Monte Carlo energy/gradient estimators for every assignment of sample streams to ranks, against the estimator formulas on exact amplitudes.
#include "engine_util.h"
#include "qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
static Lat lat(size_t R, size_t C, int kind, bool pbc) { return Lat{R, C, 2, pbc, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (r + 2 * c + kind) % 3); }}; }
static const double TOL = 1e-8;
struct Est { T e; double err = 0; bool err_inf = false; double mag = 1; std::vector<std::vector<std::vector<T>>> g, o; std::vector<std::vector<T>> es; };
// estimators over samples[rank][k], each sample counted once; the reported energy is the mean over complete bins of floor(sqrt(N)) samples per rank, as documented
static Est estimate(Sys &y, const Ham &H, const std::vector<std::vector<std::string>> &smp) {
  Est x; size_t n = smp.size(), s = smp[0].size(), N = y.L.sites(); x.es.resize(n); std::vector<T> bins; size_t b = std::max<size_t>(1, (size_t)std::sqrt((double)s));
  for (size_t r = 0; r < n; r++) { for (auto &c : smp[r]) { auto w = expect(y, H, c); x.es[r].push_back(w.e); x.mag = std::max(x.mag, w.mag); } for (size_t k = 0; k + b <= s; k += b) { T t(0); for (size_t q = 0; q < b; q++) t += x.es[r][k + q]; bins.push_back(t / double(b)); } }
  x.e = T(0); for (auto v : bins) x.e += v; x.e /= double(bins.size()); double var = 0; for (auto v : bins) var += std::norm(v - x.e); if (bins.size() > 1) x.err = std::sqrt(var / bins.size() / (bins.size() - 1)); else x.err_inf = true;
  x.g.resize(N); x.o.resize(N); double tot = n * s;
  for (size_t i = 0; i < N; i++) { x.g[i].assign(2, std::vector<T>(y.hole(smp[0][0], i).size(), T(0))); x.o[i] = x.g[i]; for (size_t r = 0; r < n; r++) for (size_t k = 0; k < s; k++) { auto &c = smp[r][k]; auto &h = y.hole(c, i); T psi = y.value(c); for (size_t q = 0; q < h.size(); q++) { T o = cj(h[q] / psi) / tot; x.o[i][c[i]][q] += o; x.g[i][c[i]][q] += cj(x.es[r][k]) * o; } } for (size_t p = 0; p < 2; p++) for (size_t q = 0; q < x.g[i][p].size(); q++) x.g[i][p][q] -= cj(x.e) * x.o[i][p][q]; }
  return x;
}
static double top(const std::vector<std::vector<std::vector<T>>> &g) { double m = 0; for (auto &a : g) for (auto &b : a) for (auto &v : b) m = std::max(m, (double)std::abs(v)); return m; }
static void same(Sys &y, const State<T> &got, const std::vector<std::vector<std::vector<T>>> &want, double sc, const char *key, const std::string &nm) {
  VP_CHECK(got.rows() == y.L.R && got.cols() == y.L.C, key, nm, " has the wrong shape");
  for (size_t i = 0; i < want.size(); i++) { VP_CHECK(got(y.at(i)).size() == 2, key, nm, " site ", i, " has ", got(y.at(i)).size(), " components"); for (size_t p = 0; p < 2; p++) { const TenT &t = got(y.at(i))[p]; bool none = t.IsDefault() || t.size() == 0; VP_CHECK(none || t.size() == want[i][p].size(), key, nm, " has the wrong size"); for (size_t q = 0; q < want[i][p].size(); q++) { T v = none ? T(0) : t.GetRawDataPtr()[q]; VP_CHECK(std::abs(v - want[i][p][q]) <= TOL * sc, key, nm, " at site ", i, " component ", p, " entry ", q, " is ", v, ", expected ", want[i][p][q]); } } }
}
template <template <class, class> class CT, class M> struct Bench {
  Sys &y; Sys &z; Ham H; M model; // y: state to evaluate first, z: state evaluated next
  using Eng = MonteCarloEngine<T, QN, Scripted, CT>; using Ev = MCEnergyGradEvaluator<T, QN, Scripted, M, CT>; using Res = typename Ev::Result; using ERes = typename Ev::EnergyOnlyResult;
  // smp[rank][sample]; between = sweeps per sample; plan: sequence of 'g' (Evaluate y), 'G' (Evaluate z), 'e','E' (energy only), 'a' (Evaluate the engine's own state)
  void run(const std::vector<std::vector<std::string>> &smp, size_t between, bool sr, const std::string &plan, int others, bool all_orders) {
    if (!mine()) return; int n = smp.size(); size_t s = smp[0].size(); std::string what = vp::cat(y.name, " ranks ", n, " plan ", plan, " sr ", sr, " between ", between, " samples"); for (auto &v : smp) { what += " |"; for (auto &c : v) what += " " + cstr(c); } vp::begin_case(what);
    State<T> junk = build(tnx::generic<T>(y.L, 99)); std::vector<Script> sc(n); std::vector<std::vector<Res>> res(n); std::vector<std::vector<ERes>> er(n);
    auto rate = [&](int r, size_t k, int j) { return j ? 0.125 * ((k * 3 + r) % 5) : 0.25 * ((k + 2 * r) % 3) + 0.25; };
    auto body = [&](int r) { sc[r] = Script(); sc[r].C = y.L.C; res[r].clear(); er[r].clear();
      for (size_t rep = 0; rep < plan.size(); rep++) for (size_t k = 0; k < s; k++) for (size_t b = 0; b < between; b++) { std::string c = smp[r][k]; if (b + 1 < between) for (auto &ch : c) ch = 1 - ch; sc[r].stream.push_back(c); sc[r].rates.push_back(b + 1 < between ? std::vector<double>{9.0, 9.0} : std::vector<double>{rate(r, k, 0), rate(r, k, 1)}); }
      MonteCarloParams mp(n * s - (n > 1 && s > 1 ? 1 : 0), 0, between, y.conf(smp[r][0]), true); MPI_Comm comm = MPI_COMM_WORLD; Eng e(others == 2 && r ? junk : y.s, mp, PEPSParams(exact_params<CT>()), comm, Scripted{&sc[r]}); M m(model);
      Ev ev(e, m, comm, sr); *(volatile MPI_Comm *)&comm = MPI_COMM_NULL; // the caller's handle may be a temporary
      for (char p : plan) { const State<T> &mineS = r == 0 || others == 0 ? (p == 'g' || p == 'e' ? y.s : z.s) : junk; if (p == 'g' || p == 'G') res[r].push_back(ev.Evaluate(mineS)); else if (p == 'a') res[r].push_back(ev.Evaluate(e.State())); else er[r].push_back(ev.EvaluateEnergyOnly(mineS)); } };
    auto check = [&](const sim::Result &rr, bool) {
      VP_CHECK(rr.ok(), "collectives", rr.why()); size_t ig = 0, ie = 0; Sys *cur = &y;
      for (char p : plan) { if (p == 'g' || p == 'e') cur = &y; if (p == 'G' || p == 'E') cur = &z; Sys &q = *cur; auto w = estimate(q, H, smp); bool grad = p == 'g' || p == 'G' || p == 'a';
        for (int r = 0; r < n; r++) { T e = grad ? res[r][ig].energy : er[r][ie].energy; VP_CHECK(std::abs(e - w.e) <= TOL * w.mag, "energy", "energy on rank ", r, " is ", e, ", the samples give ", w.e); double err = grad ? res[r][ig].energy_error : er[r][ie].energy_error;
          if (r) VP_CHECK(err == 0, "error-elsewhere", "energy error ", err, " on rank ", r); else if (w.err_inf) VP_CHECK(std::isinf(err), "error", "energy error ", err, " from a single bin"); else VP_CHECK(std::abs(err - w.err) <= 1e-6 * w.mag, "error", "energy error ", err, ", the bins give ", w.err);
          auto &ar = grad ? res[r][ig].accept_rates_avg : er[r][ie].accept_rates_avg; VP_CHECK(ar.size() == 2, "accept-rates", ar.size(), " acceptance rates"); for (int j = 0; j < 2; j++) { double a = 0; for (size_t k = 0; k < s; k++) a += rate(r, k, j); VP_CHECK(std::abs(ar[j] - a / s) < 1e-12, "accept-rates", "acceptance rate ", j, " on rank ", r, " is ", ar[j], ", expected ", a / s); } vp::S().evaluations++; }
        if (grad) { double sc_ = std::max(top(w.g), w.mag * top(w.o)); same(q, res[0][ig].gradient, w.g, sc_, "gradient", "gradient"); double nn = 0; for (auto &a : w.g) for (auto &b : a) for (auto &v : b) nn += std::norm(v); VP_CHECK(std::abs(res[0][ig].gradient_norm - nn) <= 1e-6 * std::max(nn, sc_ * sc_), "gradient-norm", "reported ", res[0][ig].gradient_norm, ", gradient has ", nn);
          for (int r = 0; r < n; r++) { auto &R = res[r][ig]; VP_CHECK(R.energy_samples.size() == s, "energy-samples", R.energy_samples.size(), " energy samples on rank ", r, ", took ", s); for (size_t k = 0; k < s; k++) VP_CHECK(std::abs(R.energy_samples[k] - w.es[r][k]) <= TOL * w.mag, "energy-samples", "sample ", k, " of rank ", r, " has energy ", R.energy_samples[k], ", expected ", w.es[r][k]);
            VP_CHECK(R.Ostar_mean.has_value() == sr && R.Ostar_samples.size() == (sr ? s : 0), "sr-buffers", "rank ", r, ": ", R.Ostar_samples.size(), " derivative samples, mean ", R.Ostar_mean.has_value() ? "present" : "absent"); if (!sr) continue; if (r == 0) same(q, *R.Ostar_mean, w.o, std::max(1e-3, top(w.o)), "ostar-mean", "mean derivative");
            for (size_t k = 0; k < s; k++) { auto &c = smp[r][k]; T psi = q.value(c); std::vector<std::vector<std::vector<T>>> o(q.L.sites()); for (size_t i = 0; i < o.size(); i++) { auto &h = q.hole(c, i); o[i].assign(2, std::vector<T>(h.size(), T(0))); for (size_t t = 0; t < h.size(); t++) o[i][c[i]][t] = cj(h[t] / psi); } same(q, R.Ostar_samples[k], o, std::max(1e-3, top(o)), "ostar-sample", vp::cat("derivative sample ", k, " of rank ", r)); } }
          ig++; } else ie++; }
      vp::outcome(vp::cat(what)); };
    if (n == 1 || !all_orders) { auto rr = run_ranks(n, body); check(rr, true); } else sim::explore(n, body, check); vp::S().states++;
  }
  void all(int n, size_t s, const std::vector<std::string> &alpha, size_t between, const std::string &plan, bool both_sr) {
    std::vector<size_t> ix(n * s, 0); while (true) { std::vector<std::vector<std::string>> smp(n, std::vector<std::string>(s)); for (size_t q = 0; q < ix.size(); q++) smp[q / s][q % s] = alpha[ix[q]]; static long t = 0; t++; if (both_sr) { run(smp, between, false, plan, t % 3, true); run(smp, between, true, plan, (t + 1) % 3, true); } else run(smp, between, t & 1, plan, t % 3, true); size_t q = 0; for (; q < ix.size(); q++) { if (++ix[q] < alpha.size()) break; ix[q] = 0; } if (q == ix.size()) break; }
  }
};
static std::vector<std::string> usable(Sys &a, Sys &b, std::vector<size_t> bits, size_t want) { std::vector<std::string> o; for (auto x : bits) { std::string c(a.L.sites(), 0); for (size_t i = 0; i < c.size(); i++) c[i] = x >> i & 1; if (std::abs(a.value(c)) > 1e-3 * a.typ && std::abs(b.value(c)) > 1e-3 * b.typ && o.size() < want) o.push_back(c); } return o; }
template <template <class, class> class CT, class M> void bench(Sys &y, Sys &z, const Ham &H, const M &m, const std::vector<size_t> &order, bool small) {
  bool th = vp::thorough(); Bench<CT, M> b{y, z, H, m}; auto a4 = usable(y, z, order, 4), a2 = std::vector<std::string>(a4.begin(), a4.begin() + 2), a3 = std::vector<std::string>(a4.begin(), a4.begin() + 3);
  for (size_t s = 1; s <= 3; s++) b.all(1, s, a4, 1, "g", true); b.all(2, 1, a4, 1, "g", true); b.all(2, 1, a3, 2, "gEGe", false); b.all(1, 2, a3, 3, "eGga", true); b.all(3, 1, a3, 1, "g", true);
  b.all(2, 2, th ? a4 : a3, 1, "ga", false); if (!small || th) { b.all(1, 4, a3, 1, "gG", true); b.all(2, 3, a2, 1, "g", true); b.all(3, 2, a2, 2, "Ge", false); b.all(4, 1, a3, 1, "gE", false); b.all(2, 2, a2, 2, "EgGa", true); }
  if (th) { b.all(1, 6, a3, 1, "g", false); b.all(2, 4, a2, 1, "gE", true); b.all(3, 2, a3, 1, "g", true); b.all(4, 2, a2, 1, "g", false); b.all(5, 1, a3, 1, "gG", false); }
  for (size_t s = 4; s <= (th ? 40 : 18); s++) for (int n = 1; n <= 3; n++) { std::vector<std::vector<std::string>> smp(n, std::vector<std::string>(s)); for (int r = 0; r < n; r++) for (size_t k = 0; k < s; k++) smp[r][k] = a4[(k * k + 2 * k * r + r + s) % 7 % a4.size()]; b.run(smp, 1, s & 1, "g", (s + n) % 3, false); }
}
VP_MAIN([] {
  vp::S().hang_s = 300;
  { Sys y(lat(2, 2, 0, false), 5, "2x2"), z(lat(2, 2, 0, false), 8, "2x2 other"); bench<BMPSContractor>(y, z, spins(y.L, 0.7, -1.3, 0, 0, 0.45, 0), SquareSpinOneHalfXXZModelOBC(0.7, -1.3, 0.45), {6, 9, 3, 5, 10, 12}, false); bench<BMPSContractor>(y, z, ising(y.L, 1.7), TransverseFieldIsingSquareOBC(1.7), {6, 0, 7, 11, 15, 1, 2, 3}, false); }
  { Sys y(lat(2, 3, 1, false), 5, "2x3"), z(lat(2, 3, 1, false), 8, "2x3 other"); bench<BMPSContractor>(y, z, spins(y.L, 0.7, -1.3, 0.4, 0.9, -0.35, 1), SquareSpinOneHalfJ1J2XXZModelOBC(0.7, -1.3, 0.4, 0.9, -0.35), {11, 21, 42, 7, 14, 28, 56, 3, 12}, true); }
  { Sys y(lat(2, 2, 0, true), 5, "2x2 PBC"), z(lat(2, 2, 0, true), 9, "2x2 PBC other"); bench<TRGContractor>(y, z, spins(y.L, 0.7, -1.3, 0, 0, 0, 0), HeisenbergSquarePBC(0.7, -1.3), {6, 9, 3, 5, 10, 12, 1, 2, 7}, true); }
  vp::sample("all assignments of sample streams to ranks; gradient / energy-only call sequences; state held by the master only");
})
