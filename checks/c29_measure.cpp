// C29: the measurement executor for every assignment of sample streams to ranks: registry, error bars, histogram, every dumped file, early stop, replica test.
#include "engine_util.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h"
#include <csignal>
#include <filesystem>
#include <sstream>
namespace fs = std::filesystem;
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
static std::string base;
static Lat lat(size_t R, size_t C, int kind, bool pbc) { return Lat{R, C, 2, pbc, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (r + 2 * c + kind) % 3); }}; }
using Obs = std::map<std::string, std::vector<T>>;
// a solver whose observables are simple functions of the configuration; shape selects what it emits, shuffle makes the order of emission depend on the configuration
struct Synth : ModelMeasurementSolver<Synth> {
  int shape = 1; bool shuffle = false; int *stop_at = nullptr; int sig = SIGTERM; size_t seen = 0;
  static Obs values(const std::string &c, int shape) { double x = 1, n = 0; for (char v : c) { x = 1.5 * x + v; n += v; } Obs o; auto z = [&](double a, double b) { return su::val<T>(a, b); };
    o["energy"] = {z(x, n / 3)}; if (shape & 1) { std::vector<T> m; for (size_t i = 0; i < c.size(); i++) m.push_back(z(c[i] + x * i, -x)); o["spin_z"] = m; } if (shape & 2) o["pairs"] = {z(n, x), z(x * x / 7, 0), z(-1 / x, n)}; if (shape & 4) for (int k = 0; k < 6; k++) o[vp::cat("o", (k * 5) % 7)] = std::vector<T>(k + 1, z(x + k, k - n)); if (shape & 8) o["nothing"] = {}; return o; }
  std::vector<ObservableMeta> DescribeObservables(size_t ly, size_t lx) const { std::vector<ObservableMeta> m{{"energy", "e", {}, {}}}; if (shape & 1) m.push_back({"spin_z", "matrix", {ly, lx}, {"y", "x"}}); if (shape & 2) m.push_back({"pairs", "vector", {3}, {"pair_packed_upper_tri"}}); return m; }
  template <class E, class Q, class W> ObservableMap<E> EvaluateObservables(const SplitIndexTPS<E, Q> *, W *w) { auto c = conf_str(w->config); auto v = values(c, shape); std::vector<std::string> keys; for (auto &kv : v) keys.push_back(kv.first); size_t h = 0; for (char x : c) h = h * 3 + x; if (shuffle) for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[(h * 7 + i * 5) % i]);
    ObservableMap<E> o; for (auto &k : keys) o[k] = v[k]; if (stop_at && (int)seen == *stop_at) std::raise(sig); seen++; return o; }
  template <class E, class Q, class W> PsiSummary<E> EvaluatePsiSummary(const SplitIndexTPS<E, Q> *, W *w) const { return {psi(conf_str(w->config)), rel(conf_str(w->config))}; }
  static T psi(const std::string &c) { double x = 1; for (char v : c) x = 1.25 * x + v; return su::val<T>(x, -x / 2); } static double rel(const std::string &c) { return 0.5 * c[0] + 0.25 * c[1]; }
};
static bool near(T a, T b, double tol = 1e-11) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }
static bool parse(std::istream &i, std::vector<std::vector<std::string>> &rows) { std::string l; while (std::getline(i, l)) { std::vector<std::string> f; std::string cur; int d = 0; for (char ch : l) { if (ch == '(') d++; if (ch == ')') d--; if (ch == ',' && !d) { f.push_back(cur); cur.clear(); } else cur += ch; } f.push_back(cur); rows.push_back(f); } return true; }
static bool rd(const std::string &p, std::vector<std::vector<std::string>> &rows) { std::ifstream f(p); if (!f) return false; return parse(f, rows); }
static T num(const std::string &s) { if constexpr (std::is_same_v<T, double>) return std::strtod(s.c_str(), nullptr); else { std::istringstream i(s); T v; i >> v; VP_CHECK((bool)i, "csv", "unreadable value ", s); return v; } }
template <template <class, class> class CT, class M> struct Bench {
  Sys &y; M model; std::function<Obs(const std::string &)> ref; bool psi_exact; std::string name; // psi_exact: psi.csv must hold the amplitude itself
  using Me = MCPEPSMeasurer<T, QN, Scripted, M, CT>;
  void run(const std::vector<std::vector<std::string>> &smp, const std::vector<size_t> &particles, bool dump_config, int stop_at, int stop_rank, size_t between, bool all_orders) {
    if (!mine()) return; int n = smp.size(); size_t s = smp[0].size(), took = stop_at < 0 ? s : stop_at; // stop_at: number of samples every rank takes before the stop
    std::string what = vp::cat(name, " ", y.name, " ranks ", n, " stop ", stop_at == -1 ? std::string("no") : vp::cat(stop_at, " on rank ", stop_rank), " between ", between, " particles ", particles.size(), " samples"); for (auto &v : smp) { what += " |"; for (auto &c : v) what += " " + cstr(c); } vp::begin_case(what);
    std::string dir = base + "/d"; std::vector<Script> sc(n); struct R1 { std::map<std::string, std::pair<std::vector<T>, std::vector<double>>> reg; bool early = false, late = false, done = false; T e; double ee = 0; std::string last; }; std::vector<R1> out(n); int trig = stop_at - 1;
    auto body = [&](int r) { out[r] = R1(); sc[r] = Script(); sc[r].C = y.L.C; for (size_t k = 0; k < s; k++) for (size_t b = 0; b < between; b++) { std::string c = smp[r][k]; if (b + 1 < between) for (auto &x : c) x = 1 - x; sc[r].stream.push_back(c); sc[r].rates.push_back({0.5, 0.25}); }
      MonteCarloParams mp(n * s - (n > 1 ? 1 : 0), 0, between, y.conf(smp[r][0]), true, dump_config ? dir + "/cfg/final" : ""); MCMeasurementParams p(mp, PEPSParams(exact_params<CT>()), dir + "/out"); p.runtime_params.psi_consistency.enabled = false; if (particles.size()) { p.particle_number_distribution.enabled = true; p.particle_number_distribution.particles_per_state = particles; }
      M m(model); if constexpr (std::is_same_v<M, Synth>) if (stop_at > 0 && r == stop_rank) m.stop_at = &trig;
      if (r == 0) MPISignalGuard::Reset(); MPI_Comm comm = MPI_COMM_WORLD; Me me(y.s, p, comm, m, Scripted{&sc[r]}); *(volatile MPI_Comm *)&comm = MPI_COMM_NULL; out[r].early = me.GetEnergyEstimate().has_value(); if (stop_at == 0 && r == stop_rank) std::raise(SIGINT);
      me.Execute(); for (auto &kv : me.ObservableRegistry()) out[r].reg[kv.first] = kv.second; auto est = me.GetEnergyEstimate(); out[r].late = est.has_value(); if (est) { out[r].e = est->energy; out[r].ee = est->stderr; auto [e2, s2] = me.OutputEnergy(); VP_CHECK(e2 == est->energy && s2 == est->stderr, "energy-report", "OutputEnergy and GetEnergyEstimate disagree"); } out[r].last = conf_str(me.GetCurrentConfiguration()); out[r].done = true; };
    auto check = [&](const sim::Result &rr, bool) {
      MPISignalGuard::Reset(); VP_CHECK(rr.ok(), "failed", rr.why());
      std::vector<Obs> mean(n); Obs tot; std::map<std::string, std::vector<double>> err; size_t maxp = particles.empty() ? 0 : *std::max_element(particles.begin(), particles.end()), bins = y.L.sites() * maxp + 1;
      double mx = 0; for (int r = 0; r < n; r++) mx = std::max(mx, (double)std::abs(y.value(smp[r][0]))); // SpSm_cross is documented as an overlap still to be normalised: it carries the scale of the engine's normalised state
      auto count = [&](const std::string &c) { size_t k = 0; for (char x : c) k += particles[x]; return k; };
      for (int r = 0; r < n; r++) for (size_t k = 0; k < took; k++) { auto o = ref(smp[r][k]); if (o.count("SpSm_cross")) { auto &v = o["SpSm_cross"]; for (size_t q = 4; q < v.size(); q += 5) v[q] /= mx; } if (particles.size()) { std::vector<T> h(bins, T(0)); h[count(smp[r][k])] = T(1); o["particle_number_distribution"] = h; } for (auto &kv : o) { auto &a = mean[r][kv.first]; a.resize(kv.second.size()); for (size_t q = 0; q < a.size(); q++) a[q] += kv.second[q] / double(took); } }
      for (int r = 0; r < n; r++) for (auto &kv : mean[r]) { auto &a = tot[kv.first]; a.resize(kv.second.size()); for (size_t q = 0; q < a.size(); q++) a[q] += kv.second[q] / double(n); }
      for (auto &kv : tot) { auto &e = err[kv.first]; e.assign(kv.second.size(), 0.0); if (n > 1) for (size_t q = 0; q < e.size(); q++) { for (int r = 0; r < n; r++) e[q] += std::norm(mean[r][kv.first][q] - kv.second[q]); e[q] = std::sqrt(e[q] / n / (n - 1)); } }
      // registry on the master
      VP_CHECK(out[0].reg.size() == tot.size(), "registry-keys", out[0].reg.size(), " observables measured, expected ", tot.size());
      for (auto &kv : tot) { auto it = out[0].reg.find(kv.first); VP_CHECK(it != out[0].reg.end(), "registry-keys", kv.first, " is missing"); VP_CHECK(it->second.first.size() == kv.second.size(), "registry-size", kv.first, " has ", it->second.first.size(), " entries"); for (size_t q = 0; q < kv.second.size(); q++) { VP_CHECK(near(it->second.first[q], kv.second[q], 1e-8), "mean", "mean of ", kv.first, "[", q, "] is ", it->second.first[q], ", the samples give ", kv.second[q]); if (n > 1) VP_CHECK(it->second.second.size() == kv.second.size() && std::abs(it->second.second[q] - err[kv.first][q]) <= 1e-7 * (1 + std::abs(kv.second[q])), "stderr", "standard error of ", kv.first, "[", q, "] is ", it->second.second.size() > q ? it->second.second[q] : -1, ", the ranks give ", err[kv.first][q]); } vp::S().evaluations++; }
      for (int r = 0; r < n; r++) { VP_CHECK(!out[r].early, "early-energy", "an energy is reported before the measurement ran"); VP_CHECK(out[r].done, "finish", "rank ", r, " did not finish"); if (took) VP_CHECK(out[r].last == smp[r][took - 1], "config-now", "rank ", r, " ends in another configuration"); }
      VP_CHECK(out[0].late == (took > 0 && tot.count("energy")), "energy-report", "energy estimate ", out[0].late ? "present" : "absent"); if (out[0].late) { VP_CHECK(near(out[0].e, tot["energy"][0], 1e-8), "energy-report", "reported energy ", out[0].e, ", measured ", tot["energy"][0]); VP_CHECK(std::abs(out[0].ee - err["energy"][0]) <= 1e-7 * (1 + std::abs(tot["energy"][0])), "energy-report", "reported energy error ", out[0].ee); }
      // files
      std::string o = dir + "/out/"; std::set<std::string> known{"metadata.txt"};
      for (auto &kv : tot) { std::vector<std::vector<std::string>> a, b; bool flat = rd(o + "stats/" + kv.first + ".csv", a), mat = rd(o + "stats/" + kv.first + "_mean.csv", b); VP_CHECK(flat != mat, "file-layout", "statistics of ", kv.first, flat ? " written twice" : " not written"); std::vector<T> v; std::vector<double> e;
        if (flat) { VP_CHECK(a.size() == kv.second.size() + 1 && a[0].size() == 3 && a[0][0] == "index", "file-rows", kv.first, ".csv has ", a.size(), " lines"); for (size_t k = 1; k < a.size(); k++) { VP_CHECK(a[k].size() == 3 && a[k][0] == vp::cat(k - 1), "file-rows", kv.first, ".csv line ", k); v.push_back(num(a[k][1])); e.push_back(std::strtod(a[k][2].c_str(), nullptr)); } }
        else { std::vector<std::vector<std::string>> c; VP_CHECK(rd(o + "stats/" + kv.first + "_stderr.csv", c), "file-layout", "no error file for ", kv.first); VP_CHECK(b.size() == c.size() && b.size() > 0, "file-rows", kv.first, " mean and error files differ in rows"); for (size_t k = 0; k < b.size(); k++) { VP_CHECK(b[k].size() == b[0].size() && c[k].size() == b[0].size(), "file-rows", kv.first, " has ragged rows"); for (auto &x : b[k]) v.push_back(num(x)); for (auto &x : c[k]) e.push_back(std::strtod(x.c_str(), nullptr)); }
          if (kv.first == "spin_z" || kv.first == "charge" || kv.first == "sigma_x") VP_CHECK(b.size() == y.L.R && b[0].size() == y.L.C, "file-rows", kv.first, " is written as ", b.size(), "x", b[0].size()); if (kv.first == "bond_energy_h") VP_CHECK(b.size() == y.L.R, "file-rows", kv.first, " has ", b.size(), " rows"); if (kv.first == "bond_energy_v") VP_CHECK(b[0].size() == y.L.C, "file-rows", kv.first, " has ", b[0].size(), " columns"); }
        VP_CHECK(v.size() == kv.second.size(), "file-rows", kv.first, " file holds ", v.size(), " values, measured ", kv.second.size()); for (size_t q = 0; q < v.size(); q++) { T want = kv.first == "particle_number_distribution" ? T(std::real(kv.second[q])) : kv.second[q]; VP_CHECK(near(v[q], want, 1e-8), "file-mean", "file holds mean ", v[q], " for ", kv.first, "[", q, "], measured ", want); VP_CHECK(std::abs(e[q] - err[kv.first][q]) <= 1e-7 * (1 + std::abs(want)), "file-stderr", "file holds error ", e[q], " for ", kv.first, "[", q, "], measured ", err[kv.first][q]); } }
      std::map<std::string, std::string> md; { std::ifstream f(o + "metadata.txt"); VP_CHECK((bool)f, "metadata", "metadata.txt not written"); std::string l; while (std::getline(f, l)) { auto p = l.find(' '); if (p != std::string::npos) md[l.substr(0, p)] = l.substr(p + 1); } }
      auto meta = [&](const char *k, const std::string &v) { VP_CHECK(md.count(k) && md[k] == v, "metadata", k, " is ", md.count(k) ? md[k] : "missing", ", expected ", v); };
      meta("total_samples_requested", vp::cat(n * s - (n > 1 ? 1 : 0))); meta("samples_per_rank", vp::cat(s)); meta("samples_scheduled_total", vp::cat(n * s)); meta("samples_collected_master", vp::cat(took)); meta("samples_collected_total", vp::cat(n * took)); meta("mpi_size", vp::cat(n)); meta("lx", vp::cat(y.L.C)); meta("ly", vp::cat(y.L.R)); meta("sweeps_between_samples", vp::cat(between)); meta("boundary_condition", y.L.pbc ? "Periodic" : "Open");
      { std::vector<std::vector<std::string>> a; VP_CHECK(rd(o + "samples/psi.csv", a) && a.size() == took + 1, "psi-file", "psi.csv has ", a.size(), " lines for ", took, " samples"); for (size_t k = 0; k < took && psi_exact; k++) { VP_CHECK(a[k + 1].size() == 4 && a[k + 1][0] == vp::cat(k), "psi-file", "psi.csv line ", k + 1); if constexpr (std::is_same_v<M, Synth>) { T v = su::val<T>(std::stod(a[k + 1][1]), std::stod(a[k + 1][2])); VP_CHECK(near(v, Synth::psi(smp[0][k]), 1e-5) && near(T(std::stod(a[k + 1][3])), T(Synth::rel(smp[0][k])), 1e-5), "psi-file", "psi.csv line ", k + 1, " holds another sample's value"); } } }
      if (particles.size()) for (int r = 0; r < n; r++) { std::vector<std::vector<std::string>> a; VP_CHECK(rd(vp::cat(o, "samples/particle_number_rank", r, ".csv"), a) && a.size() == took + 1, "particle-file", "particle numbers of rank ", r, ": ", a.size(), " lines for ", took, " samples"); for (size_t k = 0; k < took; k++) VP_CHECK(a[k + 1].size() == 2 && a[k + 1][0] == vp::cat(k) && a[k + 1][1] == vp::cat(count(smp[r][k])), "particle-file", "rank ", r, " sample ", k, " is recorded with ", a[k + 1].size() > 1 ? a[k + 1][1] : "", " particles, has ", count(smp[r][k])); }
      if (dump_config) for (int r = 0; r < n; r++) { Configuration c(y.L.R, y.L.C); VP_CHECK(c.Load(dir + "/cfg/final", r), "config-file", "the configuration of rank ", r, " cannot be read back"); VP_CHECK(conf_str(c) == (took ? smp[r][took - 1] : smp[r][0]), "config-file", "the dumped configuration of rank ", r, " is not its last one"); }
      vp::rm_scratch_tree(dir); vp::outcome(what); };
    vp::rm_scratch_tree(dir); if (n == 1 || !all_orders) { auto rr = run_ranks(n, body); check(rr, true); } else sim::explore(n, body, check); vp::S().states++;
  }
  void all(int n, size_t s, const std::vector<std::string> &alpha, int flavour, bool orders) {
    std::vector<size_t> ix(n * s, 0); long t = flavour; while (true) { std::vector<std::vector<std::string>> smp(n, std::vector<std::string>(s)); for (size_t q = 0; q < ix.size(); q++) smp[q / s][q % s] = alpha[ix[q]]; t++; run(smp, t % 3 == 0 ? std::vector<size_t>{} : t % 3 == 1 ? std::vector<size_t>{0, 1} : std::vector<size_t>{2, 1}, t % 2, -1, 0, 1 + t % 2, orders); size_t q = 0; for (; q < ix.size(); q++) { if (++ix[q] < alpha.size()) break; ix[q] = 0; } if (q == ix.size()) break; }
  }
};
static void replica(Sys &y, const std::vector<std::string> &alpha, int n, size_t s, int salt) {
  if (!mine()) return; vp::begin_case(vp::cat("replica test ", n, " ranks ", s, " samples variant ", salt)); std::vector<std::vector<std::string>> smp(n, std::vector<std::string>(s)); for (int r = 0; r < n; r++) for (size_t k = 0; k < s; k++) smp[r][k] = alpha[(salt + k * (r + 1) + r * r + k * k) % alpha.size()];
  std::vector<Script> sc(n); std::vector<std::vector<std::pair<std::string, std::string>>> seen(n); using Me = MCPEPSMeasurer<T, QN, Scripted, Synth, BMPSContractor>; std::vector<std::string> first(n);
  auto body = [&](int r) { sc[r] = Script(); sc[r].C = y.L.C; sc[r].stream = smp[r]; sc[r].rates.assign(s, {0.5}); seen[r].clear(); MonteCarloParams mp(n * s, 0, 1, y.conf(alpha[r % alpha.size()]), true); MCMeasurementParams p(mp, PEPSParams(exact_params<BMPSContractor>()), base + "/d"); MPI_Comm comm = MPI_COMM_WORLD; Me me(y.s, p, comm, Synth(), Scripted{&sc[r]}); me.ReplicaTest([&](const Configuration &a, const Configuration &b) { seen[r].push_back({conf_str(a), conf_str(b)}); return 0.5; }); };
  auto check = [&](const sim::Result &rr, bool) { VP_CHECK(rr.ok(), "replica", rr.why()); for (int r = 0; r < n; r++) { VP_CHECK(seen[r].size() == s, "replica", "rank ", r, " compared ", seen[r].size(), " times for ", s, " samples"); for (size_t k = 0; k < s; k++) VP_CHECK(seen[r][k].first == smp[r][k] && seen[r][k].second == smp[(r + n - 1) % n][k], "replica", "rank ", r, " sweep ", k, " compares the wrong configurations"); vp::S().evaluations++; } };
  if (n == 1) { auto rr = run_ranks(1, body); check(rr, true); } else sim::explore(n, body, check); vp::S().states++; vp::outcome(vp::cat("replica", n, s, salt));
}
template <template <class, class> class CT, class M> void model(Sys &y, const M &m, const char *name, std::vector<std::string> alpha) {
  std::map<std::string, Obs> memo; auto ref = [&](const std::string &c) { auto it = memo.find(c); if (it != memo.end()) return it->second; TPSWaveFunctionComponent<T, QN, qlpeps::NoDress, CT> w(y.s, y.conf(c), exact_params<CT>()); M mm(m); Obs o; for (auto &kv : mm.template EvaluateObservables<T, QN>(&y.s, &w)) o[kv.first] = kv.second; return memo[c] = o; };
  Bench<CT, M> b{y, m, ref, false, name}; std::vector<std::string> a2(alpha.begin(), alpha.begin() + 2); b.all(1, 1, alpha, 0, true); b.all(1, 2, alpha, 1, true); b.all(2, 1, alpha, 0, true); b.all(2, 2, a2, 1, false); b.all(3, 1, a2, 2, false);
}
static std::vector<std::string> usable(Sys &a, std::vector<size_t> bits, size_t want) { std::vector<std::string> o; for (auto x : bits) { std::string c(a.L.sites(), 0); for (size_t i = 0; i < c.size(); i++) c[i] = x >> i & 1; if (std::abs(a.value(c)) > 1e-3 * a.typ && o.size() < want) o.push_back(c); } return o; }
static std::vector<size_t> half(size_t N) { std::vector<size_t> o; for (size_t b = 0; b < (1u << N); b++) if ((size_t)__builtin_popcountll(b) == N / 2) o.push_back(b); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[(i * 7 + 3) % i]); return o; }
VP_MAIN([] {
  bool th = vp::thorough(); vp::S().hang_s = 300; base = vp::scratch(); VP_CHECK(chdir(base.c_str()) == 0, "scratch", "cannot enter the scratch directory");
  { Sys y(lat(2, 2, 0, false), 5, "2x2"); auto al = usable(y, {6, 9, 3, 1, 14, 0}, 4), a3 = std::vector<std::string>(al.begin(), al.begin() + 3), a2 = std::vector<std::string>(al.begin(), al.begin() + 2);
    for (int shape = 0; shape < 16; shape++) for (int sh = 0; sh < 2; sh++) { Synth m; m.shape = shape; m.shuffle = sh; Bench<BMPSContractor, Synth> b{y, m, [=](const std::string &c) { return Synth::values(c, shape); }, true, vp::cat("synthetic ", shape, sh ? " shuffled" : "")};
      b.all(2, 1, al, shape, shape < 8); b.all(1, 2, a3, sh, false); if (shape == 7 || shape == 15 || th) { b.all(2, 2, a3, sh, !sh); b.all(3, 1, al, 1, sh); b.all(2, 3, a2, 2, false); b.all(4, 1, a2, 0, true); b.all(1, 4, a3, 0, false); if (th) { b.all(3, 2, a3, 1, false); b.all(2, 3, a3, 1, false); b.all(5, 1, a2, 0, true); b.all(1, 6, a2, 0, false); } }
      if (shape == 7) for (int n = 1; n <= 3; n++) for (size_t s = 1; s <= 4; s++) for (int stop = 0; stop <= (int)s; stop++) for (int r = 0; r < n; r++) for (int v = 0; v < 3; v++) { std::vector<std::vector<std::string>> smp(n, std::vector<std::string>(s)); for (int q = 0; q < n; q++) for (size_t k = 0; k < s; k++) smp[q][k] = al[(q + k * (v + 1)) % al.size()]; b.run(smp, {0, 1}, true, stop, r, 1, v == 0); }
      if (shape == 3) for (size_t s = 5; s <= 25; s++) for (int n = 1; n <= 2; n++) { std::vector<std::vector<std::string>> smp(n, std::vector<std::string>(s)); for (int q = 0; q < n; q++) for (size_t k = 0; k < s; k++) smp[q][k] = al[(q + k * k + s) % al.size()]; b.run(smp, {1, 3}, true, -1, 0, 1, false); } }
    for (int n = 1; n <= 4; n++) for (size_t s = 1; s <= 12; s++) for (int v = 0; v < 4; v++) replica(y, al, n, s, v);
    if (mine()) for (size_t len = 0; len < 2; len++) { vp::begin_case("particles_per_state too short"); bool threw = false; auto rr = run_ranks(1, [&](int) { Script sc; sc.C = 2; MonteCarloParams mp(1, 0, 1, y.conf(al[0]), true); MCMeasurementParams p(mp, PEPSParams(exact_params<BMPSContractor>()), base + "/d"); p.particle_number_distribution.enabled = true; p.particle_number_distribution.particles_per_state = std::vector<size_t>(len, 1); MPI_Comm c = MPI_COMM_WORLD; try { MCPEPSMeasurer<T, QN, Scripted, Synth, BMPSContractor> me(y.s, p, c, Synth(), Scripted{&sc}); } catch (const std::invalid_argument &) { threw = true; } }); VP_CHECK(rr.ok() && threw, "particle-params", "a table of ", len, " particle numbers was accepted for two local states"); }
  }
  std::vector<std::array<size_t, 3>> ls = {{2, 2, 0}, {2, 3, 1}, {3, 2, 2}}; if (th) { ls.push_back({3, 3, 1}); ls.push_back({2, 4, 1}); }
  for (auto l : ls) { Sys y(lat(l[0], l[1], l[2], false), 5 + l[0], vp::cat(l[0], "x", l[1])); auto al = usable(y, half(l[0] * l[1]), 3);
    model<BMPSContractor>(y, SquareSpinOneHalfXXZModelOBC(0.7, -1.3, 0.45), "XXZ", al); { SquareSpinOneHalfXXZModelOBC m(0.7, -1.3, 0.45); m.SetEnableStructureFactor(true); model<BMPSContractor>(y, m, "XXZ structure factor", al); }
    model<BMPSContractor>(y, SquareSpinOneHalfJ1J2XXZModelOBC(0.7, -1.3, 0.4, 0.9, -0.35), "J1J2", al); model<BMPSContractor>(y, TransverseFieldIsingSquareOBC(1.7), "TFIM", al); model<BMPSContractor>(y, SpinOneHalfTriHeisenbergSqrPEPS(), "triangular", al); { SpinOneHalfTriHeisenbergSqrPEPS m; m.SetEnableStructureFactor(true); model<BMPSContractor>(y, m, "triangular structure factor", al); } model<BMPSContractor>(y, SpinOneHalfTriJ1J2HeisenbergSqrPEPS(0.3), "triangular J1J2", al); }
  { Sys y(lat(2, 2, 0, true), 5, "2x2 PBC"); auto al = usable(y, half(4), 3); model<TRGContractor>(y, HeisenbergSquarePBC(0.7, -1.3), "Heisenberg PBC", al); model<TRGContractor>(y, SquareSpinOneHalfJ1J2XXZModelPBC(0.7, -1.3, 0.4, 0.9, 0), "J1J2 PBC", al); model<TRGContractor>(y, TransverseFieldIsingSquarePBC(1.7), "TFIM PBC", al); }
  vp::sample("sample streams over ranks; synthetic observable sets emitted in configuration-dependent order; every spin model; early stop at every sample; replica test");
  VP_CHECK(chdir("/") == 0, "scratch", "chdir"); vp::rm_scratch_tree(base);
})
