// C33: the optimisation driver (VMCPEPSOptimizer, VmcOptimize, MonteCarloMeasure): what it reports, returns, broadcasts and writes, for every energy history, rank count, stop point and message order.
#include "engine_util.h"
#include "qlpeps/api/vmc_api.h"
#include <filesystem>
#include <fstream>
#include <sstream>
namespace fs = std::filesystem;
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
static std::string base;
static Lat lat(size_t R, size_t C, int kind, bool pbc) { return Lat{R, C, 2, pbc, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (r + 2 * c + kind) % 3); }}; }
struct Quiet : std::streambuf { std::streambuf *a, *b; Quiet() { a = std::cout.rdbuf(this); b = std::cerr.rdbuf(this); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
using V = std::vector<T>; using St = State<T>;
static V flat(const St &s) { V v; for (size_t r = 0; r < s.rows(); r++) for (size_t c = 0; c < s.cols(); c++) for (auto &t : s({r, c})) for (size_t i = 0; i < t.size(); i++) v.push_back(t.GetRawDataPtr()[i]); return v; }
static bool near(const V &a, const V &b, double tol = 1e-10) { if (a.size() != b.size()) return false; double m = 0; for (auto x : b) m = std::max(m, (double)std::abs(x)); for (size_t i = 0; i < a.size(); i++) if (!(std::abs(a[i] - b[i]) <= tol * m)) return false; return true; }
static bool parallel(const V &a, const V &b) { // the same state up to one positive factor
  if (a.size() != b.size()) return false; double na = 0, nb = 0; for (auto x : a) na += std::norm(x); for (auto x : b) nb += std::norm(x); if (!(na > 0 && nb > 0)) return false; V c(b); double f = std::sqrt(na / nb); for (auto &x : c) x *= f; return near(a, c, 1e-9); }
static St tps(const St &like, const std::function<T(size_t, T)> &f) { St s(like); size_t k = 0; for (size_t r = 0; r < s.rows(); r++) for (size_t c = 0; c < s.cols(); c++) for (auto &t : s({r, c})) for (size_t i = 0; i < t.size(); i++, k++) { T &x = const_cast<T &>(t.GetRawDataPtr()[i]); x = f(k, x); } return s; }
static bool read_csv(const std::string &p, std::vector<std::vector<double>> &rows, std::string &head) { std::ifstream f(p); if (!f || !std::getline(f, head)) return false; std::string l; while (std::getline(f, l)) { std::vector<double> r; std::stringstream s(l); std::string x; while (std::getline(s, x, ',')) r.push_back(std::strtod(x.c_str(), nullptr)); rows.push_back(r); } return true; }
static std::vector<std::string> jsonl(const std::string &p) { std::ifstream f(p); std::vector<std::string> o; std::string l; while (std::getline(f, l)) { std::string k; std::stringstream s(l); std::string x; while (std::getline(s, x, ',')) if (x.find("time") == std::string::npos) k += x + ","; o.push_back(k); } return o; }
static void clear_dir() { for (auto &e : fs::directory_iterator(base)) fs::remove_all(e.path()); }
struct Cb { size_t it; double e, err, g; };
template <template <class, class> class CT, class M> struct Bench {
  Sys &y; M model; std::vector<std::string> confs; // configurations with a usable amplitude
  using Ex = VMCPEPSOptimizer<T, QN, Scripted, M, CT>; using Op = typename Ex::OptimizerT;
  struct Out { V lowest, fin, start; std::vector<T> traj; std::vector<double> err, gn; double mn = 0, cur = 0; std::vector<Cb> cb; std::vector<std::pair<V, double>> low; std::vector<V> seen; bool finished = false; std::string thrown, conf, conf_end; SpikeStatistics sp; size_t calls = 0; };
  struct Plan { int n = 1; std::vector<double> e; std::vector<double> err; size_t runs = 1; std::string name = "tps"; std::string cfgdir; size_t ckpt = 0; size_t stop_at = SIZE_MAX; bool user = true; bool lose = false; int block = 0; bool orders = true; };
  PEPSParams peps() const { return PEPSParams(exact_params<CT>()); }
  double grad(size_t k, size_t i) const { return 1e-3 * (double((i * 7 + k * 5) % 11) - 4.5); }
  // the energies of every evaluation are scripted; the gradient of evaluation k is a fixed tensor list
  void scripted(const Plan &p) {
    if (!mine()) return; std::string what = vp::cat(y.name, " ranks ", p.n, " runs ", p.runs, " name '", p.name, "' config '", p.cfgdir, "' checkpoint ", p.ckpt, " stop ", p.stop_at == SIZE_MAX ? -1 : (long)p.stop_at, " user ", p.user, " blocked ", p.block, " energies"); for (double x : p.e) what += vp::cat(" ", x); vp::begin_case(what);
    std::vector<Out> o(p.n); std::vector<Script> sc(p.n); const double lr = 0.25; size_t len = p.e.size() / p.runs; std::vector<std::vector<std::vector<double>>> mid; std::vector<size_t> mid_at;
    auto body = [&](int r) {
      if (r == 0) { clear_dir(); mid.clear(); mid_at.clear(); if (p.block == 1) std::ofstream("energy") << "x"; if (p.block == 2) std::ofstream("out") << "x"; if (p.block == 3) std::ofstream("tpslowest") << "x"; }
      MPI_Barrier(MPI_COMM_WORLD); o[r] = Out(); sc[r] = Script(); sc[r].C = y.L.C; Out &b = o[r]; b.conf = confs[r % confs.size()];
      OptimizerParams::BaseParams bp(len, 0.0, 0.0, 1000, lr); OptimizerParams op(bp, SGDParams()); if (p.ckpt) { op.checkpoint_params.every_n_steps = p.ckpt; op.checkpoint_params.base_path = "ckpt"; }
      MonteCarloParams mp(4 * p.n, 0, 1, y.conf(b.conf), true, p.cfgdir); VMCPEPSOptimizerParams vp_(op, mp, peps()); vp_.tps_dump_base_name = p.name; vp_.runtime_params.psi_consistency.enabled = false;
      try {
        MPI_Comm comm = MPI_COMM_WORLD; Ex x(vp_, y.s, comm, model, Scripted{&sc[r]}); *(volatile MPI_Comm *)&comm = MPI_COMM_NULL; b.start = flat(x.GetState()); size_t k = 0;
        x.SetEnergyEvaluator([&, r](const St &s) -> std::tuple<T, St, double> { size_t i = k++; if (r == 0) { o[r].seen.push_back(flat(s)); std::vector<std::vector<double>> rows; std::string h; if (p.ckpt && read_csv("energy/energy_trajectory.csv", rows, h)) { mid.push_back(rows); mid_at.push_back(i); } } return {T(p.e[i]), r == 0 ? tps(y.s, [&](size_t q, T) { return T(grad(i, q)); }) : St(y.L.R, y.L.C, 2), r == 0 ? p.err[i] : 0.0}; });
        typename Op::OptimizationCallback cb; if (p.user) { cb.on_iteration = [&](size_t it, double e, double er, double g) { b.cb.push_back({it, e, er, g}); }; cb.on_lowest_state_found = [&](const St &s, double e) { b.low.push_back({flat(s), e}); }; } if (p.stop_at != SIZE_MAX) cb.should_stop = [&](size_t it, double, double) { return it >= p.stop_at; };
        if (p.user || p.stop_at != SIZE_MAX) x.SetOptimizationCallback(cb);
        for (size_t q = 0; q < p.runs; q++) { k = q * len; x.Execute(); VP_CHECK(x.GetStatus() == qlten::FINISH, "status", "rank ", r, " did not finish"); }
        b.finished = true; b.lowest = flat(x.GetLowestState()); b.fin = flat(x.GetState()); VP_CHECK(near(flat(x.GetOptimizedState()), b.fin, 0), "accessors", "two accessors of the final state differ"); b.traj = x.GetEnergyTrajectory(); b.err = x.GetEnergyErrorTrajectory(); b.gn = x.GetGradientNorms(); b.mn = x.GetMinEnergy(); b.cur = x.GetCurrentEnergy(); b.sp = x.GetSpikeStatistics();
        if (p.lose) x.DumpData("again", true);
      } catch (const std::exception &e) { b.thrown = e.what(); if (p.block) ::MPI_Abort(MPI_COMM_WORLD, 1); } };
    auto check = [&](const sim::Result &res, bool) {
      vp::S().evaluations++;
      if (p.block) { VP_CHECK(!res.deadlock && !res.mismatch, "blocked", "ranks are left waiting when the output cannot be written: ", res.why()); VP_CHECK(res.aborted, "blocked", "output could not be written and nothing was reported"); VP_CHECK(!o[0].finished, "blocked", "a run whose output could not be written finished normally"); return; }
      VP_CHECK(res.ok(), "collectives", res.why()); for (int r = 0; r < p.n; r++) VP_CHECK(o[r].finished, "finished", "rank ", r, " failed: ", o[r].thrown);
      Out &m = o[0]; size_t per = std::min(len, p.stop_at == SIZE_MAX ? len : p.stop_at + 1), N = per * p.runs; std::vector<double> e, er; std::vector<size_t> at; for (size_t q = 0; q < p.runs; q++) for (size_t k = 0; k < per; k++) { e.push_back(p.e[q * len + k]); er.push_back(p.err[q * len + k]); at.push_back(q * len + k); }
      VP_CHECK(m.seen.size() == N, "evaluations", m.seen.size(), " evaluations, expected ", N);
      // the evolution of the evaluated states
      V last; size_t best = 0; for (size_t k = 0; k < N; k++) { if (k == 0) VP_CHECK(near(m.seen[0], m.start), "first-state", "the first evaluated state is not the initial one"); else if (k % per == 0) VP_CHECK(parallel(m.seen[k], last), "next-run", "a second run does not continue from the final state of the first"); else VP_CHECK(near(m.seen[k], last), "steps", "state of evaluation ", k, " does not follow from the update before"); last = m.seen[k]; for (size_t i = 0; i < last.size(); i++) last[i] -= lr * grad(at[k], i); if (e[k] < e[best]) best = k; }
      double gn2; auto gnorm = [&](size_t k) { gn2 = 0; for (size_t i = 0; i < last.size(); i++) gn2 += grad(at[k], i) * grad(at[k], i); return std::sqrt(gn2); };
      VP_CHECK(m.traj.size() == N && m.err.size() == N && m.gn.size() == N, "trajectory", "trajectory of ", m.traj.size(), "/", m.err.size(), "/", m.gn.size(), " entries for ", N, " iterations"); for (size_t k = 0; k < N; k++) VP_CHECK(m.traj[k] == T(e[k]) && m.err[k] == er[k] && std::abs(m.gn[k] - gnorm(k)) <= 1e-9 * gnorm(k), "trajectory", "entry ", k, ": ", m.traj[k], " ", m.err[k], " ", m.gn[k], ", expected ", e[k], " ", er[k], " ", gnorm(k));
      VP_CHECK(m.mn == e[best], "minimum", "minimum energy ", m.mn, ", the trajectory has ", e[best]); VP_CHECK(m.cur == e.back(), "current", "current energy ", m.cur);
      for (int r = 0; r < p.n; r++) { bool hit = false; for (size_t k = 0; k < N; k++) hit |= e[k] == e[best] && near(o[r].lowest, m.seen[k]); VP_CHECK(hit && near(o[r].lowest, m.lowest, 0), "lowest-state", "rank ", r, ": the lowest state is not the one evaluated with energy ", e[best]); VP_CHECK(parallel(o[r].fin, last), "final-state", "rank ", r, ": the final state is not the tail of the optimisation"); VP_CHECK(near(o[r].fin, m.fin, 0), "final-state", "rank ", r, " holds another final state than rank 0"); VP_CHECK(near(o[r].lowest, m.lowest, 0), "lowest-state", "rank ", r, " holds another lowest state"); }
      if (p.user) for (int r = 0; r < p.n; r++) { auto &b = o[r]; VP_CHECK(b.cb.size() == N, "callback", "rank ", r, ": the user's iteration callback ran ", b.cb.size(), " times in ", N, " iterations"); for (size_t k = 0; k < N; k++) VP_CHECK(b.cb[k].it == k % per && b.cb[k].e == e[k] && (r || (b.cb[k].err == er[k] && b.cb[k].g == m.gn[k])), "callback", "rank ", r, ": callback ", k, " received ", b.cb[k].it, " ", b.cb[k].e, " ", b.cb[k].err);
        size_t j = 0; double mn = 1e300; for (size_t k = 0; k < N; k++) { if (k % per == 0 && p.runs > 1) mn = 1e300; if (e[k] < mn) { mn = e[k]; VP_CHECK(j < b.low.size() && b.low[j].second == e[k] && (r || near(b.low[j].first, m.seen[k])), "callback", "rank ", r, ": the user's lowest-state callback missed iteration ", k); j++; } } VP_CHECK(j == b.low.size(), "callback", "rank ", r, ": extra lowest-state callbacks"); }
      // files
      std::vector<std::vector<double>> rows; std::string h; VP_CHECK(read_csv("energy/energy_trajectory.csv", rows, h) && h == "iteration,energy,energy_error,gradient_norm" && rows.size() == N, "csv", "trajectory file has ", rows.size(), " rows for ", N, " iterations"); for (size_t k = 0; k < N; k++) VP_CHECK(rows[k].size() == 4 && rows[k][0] == k && rows[k][1] == e[k] && rows[k][2] == er[k] && rows[k][3] == m.gn[k], "csv", "trajectory row ", k);
      if (p.ckpt) { VP_CHECK(mid.size() == 0 || mid_at[0] > 0, "csv", "a trajectory file exists before the first iteration"); for (size_t k = 0; k + 1 < N && p.runs == 1; k++) { size_t want = 0; for (size_t i = 1; i <= k; i++) if (i % p.ckpt == 0) want = i + 1; bool seen = false; for (size_t q = 0; q < mid.size(); q++) if (mid_at[q] == k + 1) { seen = true; VP_CHECK(mid[q].size() == want, "csv-checkpoint", "after iteration ", k, " the trajectory file holds ", mid[q].size(), " rows, the last checkpoint had ", want); for (size_t i = 0; i < want; i++) VP_CHECK(mid[q][i][1] == e[i], "csv-checkpoint", "row ", i); } VP_CHECK(seen == (want > 0), "csv-checkpoint", "after iteration ", k, seen ? " a" : " no", " trajectory file"); } }
      if (p.name.empty()) VP_CHECK(!fs::exists("energy/optimization_log.jsonl"), "jsonl", "a log was written although none was asked for"); auto load = [&](const std::string &d, const V &want, const char *key, bool is_state) { St s(y.L.R, y.L.C); VP_CHECK(s.Load(d), key, "cannot load ", d); (void)is_state; VP_CHECK(near(flat(s), want, 0) && s.GetBoundaryCondition() == y.s.GetBoundaryCondition(), key, d, " holds another state"); };
      if (!p.name.empty()) { load(p.name + "final", m.fin, "dump-final", true); load(p.name + "lowest", m.lowest, "dump-lowest", true); VP_CHECK(jsonl("energy/optimization_log.jsonl").size() == N, "jsonl", "log has ", jsonl("energy/optimization_log.jsonl").size(), " lines for ", N, " iterations"); }
      std::set<std::string> allowed{"energy"}; if (!p.name.empty()) { auto top = [](std::string q) { return q.substr(0, q.find('/')); }; allowed.insert(top(p.name + "final")); allowed.insert(top(p.name + "lowest")); } if (p.ckpt) allowed.insert("ckpt"); if (!p.cfgdir.empty()) allowed.insert(p.cfgdir.substr(0, p.cfgdir.find('/'))); if (p.lose) { allowed.insert("againfinal"); allowed.insert("againlowest"); } for (auto &f : fs::directory_iterator(base)) VP_CHECK(allowed.count(f.path().filename().string()), "stray-output", "unexpected output ", f.path().filename().string());
      if (p.lose) { load("againfinal", m.fin, "dump-again", true); load("againlowest", m.lowest, "dump-again", true); }
      if (!p.cfgdir.empty()) for (int r = 0; r < p.n; r++) { Configuration c(y.L.R, y.L.C); VP_CHECK(c.Load(p.cfgdir, r), "dump-config", "no configuration of rank ", r); VP_CHECK(conf_str(c) == o[r].conf, "dump-config", "configuration of rank ", r, " is ", cstr(conf_str(c)), ", the rank held ", cstr(o[r].conf)); }
      vp::outcome(vp::cat(p.n, " ", N, " ", best)); };
    if (p.n == 1 || !p.orders) { auto rr = run_ranks(p.n, body); check(rr, true); } else sim::explore(p.n, body, check); vp::S().states++; vp::state(what);
  }
  // sampled energies: the driver against the evaluator and the optimiser wired together by hand
  void sampled(int n, int algo, int sel, size_t iters, size_t per_rank, size_t between, bool all_orders) {
    if (!mine()) return; std::string what = vp::cat(y.name, " sampled ranks ", n, " algorithm ", algo, " selector ", sel, " iterations ", iters, " samples ", per_rank, " between ", between); vp::begin_case(what);
    auto params0 = [&](const std::string &log) { OptimizerParams::BaseParams bp(iters, 0.0, 0.0, 1000, 0.02); bp.jsonl_log_path = log; if (sel & 1) { bp.initial_step_selector.enabled = true; bp.initial_step_selector.max_line_search_steps = 3; bp.initial_step_selector.enable_in_deterministic = true; } if (sel & 2) { bp.periodic_step_selector.enabled = true; bp.periodic_step_selector.every_n_steps = 2; bp.periodic_step_selector.enable_in_deterministic = true; }
      if (algo == 0) return OptimizerParams(bp, SGDParams(0.5, false, 0.0)); if (algo == 1) return OptimizerParams(bp, AdamParams(0.5, 0.75, 1e-8, 0.0)); if (algo == 2) { StochasticReconfigurationParams s; s.diag_shift = 0.1; s.cg_params.max_iter = 50; s.cg_params.relative_tolerance = 1e-10; return OptimizerParams(bp, s); } if (algo == 3) return OptimizerParams(bp, MinSRParams(1e-6)); LBFGSParams l; if (algo == 5) { l.step_mode = LBFGSStepMode::kStrongWolfe; l.allow_fallback_to_fixed_step = true; } return OptimizerParams(bp, l); };
    bool spikes = sel & 4, custom = sel & 8; auto params = [&](const std::string &log) { OptimizerParams op = params0(log); if (spikes) { op.spike_recovery_params.factor_err = 1.05; op.spike_recovery_params.factor_grad = 1.02; op.spike_recovery_params.ema_window = 2; op.spike_recovery_params.redo_mc_max_retries = 1; op.spike_recovery_params.enable_rollback = true; op.spike_recovery_params.sigma_k = 0.5; } return op; };
    // a custom evaluator: an anisotropic parabola with a jump, evaluated on the master and shared
    auto parabola = [&](const St &s, size_t k, int r) -> std::tuple<T, St, double> { double v[2] = {0, 0.25 + 0.125 * (k % 3)}; St g(y.L.R, y.L.C); if (r == 0) { size_t q = 0; g = tps(s, [&](size_t i, T x) { T d = x - T(0.125 * double(i % 5)); double w = 1 + double(i % 4); v[0] += w * std::norm(d); q++; return T(2 * w) * d; }); v[0] += k % 4 == 2 ? 3.0 : 0.0; } ::MPI_Bcast(v, 2, MPI_DOUBLE, 0, MPI_COMM_WORLD); return {T(v[0]), g, v[1]}; };
    std::vector<Script> sc(n); auto fill = [&](int r) { sc[r] = Script(); sc[r].C = y.L.C; for (size_t k = 0; k < 3000; k++) { sc[r].stream.push_back(confs[(k * k + 3 * k * r + r + k / 5) % 7 % confs.size()]); sc[r].rates.push_back({0.25 * (k % 3), 0.125 * ((k + r) % 5)}); } };
    std::vector<Out> a(n), b(n); auto mc = [&](int r, const std::string &cd) { return MonteCarloParams(per_rank * n, 1, between, y.conf(confs[r % confs.size()]), r % 2 == 1, cd); };
    auto driver = [&](int r) { if (r == 0) clear_dir(); MPI_Barrier(MPI_COMM_WORLD); a[r] = Out(); fill(r); VMCPEPSOptimizerParams vp_(params("log.jsonl"), mc(r, "cfg"), peps()); vp_.tps_dump_base_name = "out/x_"; vp_.runtime_params.psi_consistency.enabled = false; Ex x(vp_, y.s, MPI_COMM_WORLD, model, Scripted{&sc[r]}); size_t calls = 0; if (custom) x.SetEnergyEvaluator([&, r](const St &s) { return parabola(s, calls++, r); }); x.Execute(); Out &q = a[r]; q.sp = x.GetSpikeStatistics(); q.calls = calls; q.finished = true; q.lowest = flat(x.GetLowestState()); q.fin = flat(x.GetState()); q.traj = x.GetEnergyTrajectory(); q.err = x.GetEnergyErrorTrajectory(); q.gn = x.GetGradientNorms(); q.mn = x.GetMinEnergy(); };
    auto hand = [&](int r) { b[r] = Out(); fill(r); MonteCarloEngine<T, QN, Scripted, CT> e(y.s, mc(r, ""), peps(), MPI_COMM_WORLD, Scripted{&sc[r]}); M m(model); OptimizerParams op = params("log2.jsonl"); bool sr = algo == 2 || algo == 3; MCEnergyGradEvaluator<T, QN, Scripted, M, CT> ev(e, m, MPI_COMM_WORLD, sr); Op opt(op, MPI_COMM_WORLD, e.Rank(), e.MpiSize()); e.WarmUp();
      size_t calls = 0; std::vector<St> os; St om; std::vector<T> es; auto f = [&](const St &s) -> std::tuple<T, St, double> { if (custom) return parabola(s, calls++, r); auto v = ev.Evaluate(s); opt.SetCurrentAcceptRates(v.accept_rates_avg); if (sr) { om = *v.Ostar_mean; os = v.Ostar_samples; } es = v.energy_samples; return {v.energy, v.gradient, v.energy_error}; }; std::function<std::pair<double, double>(const St &)> g = nullptr; if (!custom) g = [&](const St &s) -> std::pair<double, double> { auto v = ev.EvaluateEnergyOnly(s); opt.SetCurrentAcceptRates(v.accept_rates_avg); return {std::real(v.energy), v.energy_error}; };
      St start = e.State(); typename Op::OptimizationResult R = opt.IterativeOptimize(start, f, {}, sr ? &os : nullptr, sr ? &om : nullptr, sr ? &es : nullptr, g); Out &q = b[r]; q.finished = true; if (r == 0) { q.fin = flat(R.optimized_state); q.lowest = flat(R.lowest_state); } q.traj = R.energy_trajectory; q.err = R.energy_error_trajectory; q.gn = R.gradient_norms; q.mn = R.min_energy; q.sp = R.spike_stats; q.calls = calls; q.conf_end = conf_str(e.WavefuncComp().config); };
    fs::remove_all("log2.jsonl"); auto r2 = run_ranks(n, hand); VP_CHECK(r2.ok(), "reference", r2.why()); auto ref_log = jsonl("log2.jsonl");
    auto check = [&](const sim::Result &res, bool) { VP_CHECK(res.ok(), "collectives", res.why()); Out &m = a[0], &w = b[0]; vp::S().evaluations++;
      VP_CHECK(m.traj.size() == w.traj.size() && m.err.size() == w.err.size() && m.gn.size() == w.gn.size(), "sampled-trajectory", "the driver made ", m.traj.size(), " iterations, by hand ", w.traj.size()); for (size_t k = 0; k < w.traj.size(); k++) { VP_CHECK(std::abs(std::real(m.traj[k]) - std::real(w.traj[k])) <= 1e-9 * (1 + std::abs(w.traj[k])), "sampled-trajectory", "energy ", k, " is ", m.traj[k], ", by hand ", w.traj[k]); VP_CHECK(m.err[k] == w.err[k] || std::abs(m.err[k] - w.err[k]) <= 1e-8 * (1 + w.err[k]), "sampled-trajectory", "error ", k, " is ", m.err[k], ", by hand ", w.err[k]); VP_CHECK(std::abs(m.gn[k] - w.gn[k]) <= 1e-8 * (1 + w.gn[k]), "sampled-trajectory", "gradient norm ", k); }
      auto spk = [](const SpikeStatistics &z) { std::string t = vp::cat(z.total_resamples, " resamples ", z.total_rollbacks, " rollbacks ", z.total_forced_accepts, " forced; events"); for (auto &ev : z.event_log) t += vp::cat(" ", ev.step, ":", ev.attempt); return t; }; for (int r = 0; r < n; r++) { VP_CHECK(spk(a[r].sp) == spk(b[r].sp), "spikes", "rank ", r, ": the driver reports ", spk(a[r].sp), ", by hand ", spk(b[r].sp)); VP_CHECK(a[r].calls == b[r].calls, "custom", "the driver evaluated ", a[r].calls, " times, by hand ", b[r].calls); } if (!w.sp.event_log.empty()) vp::outcome(vp::cat("spikes ", spk(w.sp)));
      VP_CHECK(std::abs(m.mn - w.mn) <= 1e-9 * (1 + std::abs(w.mn)), "sampled-minimum", "minimum ", m.mn, ", by hand ", w.mn); for (int r = 0; r < n; r++) { VP_CHECK(parallel(a[r].fin, w.fin), "sampled-final", "rank ", r, ": the final state differs from the one reached by hand"); VP_CHECK(near(a[r].lowest, w.lowest, 1e-9), "sampled-lowest", "rank ", r, ": the lowest state differs from the one found by hand"); Configuration c(y.L.R, y.L.C); VP_CHECK(c.Load("cfg", r) && conf_str(c) == b[r].conf_end, "sampled-config", "rank ", r, " dumped another configuration than it held"); }
      auto log = jsonl("log.jsonl"); VP_CHECK(log.size() == ref_log.size(), "sampled-log", log.size(), " log lines, by hand ", ref_log.size());
      for (size_t k = 0; k < log.size(); k++) { auto f = [](const std::string &s, const std::string &key) { auto q = s.find("\"" + key + "\""); if (q == std::string::npos) return std::string("-"); auto z = s.find(":", q); auto o = s.find("[", z); auto e = s.find(",", z); if (o != std::string::npos && o < e) e = s.find("]", o); return s.substr(z, e - z); }; VP_CHECK(f(log[k], "accept_rates") == f(ref_log[k], "accept_rates") && f(log[k], "iteration") == f(ref_log[k], "iteration"), "sampled-log", "log line ", k, ": ", log[k], ", by hand ", ref_log[k]); }
      St s(y.L.R, y.L.C); VP_CHECK(s.Load("out/x_final") && near(flat(s), m.fin, 0), "dump-final", "the final state on disk differs"); St l(y.L.R, y.L.C); VP_CHECK(l.Load("out/x_lowest") && near(flat(l), m.lowest, 0), "dump-lowest", "the lowest state on disk differs"); vp::outcome(vp::cat(algo, sel, n)); };
    if (n == 1 || !all_orders) { fs::remove_all("log.jsonl"); auto rr = run_ranks(n, driver); check(rr, true); } else sim::explore(n, driver, check); vp::S().states++; vp::state(what);
  }
};
template <template <class, class> class CT> struct Only { Scripted s; template <class E, class Q> void operator()(const SplitIndexTPS<E, Q> &st, TPSWaveFunctionComponent<E, Q, qlpeps::NoDress, CT> &w, std::vector<double> &acc) { s(st, w, acc); } };
// the two entry points: backend selection and results
template <template <class, class> class CT, class M> void api(Sys &y, const M &model, const std::vector<std::string> &confs) {
  for (int n : {1, 2}) for (int params = 0; params < 2; params++) for (int bc = 0; bc < 2; bc++) for (int which = 0; which < 2; which++) {
    if (!mine()) continue; constexpr bool trg = std::is_same_v<typename CT<T, QN>::TruncateParams, TRGTruncateParams<double>>; vp::begin_case(vp::cat("entry point ", which, " updater ", trg ? "TRG" : "BMPS", " params ", params ? "TRG" : "BMPS", " state ", bc ? "PBC" : "OBC", " ranks ", n));
    bool fits = params == bc && bc == (int)trg; St st(y.s); if (bc != (int)y.L.pbc) { St other(y.L.R, y.L.C, 2, bc ? BoundaryCondition::Periodic : BoundaryCondition::Open); for (size_t r = 0; r < y.L.R; r++) for (size_t c = 0; c < y.L.C; c++) other({r, c}) = y.s({r, c}); st = other; }
    std::vector<Script> sc(n); std::vector<int> outcome(n, -1); PEPSParams pp = params ? PEPSParams(TRGTruncateParams<double>::SVD(1, 1 << 20, 0.0)) : PEPSParams(BMPSTruncateParams<double>::SVD(1, 81, 0.0)); struct Got { V fin, low; double mn; std::vector<T> traj; std::vector<double> err, gn; T e; double ee; std::map<std::string, std::pair<std::vector<T>, std::vector<double>>> reg; std::string path; }; std::vector<Got> g(n), w(n);
    auto fill = [&](int r) { sc[r] = Script(); sc[r].C = y.L.C; for (size_t k = 0; k < 60; k++) sc[r].stream.push_back(confs[(k * k + r) % confs.size()]); };
    auto body = [&](int r) { if (r == 0) clear_dir(); MPI_Barrier(MPI_COMM_WORLD); fill(r); outcome[r] = -1; MonteCarloParams mp(4 * n, 0, 1, y.conf(confs[0]), true); OptimizerParams::BaseParams bp(5, 0.0, 0.0, 1000, 0.02); OptimizerParams op(bp, SGDParams()); op.spike_recovery_params.factor_err = 1.01; op.spike_recovery_params.ema_window = 2; op.spike_recovery_params.factor_grad = 1.01; VMCPEPSOptimizerParams vp_(op, mp, pp); vp_.runtime_params.psi_consistency.enabled = false; MCMeasurementParams mm(mp, pp, "meas"); mm.runtime_params.psi_consistency.enabled = false;
      try { if (which == 0) { auto R = VmcOptimize<T, QN, Only<CT>, M>(vp_, st, MPI_COMM_WORLD, model, Only<CT>{Scripted{&sc[r]}}); g[r] = Got(); g[r].fin = flat(R.state); g[r].low = flat(R.lowest_state); g[r].mn = R.min_energy; g[r].traj = R.energy_trajectory; g[r].err = R.energy_error_trajectory; g[r].gn = R.gradient_norms; g[r].path = vp::cat(R.spike_stats.total_resamples, " ", R.spike_stats.event_log.size()); outcome[r] = 1; fill(r); VMCPEPSOptimizer<T, QN, Only<CT>, M, CT> x(vp_, st, MPI_COMM_WORLD, model, Only<CT>{Scripted{&sc[r]}}); x.Execute(); w[r] = Got(); w[r].fin = flat(x.GetState()); w[r].low = flat(x.GetLowestState()); w[r].mn = x.GetMinEnergy(); w[r].traj = x.GetEnergyTrajectory(); w[r].err = x.GetEnergyErrorTrajectory(); w[r].gn = x.GetGradientNorms(); w[r].path = vp::cat(x.GetSpikeStatistics().total_resamples, " ", x.GetSpikeStatistics().event_log.size()); if (r == 0) vp::outcome(w[r].path); }
        else { auto R = MonteCarloMeasure<T, QN, Only<CT>, M>(st, mm, MPI_COMM_WORLD, model, Only<CT>{Scripted{&sc[r]}}); g[r] = Got(); g[r].e = R.energy.first; g[r].ee = R.energy.second; for (auto &kv : R.registry) g[r].reg[kv.first] = kv.second; g[r].path = R.dump_path; outcome[r] = 1; fill(r); MCPEPSMeasurer<T, QN, Only<CT>, M, CT> x(st, mm, MPI_COMM_WORLD, model, Only<CT>{Scripted{&sc[r]}}); x.Execute(); w[r] = Got(); auto oe = x.OutputEnergy(); w[r].e = oe.first; w[r].ee = oe.second; for (auto &kv : x.ObservableRegistry()) w[r].reg[kv.first] = kv.second; w[r].path = "meas"; } }
      catch (const std::invalid_argument &) { outcome[r] = 2; } };
    auto res = run_ranks(n, body); VP_CHECK(res.ok(), "entry-collectives", res.why());
    for (int r = 0; r < n; r++) { VP_CHECK(outcome[r] == (fits ? 1 : 2), "backend", fits ? "a fitting combination was refused" : "a mismatch of state, parameters and updater was accepted"); if (fits) { auto &a = g[r], &b = w[r]; VP_CHECK(a.path == b.path && near(a.fin, b.fin, 0) && near(a.low, b.low, 0) && (which || a.mn == b.mn) && a.traj == b.traj && a.err == b.err && a.gn == b.gn, "entry-result", "VmcOptimize returns something else than the executor"); if (which) { VP_CHECK(a.path == b.path && a.e == b.e && (a.ee == b.ee || (a.ee != a.ee && b.ee != b.ee)) && a.reg.size() == b.reg.size(), "entry-result", "MonteCarloMeasure returns something else than the executor"); for (auto &kv : b.reg) VP_CHECK(a.reg.count(kv.first) && a.reg[kv.first].first == kv.second.first, "entry-result", "observable ", kv.first); } } }
    vp::S().states++; vp::S().evaluations++; }
}
static std::vector<std::string> usable(Sys &a, std::vector<size_t> bits) { std::vector<std::string> o; for (auto x : bits) { std::string c(a.L.sites(), 0); for (size_t i = 0; i < c.size(); i++) c[i] = x >> i & 1; if (std::abs(a.value(c)) > 0.05 * a.typ && o.size() < 4) o.push_back(c); } return o; }
template <class B> void histories(B &b, int n, size_t len, const std::vector<double> &al, size_t runs) { std::vector<size_t> ix(len, 0); while (true) { typename B::Plan p; p.n = n; p.runs = runs; static size_t t = 0; t++; for (size_t k = 0; k < len; k++) { p.e.push_back(al[ix[k]]); p.err.push_back(0.125 * ((k + t) % 4)); } p.user = t % 4 != 0; p.name = t % 5 == 0 ? "" : t % 5 == 1 ? "out/deep/x" : "tps"; p.cfgdir = t % 3 == 0 ? "cfg" : t % 3 == 1 ? "c/d" : ""; p.ckpt = t % 2 ? 0 : 1 + t / 2 % 3; p.lose = t % 7 == 0; p.orders = t % 3 == 0; b.scripted(p); size_t q = 0; for (; q < len; q++) { if (++ix[q] < al.size()) break; ix[q] = 0; } if (q == len) break; } }
template <class B> void explore(B &b, bool small) {
  bool th = vp::thorough(); for (size_t len = 1; len <= (th ? 6 : small ? 4 : 5); len++) histories(b, 1, len, {-1, -2, 0.5}, 1); histories(b, 2, 3, {-1, -2}, 1); histories(b, 1, 4, {-1, -2, -3}, 2); histories(b, 2, 4, {-1, -2}, 2); histories(b, 3, 2, {-1, -2}, 1);
  histories(b, 3, 4, {-1, -2}, 1); histories(b, 2, 4, {-1, -2, 0.5}, 1); histories(b, 1, 6, {-1, -2}, 3); histories(b, 1, 6, {-1, -2, 0.5}, 2);
  if (th) { histories(b, 1, 8, {-1, -2, 0.5}, 2); histories(b, 1, 6, {-1, -2, 0.5}, 3); histories(b, 3, 6, {-1, -2, 0.5}, 2); histories(b, 4, 4, {-1, -2, 0.5}, 1); histories(b, 2, 6, {-1, -2, 0.5}, 1); }
  for (int n : {1, 2}) for (size_t stop : {0, 1, 2, 9}) for (bool user : {false, true}) { typename B::Plan p; p.n = n; p.e = {-1, -3, -2, -2.5}; p.err = {0.1, 0.2, 0.3, 0.4}; p.stop_at = stop; p.user = user; b.scripted(p); }
  for (int n : {1, 2}) for (int blk : {1, 2, 3}) { typename B::Plan p; p.n = n; p.e = {-1, -2}; p.err = {0.1, 0.1}; p.block = blk; if (blk == 2) p.name = "out/x"; b.scripted(p); }
  for (int algo = 0; algo < 6; algo++) for (int sel : {0, 1, 2, 3}) { if ((algo == 1 || algo >= 4) && sel) continue; for (int n : {1, 2, 3}) { b.sampled(n, algo, sel, n == 1 ? 4 : 3, n == 1 ? 4 : 2, 1 + (algo + sel) % 2, n == 2 && !sel); } }
  for (int algo = 0; algo < 6; algo++) for (int n : {1, 2, 3}) { for (int sel : {4, 7}) { if ((algo == 1 || algo >= 4) && (sel & 3)) continue; b.sampled(n, algo, sel, 5, 3, 1, n == 2 && algo == 0 && sel == 4); } if (algo != 2 && algo != 3) for (int sel : {8, 9, 10, 12, 15}) { if (algo && (sel & 3)) continue; b.sampled(n, algo, sel, 6, 2, 1, false); } }
}
VP_MAIN([] {
  vp::S().hang_s = 300; base = vp::scratch(); VP_CHECK(chdir(base.c_str()) == 0, "scratch", "cannot enter the scratch directory"); Quiet quiet;
  { Sys y(lat(2, 2, 0, false), 5, "2x2"); auto c = usable(y, {6, 9, 3, 5, 10, 12}); Bench<BMPSContractor, SquareSpinOneHalfXXZModelOBC> b{y, SquareSpinOneHalfXXZModelOBC(0.7, -1.3, 0.45), c}; explore(b, false); api<BMPSContractor>(y, SquareSpinOneHalfXXZModelOBC(0.7, -1.3, 0.45), c); }
  { Sys y(lat(2, 3, 1, false), 5, "2x3"); auto c = usable(y, {11, 21, 42, 7, 14, 28, 56, 3, 12}); Bench<BMPSContractor, TransverseFieldIsingSquareOBC> b{y, TransverseFieldIsingSquareOBC(1.1), c}; explore(b, true); }
  { Sys y(lat(2, 2, 0, true), 5, "2x2 PBC"); auto c = usable(y, {6, 9, 3, 5, 10, 12}); Bench<TRGContractor, HeisenbergSquarePBC> b{y, HeisenbergSquarePBC(0.7, -1.3), c}; explore(b, true); api<TRGContractor>(y, HeisenbergSquarePBC(0.7, -1.3), c); }
  vp::sample("all energy histories over 3 values; user callbacks, stop points, dump names, checkpoints, repeated runs; sampled runs of 5 algorithms with step selectors");
})
