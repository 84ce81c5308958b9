// C22: optimiser parameter objects: every builder history up to a depth, every copy/move history, every factory over small argument sets.
#include "vp.h"
#include "histories.h"
#include "qlpeps/optimizer/optimizer_params.h"
using namespace qlpeps;
using vp::cat;
typedef OptimizerParams OP;
typedef OptimizerParams::BaseParams BP;
typedef std::unique_ptr<LearningRateScheduler> P;
static std::string opt(const std::optional<double> &o) { return o ? cat(*o) : "-"; }
static std::string ser(const BP &b) {
  return cat("it=", b.max_iterations, " et=", b.energy_tolerance, " gt=", b.gradient_tolerance, " pp=", b.plateau_patience, " lr=", b.learning_rate,
             " sch=", b.lr_scheduler ? b.lr_scheduler->Name() + "(" + b.lr_scheduler->Describe() + ")" : "null", " cv=", opt(b.clip_value), " cn=", opt(b.clip_norm),
             " iss=", b.initial_step_selector.enabled, ",", b.initial_step_selector.max_line_search_steps, ",", b.initial_step_selector.enable_in_deterministic,
             " pss=", b.periodic_step_selector.enabled, ",", b.periodic_step_selector.every_n_steps, ",", b.periodic_step_selector.phase_switch_ratio, ",", b.periodic_step_selector.enable_in_deterministic,
             " log=", b.jsonl_log_path);
}
static std::string ser(const SGDParams &a) { return cat("SGD ", a.momentum, ",", a.nesterov, ",", a.weight_decay); }
static std::string ser(const AdamParams &a) { return cat("Adam ", a.beta1, ",", a.beta2, ",", a.epsilon, ",", a.weight_decay); }
static std::string ser(const AdaGradParams &a) { return cat("AdaGrad ", a.epsilon, ",", a.initial_accumulator_value); }
static std::string ser(const ConjugateGradientParams &c) { return cat("CG ", c.max_iter, ",", c.relative_tolerance, ",", c.absolute_tolerance, ",", c.residual_recompute_interval, ",", c.orthogonality_threshold); }
static std::string ser(const StochasticReconfigurationParams &a) { return cat("SR ", ser(a.cg_params), ";", a.diag_shift, ",", a.normalize_update, ",", a.adaptive_diagonal_shift); }
static std::string ser(const LBFGSParams &a) { return cat("LBFGS ", a.history_size, ",", a.tolerance_grad, ",", a.tolerance_change, ",", a.max_eval, ",", (int)a.step_mode, ",", a.wolfe_c1, ",", a.wolfe_c2, ",", a.min_step, ",", a.max_step, ",",
    a.min_curvature, ",", a.use_damping, ",", a.max_direction_norm, ",", a.allow_fallback_to_fixed_step, ",", a.fallback_fixed_step_scale); }
static std::string ser(const MinSRParams &a) { return cat("MinSR ", a.r_pinv, ",", a.a_pinv, ",", a.soft_cutoff, ",", (int)a.solver_mode); }
static std::string ser(const AlgorithmParams &a) { return std::visit([](auto &x) { return ser(x); }, a); }
static std::string ser(const CheckpointParams &c) { return cat("ck=", c.every_n_steps, ",", c.base_path, ",", c.IsEnabled()); }
static std::string ser(const SpikeRecoveryParams &s) { return cat("sp=", s.enable_auto_recover, ",", s.redo_mc_max_retries, ",", s.factor_err, ",", s.factor_grad, ",", s.factor_ngrad, ",", s.sr_min_iters_suspicious, ",", s.enable_rollback, ",", s.ema_window, ",", s.sigma_k, ",", s.log_trigger_csv_path); }
static std::string ser(const OP &o) { return ser(o.base_params) + " | " + ser(o.algorithm_params) + " | " + ser(o.checkpoint_params) + " | " + ser(o.spike_recovery_params); }

// documented defaults, written out independently
static const char *SPIKE_DEF = "sp=1,2,100,10000000000,10,1,0,50,10,";
static const char *CK_DEF = "ck=0,,0";
static const char *ISS_DEF = " iss=0,3,0", *PSS_DEF = " pss=0,10,0.29999999999999999,0";
static void fresh_defaults() {
  auto ck = [](const std::string &g, const std::string &w, const char *what) { VP_CHECK(g == w, "defaults", what, ": '", g, "' want '", w, "'"); vp::S().evaluations++; };
  ck(ser(SGDParams()), "SGD 0,0,0", "SGDParams");
  ck(ser(SGDParams(0.5)), "SGD 0.5,0,0", "SGDParams"); ck(ser(SGDParams(0.5, true)), "SGD 0.5,1,0", "SGDParams"); ck(ser(SGDParams(0.5, true, 0.25)), "SGD 0.5,1,0.25", "SGDParams");
  ck(ser(AdamParams()), cat("Adam ", 0.9, ",", 0.999, ",", 1e-8, ",0"), "AdamParams");
  ck(ser(AdamParams(0.5, 0.25, 0.125, 2)), "Adam 0.5,0.25,0.125,2", "AdamParams");
  ck(ser(AdaGradParams(0.5, 2)), "AdaGrad 0.5,2", "AdaGradParams");
  ck(ser(ConjugateGradientParams()), cat("CG 100,", 1e-4, ",0,20,0.5"), "ConjugateGradientParams");
  ck(ser(StochasticReconfigurationParams()), cat("SR CG 100,", 1e-4, ",0,20,0.5;", 0.001, ",0,0"), "SRParams");
  ck(ser(LBFGSParams()), cat("LBFGS 10,", 1e-5, ",", 1e-9, ",20,0,", 1e-4, ",", 0.9, ",", 1e-8, ",1,", 1e-12, ",1,1000,0,", 0.2), "LBFGSParams");
  ck(ser(LBFGSParams(3, 0.5, 0.25, 7, LBFGSStepMode::kStrongWolfe, 2, 3, 4, 5, 6, false, 8, true, 9)), "LBFGS 3,0.5,0.25,7,1,2,3,4,5,6,0,8,1,9", "LBFGSParams");
  ck(ser(MinSRParams()), cat("MinSR ", 1e-12, ",0,1,0"), "MinSRParams");
  ck(ser(MinSRParams(0.5)), "MinSR 0.5,0,1,0", "MinSRParams"); ck(ser(MinSRParams(0.5, 0.25, false, MinSRSolverMode::kDistributed)), "MinSR 0.5,0.25,0,2", "MinSRParams");
  ck(ser(SpikeRecoveryParams()), SPIKE_DEF, "SpikeRecoveryParams"); ck(ser(CheckpointParams()), CK_DEF, "CheckpointParams");
  ck(ser(CheckpointParams{3, ""}), "ck=3,,0", "CheckpointParams"); ck(ser(CheckpointParams{0, "x"}), "ck=0,x,0", "CheckpointParams"); ck(ser(CheckpointParams{1, "x"}), "ck=1,x,1", "CheckpointParams");
  ck(ser(BP(3, 0.5, 0.25, 7, 2.0)), cat("it=3 et=0.5 gt=0.25 pp=7 lr=2 sch=null cv=- cn=-", ISS_DEF, PSS_DEF, " log="), "BaseParams");
  IterationRecord r; VP_CHECK(r.iteration == 0 && r.energy == 0 && r.energy_error == 0 && r.gradient_norm == 0 && r.learning_rate == 0 && r.accept_rates.empty() && r.sr_iterations == 0 && !r.selector_triggered && r.selected_eta == 0, "defaults", "IterationRecord");
  OP d; VP_CHECK(ser(d.checkpoint_params) == CK_DEF && ser(d.spike_recovery_params) == SPIKE_DEF, "defaults", "OptimizerParams");
}
// ---- builder -----------------------------------------------------------------------------------------------------------
struct BRef {
  bool has = false; size_t it = 1000; double et = 1e-10, gt = 1e-30; size_t pp = 20; double lr = 0.01; std::string sch = "null", cv = "-", cn = "-", iss = ISS_DEF, pss = PSS_DEF;
  std::string alg = "", ck = CK_DEF, sp = SPIKE_DEF;
  std::string s() const { return cat("it=", it, " et=", et, " gt=", gt, " pp=", pp, " lr=", lr, " sch=", sch, " cv=", cv, " cn=", cn, iss, pss, " log=") + " | " + alg + " | " + ck + " | " + sp; }
};
static StochasticReconfigurationParams SRX() { StochasticReconfigurationParams s; s.cg_params.max_iter = 7; s.cg_params.relative_tolerance = 0.5; s.diag_shift = 0.25; s.normalize_update = true; s.adaptive_diagonal_shift = 2; return s; }
static SpikeRecoveryParams SPX() { SpikeRecoveryParams s; s.enable_auto_recover = false; s.redo_mc_max_retries = 9; s.factor_err = 3; s.factor_grad = 4; s.factor_ngrad = 5; s.sr_min_iters_suspicious = 6; s.enable_rollback = true; s.ema_window = 8; s.sigma_k = 2; s.log_trigger_csv_path = "q"; return s; }
struct BOp { const char *name; std::function<void(OptimizerParamsBuilder &, BRef &)> f; bool needs_base; };
static P plat() { return std::make_unique<PlateauLR>(0.5, 0.5, 2, 0.25); }
static std::vector<BOp> ops() {
  std::vector<BOp> o;
  auto add = [&](const char *n, std::function<void(OptimizerParamsBuilder &, BRef &)> f, bool nb = false) { o.push_back({n, f, nb}); };
#define SAME(expr) VP_CHECK(&(expr) == &b, "chain", "builder call does not return the builder itself")
  add("SetMaxIterations(5)", [](auto &b, auto &r) { SAME(b.SetMaxIterations(5)); r.has = true; r.it = 5; });
  add("SetMaxIterations(9)", [](auto &b, auto &r) { b.SetMaxIterations(9); r.has = true; r.it = 9; });
  add("SetEnergyTolerance(.5)", [](auto &b, auto &r) { SAME(b.SetEnergyTolerance(0.5)); r.has = true; r.et = 0.5; });
  add("SetLearningRate(.25)", [](auto &b, auto &r) { SAME(b.SetLearningRate(0.25)); r.has = true; r.lr = 0.25; });
  add("SetLearningRate(.125,Plateau)", [](auto &b, auto &r) { b.SetLearningRate(0.125, plat()); r.has = true; r.lr = 0.125; r.sch = "PlateauLR(" + plat()->Describe() + ")"; });
  add("SetPlateauPatience(3)", [](auto &b, auto &r) { SAME(b.SetPlateauPatience(3)); r.has = true; r.pp = 3; });
  add("WithSGD(.5,true)", [](auto &b, auto &r) { SAME(b.WithSGD(0.5, true)); r.alg = "SGD 0.5,1,0"; });
  add("WithSGD()", [](auto &b, auto &r) { b.WithSGD(); r.alg = "SGD 0,0,0"; });
  add("WithAdam(..)", [](auto &b, auto &r) { SAME(b.WithAdam(0.5, 0.25, 0.125, 2.0)); r.alg = "Adam 0.5,0.25,0.125,2"; });
  add("WithAdaGrad(..)", [](auto &b, auto &r) { SAME(b.WithAdaGrad(0.5, 2.0)); r.alg = "AdaGrad 0.5,2"; });
  add("WithSR", [](auto &b, auto &r) { SAME(b.WithStochasticReconfiguration(SRX())); r.alg = "SR CG 7,0.5,0,20,0.5;0.25,1,2"; });
  add("WithLBFGS", [](auto &b, auto &r) { SAME(b.WithLBFGS(LBFGSParams(3, 0.5, 0.25, 7, LBFGSStepMode::kStrongWolfe, 2, 3, 4, 5, 6, false, 8, true, 9))); r.alg = "LBFGS 3,0.5,0.25,7,1,2,3,4,5,6,0,8,1,9"; });
  add("WithMinSR", [](auto &b, auto &r) { SAME(b.WithMinSR(MinSRParams(0.5, 0.25, false, MinSRSolverMode::kReplicated))); r.alg = "MinSR 0.5,0.25,0,1"; });
  add("SetClipValue(2)", [](auto &b, auto &r) { SAME(b.SetClipValue(2)); r.cv = "2"; }, true);
  add("SetClipNorm(4)", [](auto &b, auto &r) { SAME(b.SetClipNorm(4)); r.cn = "4"; }, true);
  add("SetPeriodicStepSelector", [](auto &b, auto &r) { SAME(b.SetPeriodicStepSelector(true, 4, 0.5, true)); r.pss = " pss=1,4,0.5,1"; }, true);
  add("SetInitialStepSelector", [](auto &b, auto &r) { SAME(b.SetInitialStepSelector(true, 5, true)); r.iss = " iss=1,5,1"; }, true);
  add("SetCheckpoint", [](auto &b, auto &r) { SAME(b.SetCheckpoint(6, "p")); r.ck = "ck=6,p,1"; });
  add("SetSpikeRecovery", [](auto &b, auto &r) { SAME(b.SetSpikeRecovery(SPX())); r.sp = "sp=0,9,3,4,5,6,1,8,2,q"; });
  add("DisableSpikeRecovery", [](auto &b, auto &r) { SAME(b.DisableSpikeRecovery()); r.sp = "sp=0,2,100,10000000000,10,1,0,50,10,"; });
  add("Build+perturb", [](auto &b, auto &r) { // an intermediate build is independent of the builder
    if (!r.has || r.alg.empty()) { bool th = false; try { (void)b.Build(); } catch (const std::invalid_argument &) { th = true; } VP_CHECK(th, "incomplete", "incomplete Build() was accepted"); return; }
    OP p = b.Build(); VP_CHECK(ser(p) == r.s(), "build", "'", ser(p), "' want '", r.s(), "'");
    p.base_params.max_iterations = 12345; if (p.base_params.lr_scheduler) for (int i = 0; i < 5; i++) (void)p.base_params.lr_scheduler->GetLearningRate(0, 1.0);
    p.checkpoint_params.base_path = "zz"; p.spike_recovery_params.sigma_k = 77; p.algorithm_params = SGDParams(9); });
  return o;
}
static void builder(int full, int merged) {
  auto O = ops();
  auto run = [&](const std::vector<int> &h) -> std::string {
    std::string d; for (int o : h) d += std::string(" ") + O[o].name;
    vp::set_case(d);
    OptimizerParamsBuilder b; BRef r;
    for (int o : h) {
      if (O[o].needs_base && !r.has) {
        bool th = false; BRef keep = r;
        try { O[o].f(b, r); } catch (const std::invalid_argument &) { th = true; }
        VP_CHECK(th, "precondition", O[o].name, " before base parameters was not rejected");
        r = keep;
      } else O[o].f(b, r);
    }
    bool complete = r.has && !r.alg.empty();
    for (int rep = 0; rep < 2; rep++) {
      try {
        OP p = static_cast<const OptimizerParamsBuilder &>(b).Build();
        VP_CHECK(complete, "incomplete", "incomplete Build() was accepted");
        VP_CHECK(ser(p) == r.s(), "build", "built '", ser(p), "' want '", r.s(), "'");
        bool fo = r.alg.rfind("SGD", 0) == 0 || r.alg.rfind("Ada", 0) == 0;
        VP_CHECK(p.IsFirstOrder() == fo, "first-order", "IsFirstOrder ", p.IsFirstOrder());
        VP_CHECK(p.IsAlgorithm<SGDParams>() == (r.alg.rfind("SGD", 0) == 0) && p.IsAlgorithm<MinSRParams>() == (r.alg.rfind("MinSR", 0) == 0) && p.IsAlgorithm<AdamParams>() == (r.alg.rfind("Adam", 0) == 0), "is-algorithm", "IsAlgorithm wrong");
        if (p.base_params.lr_scheduler) for (int i = 0; i < 3; i++) (void)p.base_params.lr_scheduler->GetLearningRate(0, 1.0); // must not leak into the builder
      } catch (const std::invalid_argument &e) { VP_CHECK(!complete, "rejected", "complete Build() threw ", e.what()); }
    }
    return r.s() + (r.has ? "" : "-");
  };
  vp::explore_histories((int)O.size(), full, merged, 40000, run);
}
// ---- copies --------------------------------------------------------------------------------------------------------------
static BP rich(uint32_t m) {
  BP b(1, 0.5, 0.25, 2, 0.125);
  if (m & 1) b.max_iterations = 77; if (m & 2) b.energy_tolerance = 3; if (m & 4) b.gradient_tolerance = 4; if (m & 8) b.plateau_patience = 55;
  if (m & 16) b.learning_rate = 6; if (m & 32) b.lr_scheduler = plat(); if (m & 64) b.clip_value = 7; if (m & 128) b.clip_norm = 8;
  if (m & 256) b.initial_step_selector = {true, 9, true}; if (m & 512) b.periodic_step_selector = {true, 11, 0.75, true}; if (m & 1024) b.jsonl_log_path = "logpath";
  return b;
}
static std::string richref(uint32_t m) {
  return cat("it=", m & 1 ? 77 : 1, " et=", m & 2 ? 3 : 0.5, " gt=", m & 4 ? 4 : 0.25, " pp=", m & 8 ? 55 : 2, " lr=", m & 16 ? 6 : 0.125, " sch=", m & 32 ? "PlateauLR(" + plat()->Describe() + ")" : "null",
             " cv=", m & 64 ? "7" : "-", " cn=", m & 128 ? "8" : "-", m & 256 ? " iss=1,9,1" : ISS_DEF, m & 512 ? " pss=1,11,0.75,1" : PSS_DEF, " log=", m & 1024 ? "logpath" : "");
}
static void use(BP &b) { if (b.lr_scheduler) for (int i = 0; i < 4; i++) (void)b.lr_scheduler->GetLearningRate(0, 1.0); b.max_iterations = 4242; b.jsonl_log_path += "!"; b.clip_value = 99; }
static void copies() {
  for (uint32_t m = 0; m < 2048; m++) {
    if ((int)(m % vp::S().nshards) != vp::S().shard) continue;
    std::string w = richref(m);
    for (int how = 0; how < 8; how++) {
      vp::set_case(cat("copy mode ", how, " of field set ", m));
      BP a = rich(m);
      VP_CHECK(ser(a) == w, "copy", "move-returned params '", ser(a), "' want '", w, "'");
      if (how == 0) { BP c(a); VP_CHECK(ser(c) == w, "copy", "copy '", ser(c), "' want '", w, "'"); use(c); VP_CHECK(ser(a) == w, "aliasing", "using the copy changed the original: '", ser(a), "'"); }
      if (how == 1) { BP c(a); use(a); VP_CHECK(ser(c) == w, "aliasing", "using the original changed the copy: '", ser(c), "'"); }
      if (how == 2) for (uint32_t t : {0u, 2047u, 32u, 2047u ^ 32u, m ^ 2047u}) { BP c = rich(t); c = a; VP_CHECK(ser(c) == w, "assign", "assigned over ", t, ": '", ser(c), "' want '", w, "'"); use(c); VP_CHECK(ser(a) == w, "aliasing", "assignment shares state"); }
      if (how == 3) { BP &r = a; a = r; VP_CHECK(ser(a) == w, "self-assign", "self-assignment changed '", ser(a), "'"); }
      if (how == 4) { BP c(std::move(a)); VP_CHECK(ser(c) == w, "move", "moved '", ser(c), "'"); BP d = rich(0); d = std::move(c); VP_CHECK(ser(d) == w, "move", "move-assigned '", ser(d), "'"); }
      if (how == 5) { OP o(a, AdamParams(0.5, 0.25)); VP_CHECK(ser(o.base_params) == w && ser(o.algorithm_params).rfind("Adam 0.5,0.25,", 0) == 0, "ctor", "OptimizerParams(base, algo): '", ser(o), "'"); use(o.base_params); VP_CHECK(ser(a) == w, "aliasing", "OptimizerParams shares the scheduler of its argument");
        OP q(a, SRX(), CheckpointParams{6, "p"}, SPX()); std::string s0 = ser(q); VP_CHECK(s0 == w + " | SR CG 7,0.5,0,20,0.5;0.25,1,2 | ck=6,p,1 | sp=0,9,3,4,5,6,1,8,2,q", "ctor", "4-argument constructor: '", s0, "'");
        OP c(q); VP_CHECK(ser(c) == s0, "copy", "OptimizerParams copy '", ser(c), "'"); use(c.base_params); c.spike_recovery_params.sigma_k = 1234; VP_CHECK(ser(q) == s0, "aliasing", "OptimizerParams copy shares state"); 
        OP e; e = q; VP_CHECK(ser(e) == s0, "assign", "OptimizerParams assignment '", ser(e), "'"); use(e.base_params); VP_CHECK(ser(q) == s0, "aliasing", "OptimizerParams assignment shares state"); }
      if (how == 6) { std::vector<BP> v; for (int i = 0; i < 3; i++) v.push_back(a); use(v[1]); VP_CHECK(ser(v[0]) == w && ser(v[2]) == w && ser(a) == w, "aliasing", "elements of a vector share state"); }
      if (how == 7) { BP c(a), d(c); use(c); VP_CHECK(ser(d) == w && ser(a) == w, "aliasing", "copy of copy shares state"); BP e = rich(m ^ 2047); std::swap(d, e); VP_CHECK(ser(e) == w && ser(d) == richref(m ^ 2047), "move", "swap"); }
      vp::S().evaluations++; vp::S().traces++; vp::S().transitions += 3;
      vp::outcome(w);
    }
  }
  if (vp::S().shard == 0) { // a used scheduler is copied with its state, for every use history
    for (int m = 0; m < 64; m++) { BP a = rich(2047); for (int i = 0; i < 6; i++) (void)a.lr_scheduler->GetLearningRate(i, (m >> i & 1) ? -1.0 - i : 5.0);
      BP c(a); BP d = rich(0); d = a; vp::set_case(cat("scheduler state copy, history ", m));
      for (int i = 0; i < 5; i++) { double x = a.lr_scheduler->GetLearningRate(i, 5.0), y = c.lr_scheduler->GetLearningRate(i, 5.0), z = d.lr_scheduler->GetLearningRate(i, 5.0); VP_CHECK(x == y && x == z, "scheduler-state", "copied scheduler diverges: ", x, " ", y, " ", z); } } }
}
// ---- factories -------------------------------------------------------------------------------------------------------------
static std::string base(size_t it, double et, double gt, size_t pp, double lr, const std::string &sch) { return cat("it=", it, " et=", et, " gt=", gt, " pp=", pp, " lr=", lr, " sch=", sch, " cv=- cn=-", ISS_DEF, PSS_DEF, " log="); }
static void fac(const OP &o, const std::string &b, const std::string &alg, const char *what) {
  std::string w = b + " | " + alg + " | " + CK_DEF + " | " + SPIKE_DEF;
  VP_CHECK(ser(o) == w, "factory", what, ": '", ser(o), "' want '", w, "'"); vp::S().evaluations++; vp::outcome(w);
}
static void factories() {
  typedef OptimizerFactory F;
  std::string lb = cat(",", 1e-5, ",", 1e-9, ",20,0,", 1e-4, ",", 0.9, ",", 1e-8, ",1,", 1e-12, ",1,1000,0,", 0.2);
  std::string SRs = "SR CG 7,0.5,0,20,0.5;0.25,1,2";
  for (size_t it : {0, 1, 7}) {
    fac(F::CreateStochasticReconfiguration(it, SRX()), base(it, 0, 0, it, 0.1, "null"), SRs, "CreateStochasticReconfiguration");
    fac(F::CreateSGDWithDecay(it), base(it, 0, 0, it, 0.01, "ExponentialDecayLR(" + ExponentialDecayLR(0.01, 0.95, 100).Describe() + ")"), "SGD 0,0,0", "CreateSGDWithDecay");
    fac(F::CreateAdam(it), base(it, 0, 0, it, 1e-3, "null"), cat("Adam ", 0.9, ",", 0.999, ",", 1e-8, ",0"), "CreateAdam");
    fac(F::CreateAdaGrad(it), base(it, 0, 0, it, 0.01, "null"), cat("AdaGrad ", 1e-8, ",0"), "CreateAdaGrad");
    fac(F::CreateLBFGS(it), base(it, 0, 0, it, 1, "null"), "LBFGS 10" + lb, "CreateLBFGS");
    for (double lr : {0.5, 0.125}) {
      fac(F::CreateStochasticReconfiguration(it, SRX(), lr), base(it, 0, 0, it, lr, "null"), SRs, "CreateStochasticReconfiguration");
      fac(F::CreateSGDWithDecay(it, lr, 0.5, 3), base(it, 0, 0, it, lr, "ExponentialDecayLR(" + ExponentialDecayLR(lr, 0.5, 3).Describe() + ")"), "SGD 0,0,0", "CreateSGDWithDecay");
      fac(F::CreateAdam(it, lr, 0.5, 0.25), base(it, 0, 0, it, lr, "null"), cat("Adam 0.5,0.25,", 1e-8, ",0"), "CreateAdam");
      fac(F::CreateAdaGrad(it, lr, 0.5, 0.25), base(it, 0, 0, it, lr, "null"), "AdaGrad 0.5,0.25", "CreateAdaGrad");
      fac(F::CreateLBFGS(it, lr, 4), base(it, 0, 0, it, lr, "null"), "LBFGS 4" + lb, "CreateLBFGS");
      for (double et : {0.0, 2.0}) for (double gt : {0.0, 4.0}) for (size_t pp : {0, 9}) for (int sch = 0; sch < 2; sch++) {
        auto sc = [&]() -> P { return sch ? plat() : nullptr; };
        std::string ss = sch ? "PlateauLR(" + plat()->Describe() + ")" : "null";
        std::string b = base(it, et, gt, pp, lr, ss), b0 = base(it, et, gt, pp, lr, "null");
        fac(F::CreateStochasticReconfigurationAdvanced(it, et, gt, pp, SRX(), lr, sc()), b, SRs, "CreateStochasticReconfigurationAdvanced");
        fac(F::CreateAdamAdvanced(it, et, gt, pp, lr, 0.5, 0.25, sc()), b, cat("Adam 0.5,0.25,", 1e-8, ",0"), "CreateAdamAdvanced");
        fac(F::CreateAdaGradAdvanced(it, et, gt, pp, lr, 0.5, 0.25), b0, "AdaGrad 0.5,0.25", "CreateAdaGradAdvanced");
        fac(F::CreateLBFGSAdvanced(it, et, gt, pp, lr, (size_t)4, sc()), b, "LBFGS 4" + lb, "CreateLBFGSAdvanced");
        fac(F::CreateLBFGSAdvanced(it, et, gt, pp, lr, LBFGSParams(3, 0.5, 0.25, 7, LBFGSStepMode::kStrongWolfe, 2, 3, 4, 5, 6, false, 8, true, 9), sc()), b, "LBFGS 3,0.5,0.25,7,1,2,3,4,5,6,0,8,1,9", "CreateLBFGSAdvanced(params)");
        fac(F::CreateSGDWithDecayAdvanced(it, et, gt, pp, lr, 0.5, 3), base(it, et, gt, pp, lr, "ExponentialDecayLR(" + ExponentialDecayLR(lr, 0.5, 3).Describe() + ")"), "SGD 0,0,0", "CreateSGDWithDecayAdvanced");
      }
    }
    fac(F::CreateSGDWithDecayAdvanced(it, 2, 4, 9), base(it, 2, 4, 9, 0.01, "ExponentialDecayLR(" + ExponentialDecayLR(0.01, 0.95, 100).Describe() + ")"), "SGD 0,0,0", "CreateSGDWithDecayAdvanced");
    fac(F::CreateAdamAdvanced(it, 2, 4, 9), base(it, 2, 4, 9, 1e-3, "null"), cat("Adam ", 0.9, ",", 0.999, ",", 1e-8, ",0"), "CreateAdamAdvanced");
    fac(F::CreateLBFGSAdvanced(it, 2, 4, 9), base(it, 2, 4, 9, 1, "null"), "LBFGS 10" + lb, "CreateLBFGSAdvanced");
    fac(F::CreateStochasticReconfigurationAdvanced(it, 2, 4, 9, SRX()), base(it, 2, 4, 9, 0.1, "null"), SRs, "CreateStochasticReconfigurationAdvanced");
    fac(F::CreateAdaGradAdvanced(it, 2, 4, 9), base(it, 2, 4, 9, 0.01, "null"), cat("AdaGrad ", 1e-8, ",0"), "CreateAdaGradAdvanced");
  }
}
static void body() {
  if (vp::S().shard == 0) { fresh_defaults(); factories(); }
  copies();
  builder(vp::pick(3, 4), vp::pick(0, 5));
}
VP_MAIN(body)
