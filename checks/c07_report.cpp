// C07: the result, the callbacks, the checkpoints and the logs describe what really happened.
#include "opt_model.h"
#include <filesystem>
namespace fs = std::filesystem;
using namespace om;
#ifdef VP_SMALL
const int LESS = 1;
#else
const int LESS = 0;
#endif
static const V x0 = {mk(1, 0.25), mk(-0.5, 1), mk(2, -0.5), mk(0.75, -1)};
static const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
static Ans answer(int s, size_t k) {
  auto A = [&](double E, double err, double g) { Ans a; a.E = mk(E, 0.5); a.err = err; a.g = {mk(k % 2 ? 0 : g), mk(k % 2 ? g : 0), mk(0), mk(0)}; a.sr = 1 + k % 2; return a; };
  switch (s) {
    case 0: return A(-1, 0.125, 1);
    case 1: return A(-1.0625, 0.25, 0.5);   // small improvement (within the energy tolerance of 1/8)
    case 2: return A(-2, 0.1, 0.25);        // big improvement, gradient exactly at the tolerance
    case 3: return A(0.5, 0, 0.125);        // worse, gradient below the tolerance
    case 4: return A(-1 - 1.0 / 3, 1.0 / 3, 1e-3);
    case 5: return A(-1, Inf, 1);
    case 6: return A(NaN, 0.125, 1);
    case 7: return A(-0.875, 0.5, 2);       // exactly the tolerance above symbol 0
    default: return A(-1e3, 12345.678, 3e4);
  }
}
// ---- minimal JSON reader (one flat object with scalars and one array) ----
struct Json { std::map<std::string, std::string> v; std::vector<std::string> arr; bool ok = true; };
static bool jnum(const std::string &s) { if (s == "null") return true; size_t i = 0; if (i < s.size() && s[i] == '-') i++; size_t d = i; while (i < s.size() && isdigit(s[i])) i++; if (i == d || (s[d] == '0' && i > d + 1)) return false; if (i < s.size() && s[i] == '.') { size_t f = ++i; while (i < s.size() && isdigit(s[i])) i++; if (i == f) return false; } if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t f = i; while (i < s.size() && isdigit(s[i])) i++; if (i == f) return false; } return i == s.size(); }
static Json parse(const std::string &l) {
  Json j; size_t i = 0; auto ws = [&] { while (i < l.size() && isspace((unsigned char)l[i])) i++; };
  auto fail = [&] { j.ok = false; return j; };
  ws(); if (l[i++] != '{') return fail();
  for (;;) {
    ws(); if (l[i] != '"') return fail(); size_t e = l.find('"', i + 1); if (e == l.npos) return fail(); std::string key = l.substr(i + 1, e - i - 1); i = e + 1; ws(); if (l[i++] != ':') return fail(); ws();
    if (l[i] == '[') { e = l.find(']', i); if (e == l.npos) return fail(); std::string in = l.substr(i + 1, e - i - 1); i = e + 1; std::stringstream ss(in); std::string t; while (std::getline(ss, t, ',')) { if (!jnum(t)) return fail(); j.arr.push_back(t); } j.v[key] = "[]"; }
    else { e = l.find_first_of(",}", i); if (e == l.npos) return fail(); std::string t = l.substr(i, e - i); while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); if (t != "true" && t != "false" && !jnum(t)) return fail(); if (j.v.count(key)) return fail(); j.v[key] = t; i = e; }
    ws(); if (l[i] == ',') { i++; continue; } if (l[i] == '}') { i++; break; } return fail();
  }
  ws(); if (i != l.size()) return fail();
  return j;
}
static std::vector<std::string> lines(const std::string &p) { std::vector<std::string> r; std::ifstream f(p); std::string l; while (std::getline(f, l)) r.push_back(l); return r; }
static bool jeq(const std::string &t, double x, double tol) { if (!std::isfinite(x)) return t == "null"; if (t == "null") return false; return vp::close(std::strtod(t.c_str(), nullptr), x, tol, 1e-12); }
static void check_csv(const std::string &p, const Out &o, size_t n) {
  auto l = lines(p); VP_CHECK(l.size() == n + 1, "trajectory-csv", "trajectory file has ", l.size(), " lines after ", n, " iterations");
  for (size_t i = 0; i < n; i++) {
    const char *s = l[i + 1].c_str(); char *e; long it = std::strtol(s, &e, 10); VP_CHECK(*e == ',', "trajectory-csv", "bad row ", l[i + 1]); double E = std::strtod(e + 1, &e); VP_CHECK(*e == ',', "trajectory-csv", "bad row ", l[i + 1]); double err = std::strtod(e + 1, &e);
    VP_CHECK(it == (long)i && eqd(E, std::real(o.E[i])) && eqd(err, o.err[i]) && *e == 0, "trajectory-csv", "row ", i, " is '", l[i + 1], "', happened ", std::real(o.E[i]), " ", o.err[i]);
  }
}
static std::string dir;
static void one(Cfg c, const std::vector<int> &h, int files, const std::vector<double> &acc = {}) {
  std::string w; for (int s : h) w += vp::cat(" ", s);
  vp::begin_case(vp::cat(c.str(), " answers", w, files ? vp::cat(" files ", files) : ""));
  if (files) { fs::remove_all(dir); fs::create_directories(dir); c.ckpt_dir = files == 2 ? dir + "/deep/ck" : dir + "/ck"; c.jsonl = files == 2 ? dir + "/logs/run.jsonl" : dir + "/run.jsonl"; c.csv = dir + "/spikes.csv"; if (files == 1) std::ofstream(c.jsonl) << "{\"iter\":7}\n"; }
  else c.ckpt = 0;
  RealOut r; auto ev = [&](const V &, bool, size_t k) { return answer(h[std::min(k, h.size() - 1)], k); };
  try { single(c.algo == SR || c.algo == MINSR, [&](MPI_Comm cm) { r = real_run(c, x0, cm, 0, 1, ev); }); } catch (const TooMany &) { vp::violation("no-termination", "the optimisation exceeds its iteration limit"); }
  Out o; if (!compare(c, x0, r, &o)) return;
  vp::S().evaluations++; vp::S().traces++; vp::S().transitions += r.calls.size(); vp::state(vp::S().cur);
  if (!files || !o.thrown.empty()) return;
  // checkpoints: exactly the configured iterations, each loads back to the state reached there
  std::set<std::string> want, got; for (auto &k : o.ck) want.insert(vp::cat("step_", k.first));
  if (fs::exists(c.ckpt_dir)) for (auto &e : fs::directory_iterator(c.ckpt_dir)) if (e.is_directory()) got.insert(e.path().filename().string());
  VP_CHECK(want == got, "checkpoints", "checkpoints at ", list(std::vector<std::string>(got.begin(), got.end())), "configured ", list(std::vector<std::string>(want.begin(), want.end())));
  for (auto &k : o.ck) {
    std::string d = vp::cat(c.ckpt_dir, "/step_", k.first); St s;
    VP_CHECK(s.Load(d), "checkpoint-load", "checkpoint of step ", k.first, " does not load");
    VP_CHECK(same(vec(s), k.second) && (s.GetBoundaryCondition() == qlpeps::BoundaryCondition::Periodic) == c.pbc, "checkpoint-state", "checkpoint of step ", k.first, " holds ", show(vec(s)), " not ", show(k.second));
    std::map<std::string, std::string> m; for (auto &l : lines(d + "/checkpoint_meta.txt")) { auto p = l.find(' '); m[l.substr(0, p)] = p == l.npos ? "" : l.substr(p + 1); }
    VP_CHECK(m["step"] == vp::cat(k.first) && eqd(std::strtod(m["energy"].c_str(), nullptr), std::real(o.E[k.first])) && eqd(std::strtod(m["error"].c_str(), nullptr), o.err[k.first]), "checkpoint-meta", "metadata of step ", k.first, " says step ", m["step"], " energy ", m["energy"], " error ", m["error"]);
    check_csv(d + "/trajectory_snapshot.csv", o, k.first + 1);
  }
  if (!o.ck.empty()) check_csv(c.ckpt_dir + "/energy_trajectory.csv", o, o.ck.back().first + 1);
  // structured log: earlier content kept, one valid record per accepted iteration
  auto l = lines(c.jsonl); size_t off = files == 1;
  if (off) VP_CHECK(!l.empty() && l[0] == "{\"iter\":7}", "jsonl-append", "the log of an earlier run was lost");
  VP_CHECK(l.size() == o.rec.size() + off, "jsonl-records", "log has ", l.size() - off, " records for ", o.rec.size(), " accepted iterations");
  for (size_t i = 0; i < o.rec.size(); i++) {
    Json j = parse(l[i + off]); VP_CHECK(j.ok, "jsonl-syntax", "not JSON: ", l[i + off]); auto &q = o.rec[i];
    VP_CHECK(j.v["iter"] == vp::cat(q.iter) && jeq(j.v["energy"], q.E, 0) && jeq(j.v["energy_error"], q.err, 1e-4) && jeq(j.v["grad_norm"], q.gn, 1e-4) && jeq(j.v["lr"], q.lr, 1e-4), "jsonl-values", "record ", i, " '", l[i + off], "' does not describe iteration ", q.iter, " E ", q.E, " err ", q.err, " |g| ", q.gn, " lr ", q.lr);
    VP_CHECK(j.v["selector_triggered"] == (q.trig ? "true" : "false") && jeq(j.v["selected_eta"], q.eta, 1e-4), "jsonl-selector", "record ", i, " misreports the step selection: ", l[i + off]);
    if (c.algo == SR) VP_CHECK(std::strtod(j.v["sr_iters"].c_str(), nullptr) > 0 || q.gn == 0, "jsonl-sr", "no solver iterations reported");
  }
  // spike log
  auto s = lines(c.csv);
  if (o.ev.empty()) VP_CHECK(s.size() <= 1, "spike-csv", "spike log written without events");
  else {
    VP_CHECK(s.size() == o.ev.size() + 1, "spike-csv", "spike log has ", s.size(), " lines for ", o.ev.size(), " events");
    for (size_t i = 0; i < o.ev.size(); i++) { std::string pre = vp::cat(o.ev[i].step, ",", o.ev[i].attempt, ","); VP_CHECK(s[i + 1].rfind(pre, 0) == 0, "spike-csv", "event ", i, " logged as ", s[i + 1]); }
  }
}
static void all(const Cfg &c, const std::vector<int> &al, int L, int files) {
  L -= LESS; int tot = 1; for (int i = 0; i < L; i++) tot *= (int)al.size();
  for (int k = 0; k < tot; k++) { if (!mine()) continue; std::vector<int> h; int q = k; for (int i = 0; i < L; i++) { h.push_back(al[q % al.size()]); q /= (int)al.size(); } one(c, h, files); }
}
VP_MAIN([] {
  hush(); dir = vp::scratch() + "/r";
  std::vector<int> al{0, 1, 2, 3, 4, 6, 7};
  // stopping rules
  for (size_t mi : {0, 1, 2, 5}) for (double et : {0.0, 0.125}) for (double gt : {0.0, 0.25}) for (size_t pa : {1, 2, 1000}) for (int stop = 0; stop < 3; stop++) {
    Cfg c; c.max_iter = mi; c.etol = et; c.gtol = gt; c.patience = pa; c.lr = 0.25; if (stop) { c.stop_at = stop == 1 ? 0 : 2; } if (stop == 1 && mi > 2) continue;
    all(c, al, std::min<int>((int)mi, vp::pick(5, 6)) < 1 + LESS ? 1 + LESS : std::min<int>((int)mi, vp::pick(5, 5)), 0);
  }
  for (size_t pa : {3, 4, 6}) { Cfg c; c.max_iter = 9; c.patience = pa; c.lr = 0.25; all(c, {0, 1, 2}, vp::pick(8, 9), 0); }
  { Cfg c; c.max_iter = 6; c.patience = 0; all(c, {0, 1, 2}, 4, 0); }
  // scheduler, momentum and other algorithms report too
  for (int a = 0; a < 5; a++) { Cfg c; c.algo = Algo(a); c.max_iter = 4; c.etol = 0.125; c.patience = 3; c.sched = 1; all(c, a == MINSR ? std::vector<int>{0, 1, 2, 3, 4, 7} : al, vp::pick(3, 4), 0); }
  // files
  std::vector<int> alf{0, 2, 3, 4, 5, 6, 8};
  for (size_t ck : {0, 1, 2, 3}) for (int f = 1; f <= 2; f++) for (int p = 0; p < 2; p++) { Cfg c; c.ckpt = ck; c.max_iter = 4; c.pbc = p; c.patience = 3; if (f == 2) c.sched = 1; all(c, alf, vp::pick(4, 4), f); }
  for (size_t mi : {0, 1, 2, 3, 7}) for (size_t ck : {1, 2, 3}) for (size_t st : {size_t(1), size_t(2), SIZE_MAX}) { Cfg c; c.ckpt = ck; c.max_iter = mi; c.stop_at = st; all(c, {0, 2, 3}, vp::pick(3, 5), 1); }
  for (int a = 0; a < 5; a++) { Cfg c; c.algo = Algo(a); c.ckpt = 1; c.max_iter = 3; all(c, a == MINSR ? std::vector<int>{0, 2, 3, 4, 5, 8} : alf, 2 + LESS, 1); }
  for (int rb = 0; rb < 2; rb++) { Cfg c; c.autorec = true; c.rollback = rb; c.retries = 1; c.max_iter = 4; c.ckpt = 2; all(c, {0, 2, 8, 1}, vp::pick(4, 5), 1); }
  for (Algo a : {SGD, SR, MINSR}) { Cfg c; c.algo = a; c.isel = c.psel = c.idet = c.pdet = true; c.isteps = 2; c.pevery = 2; c.max_iter = 3; c.ckpt = 2; all(c, {0, 2, 3}, vp::pick(5, 6), 1); }
  vp::rm_scratch_tree(vp::scratch());
})
