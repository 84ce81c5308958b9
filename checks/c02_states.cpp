// C02 (wave functions, projected pair states, configurations): save/load under every torn write, open and close fault,
// every truncation and every missing file.
#include "sitps_util.h"
#include "faultio.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#include <dirent.h>
using namespace su;
#ifndef ELT
#define ELT double
#endif
using T = ELT;
using S_ = State<T>;
using R_ = Ref<T>;
using TPS_ = qlpeps::TPS<T, QN>;
using PEPS_ = qlpeps::SquareLatticePEPS<T, QN>;
using qlpeps::Configuration;
static std::string base;
static uint64_t cnt = 0;
static bool mine() { return (int)(cnt++ % vp::S().nshards) == vp::S().shard; }
static std::string fresh_dir() { static int k = 0; std::string d = base + "/d"; vp::rm_scratch_tree(d); (void)k; return d; }
static std::vector<std::string> files(const std::string &d) { std::vector<std::string> v; if (DIR *h = opendir(d.c_str())) { while (auto *e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(h); } std::sort(v.begin(), v.end()); return v; }
static std::string get(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }

// Generic fault enumeration. Obj: save(dir, release)->bool success, matches(other), load(dir, &loaded)->bool
template <class Make, class Save, class Load, class Eq, class Intact>
void faults(const std::string &name, Make make, Save save, Load load, Eq eq, Intact intact, bool can_release, std::function<bool(const std::string &, size_t)> ambiguous_cut) {
  vp::Mute mute;
  // 1. plain save/load
  for (int rel = 0; rel <= (can_release ? 1 : 0); rel++) {
    std::string d = fresh_dir();
    vp::begin_case(name + (rel ? " plain, release" : " plain"));
    auto o = make();
    faultio::start({});
    bool ok = save(o, d, rel);
    faultio::Plan full = faultio::stop();
    VP_CHECK(ok, "save-plain", "save without any fault reports failure");
    if (!rel) VP_CHECK(intact(o, ""), "save-modified", "saving changed the object in memory");
    VP_CHECK(load(d) && eq(), "roundtrip", "loading a saved object gives a different one");
    vp::S().evaluations++; vp::outcome(name);
    // 2. disk full after k bytes
    for (long k = 0; k < full.bytes; k++) {
      d = fresh_dir();
      vp::begin_case(vp::cat(name, " disk full after ", k, " of ", full.bytes, " bytes, release ", rel));
      auto x = make();
      faultio::Plan p; p.write_budget = k;
      faultio::start(p);
      bool r = save(x, d, rel);
      p = faultio::stop();
      if (p.faults) {
        if (r) { // only acceptable if what is on disk is nevertheless the whole object (a best-effort side file)
          VP_CHECK(load(d) && eq(), "save-result", "save reports success although the disk was full");
        } else {
          VP_CHECK(intact(x, d), "release", "data that is not on disk was released or changed in memory after a failed save");
          if (load(d)) VP_CHECK(eq() || ambiguous_cut("", 0), "load-torn", "loading a torn save succeeds with wrong contents");
        }
      }
      vp::S().evaluations++; vp::S().transitions++;
    }
    // 3. nth open / close / write fails
    for (int kind = 0; kind < 3; kind++) for (int n = 0; n < (kind == 2 ? full.writes : kind ? full.opens : full.closes); n++) {
      d = fresh_dir();
      vp::begin_case(vp::cat(name, kind == 2 ? " write " : kind ? " open " : " close ", n, " fails, release ", rel));
      auto x = make();
      faultio::Plan p; (kind == 2 ? p.fail_write : kind ? p.fail_open : p.fail_close) = n;
      faultio::start(p);
      bool r = save(x, d, rel);
      p = faultio::stop();
      if (p.faults) {
        if (r) VP_CHECK(load(d) && eq(), "save-fault", "save reports success although ", kind == 2 ? "write" : kind ? "open" : "close", " number ", n, " failed and the object does not load back");
        else VP_CHECK(intact(x, d), "release", "data that is not on disk was released or changed in memory after a failed save");
        // a failed close may mean lost data even though it can be read back here: it must not be reported as success
        // for a file that carries the object
        if (r && !kind && can_release) VP_CHECK(false, "save-close", "save reports success although close number ", n, " failed");
      }
      vp::S().evaluations++; vp::S().extra["faults"] += p.faults;
    }
  }
  // 4. unusable directory: a regular file is in the way
  {
    std::string d = fresh_dir();
    put(d, "x");
    vp::begin_case(name + " directory path is a file");
    auto x = make();
    bool r = save(x, d, can_release);
    VP_CHECK(!r, "save-path", "save into an unusable path reports success");
    VP_CHECK(intact(x, d), "release", "data released although nothing could be saved");
    ::unlink(d.c_str());
    VP_CHECK(!load(d), "load-nodir", "load from a missing directory reports success");
  }
  // 5. every truncation of every file, every missing file
  std::string d = fresh_dir();
  auto o = make();
  VP_CHECK(save(o, d, false), "save-plain", "save fails");
  auto fs = files(d);
  vp::S().extra["files"] += fs.size();
  for (auto &f : fs) {
    std::string body = get(d + "/" + f);
    for (size_t k = 0; k < body.size(); k++) {
      put(d + "/" + f, body.substr(0, k));
      vp::begin_case(vp::cat(name, " file ", f, " truncated to ", k, " of ", body.size(), " bytes"));
      if (load(d)) { bool same = eq(); if (!same && !ambiguous_cut(f, k)) VP_CHECK(false, "load-truncated", "loading a truncated save succeeds with wrong contents"); }
      vp::S().evaluations++; vp::S().transitions++;
    }
    ::unlink((d + "/" + f).c_str());
    vp::begin_case(vp::cat(name, " file ", f, " missing"));
    if (load(d)) VP_CHECK(eq() || ambiguous_cut(f, 0), "load-missing", "loading a save with a missing file succeeds with wrong contents");
    put(d + "/" + f, body);
    vp::S().evaluations++;
  }
  vp::begin_case(name + " restored");
  VP_CHECK(load(d) && eq(), "roundtrip2", "restored files do not load");
  vp::state(name);
}

VP_MAIN([] {
  base = vp::scratch();
  using LP = std::vector<std::pair<size_t, size_t>>;
  // --- SplitIndexTPS
  for (auto [R, C] : LP{{1, 1}, {1, 2}, {2, 1}, {2, 2}}) for (size_t d = 1; d <= 2; d++) for (int pbc = 0; pbc < 2; pbc++) for (int absent = 0; absent < 2; absent++) {
    if (!mine()) continue;
    if (R * C == 4 && absent && !vp::thorough()) continue;
    Lat L{R, C, d, (bool)pbc, [](size_t r, size_t c) { return 1 + (r + c) % 2; }, [](size_t r, size_t c) { return 1 + (r * 2 + c + 1) % 2; }};
    R_ m = make_ref<T>(L, absent ? 0xAAAAAAAAull : ~0ull, 3);
    for (int prior = 0; prior < 2; prior++) {
      S_ target;
      faults(vp::cat("SplitIndexTPS ", L.str(), absent ? " with absent components" : "", " loaded into ", prior ? "another state" : "an empty state"),
             [&] { return build<T>(m); },
             [&](S_ &s, const std::string &dir, bool rel) { try { s.Dump(dir, rel); return true; } catch (const std::ios_base::failure &) { return false; } },
             [&](const std::string &dir) { target = prior ? build<T>(make_ref<T>(uniform(2, 1, 3, !pbc, 2), ~0ull, 9)) : S_(); return target.Load(dir); },
             [&] { return read<T>(target) == m; },
             [&](S_ &s, const std::string &dir) {
               if (s.rows() != R || s.cols() != C || s.GetBoundaryCondition() != L.bc()) return false;
               for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) {
                 bool inmem = s(r, c) != nullptr && s({r, c}).size() == d;
                 for (size_t k = 0; k < d; k++) {
                   size_t i = (r * C + c) * d + k;
                   Ten<T> t;
                   if (inmem) t = s({r, c})[k];
                   else { S_ q(R, C, d); if (!q.LoadTen(r, c, k, qlpeps::GenSplitIndexTPSTenName(dir, r, c, k))) return false; t = q({r, c})[k]; }
                   if (t.IsDefault() == m.has[i]) return false;
                   if (m.has[i] && !(t == make_ten<T>(m.sh[i], m.e[i]))) return false;
                 }
               }
               return true;
             }, true,
             [&](const std::string &f, size_t) { return pbc && (f.empty() || f == "tps_meta.txt") && target.GetBoundaryCondition() == BoundaryCondition::Open && [&] { R_ g = read<T>(target); g.pbc = true; return g == m; }(); });
      if (R * C == 4 && !vp::thorough()) break;
    }
  }
  // SplitIndexTPS legacy formats: meta without boundary condition, and "phys_dim" only
  if (mine()) {
    vp::Mute mute;
    R_ m = make_ref<T>(uniform(2, 2, 2, false, 2), ~0ull, 3);
    S_ s = build<T>(m);
    std::string d = fresh_dir();
    s.Dump(d);
    put(d + "/tps_meta.txt", "2 2 2");
    S_ t; vp::begin_case("legacy meta without boundary condition");
    VP_CHECK(t.Load(d) && read<T>(t) == m, "legacy", "legacy metadata (rows cols dim) is not read as an open-boundary state");
    ::unlink((d + "/tps_meta.txt").c_str()); put(d + "/phys_dim", "2");
    S_ u(2, 2); vp::begin_case("legacy phys_dim file");
    VP_CHECK(u.Load(d) && read<T>(u) == m, "legacy", "legacy phys_dim format does not load");
    for (auto bad : {"", "x", "2", "2 2", "2 2 x", "2 2 2 7", "2 2 2 -1", "-1 2 2 0"}) {
      put(d + "/tps_meta.txt", bad);
      vp::begin_case(vp::cat("corrupt metadata '", bad, "'"));
      S_ w; bool ok = false; try { ok = w.Load(d); } catch (const std::exception &) {}
      VP_CHECK(!ok, "meta", "corrupt metadata is accepted");
      vp::S().evaluations++;
    }
  }
  // --- TPS
  for (auto [R, C] : LP{{1, 1}, {1, 2}, {2, 1}, {2, 2}}) for (int pbc = 0; pbc < 2; pbc++) for (int prior = 0; prior < 3; prior++) {
    if (!mine()) continue;
    Lat L{R, C, 2, (bool)pbc, [](size_t r, size_t c) { return 1 + (r + c) % 2; }, [](size_t r, size_t c) { return 1 + (r * 2 + c + 1) % 2; }};
    R_ m = make_ref<T>(L, ~0ull, 3);
    TPS_ orig = build<T>(m).GroupIndices(idx(2, qlten::OUT));
    TPS_ target(1, 1);
    auto same = [&](TPS_ &t) { if (t.rows() != R || t.cols() != C || t.GetBoundaryCondition() != L.bc()) return false; for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) if (t(r, c) == nullptr || !(t({r, c}) == orig({r, c}))) return false; return true; };
    faults(vp::cat("TPS ", L.str(), " loaded into a ", prior == 0 ? "1x1" : prior == 1 ? "same-shape open" : "2x3 periodic", " state"),
           [&] { return orig; },
           [&](TPS_ &s, const std::string &dir, bool rel) { try { s.Dump(dir, rel); return true; } catch (const std::ios_base::failure &) { return false; } },
           [&](const std::string &dir) { target = prior == 0 ? TPS_(1, 1) : prior == 1 ? TPS_(R, C) : TPS_(2, 3, BoundaryCondition::Periodic); return target.Load(dir); },
           [&] { return same(target); },
           [&](TPS_ &s, const std::string &dir) {
             if (s.rows() != R || s.cols() != C) return false;
             for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) {
               if (s(r, c) != nullptr) { if (!(s({r, c}) == orig({r, c}))) return false; }
               else { TPS_ q(R, C); if (!q.LoadTen(r, c, qlpeps::GenTPSTenName(dir, r, c)) || !(q({r, c}) == orig({r, c}))) return false; }
             }
             return true; }, true,
           // a missing metadata file is the documented legacy format: shape and boundary condition are the caller's
           [&](const std::string &f, size_t k) { return (f == "tps_meta.txt" && k == 0 && get(base + "/d/tps_meta.txt").empty()) || f.empty(); });
  }
  // --- SquareLatticePEPS
  for (auto [R, C] : LP{{1, 1}, {1, 2}, {2, 2}}) for (int pbc = 0; pbc < 2; pbc++) for (int cst = 0; cst < 2; cst++) {
    if (!mine()) continue;
    if (pbc && R * C < 4) continue;
    auto phy = idx(2, qlten::OUT);
    auto make = [&] {
      PEPS_ p(phy, R, C, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
      std::vector<std::vector<size_t>> act(R, std::vector<size_t>(C)); for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) act[r][c] = (r + c) % 2;
      p.Initial(act);
      int q = 0;
      for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) p.Gamma({r, c})({0, 0, 0, 0, 1}) = T(++q);
      return p; };
    PEPS_ orig = make(), target = make();
    auto same = [&](PEPS_ &t) {
      for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) if (!t.Gamma(r, c) || !(t.Gamma({r, c}) == orig.Gamma({r, c}))) return false;
      for (size_t r = 0; r < orig.lambda_vert.rows(); r++) for (size_t c = 0; c < orig.lambda_vert.cols(); c++) if (!t.lambda_vert(r, c) || !(t.lambda_vert({r, c}) == orig.lambda_vert({r, c}))) return false;
      for (size_t r = 0; r < orig.lambda_horiz.rows(); r++) for (size_t c = 0; c < orig.lambda_horiz.cols(); c++) if (!t.lambda_horiz(r, c) || !(t.lambda_horiz({r, c}) == orig.lambda_horiz({r, c}))) return false;
      return true; };
    faults(vp::cat("SquareLatticePEPS ", R, "x", C, pbc ? " PBC" : " OBC", cst ? " (const save)" : ""), make,
           [&](PEPS_ &s, const std::string &dir, bool rel) { if (cst) return static_cast<const PEPS_ &>(s).Dump(dir); return s.Dump(dir, rel); },
           [&](const std::string &dir) { target = PEPS_(phy, R, C, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); return target.Load(dir); },
           [&] { return same(target); },
           [&](PEPS_ &s, const std::string &dir) { // everything still in memory or on disk
             for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) {
               if (s.Gamma(r, c)) { if (!(s.Gamma({r, c}) == orig.Gamma({r, c}))) return false; }
               else { qlpeps::TenMatrix<Ten<T>> q(R, C); if (!q.LoadTen(r, c, dir + "/gamma_ten_" + std::to_string(r) + "-" + std::to_string(c) + ".qlten") || !(q({r, c}) == orig.Gamma({r, c}))) return false; }
             }
             return true; }, !cst,
           [&](const std::string &, size_t) { return false; });
  }
  // --- Configuration
  for (auto [R, C] : LP{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}}) for (int content = 0; content < 3; content++) {
    if (!mine()) continue;
    Configuration orig(R, C);
    for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) orig({r, c}) = content == 0 ? (r * C + c) % 2 : content == 1 ? (r * 3 + c) % 10 : 10 + 7 * r + 3 * c;
    Configuration target(R, C);
    faults(vp::cat("Configuration ", R, "x", C, " content ", content), [&] { return orig; },
           [&](Configuration &s, const std::string &dir, bool) { try { s.Dump(dir, 3); return true; } catch (const std::ios_base::failure &) { return false; } },
           [&](const std::string &dir) { target = Configuration(R, C); for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) target({r, c}) = 99; return target.Load(dir, 3); },
           [&] { return target == orig; },
           [&](Configuration &s, const std::string &) { return s == orig; }, false,
           [&](const std::string &f, size_t) {
             // cut inside the last number: the text format cannot tell (recorded finding)
             bool only_last = content == 2 && (f == "configuration3" || f.empty());
             for (size_t i = 0; only_last && i + 1 < R * C; i++) if (target({i / C, i % C}) != orig({i / C, i % C})) only_last = false;
             if (only_last) vp::violation("config-cut-in-last-number", "Configuration::Load accepts a file cut inside its last (multi-digit) number");
             return only_last; });
    // wrong shape: loading into any other shape fails, with and without the side file, unless the number of cells agrees
    vp::Mute mute;
    for (size_t R2 = 1; R2 <= 3; R2++) for (size_t C2 = 1; C2 <= 3; C2++) for (int side = 0; side < 2; side++) {
      if (R2 == R && C2 == C) continue;
      std::string d = fresh_dir();
      Configuration s(orig); s.Dump(d, 3);
      if (!side) ::unlink((d + "/configuration3.shape").c_str());
      if (!side && R2 * C2 == R * C) continue;
      vp::begin_case(vp::cat("Configuration ", R, "x", C, " loaded as ", R2, "x", C2, side ? "" : " without shape file"));
      Configuration t(R2, C2);
      VP_CHECK(!t.Load(d, 3), "load-shape", "loading a configuration of another shape reports success");
      vp::S().evaluations++;
    }
    // overwriting an older save of another shape, every side-file fault included
    for (int n = -1; n < 2; n++) for (long k = -1; k < 4; k++) {
      std::string d = fresh_dir();
      Configuration old(R + 1, C); for (size_t r = 0; r <= R; r++) for (size_t c = 0; c < C; c++) old({r, c}) = 5;
      old.Dump(d, 3);
      Configuration s(orig), t(R, C);
      std::string body; { std::ostringstream os; os << orig; body = os.str(); }
      faultio::Plan p; p.fail_open = n; p.write_budget = k < 0 ? -1 : (long)body.size() + k;
      vp::begin_case(vp::cat("Configuration ", R, "x", C, " saved over another shape, open fault ", n, " disk full ", k, " bytes into the shape file"));
      faultio::start(p);
      bool r = true; try { s.Dump(d, 3); } catch (const std::ios_base::failure &) { r = false; }
      faultio::stop();
      if (r) VP_CHECK(t.Load(d, 3) && t == orig, "save-over", "save reports success but the configuration does not load back");
      vp::S().evaluations++;
    }
  }
  // --- data vectors
  if (mine()) for (size_t n : {0u, 1u, 5u, 4000u}) {
    std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = i * 1.25;
    std::string f = base + "/vec";
    faultio::start({}); qlpeps::DumpVecData(f, v); auto full = faultio::stop();
    for (long k = 0; k < full.bytes; k += n > 100 ? 997 : 1) {
      vp::begin_case(vp::cat("DumpVecData of ", n, " numbers, disk full after ", k));
      faultio::Plan p; p.write_budget = k; faultio::start(p);
      bool ok = true; try { qlpeps::DumpVecData(f, v); } catch (const std::ios_base::failure &) { ok = false; }
      p = faultio::stop();
      VP_CHECK(!ok, "vec", "DumpVecData reports success although the disk was full");
      vp::S().evaluations++;
    }
    std::ifstream in(f); 
    faultio::Plan p; p.fail_open = 0; faultio::start(p); bool ok = true; try { qlpeps::DumpVecData(f, v); } catch (const std::ios_base::failure &) { ok = false; } faultio::stop();
    VP_CHECK(!ok, "vec", "DumpVecData reports success although the file could not be opened");
    qlpeps::DumpVecData(f, v); std::ifstream g(f); double x; size_t i = 0; while (g >> x) { VP_CHECK(i < n && x == v[i], "vec-content", "DumpVecData wrote ", x); i++; } VP_CHECK(i == n, "vec-content", "DumpVecData wrote ", i, " of ", n, " numbers");
  }
  vp::sample("SplitIndexTPS 2x2 d=2 PBC: disk full after each of its bytes, each open and close failing, each file truncated at each byte and removed");
  vp::rm_scratch_tree(base);
})
