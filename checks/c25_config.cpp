// C25: Configuration random generation, occupancy queries and validation; every outcome of the random engine enumerated.
#include "vp.h"
#include <random>
#include <map>
#include <numeric>
struct ControlledEngine {
  using result_type = uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return UINT64_MAX; }
  static inline vp::Explorer *ex = nullptr;
  static inline int L = 12;
  static inline uint64_t draws = 0;
  ControlledEngine() {}
  template <class S> explicit ControlledEngine(S &&) {}
  template <class... S> void seed(S &&...) {}
  result_type operator()() {
    draws++;
    if (!ex) return 0x9e3779b97f4a7c15ull * draws;
    int k = ex->choose(L);
    return (uint64_t)((((__uint128_t)(2 * k + 1)) << 63) / (unsigned)L) + 0x123456789ull;
  }
};
struct ControlledDevice { ControlledDevice() {} explicit ControlledDevice(const std::string &) {} unsigned operator()() { return 1; } double entropy() const { return 0; } };
#include "qlten/qlten.h"
#include <mpi.h>
#define mt19937 vp_dummy_mt19937
#define mt19937_64 vp_dummy_mt19937_64
#define default_random_engine vp_dummy_dre
#define random_device vp_dummy_rd
namespace std { using vp_dummy_mt19937 = ::ControlledEngine; using vp_dummy_mt19937_64 = ::ControlledEngine; using vp_dummy_dre = ::ControlledEngine; using vp_dummy_rd = ::ControlledDevice; }
#include "qlpeps/vmc_basic/configuration.h"
#undef mt19937
#undef mt19937_64
#undef default_random_engine
#undef random_device
using namespace qlpeps;
using V = std::vector<size_t>;
static V cells(const Configuration &c) {
  V v;
  for (size_t r = 0; r < c.rows(); r++) for (size_t k = 0; k < c.cols(); k++) v.push_back(c({r, k}));
  return v;
}
static std::string str(const V &v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; }
static void queries(const Configuration &c, const char *where) {
  V v = cells(c);
  size_t sum = 0, mx = 0;
  for (auto x : v) { sum += x; mx = std::max(mx, x); }
  V occ(mx + 1, 0);
  for (auto x : v) occ[x]++;
  VP_CHECK(c.Sum() == sum, "sum", where, ": Sum() = ", c.Sum(), " for ", str(v));
  VP_CHECK(c.CountOccupancy() == occ, "occ", where, ": CountOccupancy() = ", str(c.CountOccupancy()), " for ", str(v));
  VP_CHECK(c.IsValid(), "valid", where, ": IsValid() false although every cell is set: ", str(v));
  VP_CHECK(c.size() == c.rows() * c.cols(), "size", "size() wrong");
  vp::S().transitions++;
}
static uint64_t sharded = 0;
static bool mine() { return (int)(sharded++ % vp::S().nshards) == vp::S().shard; }

static void occ_case(size_t R, size_t C, const V &occ, bool expect_cover, int L) {
  size_t N = R * C, tot = std::accumulate(occ.begin(), occ.end(), (size_t)0);
  std::map<size_t, size_t> m, msparse;
  for (size_t i = 0; i < occ.size(); i++) { m[i] = occ[i]; msparse[3 * i + 2] = occ[i]; }
  for (int mode = 0; mode < 6; mode++) {
    if (mode >= 3 && N > 4) continue;
    if (N == 6 && mode && R != 2) continue;
    bool sparse = mode == 2 || mode == 5;
    vp::begin_case(vp::cat("Random occupancy ", str(occ), " on ", R, "x", C, " mode ", mode));
    std::set<V> seen;
    vp::Explorer ex;
    ControlledEngine::L = L;
    ControlledEngine::ex = &ex;
    vp::S().evaluations += ex.run([&](vp::Explorer &) {
      bool threw = false;
      Configuration c(R, C);
      for (size_t r = 0; r < R; r++) for (size_t k = 0; k < C; k++) c({r, k}) = 7;
      const V before = cells(c);
      try {
        switch (mode) {
          case 0: c.Random(occ); break;
          case 1: c.Random(m); break;
          case 2: c.Random(msparse); break;
          case 3: { Configuration d(R, C, occ); c = d; break; }
          case 4: { Configuration d(R, C, m); c = d; break; }
          case 5: { Configuration d(R, C, msparse); c = d; break; }
        }
      } catch (const std::invalid_argument &) { threw = true; }
      VP_CHECK(threw == (tot != N), "validate", "occupancy sum ", tot, " on ", N, " sites: ", threw ? "rejected" : "accepted");
      V v = cells(c);
      if (threw) { VP_CHECK(v == before, "validate-mod", "rejected occupancy modified the configuration"); return; }
      V got(occ.size(), 0);
      for (auto x : v) {
        size_t s = x;
        if (sparse) { VP_CHECK(x >= 2 && (x - 2) % 3 == 0, "state", "state ", x, " was not requested"); s = (x - 2) / 3; }
        VP_CHECK(s < occ.size(), "state", "state ", x, " was not requested");
        got[s]++;
      }
      VP_CHECK(got == occ, "conserve", "requested ", str(occ), " got ", str(got));
      queries(c, "after Random");
      seen.insert(v);
      vp::outcome(str(v));
    });
    ControlledEngine::ex = nullptr;
    if (tot == N && expect_cover) {
      double f = std::tgamma(N + 1.0);
      for (auto o : occ) f /= std::tgamma(o + 1.0);
      VP_CHECK(seen.size() == (size_t)std::llround(f), "cover", "only ", seen.size(), " of ", std::llround(f), " arrangements are reachable");
    }
    vp::S().states += seen.size();
  }
}

VP_MAIN([] {
  // all occupancy vectors
  int maxN = vp::pick(5, 6);
  for (size_t R = 1; R <= 6; R++) for (size_t C = 1; C <= 6; C++) {
    size_t N = R * C;
    if (N > (size_t)maxN) continue;
    for (size_t dim = 1; dim <= (N <= 4 ? 4u : 3u); dim++) {
      V occ(dim, 0);
      for (;;) {
        size_t t = std::accumulate(occ.begin(), occ.end(), (size_t)0);
        // for 6 sites the full enumeration is heavy: only arrangements of one shape per occupancy in the quick tier
        bool heavy = N >= 6 && !vp::thorough() && R > C;
        if (t <= N + 1 && !(heavy) && mine()) occ_case(R, C, occ, true, N <= 4 ? 12 : 60);
        size_t i = 0;
        while (i < dim && occ[i] == N + 1) occ[i++] = 0;
        if (i == dim) break;
        occ[i]++;
      }
    }
  }
  // larger lattices: conservation only, coarse draws
  for (auto [R, C] : std::vector<std::pair<size_t, size_t>>{{3, 3}, {2, 5}, {4, 3}, {4, 4}})
    for (size_t a = 0; a <= R * C; a++) for (size_t b = 0; a + b <= R * C; b++)
      if (mine()) occ_case(R, C, V{a, b, R * C - a - b}, false, 2);
  // Random(dim)
  for (size_t R = 1; R <= 4; R++) for (size_t C = 1; C <= 4; C++) for (size_t dim = 1; dim <= 5; dim++) {
    size_t N = R * C;
    double n = std::pow((double)dim, (double)N);
    if (n > vp::pick(20000, 300000) || !mine()) continue;
    for (int mode = 0; mode < 2; mode++) {
      vp::begin_case(vp::cat("Random(dim=", dim, ") on ", R, "x", C, " mode ", mode));
      std::set<V> seen;
      vp::Explorer ex;
      ControlledEngine::L = dim;
      ControlledEngine::ex = &ex;
      vp::S().evaluations += ex.run([&](vp::Explorer &) {
        Configuration c(R, C);
        if (mode == 0) { Configuration d(R, C, dim); c = d; } else c.Random(dim);
        V v = cells(c);
        for (auto x : v) VP_CHECK(x < dim, "range", "Random(", dim, ") produced state ", x);
        queries(c, "after Random(dim)");
        seen.insert(v);
      });
      ControlledEngine::ex = nullptr;
      VP_CHECK(seen.size() == (size_t)std::llround(n), "cover-dim", "only ", seen.size(), " of ", n, " configurations reachable");
      vp::S().states += seen.size();
    }
  }
  // explicit contents: constructor from table, equality, IsValid with missing cells
  for (size_t R = 1; R <= 3; R++) for (size_t C = 1; C <= 3; C++) {
    size_t N = R * C;
    if (N > 6 || !mine()) continue;
    uint64_t tot = 1;
    for (size_t i = 0; i < N; i++) tot *= 3;
    std::vector<Configuration> all;
    for (uint64_t code = 0; code < tot; code++) {
      vp::begin_case(vp::cat("table ", R, "x", C, " code ", code));
      std::vector<V> t(R, V(C));
      V flat;
      uint64_t x = code;
      for (auto &row : t) for (auto &e : row) { e = x % 3 == 2 ? 5 : x % 3; x /= 3; flat.push_back(e); }
      Configuration c(t);
      VP_CHECK(c.rows() == R && c.cols() == C && cells(c) == flat, "table", "constructor from a table");
      queries(c, "table");
      vp::S().evaluations++; vp::outcome(vp::cat(R, "x", C, ":", str(flat))); vp::S().states++;
      Configuration copy(c);
      VP_CHECK(copy == c && c == copy, "eq", "copy not equal");
      // one-cell neighbours differ
      for (size_t r = 0; r < R; r++) for (size_t k = 0; k < C; k++) {
        Configuration d(c);
        d({r, k}) = d({r, k}) + 1;
        VP_CHECK(!(d == c) && !(c == d), "eq", "differs at (", r, ",", k, ") but compares equal");
        VP_CHECK(d != c, "neq", "!= does not see the difference");
        VP_CHECK(cells(c) == flat, "alias", "changing a copy changed the original");
      }
      std::ostringstream os;
      os << c;
      std::istringstream is(os.str());
      Configuration back(R, C);
      is >> back;
      VP_CHECK(back == c, "stream", "stream round trip");
      for (size_t cut = 0; cut < os.str().size(); cut++) {
        std::string part = os.str().substr(0, cut);
        std::istringstream p(part);
        // number of complete numbers that survive
        size_t cnt = 0; { std::istringstream q(part); size_t z; while (q >> z) cnt++; }
        Configuration b2(R, C);
        bool ok = true;
        try { p >> b2; if (p.fail()) ok = false; } catch (const std::exception &) { ok = false; }
        VP_CHECK(ok == (cnt == N), "stream-short", "stream with ", cnt, " of ", N, " numbers read as ", ok ? "success" : "failure");
        vp::S().transitions++;
      }
    }
    // different shapes never equal
    for (size_t R2 = 1; R2 <= 3; R2++) for (size_t C2 = 1; C2 <= 3; C2++) {
      if (R2 == R && C2 == C) continue;
      Configuration a(R, C), b(R2, C2);
      for (size_t r = 0; r < R; r++) for (size_t k = 0; k < C; k++) a({r, k}) = 1;
      for (size_t r = 0; r < R2; r++) for (size_t k = 0; k < C2; k++) b({r, k}) = 1;
      VP_CHECK(!(a == b), "eq-shape", "configurations of different shape compare equal");
    }
    // IsValid: every subset of missing cells
    for (uint64_t miss = 0; miss < (1ull << N); miss++) {
      Configuration a(R, C);
      for (size_t i = 0; i < N; i++) if (!(miss >> i & 1)) a({i / C, i % C}) = i;
      vp::set_case(vp::cat("IsValid ", R, "x", C, " missing mask ", miss));
      const Configuration &ca = a;
      VP_CHECK(ca.IsValid() == (miss == 0), "isvalid", "IsValid() = ", ca.IsValid());
      vp::S().evaluations++;
    }
  }
  vp::sample("Random({2,1,1}) on 2x2 with every draw of a 12-point grid: all 12 arrangements");
})
