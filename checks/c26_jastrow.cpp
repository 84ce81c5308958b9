// C26: Jastrow table, every pair, both orders, both addressing styles, every write history up to the bound.
#include "vp.h"
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/vmc_basic/configuration.h"
#include "qlpeps/vmc_basic/jastrow_factor.h"
using namespace qlpeps;
static SiteIdx site(size_t i, size_t Lx) { return SiteIdx({i / Lx, i % Lx}); }
static void compare(const JastrowFactor &jc, const std::vector<double> &m, size_t Ly, size_t Lx, const char *w) {
  size_t N = Ly * Lx;
  JastrowFactor j = jc; // non-const access
  for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) {
    double e = a == b ? 0 : m[a * N + b];
    VP_CHECK(jc(a, b) == e, "read", w, ": (", a, ",", b, ") reads ", jc(a, b), " expected ", e);
    VP_CHECK(jc(site(a, Lx), site(b, Lx)) == e, "read-site", w, ": site version (", a, ",", b, ") reads ", jc(site(a, Lx), site(b, Lx)), " expected ", e);
    if (a != b) {
      VP_CHECK(j(a, b) == e && j(site(a, Lx), site(b, Lx)) == e, "read-ref", w, ": reference version (", a, ",", b, ")");
    }
  }
  vp::S().transitions++;
}
static void write(JastrowFactor &j, std::vector<double> &m, size_t N, size_t Lx, size_t a, size_t b, double v, int style) {
  switch (style) {
    case 0: j.Set(a, b, v); break;
    case 1: j.Set(site(a, Lx), site(b, Lx), v); break;
    case 2: j(a, b) = v; break;
    case 3: j(site(a, Lx), site(b, Lx)) = v; break;
  }
  m[a * N + b] = m[b * N + a] = v;
}
static void field(const JastrowFactor &j, const std::vector<double> &m, size_t Ly, size_t Lx, const std::vector<size_t> &n) {
  size_t N = Ly * Lx;
  Configuration c(Ly, Lx);
  for (size_t i = 0; i < N; i++) c({i / Lx, i % Lx}) = n[i];
  for (size_t a = 0; a < N; a++) {
    double e = 0;
    for (size_t b = 0; b < N; b++) if (b != a) e += m[a * N + b] * n[b];
    double g = j.JastrowFieldAtSite(c, site(a, Lx));
    VP_CHECK(g == e, "field", "field at site ", a, " is ", g, " expected ", e);
    vp::S().evaluations++;
  }
}
static uint64_t cnt = 0;
static bool mine() { return (int)(cnt++ % vp::S().nshards) == vp::S().shard; }
VP_MAIN([] {
  int M = vp::pick(7, 9);
  for (size_t Ly = 1; Ly <= (size_t)M; Ly++) for (size_t Lx = 1; Lx <= (size_t)M; Lx++) {
    if (!mine()) continue;
    size_t N = Ly * Lx;
    JastrowFactor z(Ly, Lx);
    vp::begin_case(vp::cat("lattice ", Ly, "x", Lx));
    VP_CHECK(z.NumSites() == N, "n", "NumSites ", z.NumSites());
    for (size_t i = 0; i < N; i++) VP_CHECK(z.SiteToIndex(site(i, Lx)) == i && z.SiteIdxToLinear(site(i, Lx)) == i, "lin", "site ", i);
    std::vector<double> m0(N * N, 0.0);
    compare(z, m0, Ly, Lx, "fresh");
    // distinct value for every pair, in every style, written in both orders
    for (int style = 0; style < 5; style++) for (int rev = 0; rev < 2; rev++) {
      JastrowFactor j(Ly, Lx);
      auto m = m0;
      vp::set_case(vp::cat("lattice ", Ly, "x", Lx, " all pairs, style ", style, " reversed ", rev));
      if (style == 4) {
        std::set<std::pair<size_t, size_t>> called;
        j.Fill([&](size_t a, size_t b) {
          VP_CHECK(a < N && b < N && a != b, "fill-arg", "Fill called its function with (", a, ",", b, ")");
          VP_CHECK(called.insert({std::min(a, b), std::max(a, b)}).second, "fill-twice", "Fill evaluated a pair twice");
          double v = 1 + std::min(a, b) * N + std::max(a, b);
          m[a * N + b] = m[b * N + a] = v;
          return v;
        });
        VP_CHECK(called.size() == N * (N - 1) / 2, "fill-all", "Fill evaluated ", called.size(), " pairs");
      } else {
        size_t k = 0;
        for (size_t a = 0; a < N; a++) for (size_t b = a + 1; b < N; b++) write(j, m, N, Lx, rev ? b : a, rev ? a : b, ++k, style);
      }
      compare(j, m, Ly, Lx, "all pairs");
      std::vector<size_t> n(N);
      for (size_t i = 0; i < N; i++) n[i] = (i * i + 1) % 4;
      field(j, m, Ly, Lx, n);
      // one density at a time, and all of one density
      for (size_t i = 0; i < N && N <= 12; i++) { std::vector<size_t> e(N, 0); e[i] = 2; field(j, m, Ly, Lx, e); }
      // rewrite one pair: nothing else changes
      if (N <= 16) for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) if (a != b) {
        JastrowFactor j2 = j; auto m2 = m;
        write(j2, m2, N, Lx, a, b, -5, style % 4);
        compare(j2, m2, Ly, Lx, "one pair rewritten");
        compare(j, m, Ly, Lx, "original after writing a copy");
        vp::S().evaluations++;
      }
    }
    vp::S().states++; vp::outcome(vp::cat(Ly, "x", Lx));
  }
  // every write history on small lattices: length <= 3 (4) over all ordered pairs (style cycles through all choices)
  for (auto [Ly, Lx] : std::vector<std::pair<size_t, size_t>>{{1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}}) {
    size_t N = Ly * Lx;
    int len = vp::pick(N >= 4 ? 2 : 3, N >= 4 ? 3 : 4);
    if (!mine()) continue;
    vp::Explorer ex;
    vp::S().evaluations += ex.run([&](vp::Explorer &x) {
      JastrowFactor j(Ly, Lx);
      std::vector<double> m(N * N, 0.0);
      for (int s = 0; s < len; s++) {
        size_t p = x.choose(N * (N - 1));
        size_t a = p / (N - 1), b = p % (N - 1);
        if (b >= a) b++;
        int style = x.choose(4);
        vp::begin_case(vp::cat("history ", Ly, "x", Lx, " ", x.str()));
        write(j, m, N, Lx, a, b, s + 1, style);
        compare(j, m, Ly, Lx, "history");
      }
      std::string k; for (auto v : m) k += vp::cat(v, ","); vp::state(vp::cat(Ly, Lx, k)); vp::outcome(k);
      std::vector<size_t> n(N);
      for (size_t i = 0; i < N; i++) n[i] = i + 1;
      field(j, m, Ly, Lx, n);
    });
  }
  vp::sample("2x2 lattice, all histories of 2 writes over 12 ordered pairs x 4 styles, every pair read back after every write");
})
