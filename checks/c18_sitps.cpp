// C18: SplitIndexTPS / TPS arithmetic against component-wise arithmetic, all absence patterns, all short histories.
#include "sitps_util.h"
using namespace su;
#ifndef ELT
#define ELT double
#endif
using T = ELT;
using S_ = State<T>;
using R_ = Ref<T>;
static uint64_t cnt = 0;
static bool mine() { return (int)(cnt++ % vp::S().nshards) == vp::S().shard; }
template <class F> R_ map1(const R_ &a, F f) { R_ r = a; for (size_t i = 0; i < r.n(); i++) for (auto &x : r.e[i]) x = f(x); return r; }
static R_ add(const R_ &a, const R_ &b, T sb) {
  R_ r = a;
  for (size_t i = 0; i < r.n(); i++) {
    if (!b.has[i]) continue;
    if (!r.has[i]) { r.has[i] = true; r.e[i] = b.e[i]; r.sh[i] = b.sh[i]; for (auto &x : r.e[i]) x *= sb; }
    else for (size_t k = 0; k < r.e[i].size(); k++) r.e[i][k] += sb * b.e[i][k];
  }
  return r;
}
static double nrm2(const R_ &a) { double s = 0; for (auto &v : a.e) for (auto &x : v) s += std::norm(x); return s; }
static T inner(const R_ &a, const R_ &b) { T s(0); for (size_t i = 0; i < a.n(); i++) if (a.has[i] && b.has[i]) for (size_t k = 0; k < a.e[i].size(); k++) s += qlten::vp_conj(a.e[i][k]) * b.e[i][k]; return s; }
static bool approx(const R_ &a, const R_ &b) {
  if (!(a.R == b.R && a.C == b.C && a.d == b.d && a.pbc == b.pbc && a.has == b.has && a.sh == b.sh)) return false;
  for (size_t i = 0; i < a.n(); i++) for (size_t k = 0; k < a.e[i].size(); k++) if (!vp::close(a.e[i][k], b.e[i][k], 1e-12, 1e-13)) return false;
  return true;
}
static void same(const S_ &s, const R_ &m, const char *key) {
  R_ g = read<T>(s);
  if (!approx(g, m)) VP_CHECK(false, key, key, ": got ", show(g), " expected ", show(m));
  vp::S().transitions++;
}
static bool real_type() { return std::is_same_v<T, double>; }

static void pair_case(const R_ &ra, const R_ &rb) {
  S_ a = build<T>(ra), b = build<T>(rb);
  const S_ &ca = a, &cb = b;
  same(ca + cb, add(ra, rb, T(1)), "a+b");
  same(ca - cb, add(ra, map1(rb, [](T x) { return -x; }), T(1)), "a-b");
  { S_ x(a); x += b; same(x, add(ra, rb, T(1)), "a+=b"); same(b, rb, "+= operand"); }
  { S_ x(a); x -= b; same(x, add(ra, rb, T(-1)), "a-=b"); same(b, rb, "-= operand"); }
  T g = ca * cb, e = inner(ra, rb);
  VP_CHECK(vp::close(std::complex<double>(g), std::complex<double>(e)), "inner", "inner product ", g, " expected ", e);
  same(a, ra, "left operand"); same(b, rb, "right operand");
  { S_ x(a); x = cb; same(x, rb, "copy assignment"); x += a; same(b, rb, "assigned-from"); }
  { S_ x(a), y(b); x = std::move(y); same(x, rb, "move assignment"); }
  vp::S().evaluations++;
}
static void single_case(const R_ &ra, const R_ &rpos) {
  S_ a = build<T>(ra);
  const S_ &ca = a;
  T s = val<T>(3, -2);
  same(-ca, map1(ra, [](T x) { return -x; }), "-a");
  same(ca * s, map1(ra, [&](T x) { return x * s; }), "a*s");
  same(s * ca, map1(ra, [&](T x) { return s * x; }), "s*a");
  same(ca * T(0), map1(ra, [&](T) { return T(0); }), "a*0");
  if constexpr (!std::is_same_v<T, double>) same(2.0 * ca, map1(ra, [&](T x) { return 2.0 * x; }), "real*a");
  { S_ x(a); x *= s; same(x, map1(ra, [&](T v) { return v * s; }), "a*=s"); }
  { S_ x(a); x += x; same(x, map1(ra, [&](T v) { return v * 2.0; }), "a+=a"); }
  { S_ x(a); x -= x; same(x, map1(ra, [&](T) { return T(0); }), "a-=a"); }
  { S_ x(a); x = x; same(x, ra, "a=a"); }
  same(S_(ca), ra, "copy"); { S_ y(a); S_ x(std::move(y)); same(x, ra, "move"); }
  VP_CHECK(vp::close(ca.NormSquare(), nrm2(ra)), "norm", "NormSquare ", ca.NormSquare(), " expected ", nrm2(ra));
  auto sq = [](T x) { return x * x; };
  auto sn = [](T x) { return T(std::norm(x)); };
  auto inv = [](T x) { return std::abs(x) < 1.5 ? T(0) : T(1) / x; };
  same(ca.ElementWiseSquare(), map1(ra, sq), "square"); same(qlpeps::ElementWiseSquare(ca), map1(ra, sq), "free square");
  same(ca.ElementWiseSquaredNorm(), map1(ra, sn), "squarednorm"); same(qlpeps::ElementWiseSquaredNorm(ca), map1(ra, sn), "free squarednorm");
  same(ca.ElementWiseInverse(1.5), map1(ra, inv), "inverse"); same(qlpeps::ElementWiseInverse(ca, 1.5), map1(ra, inv), "free inverse");
  { S_ x(a); x.ElementWiseSquareInPlace(); same(x, map1(ra, sq), "square in place"); }
  { S_ x(a); x.ElementWiseSquaredNormInPlace(); same(x, map1(ra, sn), "squarednorm in place"); }
  { S_ x(a); x.ElementWiseInverseInPlace(1.5); same(x, map1(ra, inv), "inverse in place"); }
  for (double c : {0.5, 2.5, 100.0}) {
    auto clip = [&](T x) { return std::abs(x) > c ? x * (c / std::abs(x)) : x; };
    { S_ x(a); x.ElementWiseClipTo(c); same(x, map1(ra, clip), "clip"); }
    same(qlpeps::ElementWiseClipTo(ca, c), map1(ra, clip), "free clip");
    double n = std::sqrt(nrm2(ra)), f = n > c ? c / n : 1.0;
    { S_ x(a); x.ClipByGlobalNorm(c); same(x, map1(ra, [&](T v) { return v * f; }), "global clip"); }
    same(qlpeps::ClipByGlobalNorm(ca, c), map1(ra, [&](T v) { return v * f; }), "free global clip");
  }
  { S_ p = build<T>(rpos); auto rt = [](T x) { return std::sqrt(x); }; const S_ &cp = p;
    same(cp.ElementWiseSqrt(), map1(rpos, rt), "sqrt"); same(qlpeps::ElementWiseSqrt(cp), map1(rpos, rt), "free sqrt");
    p.ElementWiseSqrtInPlace(); same(p, map1(rpos, rt), "sqrt in place"); }
  same(a, ra, "operand of unary operations");
  // site-wise scaling (only where the site has a non-zero component)
  std::vector<double> n2(ra.R * ra.C, 0), mx(ra.R * ra.C, 0);
  for (size_t i = 0; i < ra.n(); i++) for (auto &x : ra.e[i]) { n2[i / ra.d] += std::norm(x); mx[i / ra.d] = std::max(mx[i / ra.d], std::abs(x)); }
  bool all = true; for (auto x : n2) all = all && x > 0;
  auto scale_site = [&](size_t st, double f, R_ m) { for (size_t k = 0; k < m.d; k++) for (auto &x : m.e[st * m.d + k]) x *= f; return m; };
  for (size_t st = 0; st < n2.size(); st++) if (n2[st] > 0) {
    { S_ x(a); double r = x.NormalizeSite({st / ra.C, st % ra.C}); VP_CHECK(vp::close(r, std::sqrt(n2[st])), "normsite-ret", "NormalizeSite returned ", r, " expected ", std::sqrt(n2[st])); same(x, scale_site(st, 1 / std::sqrt(n2[st]), ra), "NormalizeSite"); }
    { S_ x(a); double r = x.ScaleMaxAbsForSite({st / ra.C, st % ra.C}, 0.5); VP_CHECK(vp::close(r, mx[st] / 0.5), "scalesite-ret", "ScaleMaxAbsForSite returned ", r); same(x, scale_site(st, 0.5 / mx[st], ra), "ScaleMaxAbsForSite"); }
  }
  if (all) {
    R_ m = ra, w = ra;
    for (size_t st = 0; st < n2.size(); st++) { m = scale_site(st, 1 / std::sqrt(n2[st]), m); w = scale_site(st, 2.0 / mx[st], w); }
    { S_ x(a); x.NormalizeAllSite(); same(x, m, "NormalizeAllSite"); }
    { S_ x(a); x.ScaleMaxAbsForAllSite(2.0); same(x, w, "ScaleMaxAbsForAllSite"); }
  }
  vp::S().evaluations++; vp::state(show(ra)); vp::outcome(show(ra));
}
static void bond_case(const Lat &L) {
  R_ m = make_ref<T>(L, ~0ull, 1);
  S_ s = build<T>(m);
  std::vector<size_t> inner_dims;
  for (size_t r = 0; r < L.R; r++) for (size_t c = 0; c < L.C; c++) {
    auto sh = L.shape(r, c);
    if (r + 1 < L.R || L.pbc) inner_dims.push_back(sh[1]);
    if (c + 1 < L.C || L.pbc) inner_dims.push_back(sh[2]);
  }
  vp::begin_case("bond dimensions " + L.str());
  auto got = s.GetAllInnerBondDimensions();
  auto g2 = got, e2 = inner_dims;
  std::sort(g2.begin(), g2.end()); std::sort(e2.begin(), e2.end());
  VP_CHECK(g2 == e2, "bonds", "GetAllInnerBondDimensions returned ", got.size(), " bonds, expected ", inner_dims.size());
  if (!e2.empty()) {
    VP_CHECK(s.GetMinBondDimension() == e2.front(), "bond-min", "min bond dimension ", s.GetMinBondDimension(), " expected ", e2.front());
    VP_CHECK(s.GetMaxBondDimension() == e2.back(), "bond-max", "max bond dimension ", s.GetMaxBondDimension(), " expected ", e2.back());
    auto mm = s.GetMinMaxBondDimension();
    VP_CHECK(mm.first == e2.front() && mm.second == e2.back(), "bond-minmax", "min/max bond dimensions ", mm.first, "/", mm.second);
    VP_CHECK(s.IsBondDimensionEven() == (e2.front() == e2.back()), "bond-even", "IsBondDimensionEven ", s.IsBondDimensionEven(), " for dims ", e2.front(), "..", e2.back());
  }
  VP_CHECK(s.PhysicalDim() == L.d, "phys", "PhysicalDim");
  // FromTPS / GroupIndices
  auto phy = idx(L.d, qlten::OUT);
  auto tps = s.GroupIndices(phy);
  VP_CHECK(tps.GetBoundaryCondition() == L.bc(), "group-bc", "GroupIndices changed the boundary condition");
  for (size_t r = 0; r < L.R; r++) for (size_t c = 0; c < L.C; c++) {
    auto sh = tps({r, c}).GetShape(); auto w = L.shape(r, c);
    VP_CHECK((sh == std::vector<size_t>{w[0], w[1], w[2], w[3], L.d}), "group-shape", "GroupIndices shape");
    for (auto &co : qlten::GenAllCoors(sh)) {
      auto c4 = co; c4.pop_back();
      VP_CHECK(T(tps({r, c})(co)) == T(s({r, c})[co[4]](c4)), "group", "GroupIndices entry differs at (", r, ",", c, ")");
    }
  }
  if (!e2.empty()) {
    VP_CHECK(tps.GetMaxBondDimension() == e2.back(), "tps-bond-max", "TPS max bond dimension");
    VP_CHECK(tps.IsBondDimensionUniform() == (e2.front() == e2.back()), "tps-uniform", "TPS::IsBondDimensionUniform ", tps.IsBondDimensionUniform(), " for dims ", e2.front(), "..", e2.back());
  }
  same(S_::FromTPS(tps), m, "FromTPS(GroupIndices)");
  vp::S().evaluations++; vp::outcome(L.str() + show(m));
}
// sum of wave functions: amplitude by amplitude
static void sum_case(const Lat &L1, const Lat &L2, T al, T be, int how) {
  R_ m1 = make_ref<T>(L1, ~0ull, 1), m2 = make_ref<T>(L2, ~0ull, 4);
  S_ s1 = build<T>(m1), s2 = build<T>(m2);
  auto phy = idx(L1.d, qlten::OUT);
  auto t1 = s1.GroupIndices(phy), t2 = s2.GroupIndices(phy);
  using TPSv = std::vector<qlpeps::TPS<T, QN>>;
  qlpeps::TPS<T, QN> r(1, 1);
  T c3(0);
  switch (how) {
    case 0: r = qlpeps::WaveFunctionSum(t1, t2); al = be = T(1); break;
    case 1: r = qlpeps::WaveFunctionSum(al, t1, be, t2); break;
    case 2: r = qlpeps::WaveFunctionSum(TPSv{t1, t2}); al = be = T(1); break;
    case 3: r = qlpeps::WaveFunctionSum(TPSv{t1, t2}, std::vector<T>{al, be}); break;
    case 4: r = qlpeps::WaveFunctionSum(TPSv{t1, t2, t1}, std::vector<T>{al, be, be}); c3 = be; break;
    case 5: r = qlpeps::WaveFunctionSum(TPSv{t1}, std::vector<T>{al}); be = T(0); break;
    case 6: r = qlpeps::WaveFunctionSum(TPSv{t1, t2, t2}); al = T(1); be = T(2); break;
  }
  VP_CHECK(r.rows() == L1.R && r.cols() == L1.C && r.GetBoundaryCondition() == L1.bc(), "sum-shape", "WaveFunctionSum changed the lattice");
  R_ mr = read<T>(S_::FromTPS(r));
  std::vector<size_t> cfg(L1.sites(), 0);
  do {
    T a1 = amplitude(m1, cfg), a2 = amplitude(m2, cfg), g = amplitude(mr, cfg), e = (al + c3) * a1 + be * a2;
    VP_CHECK(std::abs(g - e) <= 1e-9 * (1 + std::abs(a1) + std::abs(a2)), "sum", "amplitude of the sum is ", g, ", expected ", al + c3, "*", a1, " + ", be, "*", a2, " = ", e, " (variant ", how, ")");
    vp::S().transitions++;
  } while (next_cfg(cfg, L1.d));
  same(S_::FromTPS(t1), m1, "sum operand"); same(S_::FromTPS(t2), m2, "sum operand");
  vp::S().evaluations++;
}

VP_MAIN([] {
  auto lats = [](size_t R, size_t C, size_t d, bool p) { return Lat{R, C, d, p, [](size_t r, size_t c) { return 1 + (r + c) % 2; }, [](size_t r, size_t c) { return 1 + (r * 2 + c + 1) % 2; }}; };
  for (auto [R, C] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}})
    for (size_t d = 1; d <= 3; d++) for (int pbc = 0; pbc < 2; pbc++) {
      size_t n = R * C * d;
      Lat L = lats(R, C, d, pbc);
      int capS = vp::pick(8, 12), capP = vp::pick(4, 6);
      if ((int)n <= capS) for (uint64_t a = 0; a < (1ull << n); a++) {
        if (!mine()) continue;
        vp::begin_case(vp::cat("unary ", L.str(), " present ", a));
        single_case(make_ref<T>(L, a, 1), make_ref<T>(L, a, 2, true));
      }
      else if (mine()) single_case(make_ref<T>(L, ~0ull, 1), make_ref<T>(L, ~0ull, 2, true));
      if ((int)n <= capP) for (uint64_t a = 0; a < (1ull << n); a++) for (uint64_t b = 0; b < (1ull << n); b++) {
        if (!mine()) continue;
        vp::begin_case(vp::cat("binary ", L.str(), " present ", a, " / ", b));
        pair_case(make_ref<T>(L, a, 1), make_ref<T>(L, b, 3));
      }
      else for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        if (!mine()) continue;
        vp::begin_case(vp::cat("binary ", L.str(), " absent ", i, " / ", j));
        pair_case(make_ref<T>(L, ~(1ull << i), 1), make_ref<T>(L, ~(1ull << j), 3));
      }
    }
  // bond dimensions: every assignment of dims {1,2,3} to the bonds of small lattices, uniform ones on larger
  for (auto [R, C] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}})
    for (int pbc = 0; pbc < 2; pbc++) {
      size_t nb = 2 * R * C;
      if (nb > 6 && !vp::thorough() && pbc) continue;
      int base = nb > 6 && !vp::thorough() ? 2 : nb > 6 ? 2 : 3;
      std::vector<size_t> dims(nb, 0);
      do {
        if (!mine()) continue;
        auto dd = dims; size_t rc = R * C, cc = C;
        bond_case(Lat{R, C, 2, (bool)pbc, [dd, cc](size_t r, size_t c) { return dd[r * cc + c] + 1; }, [dd, cc, rc](size_t r, size_t c) { return dd[rc + r * cc + c] + 1; }});
      } while (next_cfg(dims, base));
    }
  for (size_t R = 1; R <= 4; R++) for (size_t C = 1; C <= 4; C++) for (int pbc = 0; pbc < 2; pbc++) for (size_t D = 1; D <= 3; D++)
    if (mine() && D * D * D * D * R * C < 700) bond_case(uniform(R, C, 2, pbc, D));
  // wave-function sums
  std::vector<T> cs = {val<T>(1, 0), val<T>(-1, 0), val<T>(2.5, 0), val<T>(0, 0), val<T>(-0.5, 0)};
  if (!real_type()) { cs.push_back(val<T>(0, 1)); cs.push_back(val<T>(-0.6, -0.8)); }
  for (auto [R, C] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {2, 2}})
    for (int pbc = 0; pbc < 2; pbc++) {
      if (pbc && R * C == 4 && !vp::thorough()) continue;
      for (int how = 0; how < 7; how++) for (auto al : cs) for (auto be : cs) {
        if ((how == 0 || how == 2 || how == 6) && !(al == cs[0] && be == cs[0])) continue;
        if (how == 5 && be != cs[0]) continue;
        if (!mine()) continue;
        if (how == 4 && R * C > 2 && pbc) continue;
        Lat L1 = uniform(R, C, 2, pbc, R * C == 4 ? 1 : 2), L2 = uniform(R, C, 2, pbc, 1);
        vp::begin_case(vp::cat("WaveFunctionSum variant ", how, " ", L1.str(), " alpha ", al, " beta ", be));
        sum_case(L1, L2, al, be, how);
      }
    }
  // histories over three registers
  for (int pbc = 0; pbc < 2; pbc++) for (uint64_t pm : {3ull, 1ull, 2ull, 0ull}) for (int first = 0; first < 9; first++) {
    Lat L = uniform(1, 2, 1, pbc, 2);
    vp::Explorer ex;
    if (!mine()) continue;
    int depth = pm == 1 || vp::thorough() ? 3 : 2;
    vp::S().evaluations += ex.run([&](vp::Explorer &x) {
      R_ m[3] = {make_ref<T>(L, pm, 1), make_ref<T>(L, 3, 2), make_ref<T>(L, 1, 3)};
      S_ s[3] = {build<T>(m[0]), build<T>(m[1]), build<T>(m[2])};
      for (int k = 0; k < depth; k++) {
        int op = k == 0 ? first : x.choose(9), i = x.choose(3), j = op >= 6 ? i : x.choose(3);
        vp::begin_case(vp::cat("history ", L.str(), " mask ", pm, " ", x.str()));
        int o = (i + 1) % 3;
        switch (op) {
          case 0: s[i] += s[j]; m[i] = add(m[i], R_(m[j]), T(1)); break;
          case 1: s[i] -= s[j]; m[i] = add(m[i], R_(m[j]), T(-1)); break;
          case 2: s[o] = s[i] + s[j]; m[o] = add(m[i], m[j], T(1)); break;
          case 3: s[o] = s[i] - s[j]; m[o] = add(m[i], m[j], T(-1)); break;
          case 4: s[i] = s[j]; m[i] = R_(m[j]); break;
          case 5: s[i] += s[j] * val<T>(2, 1); m[i] = add(m[i], map1(m[j], [](T v) { return v * val<T>(2, 1); }), T(1)); break;
          case 6: s[i] *= T(2); m[i] = map1(m[i], [](T v) { return v * T(2); }); break;
          case 7: s[i] = -s[i]; m[i] = map1(m[i], [](T v) { return -v; }); break;
          case 8: s[o] = s[i].ElementWiseSquaredNorm(); m[o] = map1(m[i], [](T v) { return T(std::norm(v)); }); break;
        }
        for (int q = 0; q < 3; q++) same(s[q], m[q], "history");
      }
      vp::state(show(m[0]) + show(m[1]) + show(m[2]));
    });
  }
  vp::sample("2x2 lattice d=2, every one of 2^8 presence patterns; all unary operations and site scalings compared entry by entry");
})
