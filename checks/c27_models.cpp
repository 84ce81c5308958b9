// C27: local energies, holes and observables of the built-in spin models, every configuration and short histories, against the Hamiltonian's matrix elements and exact contraction.
#include "models_exact.h"
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
static double TOL = 1e-7;
static void near(T g, T e, double scale, const char *key, const std::string &what) { vp::S().evaluations++; VP_CHECK(std::abs(g - e) <= TOL * std::max(1.0, scale), key, what, ": got ", g, ", expected ", e); }
static void nearv(const std::vector<T> &g, const std::vector<T> &e, double scale, const char *key, const std::string &what) { VP_CHECK(g.size() == e.size(), key, what, " has ", g.size(), " entries, expected ", e.size()); for (size_t i = 0; i < g.size(); i++) near(g[i], e[i], scale, key, vp::cat(what, "[", i, "]")); }
template <class M> constexpr bool is_tfim = std::is_same_v<M, TransverseFieldIsingSquareOBC> || std::is_same_v<M, TransverseFieldIsingSquarePBC>;
template <class M> constexpr bool is_pbc = std::is_same_v<M, HeisenbergSquarePBC> || std::is_same_v<M, SquareSpinOneHalfJ1J2XXZModelPBC> || std::is_same_v<M, TransverseFieldIsingSquarePBC>;
template <class M> constexpr bool is_j1j2pbc = std::is_same_v<M, SquareSpinOneHalfJ1J2XXZModelPBC>;
template <class M> constexpr bool has_nnn = std::is_same_v<M, SquareSpinOneHalfJ1J2XXZModelOBC> || is_j1j2pbc<M>;
template <class M> constexpr bool is_tri = std::is_same_v<M, SpinOneHalfTriHeisenbergSqrPEPS>;
template <class M> constexpr bool is_tri2 = std::is_same_v<M, SpinOneHalfTriJ1J2HeisenbergSqrPEPS>;
template <class M> constexpr bool is_xxz = std::is_same_v<M, SquareSpinOneHalfXXZModelOBC>;
template <class M> using WF = std::conditional_t<is_pbc<M>, TPSWaveFunctionComponent<T, QN, NoDress, TRGContractor>, TPSWaveFunctionComponent<T, QN>>;
static void same_component(Sys &y, auto &w, const std::string &c, const char *after) {
  for (size_t i = 0; i < c.size(); i++) { VP_CHECK(w.config(y.at(i)) == (size_t)c[i], "config-kept", after, " changed the configuration at site ", i); VP_CHECK(w.tn(y.at(i)) == y.s(y.at(i))[c[i]], "tn-kept", after, " left a different tensor at site ", i); }
  T e = y.value(c); VP_CHECK(std::abs(w.amplitude - e) <= TOL * std::max(std::abs(e), 1e-3 * y.typ), "amplitude-kept", after, " left amplitude ", w.amplitude, ", expected ", e);
}
template <class M> void energy(Sys &y, const Ham &H, M &m, WF<M> &w, const std::string &c, bool holes) {
  auto want = expect(y, H, c); T e;
  if (holes) {
    TN h(y.L.R, y.L.C, y.L.bc()); e = m.template CalEnergyAndHoles<T, QN, true>(&y.s, &w, h);
    for (size_t i = 0; i < c.size(); i++) { const auto &x = y.hole(c, i); const TenT &g = h(y.at(i)); VP_CHECK(g.GetShape() == y.s(y.at(i))[0].GetShape(), "hole-shape", "hole at site ", i, " has the wrong shape"); double sc = 0, err = 0; for (size_t k = 0; k < x.size(); k++) { sc = std::max(sc, (double)std::abs(x[k])); err = std::max(err, (double)std::abs(cj(x[k]) - g.GetRawDataPtr()[k])); } VP_CHECK(err <= 1e-6 * std::max(sc, 1e-3 * y.typ), "hole", "hole at site ", i, " is not the conjugated environment: off by ", err, " (scale ", sc, ")"); vp::S().evaluations++; }
  } else e = m.template CalEnergy<T, QN>(&y.s, &w);
  near(e, want.e, want.mag, "energy", vp::cat("local energy", holes ? " (with holes)" : "", " of ", cstr(c)));
  auto ps = m.template GetLastPsiConsistencySummary<T>(); T psi = y.value(c);
  VP_CHECK(std::min(std::abs(ps.psi_mean - psi), std::abs(ps.psi_mean + psi)) <= TOL * std::max(std::abs(psi), 1e-3 * y.typ), "psi-mean", "reported mean amplitude ", ps.psi_mean, ", exact ", psi);
  VP_CHECK(ps.psi_rel_err <= 1e-6 * std::max(1.0, y.typ / std::abs(psi)), "psi-err", "reported amplitude inconsistency ", ps.psi_rel_err, " although the contraction is exact");
  same_component(y, w, c, "the energy evaluation");
}
template <class M> void observables(Sys &y, const Ham &H, M &m, WF<M> &w, const std::string &c, bool sf) {
  if constexpr (is_xxz<M> || is_tri<M>) m.SetEnableStructureFactor(sf);
  auto want = expect(y, H, c); size_t N = c.size(), C = y.L.C, R = y.L.R; T psi = y.value(c); auto o = m.template EvaluateObservables<T, QN>(&y.s, &w); std::set<std::string> seen;
  auto get = [&](const char *k) -> const std::vector<T> & { auto it = o.find(k); VP_CHECK(it != o.end(), "missing", "observable ", k, " is missing"); seen.insert(k); return it->second; };
  auto cmp = [&](const char *k, const std::vector<T> &e) { nearv(get(k), e, want.mag, k, k); };
  cmp("energy", {want.e}); { std::vector<T> e; for (char x : c) e.push_back(T(sz(x))); cmp("spin_z", e); }
  if constexpr (is_tfim<M>) { auto e = want.sx; if (H.hx == 0) std::fill(e.begin(), e.end(), T(0)); cmp("sigma_x", e); }
  else { cmp("bond_energy_h", want.h); cmp("bond_energy_v", want.v); if constexpr (has_nnn<M>) { if (!is_j1j2pbc<M> || !want.d.empty()) { cmp("bond_energy_dr", want.d); cmp("bond_energy_ur", want.u); } } if constexpr (is_tri<M> || is_tri2<M>) cmp("bond_energy_ur", want.u); }
  size_t r0 = R / 2, x0 = C / 4, n = C / 2, i0 = r0 * C + x0;
  if constexpr (is_tfim<M> || is_tri<M> || is_tri2<M>) { std::vector<T> e; for (size_t k = 1; k <= n; k++) e.push_back(T(sz(c[i0]) * sz(c[i0 + k]))); cmp("SzSz_row", e); }
  if constexpr (is_xxz<M> || is_tri<M> || is_tri2<M>) { std::vector<T> e; for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) e.push_back(T(sz(c[i]) * sz(c[j]))); cmp("SzSz_all2all", e); }
  if constexpr (!is_tfim<M> && !is_pbc<M>) { std::vector<T> mp(n, T(0)), pm(n, T(0)); for (size_t k = 1; k <= n; k++) if (c[i0] != c[i0 + k]) { auto cc = c; std::swap(cc[i0], cc[i0 + k]); (c[i0] ? mp : pm)[k - 1] = cj(y.value(cc) / psi); } cmp("SmSp_row", mp); cmp("SpSm_row", pm); }
  if constexpr (is_xxz<M> || is_tri<M>) if (sf) { // tuples y1 x1 y2 x2 amplitude of the state with the pair flipped
    std::vector<T> e; for (size_t y1 = 0; y1 + 1 < R; y1++) for (size_t x1 = 0; x1 < C; x1++) for (size_t y2 = y1 + 1; y2 < R; y2++) for (size_t x2 = 0; x2 < C; x2++) { T v(0); size_t i = y1 * C + x1, j = y2 * C + x2; if (c[i] == 0 && c[j] == 1) { auto cc = c; cc[i] = 1; cc[j] = 0; v = y.value(cc); } for (T q : {T(y1), T(x1), T(y2), T(x2), v}) e.push_back(q); }
    const auto &g = get("SpSm_cross"); VP_CHECK(g.size() == e.size(), "spsm-size", "SpSm_cross has ", g.size(), " entries, expected ", e.size());
    for (size_t k = 0; k < e.size(); k += 5) { for (int q = 0; q < 4; q++) VP_CHECK(g[k + q] == e[k + q], "spsm-index", "SpSm_cross tuple ", k / 5, " index ", q); VP_CHECK(std::abs(g[k + 4] - e[k + 4]) <= TOL * std::max(std::abs(e[k + 4]), y.typ), "spsm", "SpSm_cross from (", e[k], ",", e[k + 1], ") to (", e[k + 2], ",", e[k + 3], "): got ", g[k + 4], ", expected ", e[k + 4]); vp::S().evaluations++; }
  }
  auto desc = m.DescribeObservables(R, C); std::map<std::string, std::vector<size_t>> dk; for (auto &d : desc) { VP_CHECK(!dk.count(d.key), "described-twice", "observable ", d.key, " is described twice"); dk[d.key] = d.shape; }
  for (auto &kv : o) { VP_CHECK(dk.count(kv.first), "undescribed", "observable ", kv.first, " is returned but not described"); VP_CHECK(seen.count(kv.first), "unexpected", "unexpected observable ", kv.first); if (kv.first == "SpSm_cross") continue; size_t n = 1; for (auto x : dk[kv.first]) n *= x; VP_CHECK(n == kv.second.size(), "described-shape", "observable ", kv.first, " has ", kv.second.size(), " entries but is described with ", n); }
  for (auto &kv : dk) if (kv.first != "SpSm_cross") VP_CHECK(o.count(kv.first), "not-returned", "observable ", kv.first, " is described but not returned");
  if constexpr (!is_tfim<M> && !is_tri2<M>) { auto ps = m.template EvaluatePsiSummary<T, QN>(&y.s, &w); VP_CHECK(std::min(std::abs(ps.psi_mean - psi), std::abs(ps.psi_mean + psi)) <= TOL * std::max(std::abs(psi), 1e-3 * y.typ), "psi-mean", "summary after the measurement reports amplitude ", ps.psi_mean, ", exact ", psi); }
  same_component(y, w, c, "the measurement");
}
template <class M> auto params() { if constexpr (is_pbc<M>) return TRGTruncateParams<double>::SVD(1, 1 << 20, 0.0); else return BMPSTruncateParams<double>::SVD(1, 81, 0.0); }
template <class M> void all_configs(Sys &y, const Ham &H, M m, const std::string &mn) {
  size_t N = y.L.sites();
  for (size_t b = 0; b < (1u << N); b++) { if (!mine()) continue; std::string c(N, 0); for (size_t i = 0; i < N; i++) c[i] = b >> i & 1;
    if (std::abs(y.value(c)) < 1e-4 * y.typ) continue; // ratios to a vanishing amplitude are ill-conditioned
    vp::begin_case(mn + " " + y.name + " " + cstr(c)); { WF<M> w(y.s, y.conf(c), params<M>()); energy(y, H, m, w, c, true); } { WF<M> w(y.s, y.conf(c), params<M>()); energy(y, H, m, w, c, false); } { WF<M> w(y.s, y.conf(c), params<M>()); observables(y, H, m, w, c, b & 1); } { WF<M> w(y.s, y.conf(c), params<M>()); observables(y, H, m, w, c, !(b & 1)); }
    vp::S().states++; vp::S().transitions += 4; vp::outcome(mn + y.name + c); }
}
// sequences of evaluations and moves on one component: nothing evaluated earlier may change what is reported later
template <class M> void histories(Sys &y, const Ham &H, const M &m0, const std::string &mn, int depth, const std::vector<size_t> &sites) {
  size_t N = y.L.sites(); std::string c0(N, 0); for (size_t i = 0; i < N; i++) c0[i] = (i + i / y.L.C) % 2; size_t nops = 3 + 2 * sites.size();
  std::function<void(const WF<M> &, const M &, const std::string &, const std::string &, int)> go = [&](const WF<M> &w0, const M &mm, const std::string &c, const std::string &path, int d) {
    for (size_t o = 0; o < nops; o++) { if (d == depth && !mine()) continue; WF<M> w(w0); M m(mm); auto cc = c; std::string p = path; vp::begin_case(mn + " " + y.name + path + " op" + vp::cat(o));
      if (o == 0) { p += " holes"; energy(y, H, m, w, c, true); } else if (o == 1) { p += " energy"; energy(y, H, m, w, c, false); } else if (o == 2) { p += " measure"; observables(y, H, m, w, c, true); }
      else { size_t i = sites[(o - 3) / 2]; cc[i] = 1 - cc[i]; if (std::abs(y.value(cc)) < 1e-4 * y.typ) continue; bool glob = (o - 3) % 2; p += vp::cat(glob ? " replace" : " flip", i);
        if (glob) w.ReplaceGlobalConfig(y.s, y.conf(cc)); else if constexpr (is_pbc<M>) { auto t = w.BeginTrial({{y.at(i), y.s(y.at(i))[cc[i]]}}, {{y.at(i), (size_t)cc[i]}}); w.AcceptTrial(std::move(t), y.s); } else w.UpdateLocal(y.s, y.value(cc), std::make_pair(y.at(i), (size_t)cc[i])); same_component(y, w, cc, "the move"); }
      vp::S().states++; vp::S().transitions++; vp::outcome(mn + y.name + p); if (d > 1) go(w, m, cc, p, d - 1); }
  };
  WF<M> w(y.s, y.conf(c0), params<M>()); go(w, m0, c0, "", depth);
}
static Lat mixed(size_t R, size_t C, int kind) { return Lat{R, C, 2, false, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (r + 2 * c + kind) % 3); }}; }
template <class F> void obc_models(const Lat &L, F f) {
  f(SquareSpinOneHalfXXZModelOBC(), spins(L, 1, 1, 0, 0, 0, 0), "XXZ()"); f(SquareSpinOneHalfXXZModelOBC(0.7, -1.3, 0.45), spins(L, 0.7, -1.3, 0, 0, 0.45, 0), "XXZ(0.7,-1.3,0.45)");
  f(SquareSpinOneHalfJ1J2XXZModelOBC(0.6), spins(L, 1, 1, 0.6, 0.6, 0, 1), "J1J2(0.6)"); f(SquareSpinOneHalfJ1J2XXZModelOBC(0.7, -1.3, 0.4, 0.9, -0.35), spins(L, 0.7, -1.3, 0.4, 0.9, -0.35, 1), "J1J2(0.7,-1.3,0.4,0.9,-0.35)");
  f(TransverseFieldIsingSquareOBC(1.7), ising(L, 1.7), "TFIM(1.7)"); f(TransverseFieldIsingSquareOBC(0), ising(L, 0), "TFIM(0)");
  f(SpinOneHalfTriHeisenbergSqrPEPS(), spins(L, 1, 1, 1, 1, 0, 2), "triangular"); f(SpinOneHalfTriJ1J2HeisenbergSqrPEPS(0.3), tri_j1j2(L, 0.3), "triangular J1J2(0.3)");
}
template <class F> void pbc_models(const Lat &L, F f) {
  f(HeisenbergSquarePBC(0.8), spins(L, 0.8, 0.8, 0, 0, 0, 0), "HeisenbergPBC(0.8)"); f(HeisenbergSquarePBC(0.7, -1.3), spins(L, 0.7, -1.3, 0, 0, 0, 0), "HeisenbergPBC(0.7,-1.3)");
  f(SquareSpinOneHalfJ1J2XXZModelPBC(0.6), spins(L, 1, 1, 0.6, 0.6, 0, 1), "J1J2PBC(0.6)"); f(SquareSpinOneHalfJ1J2XXZModelPBC(0.7, -1.3, 0.4, 0.9, -0.35), spins(L, 0.7, -1.3, 0.4, 0.9, -0.35, 1), "J1J2PBC(5)"); f(SquareSpinOneHalfJ1J2XXZModelPBC(0.7, -1.3, 0, 0.9, 0), spins(L, 0.7, -1.3, 0, 0.9, 0, 1), "J1J2PBC(xy only)");
  f(TransverseFieldIsingSquarePBC(1.7), ising(L, 1.7), "TFIMPBC(1.7)"); f(TransverseFieldIsingSquarePBC(0), ising(L, 0), "TFIMPBC(0)");
}
VP_MAIN([] {
  bool th = vp::thorough(); vp::S().hang_s = 300;
#ifdef SMALL
  const bool small = !th;
#else
  const bool small = false;
#endif
  std::vector<std::array<size_t, 3>> ls = {{2, 2, 0}, {2, 2, 1}, {2, 3, 1}, {3, 2, 2}, {3, 3, 1}, {2, 4, 1}, {4, 2, 2}, {2, 5, 1}}; if (small) ls = {{2, 2, 0}, {2, 3, 1}, {3, 3, 1}, {2, 4, 2}}; if (th) { ls.push_back({3, 4, 1}); ls.push_back({4, 3, 2}); ls.push_back({5, 2, 1}); ls.push_back({3, 3, 0}); }
  for (auto l : ls) { Sys y(mixed(l[0], l[1], l[2]), 3 + l[0], vp::cat(l[0], "x", l[1], " bonds", l[2])); obc_models(y.L, [&](auto m, const Ham &H, const char *n) { all_configs(y, H, m, n); }); }
  for (auto l : std::vector<std::array<size_t, 2>>{{2, 2}, {2, 3}, {3, 2}, {3, 4}}) { if (small && l[1] > 3) continue; Sys y(mixed(l[0], l[1], 1), 11, vp::cat(l[0], "x", l[1])); obc_models(y.L, [&](auto m, const Ham &H, const char *n) { histories(y, H, m, n, l[1] > 3 ? 2 : 3, {0, l[0] * l[1] - 2}); }); }
  for (size_t n : {2, 3}) for (int kind = 0; kind < 2; kind++) { if (small && kind) continue; Lat L = mixed(n, n, kind); L.pbc = true; Sys y(L, 5 + n, vp::cat(n, "x", n, " PBC bonds", kind)); pbc_models(L, [&](auto m, const Ham &H, const char *nm) { all_configs(y, H, m, nm); if (!small) histories(y, H, m, nm, n == 2 ? 3 : 2, {0, n * n - 2}); }); }
  vp::sample("every configuration of each lattice; every sequence of energy / holes / measurement / local flip / global replacement");
})
