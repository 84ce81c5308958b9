// Spin-1/2 model Hamiltonians as bond lists plus exact amplitudes: the reference the model, exact-summation and measurement checks compare against.
#pragma once
#include "simmpi.h"
#include "tn_exact.h"
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_obc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/heisenberg_square_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_pbc.h"
#include "qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_pbc.h"
#include <memory>
using namespace qlpeps; using namespace su;
#ifndef ELT
#define ELT double
#endif
using T = ELT;
using TN = TensorNetwork2D<T, QN>;
using TenT = Ten<T>;
template <class U> static U cj(U x) { if constexpr (std::is_same_v<U, double>) return x; else return std::conj(x); }
static double sz(int c) { return c - 0.5; }
static std::string cstr(const std::string &c) { std::string o; for (char x : c) o += char('0' + x); return o; }
struct Sys {
  Lat L; Ref<T> m; State<T> s; std::string name; std::unordered_map<std::string, T> vals; std::unordered_map<std::string, std::vector<T>> holes; double typ = 0;
  Sys(const Lat &l, int salt, const std::string &nm) : L(l), m(tnx::generic<T>(l, salt)), s(build(m)), name(nm) { std::string c(L.sites(), 0); size_t n = 0; for (size_t k = 0; k < 16; k++) { for (size_t i = 0; i < c.size(); i++) c[i] = (k * 7 + i * i * 3 + i * k) % 5 % 2; typ += std::abs(value(c)); n++; } typ /= n; }
  tnx::Net<T> net(const std::string &c) const { tnx::Net<T> n{L.R, L.C, L.pbc, {}}; for (size_t i = 0; i < L.sites(); i++) n.t.push_back(s({i / L.C, i % L.C})[c[i]]); return n; }
  T value(const std::string &c) { auto it = vals.find(c); if (it != vals.end()) return it->second; return vals[c] = net(c).value(); }
  const std::vector<T> &hole(std::string c, size_t i) { c[i] = 0; auto k = c + char(i); auto it = holes.find(k); if (it != holes.end()) return it->second; return holes[k] = net(c).hole(i / L.C, i % L.C); }
  Configuration conf(const std::string &c) const { Configuration f(L.R, L.C); for (size_t i = 0; i < c.size(); i++) f({i / L.C, i % L.C}) = c[i]; return f; }
  SiteIdx at(size_t i) const { return SiteIdx{i / L.C, i % L.C}; }
};
// the Hamiltonian as a list of bonds and fields, written down from the documentation
struct Bond { size_t i, j; double jz, jxy; char group; size_t gi; }; // group: h v d(down-right) u(up-right) or 0, gi = position in the exported list
struct Ham { std::vector<Bond> b; double pin = 0, hx = 0; bool ising = false; size_t nh = 0, nv = 0, nd = 0, nu = 0; };
static Ham spins(const Lat &L, double jz, double jxy, double jz2, double jxy2, double pin, int nnn) { // nnn: 0 none, 1 both diagonals, 2 up-right only
  Ham h; h.pin = pin; size_t R = L.R, C = L.C; bool p = L.pbc; auto id = [&](size_t r, size_t c) { return (r % R) * C + c % C; };
  size_t wh = p ? C : C - 1, wv = C, wd = p ? C : C - 1; h.nh = R * wh; h.nv = (p ? R : R - 1) * wv; h.nd = h.nu = (p ? R : R - 1) * wd;
  for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) {
    if (p || c + 1 < C) h.b.push_back({id(r, c), id(r, c + 1), jz, jxy, 'h', r * wh + c});
    if (p || r + 1 < R) h.b.push_back({id(r, c), id(r + 1, c), jz, jxy, 'v', r * wv + c});
    if (nnn == 1 && (p || (c + 1 < C && r + 1 < R))) h.b.push_back({id(r, c), id(r + 1, c + 1), jz2, jxy2, 'd', r * wd + c});
    if (nnn && p) h.b.push_back({id(r, c), id(r + 1, c + C - 1), jz2, jxy2, 'u', r * wd + c});
    if (nnn && !p && c + 1 < C && r + 1 < R) h.b.push_back({id(r + 1, c), id(r, c + 1), jz2, jxy2, 'u', r * wd + c});
  }
  return h;
}
static Ham tri_j1j2(const Lat &L, double j2) { // triangular lattice drawn on the square: J1 on h, v and up-right; J2 on down-right, (+1,-2) and (+2,-1)
  Ham h = spins(L, 1, 1, 1, 1, 0, 2); size_t R = L.R, C = L.C; auto id = [&](size_t r, size_t c) { return r * C + c; };
  for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) {
    if (r + 1 < R && c + 1 < C) h.b.push_back({id(r, c), id(r + 1, c + 1), j2, j2, 0, 0});
    if (r + 1 < R && c + 2 < C) h.b.push_back({id(r + 1, c), id(r, c + 2), j2, j2, 0, 0});
    if (r + 2 < R && c + 1 < C) h.b.push_back({id(r + 2, c), id(r, c + 1), j2, j2, 0, 0});
  }
  return h;
}
static Ham ising(const Lat &L, double hx) { Ham h = spins(L, -4, 0, 0, 0, 0, 0); h.hx = hx; h.ising = true; return h; } // -sum sigma^z sigma^z - h sum sigma^x
struct Want { T e; double mag; std::vector<T> h, v, d, u, sx; };
static Want expect(Sys &y, const Ham &H, const std::string &c) {
  Want w; w.e = T(0); w.mag = 1; T psi = y.value(c); w.h.assign(H.nh, T(0)); w.v.assign(H.nv, T(0)); w.d.assign(H.nd, T(0)); w.u.assign(H.nu, T(0));
  for (auto &b : H.b) { T x = T(b.jz * sz(c[b.i]) * sz(c[b.j])); if (c[b.i] != c[b.j] && b.jxy != 0) { auto cc = c; std::swap(cc[b.i], cc[b.j]); x += T(0.5 * b.jxy) * cj(y.value(cc) / psi); } w.e += x; w.mag += std::abs(x);
    if (b.group == 'h') w.h[b.gi] = x; if (b.group == 'v') w.v[b.gi] = x; if (b.group == 'd') w.d[b.gi] = x; if (b.group == 'u') w.u[b.gi] = x; }
  w.e -= T(H.pin * sz(c[0])); w.sx.assign(c.size(), T(0));
  if (H.ising) for (size_t i = 0; i < c.size(); i++) { auto cc = c; cc[i] = 1 - cc[i]; T r = cj(y.value(cc) / psi); w.sx[i] = r; w.e -= T(H.hx) * r; w.mag += std::abs(H.hx) * std::abs(r); }
  return w;
}
