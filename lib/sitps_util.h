// Builders and a component-wise reference for SplitIndexTPS on small lattices.
#ifndef VP_SITPS_UTIL_H
#define VP_SITPS_UTIL_H
#include "vp.h"
#include <mpi.h>
#include "qlten/qlten.h"
#include "qlpeps/two_dim_tn/tps/tps.h"
#include "qlpeps/two_dim_tn/tps/split_index_tps.h"
namespace su {
using QN = qlten::special_qn::TrivialRepQN;
using qlpeps::BoundaryCondition;
template <class T> using Ten = qlten::QLTensor<T, QN>;
template <class T> using State = qlpeps::SplitIndexTPS<T, QN>;
inline qlten::Index<QN> idx(size_t d, qlten::TenIndexDirType dir) { return qlten::Index<QN>({qlten::QNSector<QN>(QN(), d)}, dir); }
template <class T> inline T val(double re, double im) { if constexpr (std::is_same_v<T, double>) return re; else return T(re, im); }
struct Lat {
  size_t R, C, d; bool pbc;
  // dimension of the bond below / to the right of a site
  std::function<size_t(size_t, size_t)> vb, hb;
  size_t sites() const { return R * C; }
  std::array<size_t, 4> shape(size_t r, size_t c) const { // W S E N
    auto v = [&](size_t rr, size_t cc) { return vb(rr % R, cc); };
    auto h = [&](size_t rr, size_t cc) { return hb(rr, cc % C); };
    return {c > 0 ? h(r, c - 1) : pbc ? h(r, C - 1) : 1, (r + 1 < R || pbc) ? v(r, c) : 1, (c + 1 < C || pbc) ? h(r, c) : 1, r > 0 ? v(r - 1, c) : pbc ? v(R - 1, c) : 1};
  }
  BoundaryCondition bc() const { return pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open; }
  std::string str() const { return vp::cat(R, "x", C, " d=", d, pbc ? " PBC" : " OBC"); }
};
inline Lat uniform(size_t R, size_t C, size_t d, bool pbc, size_t D) { return Lat{R, C, d, pbc, [=](size_t, size_t) { return D; }, [=](size_t, size_t) { return D; }}; }
// reference: per (site, component) an optional list of entries
template <class T> struct Ref {
  size_t R = 0, C = 0, d = 0; bool pbc = false;
  std::vector<bool> has; std::vector<std::vector<T>> e; std::vector<std::vector<size_t>> sh;
  bool operator==(const Ref &o) const { return R == o.R && C == o.C && d == o.d && pbc == o.pbc && has == o.has && e == o.e && sh == o.sh; }
  size_t n() const { return R * C * d; }
};
template <class T> std::string show(const Ref<T> &m) {
  std::string s = vp::cat(m.R, "x", m.C, "x", m.d, m.pbc ? "P" : "O", "[");
  for (size_t i = 0; i < m.n(); i++) { s += m.has[i] ? "" : "-"; if (m.has[i]) for (auto &x : m.e[i]) s += vp::cat(x, " "); s += ";"; }
  return s + "]";
}
template <class T> Ten<T> make_ten(const std::vector<size_t> &sh, const std::vector<T> &e) {
  qlten::IndexVec<QN> iv;
  for (size_t k = 0; k < sh.size(); k++) iv.push_back(idx(sh[k], (k == 0 || k == 3) ? qlten::IN : qlten::OUT));
  Ten<T> t(iv);
  auto cs = qlten::GenAllCoors(sh);
  for (size_t k = 0; k < cs.size(); k++) t(cs[k]) = e[k];
  return t;
}
template <class T> State<T> build(const Ref<T> &m) {
  State<T> s(m.R, m.C, m.d, m.pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
  for (size_t r = 0; r < m.R; r++) for (size_t c = 0; c < m.C; c++) for (size_t k = 0; k < m.d; k++) {
    size_t i = (r * m.C + c) * m.d + k;
    if (m.has[i]) s({r, c})[k] = make_ten<T>(m.sh[i], m.e[i]);
  }
  return s;
}
template <class T> Ref<T> read(const State<T> &s) {
  Ref<T> m;
  m.R = s.rows(); m.C = s.cols(); m.pbc = s.GetBoundaryCondition() == BoundaryCondition::Periodic;
  m.d = m.R * m.C ? s({0, 0}).size() : 0;
  for (size_t r = 0; r < m.R; r++) for (size_t c = 0; c < m.C; c++) {
    VP_CHECK(s({r, c}).size() == m.d, "components", "site (", r, ",", c, ") has ", s({r, c}).size(), " components, (0,0) has ", m.d);
    for (size_t k = 0; k < m.d; k++) {
      const Ten<T> &t = s({r, c})[k];
      m.has.push_back(!t.IsDefault());
      std::vector<T> e; std::vector<size_t> sh;
      if (!t.IsDefault()) { sh = t.GetShape(); for (auto &co : qlten::GenAllCoors(sh)) e.push_back(t(co)); }
      m.e.push_back(e); m.sh.push_back(sh);
    }
  }
  return m;
}
// entries: small integers, different everywhere; `salt` selects a family
template <class T> Ref<T> make_ref(const Lat &L, uint64_t present_mask, int salt, bool positive = false) {
  Ref<T> m; m.R = L.R; m.C = L.C; m.d = L.d; m.pbc = L.pbc;
  int q = 0;
  for (size_t r = 0; r < L.R; r++) for (size_t c = 0; c < L.C; c++) for (size_t k = 0; k < L.d; k++) {
    size_t i = (r * L.C + c) * L.d + k;
    bool h = present_mask >> i & 1;
    m.has.push_back(h);
    std::vector<T> e; std::vector<size_t> sh;
    if (h) {
      auto a = L.shape(r, c); sh.assign(a.begin(), a.end());
      size_t n = a[0] * a[1] * a[2] * a[3];
      for (size_t x = 0; x < n; x++) { q++; int v = (q * 7 + salt * 5 + int(i)) % 11 - (positive ? -1 : 5), w = (q * 3 + salt * 2) % 7 - 3; e.push_back(val<T>(v, w)); }
    }
    m.e.push_back(e); m.sh.push_back(sh);
  }
  return m;
}
// brute-force amplitude of a configuration (sum over all bond assignments)
template <class T> T amplitude(const Ref<T> &m, const std::vector<size_t> &cfg) {
  size_t R = m.R, C = m.C;
  // bonds: vertical (r,c)-(r+1,c), horizontal (r,c)-(r,c+1), periodic included with the dims of the tensors
  auto at = [&](size_t r, size_t c) { return (r * C + c) * m.d + cfg[r * C + c]; };
  for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) if (!m.has[at(r, c)]) return T(0);
  std::vector<size_t> dim(2 * R * C), cur(2 * R * C, 0); // [0..RC): south bond of site, [RC..2RC): east bond of site
  for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) { auto &s = m.sh[at(r, c)]; dim[r * C + c] = s[1]; dim[R * C + r * C + c] = s[2]; }
  T sum(0);
  for (;;) {
    T p(1);
    for (size_t r = 0; r < R && p != T(0); r++) for (size_t c = 0; c < C; c++) {
      auto &s = m.sh[at(r, c)];
      size_t wv = cur[R * C + r * C + (c + C - 1) % C], sv = cur[r * C + c], ev = cur[R * C + r * C + c], nv = cur[((r + R - 1) % R) * C + c];
      p *= m.e[at(r, c)][((wv * s[1] + sv) * s[2] + ev) * s[3] + nv];
    }
    sum += p;
    size_t i = 0;
    while (i < cur.size() && ++cur[i] == dim[i]) cur[i++] = 0;
    if (i == cur.size()) break;
  }
  return sum;
}
inline bool next_cfg(std::vector<size_t> &c, size_t d) { size_t i = 0; while (i < c.size() && ++c[i] == d) c[i++] = 0; return i < c.size(); }
} // namespace su
#endif
