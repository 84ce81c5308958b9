// Exact contraction of small tensor networks by labelled index summation (independent of the code under test and of the
// stand-in's Contract); open and periodic lattices, optional hole, per-site choice of component or replacement.
#ifndef VP_TN_EXACT_H
#define VP_TN_EXACT_H
#include "sitps_util.h"
#include <unordered_map>
namespace tnx {
template <class T> struct LT { std::vector<int> lab; std::vector<size_t> dim; std::vector<T> d; };
// permute to the given label order
template <class T> std::vector<T> arrange(const LT<T> &t, const std::vector<int> &order) {
  size_t n = t.lab.size(); std::vector<size_t> st(n, 1), os(n), od(n);
  for (size_t i = n; i-- > 1;) st[i - 1] = st[i] * t.dim[i];
  for (size_t i = 0; i < n; i++) { size_t p = std::find(t.lab.begin(), t.lab.end(), order[i]) - t.lab.begin(); os[i] = st[p]; od[i] = t.dim[p]; }
  std::vector<T> r(t.d.size()); std::vector<size_t> c(n, 0); size_t off = 0;
  for (size_t k = 0; k < r.size(); k++) { r[k] = t.d[off]; for (size_t i = n; i-- > 0;) { off += os[i]; if (++c[i] < od[i]) break; off -= os[i] * od[i]; c[i] = 0; } }
  return r;
}
template <class T> LT<T> mul(const LT<T> &a, const LT<T> &b) { // contracts every shared label
  std::vector<int> ka, kb, sh; std::vector<size_t> da, db; size_t m = 1, k = 1, n = 1;
  for (size_t i = 0; i < a.lab.size(); i++) if (std::find(b.lab.begin(), b.lab.end(), a.lab[i]) == b.lab.end()) { ka.push_back(a.lab[i]); da.push_back(a.dim[i]); m *= a.dim[i]; } else { sh.push_back(a.lab[i]); k *= a.dim[i]; }
  for (size_t i = 0; i < b.lab.size(); i++) if (std::find(sh.begin(), sh.end(), b.lab[i]) == sh.end()) { kb.push_back(b.lab[i]); db.push_back(b.dim[i]); n *= b.dim[i]; }
  auto oa = ka; oa.insert(oa.end(), sh.begin(), sh.end()); auto ob = sh; ob.insert(ob.end(), kb.begin(), kb.end());
  auto x = arrange(a, oa), y = arrange(b, ob);
  LT<T> r; r.lab = ka; r.lab.insert(r.lab.end(), kb.begin(), kb.end()); r.dim = da; r.dim.insert(r.dim.end(), db.begin(), db.end()); r.d.assign(m * n, T(0));
  for (size_t i = 0; i < m; i++) for (size_t q = 0; q < k; q++) { T v = x[i * k + q]; if (v == T(0)) continue; for (size_t j = 0; j < n; j++) r.d[i * n + j] += v * y[q * n + j]; }
  return r;
}
// self-trace of a tensor that carries the same label twice (a periodic direction of length one)
template <class T> LT<T> selftrace(LT<T> t) {
  for (size_t i = 0; i < t.lab.size(); i++) for (size_t j = i + 1; j < t.lab.size(); j++) if (t.lab[i] == t.lab[j]) {
    LT<T> r; for (size_t k = 0; k < t.lab.size(); k++) if (k != i && k != j) { r.lab.push_back(t.lab[k]); r.dim.push_back(t.dim[k]); }
    size_t n = 1; for (auto x : r.dim) n *= x; r.d.assign(n, T(0));
    std::vector<size_t> c(t.lab.size(), 0);
    for (size_t o = 0; o < t.d.size(); o++) { if (c[i] == c[j]) { size_t q = 0; for (size_t k = 0; k < t.lab.size(); k++) if (k != i && k != j) q = q * t.dim[k] + c[k]; r.d[q] += t.d[o]; } for (size_t k = t.lab.size(); k-- > 0;) { if (++c[k] < t.dim[k]) break; c[k] = 0; } }
    return selftrace(r);
  }
  return t;
}
// entries without structure (a fixed mixing function), so that bonds carry full rank
template <class T> su::Ref<T> generic(const su::Lat &L, int salt) {
  auto m = su::make_ref<T>(L, ~0ull, salt); uint64_t x = 0x9E3779B97F4A7C15ull * (salt + 1);
  auto nx = [&] { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return double(z >> 11) / 9007199254740992.0 * 2 - 1; };
  for (auto &e : m.e) for (auto &v : e) { double a = nx(), b = nx(); v = su::val<T>(a + (a < 0 ? -0.25 : 0.25), b); }
  return m;
}
template <class T> struct Net {
  size_t R, C; bool pbc; std::vector<su::Ten<T>> t; // row-major
  // labels: west bond of (r,c) = 2*(r*(C+1)+c); vertical above (r,c) = 2*(r*C+c)+1 with extra rows for the open ends
  int w(size_t r, size_t c) const { return 2 * int(r * (C + 1) + (pbc ? c % C : c)); }
  int n(size_t r, size_t c) const { return 2 * int((pbc ? r % R : r) * C + c) + 1; }
  LT<T> site(size_t r, size_t c) const {
    const auto &x = t[r * C + c]; LT<T> l; l.lab = {w(r, c), n(r + 1, c), w(r, c + 1), n(r, c)}; l.dim = x.GetShape(); if (l.dim.size() != 4) throw std::logic_error("exact: rank");
    l.d.assign(x.GetRawDataPtr(), x.GetRawDataPtr() + x.size()); return selftrace(l);
  }
  static T scalar(const LT<T> &a) { size_t n = 1; for (auto d : a.dim) n *= d; if (n != 1) throw std::logic_error("exact: open bond of dimension > 1"); return a.d[0]; }
  T value() const { LT<T> a; a.d = {T(1)}; for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) a = mul(a, site(r, c)); return scalar(a); }
  // environment of one site, entries in the order W S E N of that site
  std::vector<T> hole(size_t hr, size_t hc) const {
    LT<T> a; a.d = {T(1)}; for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) if (r != hr || c != hc) a = mul(a, site(r, c));
    std::vector<int> want = {w(hr, hc), n(hr + 1, hc), w(hr, hc + 1), n(hr, hc)};
    // labels of the hole that exist nowhere else (open edges) have dimension one
    for (int l : want) if (std::find(a.lab.begin(), a.lab.end(), l) == a.lab.end()) { a.lab.push_back(l); a.dim.push_back(1); }
    // other open edges (dimension one) go first
    std::vector<int> order; size_t extra = 1; for (size_t i = 0; i < a.lab.size(); i++) if (std::find(want.begin(), want.end(), a.lab[i]) == want.end()) { order.push_back(a.lab[i]); extra *= a.dim[i]; }
    if (extra != 1) throw std::logic_error("exact: hole has extra open bonds");
    order.insert(order.end(), want.begin(), want.end()); return arrange(a, order);
  }
  // boundary vector after absorbing k slices from the given side (0 LEFT 1 DOWN 2 RIGHT 3 UP); entries ordered by row/column ascending
  LT<T> boundary(int side, size_t k) const {
    LT<T> a; a.d = {T(1)}; std::vector<int> want;
    size_t L = (side == 1 || side == 3) ? C : R;
    for (size_t s = 0; s < k; s++) for (size_t x = 0; x < L; x++) { size_t r = side == 3 ? s : side == 1 ? R - 1 - s : x, c = side == 0 ? s : side == 2 ? C - 1 - s : x; a = mul(a, site(r, c)); }
    for (size_t x = 0; x < L; x++) want.push_back(side == 3 ? n(k, x) : side == 1 ? n(R - k, x) : side == 0 ? w(x, k) : w(x, C - k));
    if (k == 0) { a.lab.clear(); a.dim.clear(); a.d = {T(1)}; for (int l : want) { a.lab.push_back(l); a.dim.push_back(1); } return a; }
    std::vector<int> order; for (int l : a.lab) if (std::find(want.begin(), want.end(), l) == want.end()) order.push_back(l); order.insert(order.end(), want.begin(), want.end());
    LT<T> r; r.d = arrange(a, order); for (int l : want) { r.lab.push_back(l); r.dim.push_back(a.dim[std::find(a.lab.begin(), a.lab.end(), l) - a.lab.begin()]); } return r;
  }
};
} // namespace tnx
#endif
