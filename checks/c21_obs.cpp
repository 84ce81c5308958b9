// C21: ObservableMatrix, every operation history up to a depth against a reference matrix.
#include "vp.h"
#include "histories.h"
#include "qlpeps/utility/observable_matrix.h"
using namespace qlpeps;
using vp::cat;
typedef std::complex<double> Z;
#ifndef ELT
#define ELT double
#endif
typedef ELT T;
template <class U> static U mk(int k) { if constexpr (std::is_same_v<U, Z>) return U(k, -2 * k); else return U(k); }
static T val(int k) { return mk<T>(k); }
struct Ref { size_t r = 0, c = 0; std::vector<T> d; bool extracted = false; };
typedef ObservableMatrix<T> M;
static std::string key(const Ref &r) { std::ostringstream o; o << r.r << "x" << r.c << (r.extracted ? "E" : ""); for (auto &x : r.d) o << " " << x; return o.str(); }
static SiteIdx site(size_t r, size_t c) { SiteIdx s; s[0] = r; s[1] = c; return s; }

template <class F> static bool throws_oor(F f) { try { f(); } catch (const std::out_of_range &) { return true; } return false; }

static void agree(M &m, const Ref &r, const char *who) {
  const M &cm = m;
  if (!r.extracted) {
    VP_CHECK(cm.rows() == r.r && cm.cols() == r.c, "shape", who, ": shape ", cm.rows(), "x", cm.cols(), " want ", r.r, "x", r.c);
    VP_CHECK(cm.size() == r.r * r.c, "size", who, ": size ", cm.size(), " want ", r.r * r.c);
    const std::vector<T> &f = cm.Flatten();
    VP_CHECK(f == r.d, "flatten", who, ": Flatten() is not the row-major contents");
    for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) {
      VP_CHECK(cm(i, j) == r.d[i * r.c + j], "entry", who, ": (", i, ",", j, ") = ", cm(i, j), " want ", r.d[i * r.c + j]);
      VP_CHECK(m(i, j) == r.d[i * r.c + j] && cm(site(i, j)) == r.d[i * r.c + j] && m(site(i, j)) == r.d[i * r.c + j], "entry", who, ": access paths disagree at (", i, ",", j, ")");
    }
  } else VP_CHECK(cm.Flatten().empty() && cm.size() == 0, "extract", who, ": data left behind after Extract");
  // out-of-range (after Extract: everything) is rejected through every access path
  size_t big = SIZE_MAX, R = r.extracted ? 0 : r.r, C = r.extracted ? 0 : r.c;
  for (size_t i : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)4, (size_t)6, big, big / 2 + 1}) for (size_t j : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)4, (size_t)6, big, big / 2 + 1}) {
    if (i < R && j < C) continue;
    bool ok = throws_oor([&] { (void)m(i, j); }) && throws_oor([&] { (void)cm(i, j); }) && throws_oor([&] { (void)m(site(i, j)); }) && throws_oor([&] { (void)cm(site(i, j)); }) &&
              throws_oor([&] { m.Add(i, j, val(1)); }) && throws_oor([&] { m.Add(site(i, j), val(1)); });
    VP_CHECK(ok, "out-of-range", who, ": access (", i, ",", j, ") of a ", r.r, "x", r.c, " matrix is not rejected");
  }
}
static const size_t SH[][2] = {{0, 0}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {0, 2}};
enum { NSH = 6 };
static std::string run(const std::vector<int> &h) {
  std::string d;
  M a, b; Ref ra, rb;
  int tick = 0;
  for (size_t st = 0; st < h.size(); st++) {
    int o = h[st]; tick += 3;
    bool last = st + 1 == h.size();
    // two spellings of write targets: (0,0), (last,last), (0,last), (last,0)
    auto wr = [&](int k, size_t &i, size_t &j) { i = (k & 1) ? ra.r - 1 : 0; j = (k & 2) ? ra.c - 1 : 0; return !ra.extracted && ra.r && ra.c; };
    size_t i, j;
    if (o < NSH) { d += cat(" Resize(", SH[o][0], ",", SH[o][1], ",init)"); a.Resize(SH[o][0], SH[o][1], val(tick)); ra = Ref{SH[o][0], SH[o][1], std::vector<T>(SH[o][0] * SH[o][1], val(tick)), false}; }
    else if (o < NSH + 4) { if (!wr(o - NSH, i, j)) return ""; d += cat(" set(", i, ",", j, ")"); if (tick % 2) a(i, j) = val(tick); else a(site(i, j)) = val(tick); ra.d[i * ra.c + j] = val(tick); }
    else if (o < NSH + 8) { if (!wr(o - NSH - 4, i, j)) return ""; d += cat(" Add(", i, ",", j, ")"); if (tick % 2) a.Add(i, j, val(tick)); else a.Add(site(i, j), val(tick)); ra.d[i * ra.c + j] += val(tick); }
    else if (o == NSH + 8) { d += " Extract"; auto v = a.Extract(); std::vector<T> w = ra.d; VP_CHECK(v == w, "extract", "Extract() returned wrong contents"); ra.d.clear(); ra.extracted = ra.r * ra.c > 0 || ra.extracted; if (ra.r * ra.c == 0) {} }
    else if (o == NSH + 9) { d += " b=a"; b = a; rb = ra; }
    else if (o == NSH + 10) { d += " copy-construct+perturb"; M c(a); Ref rc = ra; if (!rc.extracted && rc.r && rc.c) { c(0, 0) = val(77); rc.d[0] = val(77); } agree(c, rc, "copy"); }
    else if (o == NSH + 11) { d += " swap"; std::swap(a, b); std::swap(ra, rb); }
    else if (o == NSH + 12) { d += " construct(2,3)"; a = M(2, 3); ra = Ref{2, 3, std::vector<T>(6, T()), false}; }
    else if (o == NSH + 13) { d += " construct(3,2,init)"; a = M(3, 2, val(tick)); ra = Ref{3, 2, std::vector<T>(6, val(tick)), false}; }
    else if (o == NSH + 14) { d += " Resize(2,2)"; a.Resize(2, 2); ra = Ref{2, 2, std::vector<T>(4, T()), false}; }
    vp::set_case(d);
    if (last) { agree(a, ra, "a"); agree(b, rb, "b"); }
  }
  return key(ra) + "|" + key(rb);
}
static void body() { vp::explore_histories(NSH + 15, vp::pick(3, 4), vp::pick(4, 5), 60000, run);
  // every shape up to 7x7: every entry written once through each path
  for (size_t r = 0; r <= 7; r++) for (size_t c = 0; c <= 7; c++) {
    vp::set_case(cat("shape ", r, "x", c));
    M m(r, c); Ref w{r, c, std::vector<T>(r * c, T()), false};
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { m(i, j) = val((int)(i * 10 + j)); w.d[i * c + j] = val((int)(i * 10 + j)); agree(m, w, "m"); }
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { m.Add(site(i, j), val(1)); w.d[i * c + j] += val(1); }
    agree(m, w, "m");
    vp::S().evaluations++;
  }
}
VP_MAIN(body)
