// C28: simple update, decided on the exact state vector of small weighted tensor networks: every gate projection at every position, every executor
// on every small lattice, conversion to the plain form, product-state initialisation, stop rules.
#include "tn_exact.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
#include "qlpeps/api/conversions.h"
#include "qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h"
#include "qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h"
#include "qlpeps/algorithm/simple_update/triangle_nn_on_sqr_peps_simple_update.h"
#ifndef ELT
#define ELT double
#endif
using T = ELT; using namespace su; using namespace qlpeps; using tnx::LT;
using PEPS = SquareLatticePEPS<T, QN>; using Te = Ten<T>;
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
#ifdef SMALL
static bool deep() { return vp::thorough(); }
#else
static bool deep() { return true; } // the quick tier explores the whole set below; the thorough tier adds more networks
#endif
struct Rng { uint64_t x; Rng(uint64_t s) : x(0x9E3779B97F4A7C15ull * (s + 1)) {} double operator()() { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return double(z >> 11) / 9007199254740992.0 * 2 - 1; } T el() { double a = (*this)(), b = (*this)(); return val<T>(a + (a < 0 ? -0.2 : 0.2), b); } };
#define CUR std::string(vp::S().cur)
struct Quiet : std::streambuf { std::streambuf *o; Quiet() { o = std::cout.rdbuf(this); } ~Quiet() { std::cout.rdbuf(o); } int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
enum { W, S_, E, N };
// ---- plain copy of a weighted network
struct Snap {
  size_t R, C; bool pbc; std::vector<LT<T>> g; std::vector<std::vector<double>> lv, lh; // lv: above (r,c) ; lh: left of (r,c); open lattices carry one more row / column
  size_t vi(size_t r, size_t c) const { return (pbc ? r % R : r) * C + c; }
  size_t hi(size_t r, size_t c) const { return r * (pbc ? C : C + 1) + (pbc ? c % C : c); }
  const std::vector<double> &lam(size_t s, int leg) const { size_t r = s / C, c = s % C; return leg == W ? lh[hi(r, c)] : leg == E ? lh[hi(r, c + 1)] : leg == N ? lv[vi(r, c)] : lv[vi(r + 1, c)]; }
};
static std::vector<double> diag_of(const Ten<double> &l, const char *what) {
  auto sh = l.GetShape(); VP_CHECK(sh.size() == 2 && sh[0] == sh[1], "lambda-shape", what, " is not a square matrix"); std::vector<double> d;
  for (size_t i = 0; i < sh[0]; i++) for (size_t j = 0; j < sh[1]; j++) { double v = l.GetElem({i, j}); if (i == j) d.push_back(v); else VP_CHECK(v == 0, "lambda-shape", what, " is not diagonal"); } return d; }
static Snap snap(const PEPS &p) {
  Snap s; s.R = p.Rows(); s.C = p.Cols(); s.pbc = p.GetBoundaryCondition() == BoundaryCondition::Periodic;
  for (size_t r = 0; r < s.R; r++) for (size_t c = 0; c < s.C; c++) { const Te &t = p.Gamma({r, c}); LT<T> l; l.dim = t.GetShape(); VP_CHECK(l.dim.size() == 5, "gamma-shape", "site tensor of rank ", l.dim.size()); l.d.assign(t.GetRawDataPtr(), t.GetRawDataPtr() + t.size()); s.g.push_back(l); }
  VP_CHECK(p.lambda_vert.rows() == s.R + !s.pbc && p.lambda_vert.cols() == s.C && p.lambda_horiz.rows() == s.R && p.lambda_horiz.cols() == s.C + !s.pbc, "lambda-grid", "wrong number of bond weights");
  for (size_t r = 0; r < s.R + !s.pbc; r++) for (size_t c = 0; c < s.C; c++) s.lv.push_back(diag_of(p.lambda_vert({r, c}), "vertical weight"));
  for (size_t r = 0; r < s.R; r++) for (size_t c = 0; c < s.C + !s.pbc; c++) s.lh.push_back(diag_of(p.lambda_horiz({r, c}), "horizontal weight"));
  for (size_t i = 0; i < s.g.size(); i++) for (int leg = 0; leg < 4; leg++) VP_CHECK(s.lam(i, leg).size() == s.g[i].dim[leg], "bond-match", "site ", i, " leg ", leg, " has dimension ", s.g[i].dim[leg], ", its bond weight ", s.lam(i, leg).size());
  return s; }
static void scale(LT<T> &t, size_t axis, const std::vector<double> &l) { size_t in = 1; for (size_t i = axis + 1; i < t.dim.size(); i++) in *= t.dim[i]; for (size_t k = 0; k < t.d.size(); k++) t.d[k] *= l[(k / in) % t.dim[axis]]; }
// state vector over all configurations, site 0 most significant; every bond weight enters once
static std::vector<T> vec(const Snap &s) {
  LT<T> a; a.d = {T(1)}; int P = 1000; std::vector<int> ph;
  auto w = [&](size_t r, size_t c) { return 2 * int(r * (s.C + 1) + (s.pbc ? c % s.C : c)); }; auto n = [&](size_t r, size_t c) { return 2 * int((s.pbc ? r % s.R : r) * s.C + c) + 1; };
  for (size_t i = 0; i < s.g.size(); i++) { size_t r = i / s.C, c = i % s.C; LT<T> t = s.g[i]; scale(t, W, s.lam(i, W)); scale(t, N, s.lam(i, N)); if (!s.pbc && c + 1 == s.C) scale(t, E, s.lam(i, E)); if (!s.pbc && r + 1 == s.R) scale(t, S_, s.lam(i, S_));
    t.lab = {w(r, c), n(r + 1, c), w(r, c + 1), n(r, c), P + (int)i}; ph.push_back(P + i); a = tnx::mul(a, tnx::selftrace(t)); }
  std::vector<int> o; size_t ex = 1; for (size_t i = 0; i < a.lab.size(); i++) if (a.lab[i] < P) { o.push_back(a.lab[i]); ex *= a.dim[i]; } if (ex != 1) throw std::logic_error("open bond"); o.insert(o.end(), ph.begin(), ph.end()); return tnx::arrange(a, o); }
static double norm(const std::vector<T> &v) { double x = 0; for (auto &e : v) x += std::norm(e); return std::sqrt(x); }
static double dist(const std::vector<T> &a, const std::vector<T> &b, T sb = T(1)) { double x = 0; for (size_t i = 0; i < a.size(); i++) x += std::norm(a[i] - sb * b[i]); return std::sqrt(x); }
// dense operators on k sites of the vector: op[in][out] with the k sites' values as digits, first site most significant
static std::vector<T> apply(const std::vector<T> &v, size_t nsite, size_t d, const std::vector<size_t> &sites, const std::vector<T> &op) {
  size_t dim = 1; for (size_t i = 0; i < sites.size(); i++) dim *= d; std::vector<size_t> st(nsite, 1); for (size_t i = nsite - 1; i-- > 0;) st[i] = st[i + 1] * d; std::vector<T> r(v.size(), T(0));
  for (size_t x = 0; x < v.size(); x++) { if (v[x] == T(0)) continue; size_t in = 0, base = x; for (auto s : sites) { size_t q = (x / st[s]) % d; in = in * d + q; base -= q * st[s]; } for (size_t o = 0; o < dim; o++) { if (op[in * dim + o] == T(0)) continue; size_t y = base, z = o; for (size_t k = sites.size(); k-- > 0;) { y += (z % d) * st[sites[k]]; z /= d; } r[y] += v[x] * op[in * dim + o]; } }
  return r; }
static std::vector<T> expm(const std::vector<T> &h, size_t dim, double tau) { // exp(-tau h), scaling and squaring
  std::vector<T> r(dim * dim, T(0)), t = r; auto mm = [&](const std::vector<T> &a, const std::vector<T> &b) { std::vector<T> c(dim * dim, T(0)); for (size_t i = 0; i < dim; i++) for (size_t k = 0; k < dim; k++) for (size_t j = 0; j < dim; j++) c[i * dim + j] += a[i * dim + k] * b[k * dim + j]; return c; };
  std::vector<T> x(h); for (auto &e : x) e *= T(-tau / 64); for (size_t i = 0; i < dim; i++) r[i * dim + i] = t[i * dim + i] = T(1);
  for (int n = 1; n < 30; n++) { t = mm(t, x); for (auto &e : t) e /= T(n); for (size_t i = 0; i < r.size(); i++) r[i] += t[i]; } for (int k = 0; k < 6; k++) r = mm(r, r); return r; }
// operator as the code's Hamiltonian tensor (in0 out0 in1 out1 ..) or gate tensor (in.. out..)
static Te ham_ten(const std::vector<T> &op, size_t k, size_t d) { qlten::IndexVec<QN> iv; for (size_t i = 0; i < k; i++) { iv.push_back(idx(d, qlten::IN)); iv.push_back(idx(d, qlten::OUT)); } Te t(iv); size_t dim = 1; for (size_t i = 0; i < k; i++) dim *= d; for (size_t a = 0; a < dim; a++) for (size_t b = 0; b < dim; b++) { qlten::CoorsT c(2 * k); size_t x = a, y = b; for (size_t i = k; i-- > 0;) { c[2 * i] = x % d; c[2 * i + 1] = y % d; x /= d; y /= d; } t(c) = op[a * dim + b]; } return t; }
static Te gate_ten(const std::vector<T> &op, size_t k, size_t d) { qlten::IndexVec<QN> iv; for (size_t i = 0; i < k; i++) iv.push_back(idx(d, qlten::IN)); for (size_t i = 0; i < k; i++) iv.push_back(idx(d, qlten::OUT)); Te t(iv); for (size_t i = 0; i < op.size(); i++) t.GetRawDataPtr()[i] = op[i]; return t; }
static std::vector<T> hermitian(size_t dim, Rng &g, double s = 1) { std::vector<T> h(dim * dim); for (size_t i = 0; i < dim; i++) for (size_t j = i; j < dim; j++) { T v = g.el() * T(s); if (i == j) v = T(std::real(v)); h[i * dim + j] = v; h[j * dim + i] = qlten::vp_conj(v); } return h; }
static std::vector<T> diag(const std::vector<double> &e) { std::vector<T> h(e.size() * e.size(), T(0)); for (size_t i = 0; i < e.size(); i++) h[i * e.size() + i] = T(e[i]); return h; }
// ---- generic weighted network
static PEPS generic(const Lat &L, int salt) {
  PEPS p(idx(L.d, qlten::OUT), L.R, L.C, L.bc()); Rng g(salt);
  for (size_t r = 0; r < L.R; r++) for (size_t c = 0; c < L.C; c++) { auto s = L.shape(r, c); Te t({idx(s[0], qlten::IN), idx(s[1], qlten::OUT), idx(s[2], qlten::OUT), idx(s[3], qlten::IN), idx(L.d, qlten::OUT)}); for (size_t k = 0; k < t.size(); k++) t.GetRawDataPtr()[k] = g.el(); p.Gamma({r, c}) = t; }
  auto lam = [&](size_t D, bool edge) { Ten<double> l({idx(D, qlten::IN), idx(D, qlten::OUT)}); double n = 0; std::vector<double> v; for (size_t i = 0; i < D; i++) { v.push_back((1.1 + 0.3 * g()) / (1 + 0.8 * i)); n += v[i] * v[i]; } for (size_t i = 0; i < D; i++) l({i, i}) = edge ? 1.0 : v[i] / std::sqrt(n); return l; };
  for (size_t r = 0; r < L.R + !L.pbc; r++) for (size_t c = 0; c < L.C; c++) { bool edge = !L.pbc && (r == 0 || r == L.R); p.lambda_vert({r, c}) = lam(edge ? 1 : L.shape(r % L.R, c)[3], edge); }
  for (size_t r = 0; r < L.R; r++) for (size_t c = 0; c < L.C + !L.pbc; c++) { bool edge = !L.pbc && (c == 0 || c == L.C); p.lambda_horiz({r, c}) = lam(edge ? 1 : L.shape(r, c % L.C)[0], edge); }
  return p; }
static Lat lat(size_t R, size_t C, size_t d, bool pbc, int kind) { return Lat{R, C, d, pbc, [=](size_t r, size_t c) { return size_t(kind == 0 ? 1 : kind == 1 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 1 : kind == 1 ? 2 : 1 + (r + 2 * c + kind) % 3); }}; }
// ---- a projection: the sites in gate order, the bonds it updates
enum Kind { HOR, VER, UR, UL, LR, LL }; static const char *kname[] = {"horizontal", "vertical", "upper-right triangle", "upper-left triangle", "lower-right triangle", "lower-left triangle"};
struct Bond { size_t a; int la; size_t b; int lb; };
struct Proj { Kind k; SiteIdx arg; std::vector<size_t> sites; std::vector<Bond> bonds; };
static std::vector<Proj> projections(const Lat &L) {
  std::vector<Proj> r; auto id = [&](size_t a, size_t b) { return (a % L.R) * L.C + b % L.C; };
  for (size_t y = 0; y < L.R; y++) for (size_t x = 0; x < L.C; x++) { bool e = L.pbc || x + 1 < L.C, s = L.pbc || y + 1 < L.R; size_t p = id(y, x), q = id(y, x + 1), u = id(y + 1, x), v = id(y + 1, x + 1); size_t xe = (x + 1) % L.C;
    if (e && L.C > 1) r.push_back({HOR, {y, x}, {p, q}, {{p, E, q, W}}});
    if (s && L.R > 1) r.push_back({VER, {y, x}, {p, u}, {{p, S_, u, N}}});
    if (e && s && L.R > 1 && L.C > 1) { r.push_back({UR, {y, xe}, {p, q, v}, {{p, E, q, W}, {q, S_, v, N}}}); r.push_back({UL, {y, x}, {q, p, u}, {{p, E, q, W}, {p, S_, u, N}}}); r.push_back({LR, {y, xe}, {q, v, u}, {{q, S_, v, N}, {u, E, v, W}}}); r.push_back({LL, {y, x}, {p, u, v}, {{p, S_, u, N}, {u, E, v, W}}}); } }
  return r; }
static ProjectionRes<T> run(PEPS &p, const Proj &j, const Te &gate, const SimpleUpdateTruncatePara &tp, const Te &ham) {
  switch (j.k) { case HOR: return p.NearestNeighborSiteProject(gate, j.arg, HORIZONTAL, tp, ham); case VER: return p.NearestNeighborSiteProject(gate, j.arg, VERTICAL, tp, ham); case UR: return p.UpperRightTriangleProject(gate, j.arg, tp, ham); case UL: return p.UpperLeftTriangleProject(gate, j.arg, tp, ham); case LR: return p.LowerRightTriangleProject(gate, j.arg, tp, ham); default: return p.LowerLeftTriangleProject(gate, j.arg, tp, ham); } }
// local tensor of the sites of a projection with all surrounding weights; physical labels 1000+k, outer legs 100+4*site+leg
static LT<T> theta(const Snap &s, const Proj &j) {
  LT<T> a; a.d = {T(1)}; for (size_t k = 0; k < j.sites.size(); k++) { size_t i = j.sites[k]; LT<T> t = s.g[i]; t.lab.clear(); for (int leg = 0; leg < 4; leg++) { int in = -1; bool second = false; for (size_t b = 0; b < j.bonds.size(); b++) { if (j.bonds[b].a == i && j.bonds[b].la == leg) in = b; if (j.bonds[b].b == i && j.bonds[b].lb == leg) { in = b; second = true; } } if (in < 0 || !second) scale(t, leg, s.lam(i, leg)); t.lab.push_back(in >= 0 ? in : 100 + 4 * (int)i + leg); } t.lab.push_back(1000 + k); a = tnx::mul(a, t); }
  return a; }
static std::vector<int> canon(const LT<T> &t) { auto o = t.lab; std::sort(o.begin(), o.end()); return o; }
// squared weights of the cut through bond b
static std::vector<double> cut(const LT<T> &t, const Proj &j, size_t b) {
  std::set<size_t> side{j.bonds[b].b}; for (bool more = true; more;) { more = false; for (size_t q = 0; q < j.bonds.size(); q++) if (q != b) { bool x = side.count(j.bonds[q].a), y = side.count(j.bonds[q].b); if (x != y) { side.insert(j.bonds[q].a); side.insert(j.bonds[q].b); more = true; } } }
  auto in = [&](int l) { return l >= 1000 ? side.count(j.sites[l - 1000]) : side.count((l - 100) / 4); }; std::vector<int> o, r; size_t m = 1, n = 1; for (size_t i = 0; i < t.lab.size(); i++) if (in(t.lab[i])) { r.push_back(t.lab[i]); n *= t.dim[i]; } else { o.push_back(t.lab[i]); m *= t.dim[i]; }
  o.insert(o.end(), r.begin(), r.end()); std::vector<T> u, v; std::vector<double> s; qlten::vp_svd(tnx::arrange(t, o), m, n, u, s, v); for (auto &x : s) x *= x; return s; }
static size_t dpow(size_t d, size_t k) { size_t r = 1; while (k--) r *= d; return r; }
static const std::vector<double> &bond_lam(const Snap &s, const Bond &b) { return s.lam(b.a, b.la); }
static void bystanders(const Snap &o, const Snap &n, const Proj &j, const std::string &what) {
  for (size_t i = 0; i < o.g.size(); i++) if (std::find(j.sites.begin(), j.sites.end(), i) == j.sites.end()) VP_CHECK(o.g[i].dim == n.g[i].dim && o.g[i].d == n.g[i].d, "bystander", what, ": the tensor of site ", i, ", not part of the gate, changed");
  for (size_t i = 0; i < o.g.size(); i++) for (int leg = 0; leg < 4; leg++) { bool upd = false; for (auto &b : j.bonds) upd |= (b.a == i && b.la == leg) || (b.b == i && b.lb == leg); if (!upd) VP_CHECK(o.lam(i, leg) == n.lam(i, leg), "bystander", what, ": a bond weight of site ", i, ", not updated by the gate, changed"); } }
static void project(const Lat &L, int salt, const Proj &j, const std::vector<T> &op, const std::vector<T> &h, size_t Dmax, double terr, const std::string &gname, size_t Dmin = 1) {
  if (!mine()) return; size_t k = j.sites.size(), ns = L.sites(); std::string what = vp::cat(L.str(), " bonds ", salt, " ", kname[j.k], " at ", j.arg[0], ",", j.arg[1], " ", gname, " D ", Dmin, "..", Dmax, " err ", terr); vp::begin_case(what);
  vp::S().transitions++; PEPS p = generic(L, salt); Snap o = snap(p); auto v0 = vec(o), want = apply(v0, ns, L.d, j.sites, op);
  LT<T> th = theta(o, j); { LT<T> g; for (size_t q = 0; q < k; q++) g.lab.push_back(1000 + q); for (size_t q = 0; q < k; q++) g.lab.push_back(2000 + q); g.dim.assign(2 * k, L.d); g.d = op; th = tnx::mul(th, g); for (auto &l : th.lab) if (l >= 2000) l -= 1000; }
  double nt = norm(th.d); if (nt < 1e-6) return;
  SimpleUpdateTruncatePara tp(Dmin, Dmax, terr, 1e-14); ProjectionRes<T> res = run(p, j, gate_ten(op, k, L.d), tp, h.empty() ? Te() : ham_ten(h, k, L.d)); Snap n = snap(p); bystanders(o, n, j, what);
  VP_CHECK(vp::close(res.norm, nt, 1e-9), "norm", what, ": reported norm ", res.norm, ", the weighted local state has norm ", nt);
  for (auto &x : th.d) x /= nt; LT<T> t2 = theta(n, j); auto od = canon(th); VP_CHECK(canon(t2) == od, "legs", what); auto A = tnx::arrange(th, od), B = tnx::arrange(t2, od); VP_CHECK(A.size() == B.size(), "legs", what, ": outer legs changed");
  double tail_sum = 0, tail_max = 0, d2 = 0; size_t Dm = 0; for (size_t i = 0; i < A.size(); i++) d2 += std::norm(A[i] - B[i]);
  for (size_t b = 0; b < j.bonds.size(); b++) { auto s2 = cut(th, j, b); auto &l = bond_lam(n, j.bonds[b]); size_t D = l.size(); Dm = std::max(Dm, D); size_t rk = 0; for (double x : s2) rk += x > 1e-12; VP_CHECK(D >= 1 && D <= Dmax && (k > 2 || D >= std::min({Dmin, Dmax, rk})), "bond-limit", what, ": bond dimension ", D); for (size_t i = 0; i < D; i++) VP_CHECK(l[i] > 0 && (i == 0 || l[i] <= l[i - 1] * (1 + 1e-12)), "lambda-order", what, ": weights not positive and descending");
    auto tail = [&](size_t d) { double x = 0; for (size_t i = d; i < s2.size(); i++) x += s2[i]; return x; }; tail_sum += tail(D); tail_max = std::max(tail_max, tail(D));
    if (k == 2) { for (size_t i = 0; i < D; i++) VP_CHECK(std::abs(l[i] - std::sqrt(s2[i])) < 1e-7, "lambda-value", what, ": weight ", i, " is ", l[i], ", the leading singular values have ", std::sqrt(s2[i]));
      VP_CHECK(D == Dmax || tail(D) <= terr + 1e-13, "bond-limit", what, ": truncated to ", D, " below the limit with error ", tail(D)); VP_CHECK(D <= Dmin || tail(D - 1) > terr - 1e-13, "bond-excess", what, ": ", D, " kept although ", D - 1, " meets the truncation error"); } }
  VP_CHECK(res.D == Dm, "reported-D", what, ": reported bond dimension ", res.D, ", actual ", Dm);
  if (k == 2) { VP_CHECK(std::abs(d2 - tail_sum) < 1e-9, "optimal", what, ": squared error ", d2, " of the local state, optimal is ", tail_sum); VP_CHECK(std::abs(res.trunc_err - tail_sum) < 1e-9, "trunc-err", what, ": reported ", res.trunc_err, ", actual ", tail_sum); }
  else { VP_CHECK(d2 <= tail_sum + 1e-9, "optimal", what, ": squared error ", d2, " exceeds the discarded weights ", tail_sum); VP_CHECK(res.trunc_err >= -1e-12 && res.trunc_err <= tail_sum + 1e-9 && d2 <= 2 * res.trunc_err + 1e-9, "trunc-err", what, ": reported ", res.trunc_err, " actual error ", d2, " discarded ", tail_sum); }
  if (tail_sum < 1e-20) { auto v1 = vec(n); double nw = std::max(norm(want), 1e-3 * norm(v0)); VP_CHECK(dist(want, v1, T(res.norm)) <= 1e-8 * nw, "state", what, ": the network does not represent gate * state (relative distance ", dist(want, v1, T(res.norm)) / nw, ")"); vp::S().traces++; }
  VP_CHECK(res.e_loc.has_value() == !h.empty(), "energy", what, ": local energy ", h.empty() ? "reported without" : "missing with", " a Hamiltonian");
  if (!h.empty()) { LT<T> g; for (size_t q = 0; q < k; q++) g.lab.push_back(1000 + q); for (size_t q = 0; q < k; q++) g.lab.push_back(2000 + q); g.dim.assign(2 * k, L.d); g.d = h; LT<T> x = tnx::mul(th, g); for (auto &l : x.lab) if (l >= 2000) l -= 1000; auto X = tnx::arrange(x, od); T e(0); for (size_t i = 0; i < A.size(); i++) e += qlten::vp_conj(A[i]) * X[i]; VP_CHECK(std::abs(*res.e_loc - e) < 1e-8 * (1 + std::abs(e)), "energy", what, ": local energy ", *res.e_loc, " expected ", e); }
  vp::outcome(vp::cat(kname[j.k], " ", Dm, " ", tail_sum > 1e-12)); vp::state(what);
}
static void projections_part() {
  struct Case { size_t R, C, d; bool pbc; int kind; }; std::vector<Case> cs{{1, 2, 2, false, 1}, {2, 1, 2, false, 1}, {2, 2, 2, false, 1}, {2, 2, 2, false, 3}, {2, 3, 2, false, 4}, {3, 2, 2, false, 3}, {3, 3, 2, false, 1}, {2, 2, 2, true, 1}, {2, 3, 2, true, 1}, {3, 2, 2, true, 1}, {2, 2, 3, false, 1}};
  if (deep()) { cs.push_back({1, 4, 2, false, 5}); cs.push_back({4, 1, 3, false, 4}); cs.push_back({3, 3, 2, false, 5}); cs.push_back({3, 3, 2, true, 0}); cs.push_back({2, 2, 2, true, 2}); cs.push_back({2, 3, 2, false, 2}); cs.push_back({3, 2, 3, false, 1}); cs.push_back({2, 4, 2, false, 1}); cs.push_back({4, 2, 2, false, 3}); }
  if (vp::thorough()) for (int kind = 1; kind <= 6; kind++) { for (auto [R, C] : std::vector<std::pair<size_t, size_t>>{{2, 2}, {2, 3}, {3, 2}}) cs.push_back({R, C, 2, false, kind}); cs.push_back({2, 2, 3, false, kind}); if (kind < 4) { cs.push_back({2, 2, 2, true, kind}); cs.push_back({3, 3, 2, false, kind}); } }
#ifdef SMALL
  cs = {{2, 2, 2, false, 3}, {2, 3, 2, false, 1}, {3, 2, 2, false, 1}, {2, 2, 2, true, 1}};
#endif
  int salt = 0; for (auto &c : cs) { Lat L = lat(c.R, c.C, c.d, c.pbc, c.kind); salt++;
    for (auto &j : projections(L)) { size_t dim = dpow(c.d, j.sites.size()); Rng g(100 + salt); std::vector<T> id(dim * dim, T(0)); for (size_t i = 0; i < dim; i++) id[i * dim + i] = T(1); auto h = hermitian(dim, g); std::vector<T> G(dim * dim); for (auto &x : G) x = g.el();
      project(L, salt, j, id, h, 1000, 1e-28, "identity"); project(L, salt, j, G, h, 1000, 1e-28, "generic gate"); project(L, salt, j, expm(h, dim, 0.1), h, 1000, 1e-28, "exp(-tau h)"); project(L, salt, j, G, {}, 1000, 1e-28, "generic gate, no hamiltonian");
      for (size_t D = 1; D <= 4; D++) { project(L, salt, j, G, h, D, 1e-28, "generic gate"); if (D > 1) project(L, salt, j, expm(h, dim, 0.3), h, D, 0, "exp(-tau h)"); } for (double e : {1e-1, 3e-2, 1e-2, 1e-3, 1e-4}) { project(L, salt, j, G, h, 1000, e, "generic gate"); project(L, salt, j, expm(h, dim, 0.3), h, 3, e, "exp(-tau h)"); }
      for (size_t m = 1; m <= 4; m++) for (size_t x = m; x <= 4; x++) project(L, salt, j, G, h, x, 0.5, "generic gate", m);
      bool big = L.pbc && L.sites() > 4; // elementary gates |in> -> |out>
      if (dim <= 9 && (!big || deep())) for (size_t a = 0; a < dim; a++) for (size_t b = 0; b < dim; b++) { if (L.sites() > 6 && (a * dim + b) % 5 && !deep()) continue; std::vector<T> U(dim * dim, T(0)); U[a * dim + b] = T(1.5); project(L, salt, j, U, {}, 1000, 1e-28, vp::cat("elementary gate ", a, "->", b)); } } }
}
// ---- histories of projections: several gates one after the other, state exact throughout
static void history(const Lat &L, int salt, const std::vector<int> &seq, const std::vector<Proj> &ps) {
  if (!mine()) return; std::string what = vp::cat(L.str(), " history"); for (int q : seq) what += vp::cat(" ", q); vp::begin_case(what); PEPS p = generic(L, salt); auto v = vec(snap(p)); Rng g(salt * 7 + 3); double nn = 1;
  for (int q : seq) { auto &j = ps[q]; size_t dim = dpow(L.d, j.sites.size()); auto h = hermitian(dim, g); auto op = expm(h, dim, 0.3); v = apply(v, L.sites(), L.d, j.sites, op); auto r = run(p, j, gate_ten(op, j.sites.size(), L.d), SimpleUpdateTruncatePara(1, 1000, 1e-28, 1e-14), Te()); nn *= r.norm; vp::S().transitions++; }
  auto w = vec(snap(p)); VP_CHECK(dist(v, w, T(nn)) <= 1e-7 * norm(v), "history", what, ": relative distance ", dist(v, w, T(nn)) / norm(v)); vp::S().traces++; vp::outcome("h"); vp::state(what); }
static void histories_part() {
  for (auto [R, C, pbc] : std::vector<std::tuple<size_t, size_t, bool>>{{2, 2, false}, {2, 2, true}, {1, 3, false}, {2, 3, false}}) { Lat L = lat(R, C, 2, pbc, pbc ? 0 : 3); auto ps = projections(L); int n = ps.size(); bool three = deep() && n <= 8; if (R * C == 6 && !deep()) { for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if ((a + b) % 3 == 0) history(L, 50, {a, b}, ps); continue; }
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { history(L, 50, {a, b}, ps); if (three) for (int c = 0; c < n; c++) history(L, 51, {a, b, c}, ps); } } }
// ---- conversion, product states, norms, bond dimension queries
static void forms_part() {
  for (auto [R, C, pbc] : std::vector<std::tuple<size_t, size_t, bool>>{{1, 1, false}, {1, 2, false}, {1, 3, false}, {3, 1, false}, {2, 2, false}, {2, 3, false}, {3, 2, false}, {3, 3, false}, {2, 2, true}, {2, 3, true}, {3, 2, true}}) for (size_t d : {size_t(2), size_t(3)}) for (int kind = 1; kind <= 5; kind++) {
    Lat L = lat(R, C, d, pbc, kind); if ((L.sites() > 6 && d > 2) || (pbc && L.sites() > 4 && (kind > 1 || d > 2)) || (L.sites() >= 6 && d == 3 && kind > 1)) continue; if (!mine()) continue; vp::begin_case(vp::cat(L.str(), " forms ", kind)); PEPS p = generic(L, 20 + kind); Snap s = snap(p); auto v = vec(s);
    { auto t = ToTPS(p); auto si = ToSplitIndexTPS(p), si2 = ToSplitIndexTPS(t); VP_CHECK(t.rows() == R && t.cols() == C && si.rows() == R && si.cols() == C && t.GetBoundaryCondition() == L.bc() && si.GetBoundaryCondition() == L.bc(), "convert-shape", L.str()); size_t nc = v.size();
      for (int form = 0; form < 3; form++) for (size_t x = 0; x < nc; x++) { tnx::Net<T> net{R, C, pbc, {}}; size_t y = x; std::vector<size_t> cf(L.sites()); for (size_t i = L.sites(); i-- > 0;) { cf[i] = y % d; y /= d; }
        for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) { size_t k = cf[r * C + c]; if (form) net.t.push_back((form == 1 ? si : si2)({r, c})[k]); else { const Te &f = t({r, c}); auto sh = f.GetShape(); VP_CHECK(sh.size() == 5 && sh[4] == d, "convert-shape", "rank ", sh.size()); Te q({f.GetIndex(0), f.GetIndex(1), f.GetIndex(2), f.GetIndex(3)}); for (size_t a = 0; a < q.size(); a++) q.GetRawDataPtr()[a] = f.GetRawDataPtr()[a * d + k]; net.t.push_back(q); } }
        T a = net.value(); VP_CHECK(std::abs(a - v[x]) <= 1e-9 * (1 + std::abs(v[x])), "convert", L.str(), " bonds ", kind, form ? (form == 1 ? " split form" : " split of plain form") : " plain form", " configuration ", x, ": amplitude ", a, " expected ", v[x]); vp::S().transitions++; }
      for (size_t i = 0; i < L.sites(); i++) { auto sh = t({i / C, i % C}).GetShape(); for (int leg = 0; leg < 4; leg++) VP_CHECK(sh[leg] == s.lam(i, leg).size(), "convert-shape", "leg dimensions"); } Snap s2 = snap(p); VP_CHECK(s2.lv == s.lv && s2.lh == s.lh && s2.g[0].d == s.g[0].d, "convert-const", "conversion changed the state"); }
    { size_t mn = 99, mx = 0; for (auto &l : s.lv) { mn = std::min(mn, l.size()); mx = std::max(mx, l.size()); } for (auto &l : s.lh) { mn = std::min(mn, l.size()); mx = std::max(mx, l.size()); } auto mm = p.GetMinMaxBondDim(); VP_CHECK(mm.first == mn && mm.second == mx && p.GetMaxBondDim() == mx, "bond-query", "min/max ", mm.first, "/", mm.second, " expected ", mn, "/", mx);
      if (R > 1 && C > 1) { std::set<size_t> ds; for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) { if (pbc || r > 0) ds.insert(s.lv[s.vi(r, c)].size()); if (pbc || c > 0) ds.insert(s.lh[s.hi(r, c)].size()); } VP_CHECK(p.IsBondDimensionUniform() == (ds.size() == 1), "bond-query", L.str(), " uniform query"); } }
    { PEPS q(p); VP_CHECK(q == p && !(q != p), "equal", "a copy differs"); double n = q.NormalizeAllTensor(); Snap sq = snap(q); auto w = vec(sq); VP_CHECK(dist(v, w, T(n)) <= 1e-9 * norm(v), "normalize", L.str(), ": normalised state times the returned factor is not the original"); for (auto &g : sq.g) VP_CHECK(std::abs(norm(g.d) - 1) < 1e-12, "normalize", "site tensor not normalised"); for (auto *x : {&sq.lv, &sq.lh}) for (auto &l : *x) { double z = 0; for (double e : l) z += e * e; VP_CHECK(std::abs(z - 1) < 1e-12, "normalize", "bond weight not normalised"); } VP_CHECK(snap(p).g[0].d == s.g[0].d, "copy", "normalising a copy changed the original"); }
    vp::S().traces++; vp::outcome("forms"); vp::state(CUR);
  }
  // product states: every configuration, on a fresh and on an evolved network
  for (auto [R, C, pbc] : std::vector<std::tuple<size_t, size_t, bool>>{{1, 1, false}, {1, 2, false}, {2, 1, false}, {1, 3, false}, {3, 1, false}, {2, 2, false}, {2, 3, false}, {3, 2, false}, {3, 3, false}, {2, 2, true}, {2, 3, true}, {3, 3, true}}) for (size_t d : {size_t(2), size_t(3)}) { size_t n = dpow(d, R * C); if (n > 1000) continue; for (int used = 0; used < 2; used++) { if (used && R * C > 4) continue; if (!mine()) continue; Lat L = lat(R, C, d, pbc, 1);
    for (size_t x = 0; x < n; x++) { vp::begin_case(vp::cat(L.str(), " product state ", x, used ? " on a used network" : "")); PEPS p = used ? generic(L, 5) : PEPS(idx(d, qlten::OUT), R, C, L.bc()); std::vector<std::vector<size_t>> a(R, std::vector<size_t>(C)); size_t y = x; for (size_t i = R * C; i-- > 0;) { a[i / C][i % C] = y % d; y /= d; }
      if (used && pbc) break; p.Initial(a); Snap s = snap(p); for (auto *q : {&s.lv, &s.lh}) for (auto &l : *q) VP_CHECK(l.size() == 1 && l[0] == 1, "product", CUR, ": bond not trivial"); auto v = vec(s); for (size_t k = 0; k < n; k++) VP_CHECK(v[k] == T(k == x), "product", CUR, ": amplitude of ", k, " is ", v[k]); vp::S().transitions++; } vp::outcome("product"); } }
}
// ---- executors
struct Ham { std::vector<std::vector<T>> hor, ver, site; }; // per bond east / south of a site (d^2 x d^2), per site
struct Rec { std::vector<double> e0, en; std::vector<bool> changed; std::vector<Snap> after; std::vector<std::optional<double>> terr; std::vector<double> tau; std::vector<size_t> step; };
static SimpleUpdatePara para(size_t steps, double tau, size_t Dmax, double terr) { return SimpleUpdatePara(steps, tau, 1, Dmax, terr); }
static void minmax(const Snap &s, size_t &mn, size_t &mx) { mn = 999; mx = 0; for (auto *q : {&s.lv, &s.lh}) for (auto &l : *q) { mn = std::min(mn, l.size()); mx = std::max(mx, l.size()); } }
template <class X> static void execute(X &x, Rec &rec, const std::string &what, size_t steps, double tau) {
  rec = Rec(); x.update_para.step_observer = [&](const SimpleUpdateStepMetrics<double> &m) { rec.e0.push_back(m.estimated_e0); rec.en.push_back(m.estimated_en); rec.changed.push_back(m.bond_dim_changed); rec.terr.push_back(m.trunc_err); rec.tau.push_back(m.tau); rec.step.push_back(m.step_index); rec.after.push_back(snap(x.GetPEPS())); };
  x.Execute(); auto &su = x.GetLastRunSummary(); VP_CHECK(x.GetStatus() == qlten::FINISH, "status", what); bool adv = x.update_para.advanced_stop.has_value(); size_t n = rec.e0.size();
  VP_CHECK(n <= steps && (adv || n == steps), "steps", what, ": ", n, " sweeps"); VP_CHECK(su.executed_steps == n && x.LastRunExecutedSteps() == n && x.GetStepMetrics().size() == n, "summary", what, ": ", su.executed_steps, " steps reported, ", n, " observed, ", x.GetStepMetrics().size(), " recorded");
  using SR = typename X::StopReason; VP_CHECK(x.LastRunConverged() == su.converged && su.converged == (su.stop_reason == SR::kAdvancedConverged) && (su.converged || su.stop_reason == SR::kMaxSteps), "summary", what, ": stop reason");
  VP_CHECK(su.converged || n == steps, "steps", what, ": stopped after ", n, " of ", steps, " sweeps without convergence");
  for (size_t k = 0; k < n; k++) { auto &m = x.GetStepMetrics()[k]; VP_CHECK(m.step_index == k && rec.step[k] == k && m.tau == tau && rec.tau[k] == tau && m.estimated_e0 == rec.e0[k] && m.estimated_en == rec.en[k] && m.bond_dim_changed == rec.changed[k] && m.trunc_err.has_value() == rec.terr[k].has_value() && (!m.trunc_err || *m.trunc_err == *rec.terr[k]), "metrics", what, ": step ", k, " metrics disagree: e0 ", m.estimated_e0, "/", rec.e0[k], " en ", m.estimated_en, "/", rec.en[k], " changed ", m.bond_dim_changed, rec.changed[k], " err ", m.trunc_err ? *m.trunc_err : -1, "/", rec.terr[k] ? *rec.terr[k] : -1);
    size_t a, b, c, d; if (k) { minmax(rec.after[k - 1], a, b); minmax(rec.after[k], c, d); } VP_CHECK(rec.changed[k] == (k > 0 && (a != c || b != d)), "metrics", what, ": bond_dim_changed at step ", k); }
  if (n) VP_CHECK(su.final_energy && *su.final_energy == rec.e0[n - 1] && su.final_estimated_e0 && *su.final_estimated_e0 == rec.e0[n - 1] && su.final_estimated_en && *su.final_estimated_en == rec.en[n - 1] && x.GetEstimatedEnergy() == rec.e0[n - 1], "summary", what, ": final energies");
}
static TenMatrix<Te> grid(size_t R, size_t C, const std::function<Te(size_t, size_t)> &f) { TenMatrix<Te> m(R, C); for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) m({r, c}) = f(r, c); return m; }
// applies exp(-tau h) of every term (all terms commute) to the vector
static std::vector<T> evolve(std::vector<T> v, const Lat &L, const Ham &h, double tau) {
  for (size_t i = 0; i < L.sites(); i++) { size_t r = i / L.C, c = i % L.C; if (!h.hor.empty() && (L.pbc || c + 1 < L.C)) v = apply(v, L.sites(), L.d, {i, r * L.C + (c + 1) % L.C}, expm(h.hor[i], L.d * L.d, tau)); if (!h.ver.empty() && (L.pbc || r + 1 < L.R)) v = apply(v, L.sites(), L.d, {i, ((r + 1) % L.R) * L.C + c}, expm(h.ver[i], L.d * L.d, tau)); if (!h.site.empty()) v = apply(v, L.sites(), L.d, {i}, expm(h.site[i], L.d, tau)); } return v; }
static double energy(const Lat &L, const Ham &h, size_t x) { // of a configuration under diagonal terms
  std::vector<size_t> cf(L.sites()); for (size_t i = L.sites(); i-- > 0;) { cf[i] = x % L.d; x /= L.d; } double e = 0; auto two = [&](const std::vector<T> &o, size_t a, size_t b) { size_t k = cf[a] * L.d + cf[b]; return std::real(o[k * L.d * L.d + k]); };
  for (size_t i = 0; i < L.sites(); i++) { size_t r = i / L.C, c = i % L.C; if (!h.hor.empty() && (L.pbc || c + 1 < L.C)) e += two(h.hor[i], i, r * L.C + (c + 1) % L.C); if (!h.ver.empty() && (L.pbc || r + 1 < L.R)) e += two(h.ver[i], i, ((r + 1) % L.R) * L.C + c); if (!h.site.empty()) e += std::real(h.site[i][cf[i] * L.d + cf[i]]); } return e; }
static std::vector<double> rnd(size_t n, Rng &g) { std::vector<double> v(n); for (auto &x : v) x = g(); return v; }
enum Ctor { UNIFORM, UNIFORM_SITE, UNIFORM_SITES, BONDS, BONDS_SITE };
static std::unique_ptr<SquareLatticeNNSimpleUpdateExecutor<T, QN>> nn(Ctor k, const SimpleUpdatePara &sp, const PEPS &p, const Lat &L, const Ham &h) {
  using X = SquareLatticeNNSimpleUpdateExecutor<T, QN>; auto b = [&](const std::vector<T> &o) { return ham_ten(o, 2, L.d); }; auto s = [&](const std::vector<T> &o) { return ham_ten(o, 1, L.d); }; size_t hc = L.pbc ? L.C : L.C - 1, vr = L.pbc ? L.R : L.R - 1;
  auto hm = [&] { return grid(L.R, hc, [&](size_t r, size_t c) { return b(h.hor[r * L.C + c]); }); }; auto vm = [&] { return grid(vr, L.C, [&](size_t r, size_t c) { return b(h.ver[r * L.C + c]); }); };
  switch (k) { case UNIFORM: return std::make_unique<X>(sp, p, b(h.hor[0])); case UNIFORM_SITE: return std::make_unique<X>(sp, p, b(h.hor[0]), s(h.site[0])); case UNIFORM_SITES: return std::make_unique<X>(sp, p, b(h.hor[0]), grid(L.R, L.C, [&](size_t r, size_t c) { return s(h.site[r * L.C + c]); })); case BONDS: return std::make_unique<X>(sp, p, hm(), vm()); default: return std::make_unique<X>(sp, p, hm(), vm(), s(h.site[0])); } }
static const char *cname[] = {"uniform bonds", "uniform bonds and site term", "uniform bonds, a term per site", "a term per bond", "a term per bond and a site term"};
// runs an executor on a state and demands the exact evolution; passes = how many times a sweep applies the Hamiltonian
template <class X> static void exact_run(X &x, const Lat &L, const std::vector<T> &v0, const std::function<std::vector<T>(std::vector<T>, double)> &ev, double tau, size_t steps, int passes, const std::string &what) {
  Rec rec; execute(x, rec, what, steps, tau); auto v = v0; double acc = 1; for (size_t k = 0; k < rec.e0.size(); k++) { for (int q = 0; q < passes; q++) v = ev(v, tau); acc *= std::exp(-tau * passes * rec.en[k]); auto w = vec(rec.after[k]); double nv = norm(v); VP_CHECK(dist(v, w, T(acc)) <= 1e-7 * nv, "evolution", what, ": after sweep ", k + 1, " the state times the reported norm is not exp(-tau H) |state> (relative distance ", dist(v, w, T(acc)) / nv, ")"); VP_CHECK(!rec.terr[k] || *rec.terr[k] < 1e-12, "trunc-err", what, ": truncation error reported without truncation"); vp::S().transitions++; }
  vp::S().traces++; vp::outcome(vp::cat("run ", passes)); vp::state(what); }
static Ham nn_ham(Ctor k, const Lat &L, Rng &g) { Ham h; size_t n = L.sites(), b = L.d * L.d; auto u = diag(rnd(b, g)); for (size_t i = 0; i < n; i++) { h.hor.push_back(k >= BONDS ? diag(rnd(b, g)) : u); h.ver.push_back(k >= BONDS ? diag(rnd(b, g)) : u); } if (k != UNIFORM && k != BONDS) { auto s = diag(rnd(L.d, g)); for (size_t i = 0; i < n; i++) h.site.push_back(k == UNIFORM_SITES ? diag(rnd(L.d, g)) : s); } return h; }
static void nn_part() {
  std::vector<std::tuple<size_t, size_t, bool>> ls{{1, 2, false}, {2, 1, false}, {1, 3, false}, {3, 1, false}, {1, 4, false}, {2, 2, false}, {2, 3, false}, {3, 2, false}, {3, 3, false}, {2, 2, true}, {2, 3, true}, {3, 2, true}}; if (deep()) { ls.push_back({4, 1, false}); ls.push_back({2, 4, false}); ls.push_back({4, 2, false}); ls.push_back({3, 3, true}); }
#ifdef SMALL
  ls = {{1, 3, false}, {3, 1, false}, {2, 2, false}, {2, 3, false}, {3, 2, false}, {2, 2, true}};
#endif
  const double tau = 0.13; auto sp = [&](size_t s) { return para(s, tau, 1000, 1e-28); };
  for (auto [R, C, pbc] : ls) for (int k = 0; k < 5; k++) { Lat L = lat(R, C, 2, pbc, 0), L1 = lat(R, C, 2, pbc, pbc ? 0 : R * C > 6 ? 0 : 3); Rng g(R * 31 + C * 7 + k + pbc * 100); Ham h = nn_ham(Ctor(k), L, g); std::string nm = vp::cat("nearest-neighbour executor ", L.str(), ", ", cname[k]);
    if (mine()) { vp::begin_case(nm + ", commuting terms"); PEPS p = generic(L1, 3); auto v0 = vec(snap(p)); size_t st = pbc && R * C > 4 ? 1 : 2; auto x = nn(Ctor(k), sp(st), p, L1, h); exact_run(*x, L1, v0, [&](std::vector<T> v, double t) { return evolve(v, L1, h, t); }, tau, st, 1, CUR); }
    if (R * C <= 6 || deep()) for (size_t c = 0; c < dpow(2, R * C); c++) { if (!mine()) continue; vp::begin_case(vp::cat(nm, ", configuration ", c)); PEPS p(idx(2, qlten::OUT), R, C, L.bc()); std::vector<std::vector<size_t>> a(R, std::vector<size_t>(C)); size_t y = c; for (size_t i = R * C; i-- > 0;) { a[i / C][i % C] = y % 2; y /= 2; } p.Initial(a); auto x = nn(Ctor(k), sp(2), p, L, h); Rec rec; execute(*x, rec, CUR, 2, tau); double e = energy(L, h, c); for (int q = 0; q < 2; q++) VP_CHECK(vp::close(rec.e0[q], e, 1e-9, 1e-10) && vp::close(rec.en[q], e, 1e-9, 1e-10), "eigenstate", CUR, ": energies ", rec.e0[q], " ", rec.en[q], ", the configuration has ", e); vp::S().transitions++;
      if (c == 0) { x->ResetStepLenth(0.05); x->update_para.steps = 1; execute(*x, rec, CUR, 1, 0.05); VP_CHECK(vp::close(rec.en[0], e, 1e-9, 1e-10), "eigenstate", CUR, ": energy ", rec.en[0], " after changing the step length, expected ", e); } vp::state(CUR); }
    // single non-commuting bond term, everything else zero (+ non-diagonal site terms alone)
    if (k == BONDS) for (size_t i = 0; i < L.sites(); i++) for (int o = 0; o < 2; o++) { size_t r = i / C, c = i % C; if (o == 0 ? !(pbc || c + 1 < C) : !(pbc || r + 1 < R)) continue; if (!mine()) continue; Ham z; std::vector<T> zero(16, T(0)); z.hor.assign(L.sites(), zero); z.ver = z.hor; Rng q(i * 2 + o); (o ? z.ver : z.hor)[i] = hermitian(4, q); vp::begin_case(vp::cat(nm, ", one ", o ? "vertical" : "horizontal", " term at ", r, ",", c)); PEPS p = generic(L1, 4); auto v0 = vec(snap(p)); auto x = nn(BONDS, sp(1), p, L1, z); exact_run(*x, L1, v0, [&](std::vector<T> v, double t) { return evolve(v, L1, z, t); }, tau, 1, 1, CUR); }
    if (k == UNIFORM_SITES || k == UNIFORM_SITE) { if (mine()) { Ham z; std::vector<T> zero(16, T(0)); z.hor.assign(L.sites(), zero); z.ver = z.hor; Rng q(k); auto u = hermitian(2, q); for (size_t i = 0; i < L.sites(); i++) z.site.push_back(k == UNIFORM_SITE ? u : hermitian(2, q)); vp::begin_case(vp::cat(nm, ", site terms only")); PEPS p = generic(L1, 6); auto v0 = vec(snap(p)); auto x = nn(Ctor(k), sp(1), p, L1, z); exact_run(*x, L1, v0, [&](std::vector<T> v, double t) { return evolve(v, L1, z, t); }, tau, 1, 1, CUR); } }
    // wrong grid sizes are rejected
    if (k == BONDS && mine()) for (int dh = -1; dh <= 1; dh++) for (int dv = -1; dv <= 1; dv++) { int hc = (pbc ? C : C - 1) + dh, vr = (pbc ? R : R - 1) + dv; if (hc < 0 || vr < 0) continue; Te t = ham_ten(diag({1, 2, 3, 4}), 2, 2); auto f = [&](size_t, size_t) { return t; }; bool threw = false; try { SquareLatticeNNSimpleUpdateExecutor<T, QN> x(sp(1), generic(L, 1), grid(R, hc, f), grid(vr, C, f)); } catch (const std::invalid_argument &) { threw = true; } VP_CHECK(threw == (dh || dv), "grid-size", L.str(), ": bond grids off by ", dh, ",", dv, threw ? " rejected" : " accepted"); } } }
static void nnn_part() {
  const double tau = 0.11; std::vector<std::tuple<size_t, size_t, bool>> ls{{2, 2, false}, {2, 3, false}, {3, 2, false}, {3, 3, false}, {2, 2, true}}; if (deep()) { ls.push_back({2, 4, false}); ls.push_back({4, 2, false}); ls.push_back({2, 3, true}); ls.push_back({3, 2, true}); ls.push_back({3, 3, true}); }
#ifdef SMALL
  ls = {{2, 2, false}, {2, 3, false}};
#endif
  using X = SquareLatticeNNNSimpleUpdateExecutor<T, QN>;
  for (auto [R, C, pbc] : ls) for (int k = 0; k < 3; k++) { Lat L = lat(R, C, 2, pbc, 0); Rng g(R * 31 + C * 7 + k + pbc * 100); std::string nm = vp::cat("next-nearest-neighbour executor ", L.str(), k == 0 ? "" : k == 1 ? ", site term" : ", a term per site");
    auto sym = [&] { double a = g(), b = g(), c = g(); return diag({a, b, b, c}); }; auto h1 = sym(), h2 = sym(); std::vector<std::vector<T>> st; auto u = diag(rnd(2, g)); for (size_t i = 0; i < L.sites(); i++) st.push_back(k == 2 ? diag(rnd(2, g)) : u);
    auto ev = [&](std::vector<T> v, double t) { Ham h; h.hor.assign(L.sites(), h1); h.ver = h.hor; if (k) h.site = st; v = evolve(v, L, h, t); for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) if (pbc || (r + 1 < R && c + 1 < C)) { size_t a = r * C + c, b = r * C + (c + 1) % C, e = ((r + 1) % R) * C + c, f = ((r + 1) % R) * C + (c + 1) % C; v = apply(v, L.sites(), 2, {a, f}, expm(h2, 4, t)); v = apply(v, L.sites(), 2, {b, e}, expm(h2, 4, t)); } return v; };
    auto make = [&](const PEPS &p, size_t steps) { auto sp = para(steps, tau, 1000, 1e-28); Te a = ham_ten(h1, 2, 2), b = ham_ten(h2, 2, 2); return k == 0 ? std::make_unique<X>(sp, p, a, b) : k == 1 ? std::make_unique<X>(sp, p, a, b, ham_ten(u, 1, 2)) : std::make_unique<X>(sp, p, a, b, grid(R, C, [&](size_t r, size_t c) { return ham_ten(st[r * C + c], 1, 2); })); };
    if (mine() && (!pbc || deep())) { vp::begin_case(nm + ", commuting terms"); PEPS p = generic(L, 3); auto v0 = vec(snap(p)); auto x = make(p, 1); exact_run(*x, L, v0, ev, tau, 1, 1, CUR); }
    for (size_t c = 0; c < dpow(2, R * C); c++) { if (!mine() || (R * C > 6 && !deep() && c % 7)) continue; vp::begin_case(vp::cat(nm, ", configuration ", c)); PEPS p(idx(2, qlten::OUT), R, C, L.bc()); std::vector<std::vector<size_t>> a(R, std::vector<size_t>(C)); size_t y = c; for (size_t i = R * C; i-- > 0;) { a[i / C][i % C] = y % 2; y /= 2; } p.Initial(a); auto x = make(p, 2); Rec rec; execute(*x, rec, CUR, 2, tau); std::vector<T> v(dpow(2, R * C), T(0)); v[c] = T(1); double e = -std::log(std::real(ev(v, 1.0)[c])); for (int q = 0; q < 2; q++) VP_CHECK(vp::close(rec.e0[q], e, 1e-9, 1e-10) && vp::close(rec.en[q], e, 1e-9, 1e-10), "eigenstate", CUR, ": energies ", rec.e0[q], " ", rec.en[q], ", the configuration has ", e); vp::S().transitions++; vp::state(CUR); }
    if (k == 2 && mine() && (!pbc || deep())) { auto z = std::vector<T>(16, T(0)); auto s1 = h1, s2 = h2; auto s0 = st; h1 = h2 = z; Rng q(9); for (auto &s : st) s = hermitian(2, q); vp::begin_case(nm + ", site terms only"); PEPS p = generic(L, 8); auto v0 = vec(snap(p)); auto x = make(p, 1); exact_run(*x, L, v0, ev, tau, 1, 1, CUR); } } }
static void triangle_part() {
  const double tau = 0.07; using X = TriangleNNModelSquarePEPSSimpleUpdateExecutor<T, QN>; std::vector<std::pair<size_t, size_t>> ls{{2, 2}, {2, 3}, {3, 2}, {3, 3}}; if (deep()) { ls.push_back({2, 4}); ls.push_back({4, 2}); }
  for (auto [R, C] : ls) { Lat L = lat(R, C, 2, false, 0); Rng g(R * 5 + C); double a = g(), b = g(), c = g(), d = g(), e = g(), f = g(); auto h1 = diag({a, b, b, c}), h2 = diag({d, e, e, f}); std::vector<double> t3(8); for (int x = 0; x < 8; x++) { int A = x >> 2, B = (x >> 1) & 1, Cc = x & 1; auto at = [](const std::vector<T> &h, int p, int q) { int k = 2 * p + q; return std::real(h[k * 4 + k]); }; t3[x] = at(h1, A, B) + at(h1, B, Cc) + at(h2, A, Cc); }
    std::string nm = vp::cat("triangular executor ", L.str()); auto ev = [&](std::vector<T> v, double t) { Ham h; h.hor.assign(L.sites(), h1); h.ver = h.hor; v = evolve(v, L, h, t); for (size_t r = 0; r + 1 < R; r++) for (size_t cc = 0; cc + 1 < C; cc++) v = apply(v, L.sites(), 2, {r * C + cc + 1, (r + 1) * C + cc}, expm(h2, 4, t)); return v; };
    if (mine()) { vp::begin_case(nm + ", commuting terms"); PEPS p = generic(L, 3); auto v0 = vec(snap(p)); X x(para(1, tau, 1000, 1e-28), p, ham_ten(h1, 2, 2), ham_ten(diag(t3), 3, 2)); exact_run(x, L, v0, ev, tau, 1, 2, CUR); }
    for (size_t q = 0; q < dpow(2, R * C); q++) { if (!mine()) continue; vp::begin_case(vp::cat(nm, ", configuration ", q)); PEPS p(idx(2, qlten::OUT), R, C, L.bc()); std::vector<std::vector<size_t>> ac(R, std::vector<size_t>(C)); size_t y = q; for (size_t i = R * C; i-- > 0;) { ac[i / C][i % C] = y % 2; y /= 2; } p.Initial(ac); X x(para(2, tau, 1000, 1e-28), p, ham_ten(h1, 2, 2), ham_ten(diag(t3), 3, 2)); Rec rec; execute(x, rec, CUR, 2, tau); std::vector<T> v(dpow(2, R * C), T(0)); v[q] = T(1); double en = -std::log(std::real(ev(v, 1.0)[q])); for (int s = 0; s < 2; s++) VP_CHECK(vp::close(rec.e0[s], en, 1e-9, 1e-10) && vp::close(rec.en[s], en, 1e-9, 1e-10), "eigenstate", CUR, ": energy ", rec.e0[s], ", the configuration has ", en); vp::S().transitions++; vp::state(CUR); } } }
// ---- stop rules
static void stop_part() {
  const double tau = 0.1; const size_t steps = vp::pick(9, 14); Lat L = lat(2, 2, 2, false, 0); std::vector<T> sz{T(0.25), T(0), T(0), T(0), T(0), T(-0.25), T(0), T(0), T(0), T(0), T(-0.25), T(0), T(0), T(0), T(0), T(0.25)}, sx{T(0), T(-0.4), T(-0.4), T(0)}; PEPS p0(idx(2, qlten::OUT), 2, 2); std::vector<std::vector<size_t>> a{{0, 1}, {1, 0}}; p0.Initial(a);
  auto mk = [&](const SimpleUpdatePara &sp) { return SquareLatticeNNSimpleUpdateExecutor<T, QN>(sp, p0, ham_ten(sz, 2, 2), ham_ten(sx, 1, 2)); };
  Rec free; { auto x = mk(para(steps, tau, 2, 0)); execute(x, free, "unrestricted run", steps, tau); }
  std::vector<double> de(steps, 1e300), dl(steps, 1e300), sc(steps, 1); for (size_t k = 1; k < steps; k++) { de[k] = std::abs(free.e0[k] - free.e0[k - 1]); sc[k] = std::max({1.0, std::abs(free.e0[k]), std::abs(free.e0[k - 1])}); bool same = true; double mx = 0; for (int q = 0; q < 2; q++) { auto &o = q ? free.after[k - 1].lh : free.after[k - 1].lv, &n = q ? free.after[k].lh : free.after[k].lv; for (size_t i = 0; i < o.size(); i++) { if (o[i].size() != n[i].size()) { same = false; continue; } double d = 0, z = 0; for (size_t j = 0; j < o[i].size(); j++) { d += (n[i][j] - o[i][j]) * (n[i][j] - o[i][j]); z += o[i][j] * o[i][j]; } mx = std::max(mx, std::sqrt(d / z)); } } if (same) dl[k] = mx; }
  auto tols = [&](const std::vector<double> &d) { std::vector<double> t{0.0, 1e9}; for (size_t k = 1; k < d.size(); k += 2) if (d[k] < 1e200) t.push_back(d[k] * (1 + 1e-6)); return t; };
  for (double ea : tols(de)) for (double er : {0.0, de[3] / sc[3] * 1.01, de[5] / sc[5] * 1.01}) for (double lt : tols(dl)) for (size_t pat : {1, 2, 3}) for (size_t ms : {size_t(1), size_t(4), steps, steps + 5}) { if (!mine()) continue; vp::begin_case(vp::cat("stop rule: energy ", ea, " relative ", er, " weights ", lt, " patience ", pat, " minimum ", ms));
    size_t want = steps, streak = 0; bool conv = false; for (size_t k = 0; k < steps; k++) { bool ok = k > 0 && dl[k] < 1e200 && de[k] <= std::max(ea, er * sc[k]) && dl[k] <= lt && k + 1 >= ms; streak = ok ? streak + 1 : 0; if (streak >= pat) { want = k + 1; conv = true; break; } }
    auto x = mk(SimpleUpdatePara::Advanced(steps, tau, 1, 2, 0, ea, er, lt, pat, ms)); Rec rec; execute(x, rec, CUR, steps, tau); VP_CHECK(rec.e0.size() == want && x.LastRunConverged() == conv, "stop-rule", CUR, ": stopped after ", rec.e0.size(), x.LastRunConverged() ? " converged" : "", ", the rule gives ", want, conv ? " converged" : ""); for (size_t k = 0; k < want; k++) VP_CHECK(rec.e0[k] == free.e0[k], "stop-rule", "the stop rule changed the evolution"); vp::S().transitions++; vp::outcome(vp::cat("stop ", want, conv)); vp::state(CUR); }
  struct Bad { double a, b, c; size_t p, m; }; for (auto &b : std::vector<Bad>{{-1e-9, 0, 0, 1, 1}, {0, -1e-9, 0, 1, 1}, {0, 0, -1e-9, 1, 1}, {0, 0, 0, 0, 1}, {0, 0, 0, 1, 0}}) if (mine()) { vp::begin_case("bad stop rule"); auto x = mk(SimpleUpdatePara::Advanced(3, tau, 1, 2, 0, b.a, b.b, b.c, b.p, b.m)); bool threw = false; try { x.Execute(); } catch (const std::invalid_argument &) { threw = true; } VP_CHECK(threw, "bad-rule", "an invalid stop rule was accepted"); }
  if (mine()) { vp::begin_case("no run yet"); auto x = mk(para(3, tau, 2, 0)); using X = decltype(x); VP_CHECK(x.GetLastRunSummary().stop_reason == X::StopReason::kNotRun && x.GetLastRunSummary().executed_steps == 0 && !x.GetLastRunSummary().final_energy && x.GetStepMetrics().empty(), "summary", "before any run"); Rec r1, r2; execute(x, r1, "first", 3, tau); execute(x, r2, "second", 3, tau); VP_CHECK(x.GetStepMetrics().size() == 3, "summary", "metrics accumulate over runs"); auto y = mk(para(6, tau, 2, 0)); Rec r; execute(y, r, "six", 6, tau); for (int k = 0; k < 3; k++) VP_CHECK(r.e0[k] == r1.e0[k] && r.e0[k + 3] == r2.e0[k], "resume", "running 3+3 sweeps differs from 6"); }
}
// ---- stop rules on scripted sweeps: every sequence of energy steps and weight changes
struct Move { double de; double dl; int bond; bool dim; size_t dmin, dmax; };
struct Scripted : SimpleUpdateExecutor<T, QN> {
  using B = SimpleUpdateExecutor<T, QN>; std::vector<Move> m; double e = -3; size_t at = 0, gates = 0; Scripted(const SimpleUpdatePara &sp, const PEPS &p, std::vector<Move> s) : B(sp, p), m(std::move(s)) {}
  void SetEvolveGate_() override { gates++; }
  typename B::SweepResult SimpleUpdateSweep_() override { const Move &x = m[at++]; e += x.de; std::vector<Ten<double> *> ls; for (auto &l : this->peps_.lambda_vert) ls.push_back(&l); for (auto &l : this->peps_.lambda_horiz) ls.push_back(&l); Ten<double> &l = *ls[x.bond % ls.size()]; if (x.dim) { size_t d = l.GetShape()[0] == 2 ? 3 : 2; Ten<double> n({idx(d, qlten::IN), idx(d, qlten::OUT)}); for (size_t i = 0; i < d; i++) n({i, i}) = 1.0 / (1 + i); l = n; } else l({0, 0}) = l({0, 0}) * (1 + x.dl); typename B::SweepResult r; r.estimated_e0 = e; r.estimated_en = e + 0.125 * at; if (x.dmin != 1) r.trunc_err = 1e-3 * at; r.elapsed_sec = 0; r.dmin = x.dmin; r.dmax = x.dmax; return r; } };
static void script_part() {
  Lat L = lat(2, 2, 2, true, 1); PEPS p = generic(L, 4); { for (auto *g : {&p.lambda_vert, &p.lambda_horiz}) for (auto &l : *g) { l({0, 0}) = 0.05; l({1, 1}) = 0.025; } }
  std::vector<Move> al{{0, 0, 0, false, 2, 3}, {1e-4, 1e-4, 1, false, 2, 3}, {-1, 0, 2, false, 2, 4}, {0, 0.5, 7, false, 1, 3}, {0, 5e-3, 0, false, 2, 3}, {0, 0, 5, true, 3, 3}, {-1e-2, 1e-4, 3, false, 2, 3}}; const size_t len = vp::pick(4, 5); size_t tot = dpow(al.size(), len);
  for (size_t code = 0; code < tot; code++) { if (!mine()) continue; std::vector<Move> sc; std::string nm = "script"; for (size_t k = 0, c = code; k < len; k++, c /= al.size()) { sc.push_back(al[c % al.size()]); nm += vp::cat(" ", c % al.size()); }
    for (size_t pat : {1, 2, 3}) for (size_t ms : {1, 3}) for (double er : {0.0, 1e-2}) { vp::begin_case(vp::cat(nm, " patience ", pat, " minimum ", ms, " relative ", er)); double ea = 1e-3, lt = 1e-3, e = -3; size_t want = len, streak = 0; bool conv = false;
      for (size_t k = 0; k < len; k++) { double pe = e; e += sc[k].de; bool ok = k > 0 && !sc[k].dim && std::abs(sc[k].dl) * 0.9 <= lt && std::abs(sc[k].de) <= std::max(ea, er * std::max({1.0, std::abs(pe), std::abs(e)})) && k + 1 >= ms; streak = ok ? streak + 1 : 0; if (streak >= pat) { want = k + 1; conv = true; break; } }
      Scripted x(SimpleUpdatePara::Advanced(len, 0.1, 1, 2, 0, ea, er, lt, pat, ms), p, sc); size_t seen = 0; x.update_para.step_observer = [&](const SimpleUpdateStepMetrics<double> &m) { size_t k = seen++; VP_CHECK(m.step_index == k && m.trunc_err.has_value() == (sc[k].dmin != 1) && (!m.trunc_err || *m.trunc_err == 1e-3 * (k + 1)) && m.bond_dim_changed == (k > 0 && (sc[k].dmin != sc[k - 1].dmin || sc[k].dmax != sc[k - 1].dmax)), "metrics", CUR, ": observer at step ", k); };
      x.Execute(); VP_CHECK(x.at == want && seen == want && x.LastRunExecutedSteps() == want && x.GetStepMetrics().size() == want && x.LastRunConverged() == conv, "stop-rule", CUR, ": ran ", x.at, " sweeps", x.LastRunConverged() ? " and converged" : "", ", the rule gives ", want, conv ? " and converged" : ""); VP_CHECK(*x.GetLastRunSummary().final_energy == x.e && x.GetEstimatedEnergy() == x.e && *x.GetLastRunSummary().final_estimated_en == x.e + 0.125 * want, "summary", CUR, ": final energy");
      vp::S().transitions += want; vp::S().traces++; } vp::state(nm); }
}
// ---- truncation limits reach the executors; index directions
static void limits_part() {
  Lat L = lat(3, 3, 2, false, 0); Rng g(77); auto h2 = hermitian(4, g), h2b = hermitian(4, g); auto h3 = hermitian(8, g); struct Lim { size_t lo, hi; double err; }; std::vector<Lim> ls{{1, 1, 0}, {1, 2, 0}, {1, 3, 1e-20}, {2, 3, 1e-2}, {3, 4, 1e-4}, {1, 4, 1e-5}, {2, 2, 0}, {1, 3, 1e-3}};
  for (auto &l : ls) for (int e = 0; e < 3; e++) { if (!mine()) continue; vp::begin_case(vp::cat("limits ", l.lo, "..", l.hi, " error ", l.err, " executor ", e)); PEPS p = generic(L, 9); Rec rec; SimpleUpdatePara sp(3, 0.4, l.lo, l.hi, l.err);
    if (e == 0) { SquareLatticeNNSimpleUpdateExecutor<T, QN> x(sp, p, ham_ten(h2, 2, 2)); execute(x, rec, CUR, 3, 0.4); } else if (e == 1) { SquareLatticeNNNSimpleUpdateExecutor<T, QN> x(sp, p, ham_ten(h2, 2, 2), ham_ten(h2b, 2, 2)); execute(x, rec, CUR, 3, 0.4); } else { TriangleNNModelSquarePEPSSimpleUpdateExecutor<T, QN> x(sp, p, ham_ten(h2, 2, 2), ham_ten(h3, 3, 2)); execute(x, rec, CUR, 3, 0.4); }
    for (auto &s : rec.after) { size_t mn = 99, mx = 0; for (size_t r = 0; r < 3; r++) for (size_t c = 0; c < 3; c++) for (int q = 0; q < 2; q++) { if (!(q ? c : r)) continue; auto &w = q ? s.lh[s.hi(r, c)] : s.lv[s.vi(r, c)]; mn = std::min(mn, w.size()); mx = std::max(mx, w.size()); double z = 0; for (double x : w) { z += x * x; VP_CHECK(x > 0, "limits", CUR, ": weight ", x); } VP_CHECK(z <= 1 + 1e-9, "limits", CUR, ": weights not normalised"); } VP_CHECK(mx <= l.hi, "limits", CUR, ": bond dimension ", mx); VP_CHECK(mn >= std::min(l.lo, size_t(2)), "limits", CUR, ": bond dimension ", mn); if (l.err < 1e-10 && e != 2) VP_CHECK(mx == l.hi, "limits", CUR, ": bond dimension only ", mx); }
    vp::S().traces++; vp::state(CUR); }
  for (bool pbc : {false, true}) for (int which = -1; which < 12; which++) { Lat M = lat(2, 3, 2, pbc, 1); PEPS p = generic(M, 2); auto v = vec(snap(p)); int k = 0; bool any = false; auto flip = [&](Ten<double> &l) { if (which < 0 || which == k) { Ten<double> n({qlten::InverseIndex(l.GetIndex(0)), qlten::InverseIndex(l.GetIndex(1))}); for (size_t i = 0; i < l.size(); i++) n.GetRawDataPtr()[i] = l.GetRawDataPtr()[i]; l = n; any = true; } k++; };
    for (size_t r = !pbc; r < 2; r++) for (size_t c = 0; c < 3; c++) flip(p.lambda_vert({r, c})); for (size_t r = 0; r < 2; r++) for (size_t c = !pbc; c < 3; c++) flip(p.lambda_horiz({r, c})); if (!any || !mine()) continue; vp::begin_case(vp::cat("index directions ", M.str(), " bond ", which)); p.RegularizeIndexDir(); Snap s = snap(p); VP_CHECK(dist(v, vec(s)) <= 1e-9 * norm(v), "directions", CUR, ": the state changed"); for (auto &l : p.lambda_vert) VP_CHECK(l.GetIndex(0).GetDir() == qlten::IN, "directions", CUR); for (auto &l : p.lambda_horiz) VP_CHECK(l.GetIndex(0).GetDir() == qlten::IN, "directions", CUR); vp::S().transitions++; }
}
// ---- exponential
static void exp_part() { for (size_t k : {1, 2, 3}) for (size_t d : {2, 3}) { size_t dim = dpow(d, k); if (dim > 9 && k > 2 && d > 2) continue; for (double tau : {0.0, 1e-6, 0.01, 0.1, 1.0}) for (int s = 0; s < 6; s++) { if (!mine()) continue; vp::begin_case(vp::cat("exponential of a ", k, "-site term d=", d, " tau ", tau)); Rng g(s + 10 * k); std::vector<T> h(dim * dim); if (s < 3) h = hermitian(dim, g, s == 2 ? 3 : 1); else if (s == 3) h.assign(dim * dim, T(0)); else for (auto &x : h) x = g.el(); auto w = expm(h, dim, tau); Te e = TaylorExpMatrix<T, QN>(tau, ham_ten(h, k, d)); VP_CHECK(e.GetShape() == std::vector<size_t>(2 * k, d), "exp-shape", CUR); double n = norm(w); for (size_t i = 0; i < w.size(); i++) VP_CHECK(std::abs(e.GetRawDataPtr()[i] - w[i]) <= 1e-8 * n, "exp", CUR, ": entry ", i, " is ", e.GetRawDataPtr()[i], " expected ", w[i]); vp::S().transitions++; } } }
int main(int c, char **v) { return vp::main_wrap(c, v, [] { Quiet q; forms_part(); exp_part(); projections_part(); histories_part(); nn_part(); nnn_part(); triangle_part(); stop_part(); script_part(); limits_part(); vp::S().states = vp::S().state_set.size(); }); }
