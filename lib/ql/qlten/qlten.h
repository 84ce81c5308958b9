// Minimal dense stand-in for the TensorToolkit (qlten) interface used by QuantumLiquids/PEPS: enough for the real PEPS
// headers to compile and run without the (absent) library. Bosonic tensors only; one trivial quantum-number sector per index.
#ifndef VP_QL_QLTEN_H
#define VP_QL_QLTEN_H
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "mpi.h"
#include "qlten/framework/hp_numeric/mpi_fun.h"
#include "qlten/framework/hp_numeric/backend_selector.h"
#include "qlten/utility/timer.h"
namespace qlten {
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
using QLTEN_Float = float;
using QLTEN_ComplexFloat = std::complex<float>;
const std::string kQLTenFileSuffix = "qlten";
inline std::string IndentPrinter(const size_t n) { return std::string(n * 2, ' '); }
class Showable { public: virtual ~Showable() = default; virtual void Show(const size_t indent_level = 0) const = 0; };
class Streamable { public: virtual ~Streamable() = default; virtual void StreamRead(std::istream &) = 0; virtual void StreamWrite(std::ostream &) const = 0; };
inline std::ostream &operator<<(std::ostream &os, const Streamable &o) { o.StreamWrite(os); return os; }
inline std::istream &operator>>(std::istream &is, Streamable &o) { o.StreamRead(is); return is; }
enum ExecutorStatus { INITING, INITED, EXEING, FINISH };
class Executor {
 public:
  Executor() = default; virtual ~Executor() = default; virtual void Execute() = 0;
  ExecutorStatus GetStatus() const { return status_; }
  void SetStatus(ExecutorStatus s) { status_ = s; }
 protected:
  ExecutorStatus status_ = INITING;
};
namespace special_qn {
class TrivialRepQN {
 public:
  TrivialRepQN() = default;
  TrivialRepQN operator-() const { return *this; }
  TrivialRepQN operator+(const TrivialRepQN &) const { return *this; }
  TrivialRepQN operator-(const TrivialRepQN &) const { return *this; }
  TrivialRepQN &operator+=(const TrivialRepQN &) { return *this; }
  bool operator==(const TrivialRepQN &) const { return true; }
  bool operator!=(const TrivialRepQN &) const { return false; }
  bool IsFermionParityEven() const { return true; }
  bool IsFermionParityOdd() const { return false; }
  size_t dim() const { return 1; }
  static TrivialRepQN Zero() { return TrivialRepQN(); }
};
} // namespace special_qn
template <typename QNT> class QNSector {
 public:
  QNSector() = default;
  QNSector(const QNT &qn, size_t d) : qn_(qn), dim_(d) {}
  const QNT &GetQn() const { return qn_; }
  size_t dim() const { return dim_; }
  size_t GetDegeneracy() const { return dim_; }
  bool operator==(const QNSector &r) const { return qn_ == r.qn_ && dim_ == r.dim_; }
 private:
  QNT qn_; size_t dim_ = 0;
};
enum TenIndexDirType { IN = -1, NDIR = 0, OUT = 1 };
template <typename QNT> class Index {
 public:
  Index() = default;
  Index(const std::vector<QNSector<QNT>> &s, TenIndexDirType d) : s_(s), dir_(d) { for (auto &x : s_) dim_ += x.dim(); }
  size_t dim() const { return dim_; }
  static constexpr bool IsFermionic() { return false; }
  TenIndexDirType GetDir() const { return dir_; }
  const QNSector<QNT> &GetQNSct(size_t i) const { return s_.at(i); }
  size_t GetQNSctNum() const { return s_.size(); }
  const std::vector<QNSector<QNT>> &GetQNScts() const { return s_; }
  const QNSector<QNT> &GetQNSctFromActualCoor(size_t c) const { for (auto &x : s_) { if (c < x.dim()) return x; c -= x.dim(); } throw std::out_of_range("index coordinate"); }
  std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t c) const { for (size_t i = 0; i < s_.size(); i++) { if (c < s_[i].dim()) return {i, c}; c -= s_[i].dim(); } throw std::out_of_range("index coordinate"); }
  void Inverse() { dir_ = TenIndexDirType(-int(dir_)); }
  bool operator==(const Index &r) const { return s_ == r.s_ && dir_ == r.dir_; }
  bool operator!=(const Index &r) const { return !(*this == r); }
 private:
  std::vector<QNSector<QNT>> s_; TenIndexDirType dir_ = NDIR; size_t dim_ = 0;
};
template <typename QNT> using IndexVec = std::vector<Index<QNT>>;
template <typename QNT> Index<QNT> InverseIndex(const Index<QNT> &i) { auto r = i; r.Inverse(); return r; }
template <typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
const double kDoubleEpsilon = 1.0E-15;
const float kFloatEpsilon = 1.0E-6f;
inline std::vector<CoorsT> GenAllCoors(const ShapeT &sh) { std::vector<CoorsT> r; size_t n = 1; for (auto d : sh) n *= d; CoorsT k(sh.size(), 0); for (size_t o = 0; o < n; o++) { r.push_back(k); for (size_t i = sh.size(); i-- > 0;) { if (++k[i] < sh[i]) break; k[i] = 0; } } return r; }
// "Random" of the stand-in is a fixed, reproducible sequence (SetRandomSeed restarts it).
inline uint64_t &vp_random_state() { static thread_local uint64_t s = 88172645463325252ull; return s; }
inline double vp_random_unit() { uint64_t &x = vp_random_state(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; return double(x >> 11) / 9007199254740992.0; }
inline void SetRandomSeed(unsigned s) { vp_random_state() = 88172645463325252ull + 7919ull * s; }
template <typename T> inline T vp_random_elem() { return T(vp_random_unit()); }
template <> inline std::complex<double> vp_random_elem() { double a = vp_random_unit(), b = vp_random_unit(); return {a, b}; }
template <typename T> inline T vp_conj(const T &x) { return x; }
template <typename T> inline std::complex<T> vp_conj(const std::complex<T> &x) { return std::conj(x); }
[[noreturn]] inline void vp_die(const std::string &m) { throw std::logic_error("tensor stand-in: " + m); }

template <typename ElemT, typename QNT> class QLTensor : public Showable {
 public:
  using RealT = typename RealTypeTrait<ElemT>::type;
  QLTensor() = default;
  QLTensor(const IndexVec<QNT> &idx) : idx_(idx), has_(true) { Reset_(); }
  QLTensor(const QLTensor &) = default;
  QLTensor &operator=(const QLTensor &) = default;
  QLTensor(QLTensor &&o) noexcept : idx_(std::move(o.idx_)), d_(std::move(o.d_)), has_(o.has_) { o.Clear_(); }
  QLTensor &operator=(QLTensor &&o) noexcept { if (this != &o) { idx_ = std::move(o.idx_); d_ = std::move(o.d_); has_ = o.has_; o.Clear_(); } return *this; }
  static constexpr bool IsFermionic() { return false; }
  bool IsDefault() const { return !has_; }
  bool IsScalar() const { return has_ && idx_.empty(); }
  size_t Rank() const { return idx_.size(); }
  size_t size() const { return d_.size(); }
  size_t Size() const { return d_.size(); }
  size_t GetActualDataSize() const { return d_.size(); }
  size_t GetQNBlkNum() const { return has_ ? 1 : 0; }
  const IndexVec<QNT> &GetIndexes() const { return idx_; }
  const Index<QNT> &GetIndex(size_t i) const { return idx_.at(i); }
  const ShapeT GetShape() const { ShapeT s; for (auto &i : idx_) s.push_back(i.dim()); return s; }
  ElemT *GetRawDataPtr() { return d_.data(); }
  const ElemT *GetRawDataPtr() const { return d_.data(); }
  QNT Div() const { return QNT(); }
  // --- element access
  struct Ref {
    QLTensor *t; size_t o;
    operator ElemT() const { return t->d_[o]; }
    Ref &operator=(const ElemT &v) { t->d_[o] = v; return *this; }
    Ref &operator=(const Ref &r) { t->d_[o] = r.t->d_[r.o]; return *this; }
    Ref &operator+=(const ElemT &v) { t->d_[o] += v; return *this; }
    Ref &operator*=(const ElemT &v) { t->d_[o] *= v; return *this; }
  };
  size_t Off_(const CoorsT &c) const {
    if (c.size() != idx_.size()) vp_die("element access with " + std::to_string(c.size()) + " coordinates on a rank-" + std::to_string(idx_.size()) + " tensor");
    size_t o = 0; for (size_t i = 0; i < c.size(); i++) { if (c[i] >= idx_[i].dim()) vp_die("element coordinate out of range"); o = o * idx_[i].dim() + c[i]; }
    if (o >= d_.size()) vp_die("element access on a tensor without data");
    return o; }
  Ref operator()(const CoorsT &c) { return Ref{this, Off_(c)}; }
  ElemT operator()(const CoorsT &c) const { return d_[Off_(c)]; }
  template <typename... I> std::enable_if_t<(sizeof...(I) > 0) && (std::is_integral_v<I> && ...), Ref> operator()(I... i) { return Ref{this, Off_({size_t(i)...})}; }
  template <typename... I> std::enable_if_t<(sizeof...(I) > 0) && (std::is_integral_v<I> && ...), ElemT> operator()(I... i) const { return d_[Off_({size_t(i)...})]; }
  ElemT operator()() const { if (!has_ || !idx_.empty()) vp_die("scalar access on a rank-" + std::to_string(idx_.size()) + " tensor"); return d_[0]; }
  ElemT GetElem(const CoorsT &c) const { return d_[Off_(c)]; }
  void SetElem(const CoorsT &c, const ElemT &v) { d_[Off_(c)] = v; }
  // --- fill
  void Fill(const QNT &, const ElemT &v) { Need_(); std::fill(d_.begin(), d_.end(), v); }
  void Random(const QNT &) { Need_(); for (auto &x : d_) x = vp_random_elem<ElemT>(); }
  void Random(const QNT &q, unsigned) { Random(q); }
  // --- maps
  void Transpose(const std::vector<size_t> &p) {
    if (p.size() != idx_.size()) vp_die("Transpose with a permutation of the wrong length");
    std::vector<char> seen(p.size(), 0); bool id = true; for (size_t i = 0; i < p.size(); i++) { if (p[i] >= p.size() || seen[p[i]]) vp_die("Transpose: not a permutation"); seen[p[i]] = 1; id = id && p[i] == i; }
    if (id || !has_) return;
    size_t n = p.size(); std::vector<size_t> st(n, 1), sh(n), ns(n); for (size_t i = 0; i < n; i++) sh[i] = idx_[i].dim(); for (size_t i = n - 1; i-- > 0;) st[i] = st[i + 1] * sh[i + 1];
    IndexVec<QNT> ni; for (size_t i = 0; i < n; i++) { ni.push_back(idx_[p[i]]); ns[i] = sh[p[i]]; }
    std::vector<ElemT> nd(d_.size()); std::vector<size_t> c(n, 0); size_t off = 0;
    for (size_t k = 0; k < nd.size(); k++) { nd[k] = d_[off]; for (size_t i = n; i-- > 0;) { off += st[p[i]]; if (++c[i] < ns[i]) break; off -= st[p[i]] * ns[i]; c[i] = 0; } }
    idx_ = ni; d_ = std::move(nd);
  }
  void FuseIndex(size_t a, size_t b) { // moves b next to a, fuses; the fused index becomes the first one (as in TensorToolkit)
    size_t n = Rank(); std::vector<size_t> p = {a, b}; for (size_t i = 0; i < n; i++) if (i != a && i != b) p.push_back(i);
    Transpose(p); Index<QNT> f({QNSector<QNT>(QNT(), idx_[0].dim() * idx_[1].dim())}, idx_[0].GetDir()); IndexVec<QNT> ni = {f}; for (size_t i = 2; i < n; i++) ni.push_back(idx_[i]); idx_ = ni; }
  QLTensor &Dag() { for (auto &i : idx_) i.Inverse(); for (auto &x : d_) x = vp_conj(x); return *this; }
  QLTensor &ActFermionPOps() { return *this; }
  RealT Get2Norm() const { RealT s = 0; for (auto &x : d_) s += std::norm(x); return std::sqrt(s); }
  RealT GetQuasi2Norm() const { return Get2Norm(); }
  RealT Normalize() { RealT n = Get2Norm(); for (auto &x : d_) x /= n; return n; }
  RealT QuasiNormalize() { return Normalize(); }
  RealT GetMaxAbs() const { RealT m = 0; for (auto &x : d_) m = std::max(m, RealT(std::abs(x))); return m; }
  RealT GetMinAbs() const { RealT m = d_.empty() ? 0 : std::abs(d_[0]); for (auto &x : d_) m = std::min(m, RealT(std::abs(x))); return m; }
  ElemT GetFirstNonZeroElement() const { for (auto &x : d_) if (x != ElemT(0)) return x; return ElemT(0); }
  bool HasNan() const { for (auto &x : d_) if (std::isnan(std::real(x)) || std::isnan(std::imag(x))) return true; return false; }
  void ElementWiseSquare() { for (auto &x : d_) x = x * x; }
  void ElementWiseSquaredNorm() { for (auto &x : d_) x = ElemT(std::norm(x)); }
  void ElementWiseSqrt() { for (auto &x : d_) x = std::sqrt(x); }
  void ElementWiseInv(RealT tol = 0) { for (auto &x : d_) x = (std::abs(x) < tol || x == ElemT(0)) ? ElemT(0) : ElemT(1) / x; }
  void ElementWiseMultiply(const QLTensor &o) { Same_(o, "ElementWiseMultiply"); for (size_t i = 0; i < d_.size(); i++) d_[i] *= o.d_[i]; }
  void ElementWiseClipTo(RealT l) { for (auto &x : d_) { RealT m = std::abs(x); if (m > l) x *= l / m; } }
  void ElementWiseBoundTo(RealT l) { ElementWiseClipTo(l); }
  // --- arithmetic (shapes must agree; a default operand is an error, as in the library)
  bool operator==(const QLTensor &o) const { return has_ == o.has_ && idx_ == o.idx_ && d_ == o.d_; }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.d_) x = -x; return r; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  QLTensor &operator+=(const QLTensor &o) { Same_(o, "+="); for (size_t i = 0; i < d_.size(); i++) d_[i] += o.d_[i]; return *this; }
  QLTensor operator*(const ElemT &s) const { QLTensor r(*this); r *= s; return r; }
  QLTensor &operator*=(const ElemT &s) { for (auto &x : d_) x *= s; return *this; }
  // --- streams
  void StreamWrite(std::ostream &os) const {
    auto w = [&](uint64_t v) { os.write((const char *)&v, 8); };
    w(0x51544e31); w(has_); if (!has_) return;
    w(idx_.size()); for (auto &i : idx_) { w(i.dim()); w(uint64_t(int64_t(int(i.GetDir())))); }
    os.write((const char *)d_.data(), d_.size() * sizeof(ElemT)); }
  void StreamRead(std::istream &is) {
    Clear_();
    auto r = [&]() { uint64_t v = 0; is.read((char *)&v, 8); return v; };
    if (r() != 0x51544e31 || !is) { is.setstate(std::ios::failbit); return; }
    uint64_t h = r(); if (!is || h > 1) { is.setstate(std::ios::failbit); return; } if (!h) return;
    uint64_t n = r(); if (!is || n > 16) { is.setstate(std::ios::failbit); return; }
    IndexVec<QNT> v; uint64_t tot = 1; for (uint64_t i = 0; i < n; i++) { uint64_t d = r(); int64_t dir = (int64_t)r(); if (!is || d == 0 || d > 4096 || (tot *= d) > 100000000 || dir < -1 || dir > 1) { is.setstate(std::ios::failbit); return; } v.push_back(Index<QNT>({QNSector<QNT>(QNT(), d)}, TenIndexDirType(dir))); }
    idx_ = v; has_ = true; Reset_(); is.read((char *)d_.data(), d_.size() * sizeof(ElemT)); }
  void Show(const size_t indent_level = 0) const override { std::cout << IndentPrinter(indent_level) << "QLTensor rank " << Rank() << "\n"; }
  void ConciseShow(const size_t i = 0) const { Show(i); }
  // --- MPI
  void MPI_Send(int dest, int tag, const MPI_Comm &comm) const { auto b = Pack_(); unsigned long long n = b.size(); ::MPI_Send(&n, 1, MPI_UNSIGNED_LONG_LONG, dest, tag, comm); ::MPI_Send(b.data(), (int)n, MPI_CHAR, dest, tag, comm); }
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &comm) { MPI_Status st; unsigned long long n = 0; ::MPI_Recv(&n, 1, MPI_UNSIGNED_LONG_LONG, src, tag, comm, &st); std::vector<char> b(n); ::MPI_Recv(b.data(), (int)n, MPI_CHAR, st.MPI_SOURCE, tag, comm, &st); Unpack_(b); return st; }
  void MPI_Bcast(int root, const MPI_Comm &comm) { int r; MPI_Comm_rank(comm, &r); auto b = Pack_(); unsigned long long n = b.size(); ::MPI_Bcast(&n, 1, MPI_UNSIGNED_LONG_LONG, root, comm); b.resize(n); ::MPI_Bcast(b.data(), (int)n, MPI_CHAR, root, comm); if (r != root) Unpack_(b); }
  void PackShellForMPI(std::vector<char> &b) const {
    auto w = [&](uint64_t v) { b.insert(b.end(), (const char *)&v, (const char *)&v + 8); };
    w(has_); if (!has_) return; w(idx_.size()); for (auto &i : idx_) { w(i.dim()); w(uint64_t(int64_t(int(i.GetDir())))); } }
  void UnpackShellForMPI(const char *&cur, const char *end) {
    auto r = [&]() { if (end - cur < 8) throw std::runtime_error("truncated tensor shell"); uint64_t v; memcpy(&v, cur, 8); cur += 8; return v; };
    Clear_(); if (!r()) return; uint64_t n = r(); for (uint64_t i = 0; i < n; i++) { uint64_t d = r(); int64_t dir = (int64_t)r(); idx_.push_back(Index<QNT>({QNSector<QNT>(QNT(), d)}, TenIndexDirType(dir))); } has_ = true; Reset_(); }
  void RawDataMPIBcast(const MPI_Comm &comm, int root) { hp_numeric::MPI_Bcast(d_.data(), d_.size(), root, comm); }
  QLTensor &GetBlkSparDataTen() { return *this; }
  const QLTensor &GetBlkSparDataTen() const { return *this; }
  // --- stand-in internals used by the free functions
  const std::vector<ElemT> &data_() const { return d_; }
  std::vector<ElemT> &data_() { return d_; }
  std::vector<char> Pack_() const { std::ostringstream o; StreamWrite(o); std::string s = o.str(); return std::vector<char>(s.begin(), s.end()); }
  void Unpack_(const std::vector<char> &b) { std::istringstream i(std::string(b.begin(), b.end())); StreamRead(i); if (!i) throw std::runtime_error("tensor stand-in: corrupt tensor message"); }
 private:
  void Clear_() { idx_.clear(); d_.clear(); has_ = false; }
  void Reset_() { size_t n = 1; for (auto &i : idx_) n *= i.dim(); d_.assign(n, ElemT(0)); }
  void Need_() const { if (!has_) vp_die("fill of a default tensor"); }
  void Same_(const QLTensor &o, const char *w) const {
    if (!has_ || !o.has_) vp_die(std::string("operand of ") + w + " is a default tensor");
    if (GetShape() != o.GetShape()) vp_die(std::string("operands of ") + w + " have different shapes"); }
  IndexVec<QNT> idx_; std::vector<ElemT> d_; bool has_ = false;
};
template <typename T, typename Q> std::ostream &operator<<(std::ostream &os, const QLTensor<T, Q> &t) { t.StreamWrite(os); return os; }
template <typename T, typename Q> std::istream &operator>>(std::istream &is, QLTensor<T, Q> &t) { t.StreamRead(is); return is; }
template <typename T, typename Q> QLTensor<T, Q> operator*(const T &s, const QLTensor<T, Q> &t) { return t * s; }
template <typename Q> QLTensor<std::complex<double>, Q> operator*(const double s, const QLTensor<std::complex<double>, Q> &t) { return t * std::complex<double>(s); }
template <typename T, typename Q> QLTensor<T, Q> operator-(const QLTensor<T, Q> &a, const QLTensor<T, Q> &b) { return a + (-b); }
template <typename T, typename Q> QLTensor<T, Q> Dag(const QLTensor<T, Q> &t) { auto r = t; r.Dag(); return r; }
template <typename T, typename Q> Q Div(const QLTensor<T, Q> &) { return Q(); }
template <typename Q> QLTensor<std::complex<double>, Q> ToComplex(const QLTensor<double, Q> &t) { if (t.IsDefault()) return {}; QLTensor<std::complex<double>, Q> r(t.GetIndexes()); for (size_t i = 0; i < t.data_().size(); i++) r.data_()[i] = t.data_()[i]; return r; }
template <typename Q> QLTensor<std::complex<double>, Q> ToComplex(const QLTensor<std::complex<double>, Q> &t) { return t; }
template <typename T, typename Q> QLTensor<T, Q> ElementWiseSqrt(const QLTensor<T, Q> &t) { auto r = t; r.ElementWiseSqrt(); return r; }
template <typename T, typename Q> QLTensor<T, Q> ElementWiseMultiply(const QLTensor<T, Q> &a, const QLTensor<T, Q> &b) { auto r = a; r.ElementWiseMultiply(b); return r; }
template <typename T, typename Q> QLTensor<T, Q> ElementWiseInv(const QLTensor<T, Q> &t, double tol = 0) { auto r = t; r.ElementWiseInv(tol); return r; }
template <typename T, typename Q> T QuasiInnerProduct(const QLTensor<T, Q> &a, const QLTensor<T, Q> &b) { // <a|b>, conj on the first
  if (a.GetShape() != b.GetShape()) vp_die("QuasiInnerProduct of different shapes"); T s(0); for (size_t i = 0; i < a.data_().size(); i++) s += vp_conj(a.data_()[i]) * b.data_()[i]; return s; }
template <typename T, typename Q> QLTensor<T, Q> Eye(const Index<Q> &i) { QLTensor<T, Q> t({InverseIndex(i), i}); for (size_t k = 0; k < i.dim(); k++) t({k, k}) = T(1); return t; }
template <typename T, typename Q> void LinearCombine(const std::vector<T> &c, const std::vector<QLTensor<T, Q> *> &ts, const T &beta, QLTensor<T, Q> *r) {
  QLTensor<T, Q> s; bool have = false;
  if (beta != T(0) && !r->IsDefault()) { s = *r * beta; have = true; }
  for (size_t i = 0; i < ts.size(); i++) { if (!have) { s = *ts[i] * c[i]; have = true; } else s += *ts[i] * c[i]; }
  *r = std::move(s); }
template <typename T, typename Q> QLTensor<T, Q> DiagMatInv(const QLTensor<T, Q> &m, double tol) { // values not above tol are inverted to zero
  auto sh = m.GetShape(); if (sh.size() != 2 || sh[0] != sh[1]) vp_die("DiagMatInv of a non-square tensor"); QLTensor<T, Q> r({InverseIndex(m.GetIndex(1)), InverseIndex(m.GetIndex(0))}); for (size_t i = 0; i < sh[0]; i++) { T x = m.GetElem({i, i}); if (std::abs(x) > tol) r({i, i}) = T(1) / x; } return r; }
template <typename A, typename B> struct vp_prod { using type = A; };
template <> struct vp_prod<double, std::complex<double>> { using type = std::complex<double>; };
inline thread_local unsigned long vp_ops = 0; // contractions performed so far
inline double vp_poison = 0; // when set, contracting a tensor that contains this value fails the way the library reports an empty tensor
// general contraction: result axes = remaining axes of a (in order given by fa) then of b (fb)
template <typename TA, typename TB, typename TC, typename Q>
void vp_contract(const QLTensor<TA, Q> &a, const std::vector<size_t> &ca, const std::vector<size_t> &fa, const QLTensor<TB, Q> &b, const std::vector<size_t> &cb, const std::vector<size_t> &fb, QLTensor<TC, Q> &c) {
  vp_ops++; if (a.IsDefault() || b.IsDefault()) vp_die("Contract with a default tensor");
  if (vp_poison != 0) { for (auto &v : a.data_()) if (v == TA(vp_poison)) throw std::runtime_error("Empty tensor"); for (auto &v : b.data_()) if (v == TB(vp_poison)) throw std::runtime_error("Empty tensor"); }
  if (ca.size() != cb.size()) vp_die("Contract: axis lists of different length");
  size_t k = 1; for (size_t i = 0; i < ca.size(); i++) { if (ca[i] >= a.Rank() || cb[i] >= b.Rank()) vp_die("Contract: axis out of range"); if (a.GetIndex(ca[i]).dim() != b.GetIndex(cb[i]).dim()) vp_die("Contract: contracted axes have different dimensions (" + std::to_string(a.GetIndex(ca[i]).dim()) + " vs " + std::to_string(b.GetIndex(cb[i]).dim()) + ")"); k *= a.GetIndex(ca[i]).dim(); }
  QLTensor<TA, Q> x(a); QLTensor<TB, Q> y(b);
  std::vector<size_t> pa = fa, pb = cb; pa.insert(pa.end(), ca.begin(), ca.end()); pb.insert(pb.end(), fb.begin(), fb.end());
  x.Transpose(pa); y.Transpose(pb);
  IndexVec<Q> idx; size_t m = 1, n = 1; for (auto i : fa) { idx.push_back(a.GetIndex(i)); m *= a.GetIndex(i).dim(); } for (auto i : fb) { idx.push_back(b.GetIndex(i)); n *= b.GetIndex(i).dim(); }
  QLTensor<TC, Q> r(idx); auto &d = r.data_(); auto &xd = x.data_(); auto &yd = y.data_();
  for (size_t i = 0; i < m; i++) for (size_t q = 0; q < k; q++) { TC v = xd[i * k + q]; if (v == TC(0)) continue; for (size_t j = 0; j < n; j++) d[i * n + j] += v * yd[q * n + j]; }
  c = std::move(r); }
inline std::vector<size_t> vp_rest(size_t rank, const std::vector<size_t> &c) { std::vector<size_t> r; for (size_t i = 0; i < rank; i++) if (std::find(c.begin(), c.end(), i) == c.end()) r.push_back(i); return r; }
template <typename TA, typename TB, typename TC, typename Q> void Contract(const QLTensor<TA, Q> *a, const std::vector<size_t> &ca, const QLTensor<TB, Q> *b, const std::vector<size_t> &cb, QLTensor<TC, Q> *c) { vp_contract(*a, ca, vp_rest(a->Rank(), ca), *b, cb, vp_rest(b->Rank(), cb), *c); }
template <typename TA, typename TB, typename TC, typename Q> void Contract(const QLTensor<TA, Q> *a, const QLTensor<TB, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<TC, Q> *c) { Contract(a, ax.at(0), b, ax.at(1), c); }
// consecutive (cyclic) contraction
template <typename T, typename Q, bool = true, bool = true, typename TA, typename TB> void Contract(const QLTensor<TA, Q> &a, const QLTensor<TB, Q> &b, size_t as, size_t bs, size_t n, QLTensor<T, Q> &c) {
  std::vector<size_t> ca, fa, cb, fb; size_t ra = a.Rank(), rb = b.Rank();
  for (size_t i = 0; i < n; i++) { ca.push_back((as + i) % ra); cb.push_back((bs + i) % rb); }
  for (size_t i = n; i < ra; i++) fa.push_back((as + i) % ra);
  for (size_t i = n; i < rb; i++) fb.push_back((bs + i) % rb);
  vp_contract(a, ca, fa, b, cb, fb, c); }
// dense decompositions -------------------------------------------------------------------------------------------------
// one-sided Jacobi SVD of an m x n row-major matrix: a = u diag(s) vt, u m x k, vt k x n, k = min(m, n), s descending
template <typename T> void vp_svd(const std::vector<T> &a0, size_t m, size_t n, std::vector<T> &u, std::vector<double> &s, std::vector<T> &vt) {
  if (m < n) { // transpose
    std::vector<T> at(n * m), uu, vv; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) at[j * m + i] = vp_conj(a0[i * n + j]);
    vp_svd(at, n, m, uu, s, vv); // at = uu s vv ; a = at^H = vv^H s uu^H
    size_t k = m; u.assign(m * k, T(0)); vt.assign(k * n, T(0)); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < k; j++) u[i * k + j] = vp_conj(vv[j * m + i]); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < n; j++) vt[i * n + j] = vp_conj(uu[j * k + i]); return; }
  std::vector<T> a(a0), v(n * n, T(0)); for (size_t i = 0; i < n; i++) v[i * n + i] = T(1);
  for (int sweep = 0; sweep < 60; sweep++) { double off = 0;
    for (size_t p = 0; p + 1 < n; p++) for (size_t q = p + 1; q < n; q++) {
      double al = 0, be = 0; T g(0); for (size_t i = 0; i < m; i++) { al += std::norm(a[i * n + p]); be += std::norm(a[i * n + q]); g += vp_conj(a[i * n + p]) * a[i * n + q]; }
      double ag = std::abs(g); if (ag == 0 || ag <= 1e-16 * std::sqrt(al * be)) continue; off = std::max(off, ag / std::sqrt(al * be));
      T ph = g / T(ag); double z = (be - al) / (2 * ag), t = (z >= 0 ? 1 : -1) / (std::abs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), sn = c * t;
      auto rot = [&](std::vector<T> &x, size_t rows) { for (size_t i = 0; i < rows; i++) { T xp = x[i * n + p], xq = x[i * n + q] * vp_conj(ph); x[i * n + p] = T(c) * xp - T(sn) * xq; x[i * n + q] = T(sn) * xp + T(c) * xq; } };
      rot(a, m); rot(v, n); }
    if (off < 1e-15) break; }
  std::vector<double> nr(n); for (size_t j = 0; j < n; j++) { double x = 0; for (size_t i = 0; i < m; i++) x += std::norm(a[i * n + j]); nr[j] = std::sqrt(x); }
  std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return nr[x] > nr[y]; });
  u.assign(m * n, T(0)); vt.assign(n * n, T(0)); s.assign(n, 0); double smax = n ? nr[o[0]] : 0;
  for (size_t j = 0; j < n; j++) { s[j] = nr[o[j]]; for (size_t i = 0; i < n; i++) vt[j * n + i] = vp_conj(v[i * n + o[j]]);
    bool ok = s[j] > 1e-14 * smax && s[j] > 0; std::vector<T> col(m, T(0)); if (ok) for (size_t i = 0; i < m; i++) col[i] = a[i * n + o[j]] / T(s[j]);
    // complete / re-orthogonalise against earlier columns
    for (size_t base = 0; !ok && base < m; base++) { std::fill(col.begin(), col.end(), T(0)); col[base] = T(1); for (int rep = 0; rep < 2; rep++) for (size_t q = 0; q < j; q++) { T d(0); for (size_t i = 0; i < m; i++) d += vp_conj(u[i * n + q]) * col[i]; for (size_t i = 0; i < m; i++) col[i] -= d * u[i * n + q]; } double nn = 0; for (auto &x : col) nn += std::norm(x); nn = std::sqrt(nn); if (nn > 1e-2) { for (auto &x : col) x /= T(nn); ok = true; } }
    for (size_t i = 0; i < m; i++) u[i * n + j] = col[i]; }
}
template <typename Q> Index<Q> vp_bond(size_t d, TenIndexDirType dir) { return Index<Q>({QNSector<Q>(Q(), d)}, dir); }
template <typename T, typename Q, typename R> void SVD(const QLTensor<T, Q> *pt, const size_t ldims, const Q &, const R trunc_err, const size_t Dmin, const size_t Dmax, QLTensor<T, Q> *pu, QLTensor<typename RealTypeTrait<T>::type, Q> *ps, QLTensor<T, Q> *pvt, typename RealTypeTrait<T>::type *perr, size_t *pD) {
  if (pt->IsDefault() || ldims == 0 || ldims >= pt->Rank()) vp_die("SVD: bad arguments");
  size_t m = 1, n = 1; for (size_t i = 0; i < pt->Rank(); i++) (i < ldims ? m : n) *= pt->GetIndex(i).dim();
  std::vector<T> u, vt; std::vector<double> s; vp_svd(pt->data_(), m, n, u, s, vt);
  size_t k = s.size(); double tot = 0; for (double x : s) tot += x * x;
  // the library drops numerically zero singular values; keep at least one and respect Dmin/Dmax
  size_t nz = 0; for (double x : s) if (x > 0 && (s[0] == 0 || x > 1e-15 * s[0])) nz++; if (nz == 0) nz = 1;
  size_t D = std::min(nz, Dmax); if (D == 0) D = 1;
  auto err = [&](size_t d) { double e = 0; for (size_t i = d; i < k; i++) e += s[i] * s[i]; return tot > 0 ? e / tot : 0.0; };
  while (D > 1 && D > Dmin && err(D - 1) <= double(trunc_err)) D--;
  IndexVec<Q> iu, iv; for (size_t i = 0; i < ldims; i++) iu.push_back(pt->GetIndex(i)); iu.push_back(vp_bond<Q>(D, OUT)); iv.push_back(vp_bond<Q>(D, IN)); for (size_t i = ldims; i < pt->Rank(); i++) iv.push_back(pt->GetIndex(i));
  QLTensor<T, Q> U(iu), V(iv); QLTensor<typename RealTypeTrait<T>::type, Q> S({vp_bond<Q>(D, IN), vp_bond<Q>(D, OUT)});
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < D; j++) U.data_()[i * D + j] = u[i * k + j];
  for (size_t j = 0; j < D; j++) { S.data_()[j * D + j] = s[j]; for (size_t i = 0; i < n; i++) V.data_()[j * n + i] = vt[j * n + i]; }
  if (perr) *perr = err(D); if (pD) *pD = D; *pu = std::move(U); *ps = std::move(S); *pvt = std::move(V); }
template <typename T, typename Q> void vp_qr(const QLTensor<T, Q> *pt, size_t ldims, QLTensor<T, Q> *pq, QLTensor<T, Q> *pr) {
  if (pt->IsDefault() || ldims == 0 || ldims >= pt->Rank()) vp_die("QR: bad arguments");
  size_t m = 1, n = 1; for (size_t i = 0; i < pt->Rank(); i++) (i < ldims ? m : n) *= pt->GetIndex(i).dim();
  size_t k = std::min(m, n); std::vector<T> q(m * k, T(0)), r(k * n, T(0)), a(pt->data_()); 
  // modified Gram-Schmidt, twice, with completion by unit vectors for dependent columns
  double scale = 0; for (auto &x : a) scale = std::max(scale, std::abs(x));
  for (size_t j = 0; j < k; j++) { std::vector<T> col(m); double n0 = 0; for (size_t i = 0; i < m; i++) { col[i] = a[i * n + j]; n0 += std::norm(col[i]); }
    auto orth = [&] { for (int rep = 0; rep < 2; rep++) for (size_t p = 0; p < j; p++) { T d(0); for (size_t i = 0; i < m; i++) d += vp_conj(q[i * k + p]) * col[i]; for (size_t i = 0; i < m; i++) col[i] -= d * q[i * k + p]; } double x = 0; for (auto &c : col) x += std::norm(c); return std::sqrt(x); };
    double nn = orth(); bool ok = nn > 1e-13 * std::sqrt(n0) && nn > 0;
    for (size_t b = 0; !ok && b < m; b++) { std::fill(col.begin(), col.end(), T(0)); col[b] = T(1); nn = orth(); ok = nn > 1e-2; }
    for (size_t i = 0; i < m; i++) q[i * k + j] = col[i] / T(nn); }
  for (size_t p = 0; p < k; p++) for (size_t j = 0; j < n; j++) { T d(0); for (size_t i = 0; i < m; i++) d += vp_conj(q[i * k + p]) * a[i * n + j]; r[p * n + j] = d; }
  IndexVec<Q> iq, ir; for (size_t i = 0; i < ldims; i++) iq.push_back(pt->GetIndex(i)); iq.push_back(vp_bond<Q>(k, OUT)); ir.push_back(vp_bond<Q>(k, IN)); for (size_t i = ldims; i < pt->Rank(); i++) ir.push_back(pt->GetIndex(i));
  QLTensor<T, Q> A(iq), B(ir); A.data_() = q; B.data_() = r; *pq = std::move(A); *pr = std::move(B); }
template <typename T, typename Q> void QR(const QLTensor<T, Q> *pt, const size_t ldims, const Q &, QLTensor<T, Q> *pq, QLTensor<T, Q> *pr) { vp_qr(pt, ldims, pq, pr); }
template <typename T, typename Q> void LQ(const QLTensor<T, Q> *pt, const size_t rdims, const Q &, QLTensor<T, Q> *pl, QLTensor<T, Q> *pq) {
  // t = l q, via the QR of t^H
  size_t rank = pt->Rank(), ld = rank - rdims; QLTensor<T, Q> h(*pt); std::vector<size_t> p; for (size_t i = ld; i < rank; i++) p.push_back(i); for (size_t i = 0; i < ld; i++) p.push_back(i); h.Transpose(p); for (auto &x : h.data_()) x = vp_conj(x);
  QLTensor<T, Q> q, r; vp_qr(&h, rdims, &q, &r); // h = q r ; t = r^H q^H
  size_t k = q.GetIndex(rdims).dim(); std::vector<size_t> pr, pq2; for (size_t i = 1; i <= ld; i++) pr.push_back(i); pr.push_back(0); pq2.push_back(rdims); for (size_t i = 0; i < rdims; i++) pq2.push_back(i);
  r.Transpose(pr); q.Transpose(pq2); for (auto &x : r.data_()) x = vp_conj(x); for (auto &x : q.data_()) x = vp_conj(x);
  IndexVec<Q> il, iq; for (size_t i = 0; i < ld; i++) il.push_back(pt->GetIndex(i)); il.push_back(vp_bond<Q>(k, OUT)); iq.push_back(vp_bond<Q>(k, IN)); for (size_t i = ld; i < rank; i++) iq.push_back(pt->GetIndex(i));
  QLTensor<T, Q> L(il), QQ(iq); L.data_() = r.data_(); QQ.data_() = q.data_(); *pl = std::move(L); *pq = std::move(QQ); }
// combines two indices into one of the product dimension: entry 1 at (i, j, i * d2 + j)
template <typename T, typename Q> QLTensor<T, Q> IndexCombine(const Index<Q> &a, const Index<Q> &b, const TenIndexDirType dir) {
  QLTensor<T, Q> t({a, b, vp_bond<Q>(a.dim() * b.dim(), dir)}); for (size_t i = 0; i < a.dim(); i++) for (size_t j = 0; j < b.dim(); j++) t({i, j, i * b.dim() + j}) = T(1); return t; }
// direct sum along the given axes (other axes must agree)
template <typename T, typename Q> void Expand(const QLTensor<T, Q> *a, const QLTensor<T, Q> *b, const std::vector<size_t> &axes, QLTensor<T, Q> *c) {
  IndexVec<Q> idx; std::vector<char> ex(a->Rank(), 0); for (auto x : axes) ex.at(x) = 1;
  for (size_t i = 0; i < a->Rank(); i++) { if (!ex[i] && a->GetIndex(i).dim() != b->GetIndex(i).dim()) vp_die("Expand: axes differ"); idx.push_back(ex[i] ? vp_bond<Q>(a->GetIndex(i).dim() + b->GetIndex(i).dim(), a->GetIndex(i).GetDir()) : a->GetIndex(i)); }
  QLTensor<T, Q> r(idx);
  auto put = [&](const QLTensor<T, Q> &t, const QLTensor<T, Q> *shift) { auto sh = t.GetShape(); CoorsT k(sh.size(), 0); for (size_t o = 0; o < t.data_().size(); o++) { CoorsT q = k; for (size_t i = 0; i < q.size(); i++) if (shift && ex[i]) q[i] += shift->GetIndex(i).dim(); r(q) += t.data_()[o]; for (size_t i = sh.size(); i-- > 0;) { if (++k[i] < sh[i]) break; k[i] = 0; } } };
  put(*a, nullptr); put(*b, a); *c = std::move(r); }
} // namespace qlten
#endif
