#ifndef VP_QL_QLMPS_UTIL_H
#define VP_QL_QLMPS_UTIL_H
#include "qlten/qlten.h"
#include <sys/stat.h>
namespace qlmps {
using namespace qlten;
inline bool IsPathExist(const std::string &p) { struct stat b; return stat(p.c_str(), &b) == 0; }
inline void CreatPath(const std::string &p) { mkdir(p.c_str(), 0755); }
template <typename T> inline double Real(T x) { return std::real(x); }
enum MPSTenCanoType { NONE, LEFT, RIGHT };
const int kUncentralizedCenterIdx = -1;
namespace mock_qlten {
template <typename T, typename Q> void SVD(const QLTensor<T, Q> *pt, const size_t ldims, const Q &q, QLTensor<T, Q> *u, QLTensor<typename RealTypeTrait<T>::type, Q> *s, QLTensor<T, Q> *vt) {
  size_t m = 1, n = 1; for (size_t i = 0; i < pt->Rank(); i++) (i < ldims ? m : n) *= pt->GetIndex(i).dim();
  qlten::SVD(pt, ldims, q, 0.0, std::min(m, n), std::min(m, n), u, s, vt, (typename RealTypeTrait<T>::type *)nullptr, (size_t *)nullptr); }
}
// owning vector of pointers, as in UltraDMRG
template <typename E> class DuoVector {
 public:
  DuoVector() = default;
  DuoVector(size_t n) : v_(n, nullptr) {}
  DuoVector(const DuoVector &o) : v_(o.v_.size(), nullptr) { for (size_t i = 0; i < v_.size(); i++) if (o.v_[i]) v_[i] = new E(*o.v_[i]); }
  DuoVector(DuoVector &&o) noexcept : v_(std::move(o.v_)) { o.v_.clear(); }
  DuoVector &operator=(const DuoVector &o) { if (this != &o) { clear_(); v_.assign(o.v_.size(), nullptr); for (size_t i = 0; i < v_.size(); i++) if (o.v_[i]) v_[i] = new E(*o.v_[i]); } return *this; }
  DuoVector &operator=(DuoVector &&o) noexcept { if (this != &o) { clear_(); v_ = std::move(o.v_); o.v_.clear(); } return *this; }
  virtual ~DuoVector() { clear_(); }
  E &operator[](size_t i) { return *v_.at(i); }
  const E &operator[](size_t i) const { return *v_.at(i); }
  E *&operator()(size_t i) { return v_.at(i); }
  const E *operator()(size_t i) const { return v_.at(i); }
  void alloc(size_t i) { dealloc(i); v_[i] = new E; }
  void dealloc(size_t i) { delete v_.at(i); v_[i] = nullptr; }
  size_t size() const { return v_.size(); }
  bool empty() const { for (auto p : v_) if (p) return false; return true; }
  E &front() { return *v_.front(); } const E &front() const { return *v_.front(); }
  E &back() { return *v_.back(); } const E &back() const { return *v_.back(); }
  const std::vector<const E *> cdata() const { return std::vector<const E *>(v_.begin(), v_.end()); }
 protected:
  void clear_() { for (auto p : v_) delete p; v_.clear(); }
  std::vector<E *> v_;
};
template <typename T> class TenVec : public DuoVector<T> {
 public:
  using DuoVector<T>::DuoVector;
  TenVec(size_t n) : DuoVector<T>(n) {}
  void DumpTen(size_t i, const std::string &f) const { std::ofstream o(f, std::ios::binary); o << (*this)[i]; }
  void LoadTen(size_t i, const std::string &f) { this->alloc(i); std::ifstream s(f, std::ios::binary); s >> (*this)[i]; }
};
}
#endif
