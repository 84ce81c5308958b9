// ScaLAPACK/BLACS stand-in over the simulated MPI: every routine gathers the distributed matrix on all ranks of its
// context, works on the full matrix and keeps the local part. Block-cyclic layout exactly as in ScaLAPACK's documentation.
#ifndef VP_SCALAPACK_SIM_H
#define VP_SCALAPACK_SIM_H
#include "simmpi.h"
#include "qlten/framework/hp_numeric/backend_selector.h"
namespace scal {
struct Ctx { MPI_Comm comm = nullptr; int pr = 0, pc = 0, rank = -1, size = 0; bool row_major = true; bool open = false; };
// per rank (thread): tables
inline thread_local std::vector<MPI_Comm> handles; inline thread_local std::vector<Ctx> ctxs; inline thread_local int exits = 0;
inline void reset() { handles.clear(); ctxs.clear(); exits = 0; }
inline int open_contexts() { int n = 0; for (auto &c : ctxs) n += c.open; return n; }
inline Ctx &ctx(int i) { VP_CHECK(i >= 1000 && i < 1000 + (int)ctxs.size() && ctxs[i - 1000].open, "blacs", "BLACS context ", i, " used but not open"); return ctxs[i - 1000]; }
inline int prow(const Ctx &c, int r) { return c.row_major ? r / c.pc : r % c.pr; }
inline int pcol(const Ctx &c, int r) { return c.row_major ? r % c.pc : r / c.pr; }
inline int numroc(int n, int nb, int p, int src, int np) { int d = (np + p - src) % np, nblk = n / nb, r = nblk / np * nb, ex = nblk % np; if (d < ex) r += nb; else if (d == ex) r += n % nb; return r; }
inline int l2g(int l, int nb, int p, int src, int np) { return np * nb * ((l - 1) / nb) + (l - 1) % nb + ((np + p - src) % np) * nb + 1; }
// desc: type ctxt m n mb nb rsrc csrc lld
template <class T> inline std::vector<T> gather(const T *a, const int *d) { // full matrix, column major, on every rank
  Ctx &c = ctx(d[1]);
  int m = d[2], n = d[3], lr = numroc(m, d[4], prow(c, c.rank), d[6], c.pr), lc = numroc(n, d[5], pcol(c, c.rank), d[7], c.pc);
  std::vector<T> loc; for (int j = 0; j < lc; j++) for (int i = 0; i < lr; i++) loc.push_back(a[i + (size_t)j * d[8]]);
  int mine = (int)(loc.size() * sizeof(T) / sizeof(double)); std::vector<int> cnt(c.size), dis(c.size);
  ::MPI_Allgather(&mine, 1, MPI_INT, cnt.data(), 1, MPI_INT, c.comm);
  int tot = 0; for (int r = 0; r < c.size; r++) { dis[r] = tot; tot += cnt[r]; }
  std::vector<double> all(std::max(1, tot));
  ::MPI_Allgatherv(loc.data(), mine, MPI_DOUBLE, all.data(), cnt.data(), dis.data(), MPI_DOUBLE, c.comm);
  std::vector<T> full((size_t)m * n);
  for (int r = 0; r < c.size; r++) {
    int R = numroc(m, d[4], prow(c, r), d[6], c.pr), C = numroc(n, d[5], pcol(c, r), d[7], c.pc);
    VP_CHECK(cnt[r] == (int)(R * C * sizeof(T) / sizeof(double)), "layout", "rank ", r, " passes a descriptor that disagrees with its layout");
    const T *p = (const T *)(all.data() + dis[r]);
    for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) full[(l2g(i + 1, d[4], prow(c, r), d[6], c.pr) - 1) + (size_t)(l2g(j + 1, d[5], pcol(c, r), d[7], c.pc) - 1) * m] = p[i + (size_t)j * R];
  }
  return full;
}
template <class T> inline void scatter(const std::vector<T> &full, T *a, const int *d) {
  Ctx &c = ctx(d[1]); int m = d[2], n = d[3], R = numroc(m, d[4], prow(c, c.rank), d[6], c.pr), C = numroc(n, d[5], pcol(c, c.rank), d[7], c.pc);
  for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) a[i + (size_t)j * d[8]] = full[(l2g(i + 1, d[4], prow(c, c.rank), d[6], c.pr) - 1) + (size_t)(l2g(j + 1, d[5], pcol(c, c.rank), d[7], c.pc) - 1) * m];
}
template <class T> inline void gemr2d(const int *m, const int *n, const T *A, const int *ia, const int *ja, const int *dA, T *B, const int *ib, const int *jb, const int *dB, const int *ictxt) {
  VP_CHECK(*ia == 1 && *ja == 1 && *ib == 1 && *jb == 1 && *m == dA[2] && *n == dA[3] && *m == dB[2] && *n == dB[3], "gemr2d", "unexpected submatrix"); ctx(*ictxt);
  auto f = gather<T>(A, dA); scatter<T>(f, B, dB);
}
template <class T> inline void heev(const char *jobz, const char *uplo, const int *n, T *A, const int *ia, const int *ja, const int *dA, double *W, T *Z, const int *iz, const int *jz, const int *dZ, int *info) {
  VP_CHECK(*jobz == 'V' && *ia == 1 && *ja == 1 && *iz == 1 && *jz == 1 && *n == dA[2] && *n == dA[3] && *n == dZ[2], "heev", "unexpected eigensolve arguments");
  if (*n > vp_heev_limit()) { *info = 1; return; }
  auto f = gather<T>(A, dA); // only the stored triangle is referenced
  int N = *n; for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) if (*uplo == 'U' ? i > j : i < j) { if constexpr (std::is_same_v<T, double>) f[i + (size_t)j * N] = f[j + (size_t)i * N]; else f[i + (size_t)j * N] = std::conj(f[j + (size_t)i * N]); }
  std::vector<double> w(N);
  if constexpr (std::is_same_v<T, double>) *info = LAPACKE_dsyev(LAPACK_COL_MAJOR, 'V', 'U', N, f.data(), N, w.data()); else *info = LAPACKE_zheev(LAPACK_COL_MAJOR, 'V', 'U', N, f.data(), N, w.data());
  for (int i = 0; i < N; i++) W[i] = w[i];
  scatter<T>(f, Z, dZ);
  std::vector<T> junk((size_t)N * N, T(1e300)); scatter<T>(junk, A, dA); // A is destroyed
}
} // namespace scal
extern "C" {
inline void Cblacs_pinfo(int *a, int *b) { MPI_Comm_rank(MPI_COMM_WORLD, a); MPI_Comm_size(MPI_COMM_WORLD, b); }
inline void Cblacs_get(int, int, int *v) { *v = 0; }
inline int Csys2blacs_handle(MPI_Comm comm) { scal::handles.push_back(comm); return (int)scal::handles.size() - 1; }
inline void Cblacs_gridinit(int *c, const char *order, int pr, int pc) {
  VP_CHECK(*c >= 0 && *c < (int)scal::handles.size(), "blacs", "grid on an unknown system handle ", *c);
  scal::Ctx x; x.comm = scal::handles[*c]; MPI_Comm_rank(x.comm, &x.rank); MPI_Comm_size(x.comm, &x.size);
  x.pr = pr; x.pc = pc; x.row_major = !(*order == 'C' || *order == 'c'); x.open = true;
  VP_CHECK(pr * pc == x.size, "blacs-grid", "grid ", pr, "x", pc, " does not cover ", x.size, " ranks");
  ::MPI_Barrier(x.comm);
  scal::ctxs.push_back(x); *c = 1000 + (int)scal::ctxs.size() - 1;
}
inline void Cblacs_gridinfo(int c, int *pr, int *pc, int *r, int *k) { auto &x = scal::ctx(c); *pr = x.pr; *pc = x.pc; *r = scal::prow(x, x.rank); *k = scal::pcol(x, x.rank); }
inline void Cblacs_gridexit(int c) { scal::ctx(c).open = false; scal::exits++; }
inline int numroc_(const int *n, const int *nb, const int *p, const int *s, const int *np) { return scal::numroc(*n, *nb, *p, *s, *np); }
inline int indxl2g_(const int *l, const int *nb, const int *p, const int *s, const int *np) { return scal::l2g(*l, *nb, *p, *s, *np); }
inline void descinit_(int *d, const int *m, const int *n, const int *mb, const int *nb, const int *rs, const int *cs, const int *c, const int *lld, int *info) {
  auto &x = scal::ctx(*c); *info = 0;
  if (*m < 0) *info = -2; else if (*n < 0) *info = -3; else if (*mb < 1) *info = -4; else if (*nb < 1) *info = -5; else if (*lld < std::max(1, scal::numroc(*m, *mb, scal::prow(x, x.rank), *rs, x.pr))) *info = -9;
  d[0] = 1; d[1] = *c; d[2] = *m; d[3] = *n; d[4] = *mb; d[5] = *nb; d[6] = *rs; d[7] = *cs; d[8] = *lld;
}
inline void pdgemr2d_(const int *m, const int *n, const double *A, const int *ia, const int *ja, const int *dA, double *B, const int *ib, const int *jb, const int *dB, const int *c) { scal::gemr2d<double>(m, n, A, ia, ja, dA, B, ib, jb, dB, c); }
inline void pzgemr2d_(const int *m, const int *n, const void *A, const int *ia, const int *ja, const int *dA, void *B, const int *ib, const int *jb, const int *dB, const int *c) { scal::gemr2d<std::complex<double>>(m, n, (const std::complex<double> *)A, ia, ja, dA, (std::complex<double> *)B, ib, jb, dB, c); }
inline void pdsyev_(const char *j, const char *u, const int *n, double *A, const int *ia, const int *ja, const int *dA, double *W, double *Z, const int *iz, const int *jz, const int *dZ, double *work, const int *lwork, int *info) {
  *info = 0; if (*lwork == -1) { work[0] = 5 * *n + 3; return; } if (*lwork < 5 * *n + 3) { *info = -14; return; }
  for (int i = 0; i < *lwork; i++) work[i] = 1; // the whole workspace is written
  scal::heev<double>(j, u, n, A, ia, ja, dA, W, Z, iz, jz, dZ, info);
}
inline void pzheev_(const char *j, const char *u, const int *n, void *A, const int *ia, const int *ja, const int *dA, double *W, void *Z, const int *iz, const int *jz, const int *dZ, void *work, const int *lwork, double *rwork, const int *lrwork, int *info) {
  using C = std::complex<double>; *info = 0;
  if (*lwork == -1 || *lrwork == -1) { ((C *)work)[0] = 3 * *n + 5; rwork[0] = 4 * *n; return; }
  if (*lwork < 3 * *n + 5) { *info = -14; return; } if (*lrwork < 4 * *n) { *info = -16; return; }
  for (int i = 0; i < *lwork; i++) ((C *)work)[i] = 1; for (int i = 0; i < *lrwork; i++) rwork[i] = 1;
  scal::heev<C>(j, u, n, (C *)A, ia, ja, dA, W, (C *)Z, iz, jz, dZ, info);
}
}
#endif
