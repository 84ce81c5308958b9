#ifndef VP_QL_MPI_FUN_H
#define VP_QL_MPI_FUN_H
#include "mpi.h"
#include <cassert>
#include <complex>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
#define HANDLE_MPI_ERROR(err) do { int vp_mpi_err_ = (err); if (vp_mpi_err_ != MPI_SUCCESS) { std::cerr << "MPI error " << vp_mpi_err_ << std::endl; MPI_Abort(MPI_COMM_WORLD, vp_mpi_err_); } } while (0)
namespace qlten {
template <typename T> struct RealTypeTrait { using type = T; };
template <typename T> struct RealTypeTrait<std::complex<T>> { using type = T; };
}
namespace qlten { namespace hp_numeric {
const int kMPIMasterRank = 0;
template <typename T> MPI_Datatype GetMPIDataType();
template <> inline MPI_Datatype GetMPIDataType<double>() { return MPI_DOUBLE; }
template <> inline MPI_Datatype GetMPIDataType<float>() { return MPI_FLOAT; }
template <> inline MPI_Datatype GetMPIDataType<int>() { return MPI_INT; }
template <> inline MPI_Datatype GetMPIDataType<char>() { return MPI_CHAR; }
template <> inline MPI_Datatype GetMPIDataType<size_t>() { return MPI_UNSIGNED_LONG; }
template <> inline MPI_Datatype GetMPIDataType<std::complex<double>>() { return MPI_CXX_DOUBLE_COMPLEX; }
template <typename T> void MPI_Bcast(T *p, const size_t n, const int root, const MPI_Comm &comm) { HANDLE_MPI_ERROR(::MPI_Bcast(p, (int)n, GetMPIDataType<T>(), root, comm)); }
template <typename T> void VectorCopy(const T *src, const size_t n, T *dst) { for (size_t i = 0; i < n; i++) dst[i] = src[i]; }
inline unsigned GetTensorManipulationThreads() { return 1; }
inline void SetTensorManipulationThreads(unsigned) {}
inline void GatherAndPrintErrorMessages(const std::string &local, const MPI_Comm &comm) { // collective, as in the library
  int r, s; MPI_Comm_rank(comm, &r); MPI_Comm_size(comm, &s);
  int len = (int)local.size(); std::vector<int> lens(s), disp(s);
  ::MPI_Gather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, kMPIMasterRank, comm);
  std::vector<char> all; if (r == kMPIMasterRank) { int t = 0; for (int i = 0; i < s; i++) { disp[i] = t; t += lens[i]; } all.resize(t); }
  ::MPI_Gatherv(local.data(), len, MPI_CHAR, all.data(), lens.data(), disp.data(), MPI_CHAR, kMPIMasterRank, comm);
  if (r == kMPIMasterRank) std::cerr << std::string(all.begin(), all.end()); }
} }
#endif
