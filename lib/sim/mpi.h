// Simulated MPI for exhaustive exploration: ranks are threads of one process that run one at a time under a token;
// control passes only when a rank blocks inside an MPI call. See simmpi.h for the exploration interface.
#ifndef VP_SIM_MPI_H
#define VP_SIM_MPI_H
#include <cstddef>
#include <cstdint>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <string>

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
namespace sim { struct Comm; }
typedef sim::Comm *MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
struct MPI_Status { int MPI_SOURCE = -1, MPI_TAG = -1, MPI_ERROR = 0; size_t bytes = 0; };
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_IN_PLACE ((void *)(intptr_t)-1)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL 0
#define MPI_INFO_NULL 0
#define MPI_DATATYPE_NULL 0
enum { SIMT_INT = 1, SIMT_DOUBLE, SIMT_ULL, SIMT_UL, SIMT_ZDOUBLE, SIMT_UINT, SIMT_CHAR, SIMT_FLOAT, SIMT_ZFLOAT, SIMT_LONG, SIMT_BYTE, SIMT_BOOL, SIMT_LL, SIMT_UCHAR, SIMT_SHORT, SIMT_USHORT, SIMT_LDOUBLE };
#define MPI_INT SIMT_INT
#define MPI_DOUBLE SIMT_DOUBLE
#define MPI_UNSIGNED_LONG_LONG SIMT_ULL
#define MPI_UNSIGNED_LONG SIMT_UL
#define MPI_CXX_DOUBLE_COMPLEX SIMT_ZDOUBLE
#define MPI_C_DOUBLE_COMPLEX SIMT_ZDOUBLE
#define MPI_DOUBLE_COMPLEX SIMT_ZDOUBLE
#define MPI_CXX_FLOAT_COMPLEX SIMT_ZFLOAT
#define MPI_C_FLOAT_COMPLEX SIMT_ZFLOAT
#define MPI_UNSIGNED SIMT_UINT
#define MPI_UINT32_T SIMT_UINT
#define MPI_UINT64_T SIMT_UL
#define MPI_INT32_T SIMT_INT
#define MPI_INT64_T SIMT_LONG
#define MPI_CHAR SIMT_CHAR
#define MPI_UNSIGNED_CHAR SIMT_UCHAR
#define MPI_SHORT SIMT_SHORT
#define MPI_UNSIGNED_SHORT SIMT_USHORT
#define MPI_FLOAT SIMT_FLOAT
#define MPI_LONG SIMT_LONG
#define MPI_LONG_LONG SIMT_LL
#define MPI_LONG_DOUBLE SIMT_LDOUBLE
#define MPI_BYTE SIMT_BYTE
#define MPI_CXX_BOOL SIMT_BOOL
#define MPI_C_BOOL SIMT_BOOL
enum { SIMO_SUM = 1, SIMO_MAX, SIMO_MIN, SIMO_BOR, SIMO_BAND, SIMO_LOR, SIMO_LAND, SIMO_PROD };
#define MPI_SUM SIMO_SUM
#define MPI_MAX SIMO_MAX
#define MPI_MIN SIMO_MIN
#define MPI_BOR SIMO_BOR
#define MPI_BAND SIMO_BAND
#define MPI_LOR SIMO_LOR
#define MPI_LAND SIMO_LAND
#define MPI_PROD SIMO_PROD

namespace sim { Comm *world(); Comm *self_comm(); }
#define MPI_COMM_WORLD (::sim::world())
#define MPI_COMM_SELF (::sim::self_comm())

inline int MPI_Init(int *, char ***);
inline int MPI_Init_thread(int *, char ***, int, int *);
inline int MPI_Initialized(int *);
inline int MPI_Finalized(int *);
inline int MPI_Finalize();
inline double MPI_Wtime();
inline int MPI_Comm_rank(MPI_Comm, int *);
inline int MPI_Comm_size(MPI_Comm, int *);
inline int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
inline int MPI_Comm_free(MPI_Comm *);
inline int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm *);
inline int MPI_Send(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm);
inline int MPI_Ssend(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm);
inline int MPI_Recv(void *, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status *);
inline int MPI_Isend(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm, MPI_Request *);
inline int MPI_Irecv(void *, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request *);
inline int MPI_Wait(MPI_Request *, MPI_Status *);
inline int MPI_Waitall(int, MPI_Request *, MPI_Status *);
inline int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status *);
inline int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
inline int MPI_Sendrecv(const void *, int, MPI_Datatype, int dest, int stag, void *, int, MPI_Datatype, int src, int rtag, MPI_Comm, MPI_Status *);
inline int MPI_Bcast(void *, int, MPI_Datatype, int root, MPI_Comm);
inline int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int root, MPI_Comm);
inline int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
inline int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
inline int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int root, MPI_Comm);
inline int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
inline int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
inline int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
inline int MPI_Barrier(MPI_Comm);
inline int MPI_Abort(MPI_Comm, int);
inline int MPI_Dims_create(int, int, int *);
inline int MPI_Error_string(int, char *, int *);
inline int MPI_Get_processor_name(char *, int *);
inline int MPI_Type_size(MPI_Datatype, int *);
#endif
