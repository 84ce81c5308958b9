// One rank's private copy of the guard.
#include <csignal>
#include <atomic>
#include <iostream>
#include "mpi.h"
#ifndef HANDLE_MPI_ERROR
#define HANDLE_MPI_ERROR(x) do { (void)(x); } while (0)
#endif
// the collective is routed to the harness so that a signal can be delivered inside it
int vp_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c);
#define MPI_Allreduce vp_allreduce
#include "qlpeps/base/mpi_signal_guard.h"
#define VPC2(a, b) a##b
#define VPC(a, b) VPC2(a, b)
void VPC(vp_register_, VPR)() { qlpeps::MPISignalGuard::Register(); }
void VPC(vp_reset_, VPR)() { qlpeps::MPISignalGuard::Reset(); }
bool VPC(vp_local_, VPR)() { return qlpeps::MPISignalGuard::LocalStopRequested(); }
bool VPC(vp_query_, VPR)(MPI_Comm c) { return qlpeps::MPISignalGuard::EmergencyStopRequested(c); }
