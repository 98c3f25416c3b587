// Single-process stand-in for MPI (what AMPE's sources call directly).
#ifndef MINI_MPI_H
#define MINI_MPI_H
#include <cstring>
#include <cstddef>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
typedef int MPI_Group; typedef long MPI_Aint; typedef int MPI_Info; typedef long long MPI_Fint; typedef int MPI_User_function; typedef int MPI_Errhandler;
#define MPI_COMM_WORLD 0
#define MPI_COMM_NULL -1
#define MPI_SUCCESS 0
#define MPI_INT 4
#define MPI_DOUBLE 8
#define MPI_CHAR 1
#define MPI_BYTE 1
#define MPI_FLOAT 5
#define MPI_LONG 9
#define MPI_SUM 100
#define MPI_MAX 101
#define MPI_MIN 102
#define MPI_MINLOC 103
#define MPI_MAXLOC 104
#define MPI_LOR 105
#define MPI_LAND 106
inline size_t mini_mpi_size(MPI_Datatype t) { return t == 5 ? 4 : t == 9 ? 8 : t; }
inline void mini_mpi_copy(void* b, const void* a, size_t n) { if (n) memcpy(b, a, n); }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
inline int MPI_Comm_size(MPI_Comm, int* r) { *r = 1; return 0; }
inline int MPI_Barrier(MPI_Comm) { return 0; }
inline int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
inline int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { mini_mpi_copy(b, a, n * mini_mpi_size(t)); return 0; }
inline int MPI_Reduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, int, MPI_Comm) { mini_mpi_copy(b, a, n * mini_mpi_size(t)); return 0; }
inline int MPI_Allgather(const void* a, int n, MPI_Datatype t, void* b, int, MPI_Datatype, MPI_Comm) { mini_mpi_copy(b, a, n * mini_mpi_size(t)); return 0; }
inline int MPI_Allgatherv(const void* a, int n, MPI_Datatype t, void* b, const int*, const int* disp, MPI_Datatype, MPI_Comm)
{ mini_mpi_copy((char*)b + disp[0] * mini_mpi_size(t), a, n * mini_mpi_size(t)); return 0; }
inline int MPI_Gather(const void* a, int n, MPI_Datatype t, void* b, int, MPI_Datatype, int, MPI_Comm) { mini_mpi_copy(b, a, n * mini_mpi_size(t)); return 0; }
inline int MPI_Gatherv(const void* a, int n, MPI_Datatype t, void* b, const int*, const int* disp, MPI_Datatype, int, MPI_Comm)
{ mini_mpi_copy((char*)b + disp[0] * mini_mpi_size(t), a, n * mini_mpi_size(t)); return 0; }
inline double MPI_Wtime() { return 0.; }
inline int MPI_Abort(MPI_Comm, int c) { __builtin_abort(); return c; }
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Finalize() { return 0; }
#endif
