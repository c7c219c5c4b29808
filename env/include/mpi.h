// MPI interface of the verification environment; the model behind it is env/mpi_sim.cpp.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_; } MPI_Status;
typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
#define MPI_SUCCESS 0
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)1)
#define MPI_UNWEIGHTED ((int*)2)
#define MPI_INFO_NULL 0
// datatype handles: (size << 8) | kind
#define MPI_CHAR 0x101
#define MPI_SIGNED_CHAR 0x102
#define MPI_UNSIGNED_CHAR 0x103
#define MPI_BYTE 0x104
#define MPI_PACKED 0x105
#define MPI_INT8_T 0x102
#define MPI_UINT8_T 0x103
#define MPI_SHORT 0x202
#define MPI_UNSIGNED_SHORT 0x203
#define MPI_INT 0x402
#define MPI_UNSIGNED 0x403
#define MPI_INT32_T 0x402
#define MPI_UINT32_T 0x403
#define MPI_FLOAT 0x404
#define MPI_LONG 0x802
#define MPI_UNSIGNED_LONG 0x803
#define MPI_LONG_LONG_INT 0x812
#define MPI_LONG_LONG 0x812
#define MPI_UNSIGNED_LONG_LONG 0x813
#define MPI_INT64_T 0x802
#define MPI_UINT64_T 0x803
#define MPI_DOUBLE 0x804
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_SUM 3
#define MPI_OP_NULL 0
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_THREAD_SINGLE 0
#define MPI_MAX_PROCESSOR_NAME 64
int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalize(void);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
