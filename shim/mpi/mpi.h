/* Stand-in MPI: the collectives PDC uses, over AF_UNIX sockets. */
#ifndef VMPI_H
#define VMPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Info; typedef struct vmpi_comm *MPI_Comm; typedef struct { int x; } MPI_Status;
extern struct vmpi_comm vmpi_world;
#define MPI_COMM_WORLD (&vmpi_world)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_SUCCESS 0
#define MPI_COMM_TYPE_SHARED 1
#define MPI_INFO_NULL 0
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_MAX_PROCESSOR_NAME 256
enum { MPI_CHAR = 1, MPI_BYTE, MPI_INT8_T, MPI_UINT8_T, MPI_INT, MPI_UNSIGNED, MPI_UINT32_T, MPI_INT32_T, MPI_FLOAT, MPI_DOUBLE, MPI_LONG, MPI_LONG_LONG, MPI_LONG_LONG_INT, MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG_LONG, MPI_UINT64_T, MPI_INT64_T };
enum { MPI_SUM = 1, MPI_MIN, MPI_MAX };
int MPI_Init(int *, char ***); int MPI_Initialized(int *); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
#endif
