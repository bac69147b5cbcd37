// Simulated MPI: ranks are fibers of one process, delivery order is chosen by the seeded scheduler.
#ifndef VERIF_SIM_MPI_H
#define VERIF_SIM_MPI_H
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long bytes_; } MPI_Status;
#define MPI_COMM_WORLD 0
#define MPI_COMM_NULL (-1)
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
enum { MPI_CHAR = 1, MPI_BYTE, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG,
  MPI_FLOAT, MPI_DOUBLE, MPI_DOUBLE_COMPLEX, MPI_CXX_BOOL, MPI_CXX_DOUBLE_COMPLEX, MPI_UINT64_T, MPI_INT64_T };
#define MPI_C_DOUBLE_COMPLEX MPI_DOUBLE_COMPLEX
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Send(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int dest, int tag, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status *);
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int src, int tag, MPI_Comm, int *flag, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Bcast(void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Abort(MPI_Comm, int);
#endif
