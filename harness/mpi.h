/* A deterministic, adversarial stand-in for MPI: all ranks are coroutines of one process (see sim.c). */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Request; typedef int MPI_Datatype; typedef int MPI_Op;
typedef int MPI_Fint; typedef int MPI_Group; typedef int MPI_Info; typedef long MPI_Aint; typedef int MPI_Errhandler;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t len_; } MPI_Status;
#define MPI_STATUS_IGNORE   ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL 0
#define MPI_SUCCESS 0
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_INFO_NULL 0
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_ERRORS_RETURN 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
/* datatype = kind*16 + size */
#define MPI_BYTE               (0x011)
#define MPI_CHAR               (0x021)
#define MPI_SIGNED_CHAR        (0x031)
#define MPI_UNSIGNED_CHAR      (0x041)
#define MPI_SHORT              (0x052)
#define MPI_UNSIGNED_SHORT     (0x062)
#define MPI_INT                (0x074)
#define MPI_UNSIGNED           (0x084)
#define MPI_LONG               (0x098)
#define MPI_UNSIGNED_LONG      (0x0a8)
#define MPI_LONG_LONG          (0x0b8)
#define MPI_LONG_LONG_INT      (0x0b8)
#define MPI_UNSIGNED_LONG_LONG (0x0c8)
#define MPI_FLOAT              (0x0d4)
#define MPI_DOUBLE             (0x0e8)
#define MPI_DATATYPE_NULL 0
#define MPI_SUM 1
#define MPI_PROD 2
#define MPI_MIN 3
#define MPI_MAX 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_BXOR 9
#define MPI_OP_NULL 0
int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Finalize(void); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm,int); double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*); int MPI_Comm_free(MPI_Comm*); MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irsend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*); int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*); int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Request_free(MPI_Request*); int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*); int MPI_Type_size(MPI_Datatype,int*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Alltoallv(const void*,const int*,const int*,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm); int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Iallreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm,MPI_Request*); int MPI_Ibarrier(MPI_Comm,MPI_Request*);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Get_processor_name(char*,int*); int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler); int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#ifdef __cplusplus
}
#endif
#endif
