// Simulated MPI used by the checks: every rank is a thread of one process,
// driven by a deterministic seeded scheduler.  Own implementation; only the
// names and meanings of the MPI standard are used.
#ifndef FM_MPI_H
#define FM_MPI_H
#include <stddef.h>
#include <stdint.h>

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

#ifdef __cplusplus
extern "C" {
#endif

typedef struct fm_comm_s *MPI_Comm;
typedef struct fm_group_s *MPI_Group;
typedef struct fm_req_s *MPI_Request;
typedef struct fm_dtype_s *MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
typedef intptr_t MPI_Aint;
typedef int64_t MPI_Count;
typedef int MPI_Errhandler;
typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int fm_cancelled; size_t fm_bytes; } MPI_Status;

MPI_Comm fm_comm_world(void);
MPI_Comm fm_comm_self(void);
MPI_Group fm_group_empty(void);
MPI_Datatype fm_type(int);

#define MPI_COMM_WORLD (fm_comm_world())
#define MPI_COMM_SELF (fm_comm_self())
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_GROUP_EMPTY (fm_group_empty())
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_INFO_NULL 0

#define MPI_SUCCESS 0
#define MPI_ERR_COMM 5
#define MPI_ERR_ARG 12
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_TAG_UB 1
#define MPI_WTIME_IS_GLOBAL 2
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 1

#define MPI_BYTE (fm_type(0))
#define MPI_CHAR (fm_type(1))
#define MPI_SIGNED_CHAR (fm_type(2))
#define MPI_UNSIGNED_CHAR (fm_type(3))
#define MPI_SHORT (fm_type(4))
#define MPI_UNSIGNED_SHORT (fm_type(5))
#define MPI_INT (fm_type(6))
#define MPI_UNSIGNED (fm_type(7))
#define MPI_LONG (fm_type(8))
#define MPI_UNSIGNED_LONG (fm_type(9))
#define MPI_LONG_LONG (fm_type(10))
#define MPI_LONG_LONG_INT (fm_type(10))
#define MPI_UNSIGNED_LONG_LONG (fm_type(11))
#define MPI_FLOAT (fm_type(12))
#define MPI_DOUBLE (fm_type(13))
#define MPI_LONG_DOUBLE (fm_type(14))
#define MPI_INT8_T (fm_type(15))
#define MPI_INT16_T (fm_type(16))
#define MPI_INT32_T (fm_type(17))
#define MPI_INT64_T (fm_type(18))
#define MPI_UINT8_T (fm_type(19))
#define MPI_UINT16_T (fm_type(20))
#define MPI_UINT32_T (fm_type(21))
#define MPI_UINT64_T (fm_type(22))
#define MPI_C_BOOL (fm_type(23))
#define MPI_CXX_BOOL (fm_type(23))
#define MPI_DOUBLE_INT (fm_type(24))
#define MPI_FLOAT_INT (fm_type(25))
#define MPI_2INT (fm_type(26))
#define MPI_C_FLOAT_COMPLEX (fm_type(27))
#define MPI_C_COMPLEX (fm_type(27))
#define MPI_C_DOUBLE_COMPLEX (fm_type(28))
#define MPI_AINT (fm_type(29))
#define MPI_PACKED (fm_type(30))

#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10
#define MPI_MINLOC 11
#define MPI_MAXLOC 12
#define MPI_OP_NULL 0

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalize(void);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Query_thread(int*);
int MPI_Is_thread_main(int*);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Get_version(int*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Error_class(int, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Errhandler_free(MPI_Errhandler*);

int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_disconnect(MPI_Comm*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_test_inter(MPI_Comm, int*);
int MPI_Comm_set_name(MPI_Comm, const char*);
int MPI_Comm_get_name(MPI_Comm, char*, int*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
MPI_Comm MPI_Comm_f2c(MPI_Fint);

int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_free(MPI_Group*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Group_compare(MPI_Group, MPI_Group, int*);

int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Get_address(const void*, MPI_Aint*);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ssend_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv_init(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Start(MPI_Request*);
int MPI_Startall(int, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Test_cancelled(const MPI_Status*, int*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_local(const void*, void*, int, MPI_Datatype, MPI_Op);
int MPI_Reduce_scatter(const void*, void*, const int*, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoallw(const void*, const int*, const int*, const MPI_Datatype*, void*, const int*, const int*, const MPI_Datatype*, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ialltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ialltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);

#ifdef __cplusplus
}
#endif
#endif
