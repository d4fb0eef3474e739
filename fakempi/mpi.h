// Message passing stand-in: every rank is a managed thread of one process, so
// that the explorer (harness/mcrt.hpp) owns every scheduling and delivery choice.
#ifndef MC_FAKE_MPI_H
#define MC_FAKE_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mc_comm* MPI_Comm;
typedef struct mc_type* MPI_Datatype;
typedef struct mc_request* MPI_Request;
typedef struct mc_info* MPI_Info;
typedef struct mc_group* MPI_Group;
typedef struct mc_op* MPI_Op;
typedef struct mc_errh* MPI_Errhandler;
typedef long long MPI_Offset;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; long long mc_bytes; } MPI_Status;

extern struct mc_comm mc_comm_world, mc_comm_self;
#define MPI_COMM_WORLD (&mc_comm_world)
#define MPI_COMM_SELF (&mc_comm_self)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)1)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)2)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_ORDER_C 1
#define MPI_ORDER_FORTRAN 2

#define MC_T(n) extern struct mc_type mc_type_##n;
MC_T(float) MC_T(double) MC_T(int) MC_T(long) MC_T(longlong) MC_T(char) MC_T(byte) MC_T(unsigned) MC_T(ulong) MC_T(ulonglong) MC_T(short) MC_T(bool) MC_T(uchar)
#define MPI_FLOAT (&mc_type_float)
#define MPI_DOUBLE (&mc_type_double)
#define MPI_INT (&mc_type_int)
#define MPI_LONG (&mc_type_long)
#define MPI_LONG_LONG (&mc_type_longlong)
#define MPI_LONG_LONG_INT (&mc_type_longlong)
#define MPI_CHAR (&mc_type_char)
#define MPI_SIGNED_CHAR (&mc_type_char)
#define MPI_UNSIGNED_CHAR (&mc_type_uchar)
#define MPI_BYTE (&mc_type_byte)
#define MPI_UNSIGNED (&mc_type_unsigned)
#define MPI_UNSIGNED_LONG (&mc_type_ulong)
#define MPI_UNSIGNED_LONG_LONG (&mc_type_ulonglong)
#define MPI_UINT64_T (&mc_type_ulonglong)
#define MPI_INT64_T (&mc_type_longlong)
#define MPI_INT32_T (&mc_type_int)
#define MPI_UINT32_T (&mc_type_unsigned)
#define MPI_SHORT (&mc_type_short)
#define MPI_CXX_BOOL (&mc_type_bool)
#define MPI_C_BOOL (&mc_type_bool)

extern struct mc_op mc_op_max, mc_op_min, mc_op_sum, mc_op_prod, mc_op_land, mc_op_lor, mc_op_band, mc_op_bor;
#define MPI_MAX (&mc_op_max)
#define MPI_MIN (&mc_op_min)
#define MPI_SUM (&mc_op_sum)
#define MPI_PROD (&mc_op_prod)
#define MPI_LAND (&mc_op_land)
#define MPI_LOR (&mc_op_lor)
#define MPI_BAND (&mc_op_band)
#define MPI_BOR (&mc_op_bor)

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Query_thread(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Get_library_version(char*, int*);
int MPI_Get_version(int*, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_indexed_block(int, int, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Info_create(MPI_Info*);
int MPI_Info_set(MPI_Info, const char*, const char*);
int MPI_Info_free(MPI_Info*);
#ifdef __cplusplus
}
#endif
#endif
