/* simmpi: in-process MPI for deterministic simulation (subset of MPI-3, C API). */
#ifndef SIMMPI_MPI_H
#define SIMMPI_MPI_H
#include <stddef.h>
#include <stdint.h>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define SIMMPI 1
#ifdef __cplusplus
extern "C" {
#endif
typedef struct simmpi_comm_s* MPI_Comm;
typedef struct simmpi_type_s* MPI_Datatype;
typedef struct simmpi_op_s* MPI_Op;
typedef struct simmpi_req_s* MPI_Request;
typedef struct simmpi_info_s* MPI_Info;
typedef struct simmpi_errh_s* MPI_Errhandler;
typedef struct simmpi_group_s* MPI_Group;
typedef struct simmpi_file_s* MPI_File;
typedef intptr_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int _cancelled; size_t _count; } MPI_Status;
typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
typedef void(MPI_Comm_errhandler_function)(MPI_Comm*, int*, ...);
typedef MPI_Comm_errhandler_function MPI_Handler_function;
typedef MPI_Comm_errhandler_function MPI_Comm_errhandler_fn;
#ifdef __cplusplus
#define SIMMPI_H(T,n) (reinterpret_cast<T>(static_cast<intptr_t>(n)))
#else
#define SIMMPI_H(T,n) ((T)(intptr_t)(n))
#endif
#define MPI_COMM_NULL SIMMPI_H(MPI_Comm,0)
#define MPI_COMM_WORLD SIMMPI_H(MPI_Comm,1)
#define MPI_COMM_SELF SIMMPI_H(MPI_Comm,2)
#define MPI_GROUP_NULL SIMMPI_H(MPI_Group,0)
#define MPI_GROUP_EMPTY SIMMPI_H(MPI_Group,1)
#define MPI_INFO_NULL SIMMPI_H(MPI_Info,0)
#define MPI_INFO_ENV SIMMPI_H(MPI_Info,1)
#define MPI_REQUEST_NULL SIMMPI_H(MPI_Request,0)
#define MPI_FILE_NULL SIMMPI_H(MPI_File,0)
#define MPI_ERRHANDLER_NULL SIMMPI_H(MPI_Errhandler,0)
#define MPI_ERRORS_ARE_FATAL SIMMPI_H(MPI_Errhandler,1)
#define MPI_ERRORS_RETURN SIMMPI_H(MPI_Errhandler,2)
#define MPI_ERRORS_ABORT SIMMPI_H(MPI_Errhandler,3)
#define MPI_DATATYPE_NULL SIMMPI_H(MPI_Datatype,0)
#define MPI_CHAR SIMMPI_H(MPI_Datatype,1)
#define MPI_SIGNED_CHAR SIMMPI_H(MPI_Datatype,2)
#define MPI_UNSIGNED_CHAR SIMMPI_H(MPI_Datatype,3)
#define MPI_BYTE SIMMPI_H(MPI_Datatype,4)
#define MPI_SHORT SIMMPI_H(MPI_Datatype,5)
#define MPI_UNSIGNED_SHORT SIMMPI_H(MPI_Datatype,6)
#define MPI_INT SIMMPI_H(MPI_Datatype,7)
#define MPI_UNSIGNED SIMMPI_H(MPI_Datatype,8)
#define MPI_LONG SIMMPI_H(MPI_Datatype,9)
#define MPI_UNSIGNED_LONG SIMMPI_H(MPI_Datatype,10)
#define MPI_LONG_LONG SIMMPI_H(MPI_Datatype,11)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG SIMMPI_H(MPI_Datatype,12)
#define MPI_FLOAT SIMMPI_H(MPI_Datatype,13)
#define MPI_DOUBLE SIMMPI_H(MPI_Datatype,14)
#define MPI_LONG_DOUBLE SIMMPI_H(MPI_Datatype,15)
#define MPI_C_BOOL SIMMPI_H(MPI_Datatype,16)
#define MPI_CXX_BOOL MPI_C_BOOL
#define MPI_INT8_T SIMMPI_H(MPI_Datatype,17)
#define MPI_INT16_T SIMMPI_H(MPI_Datatype,18)
#define MPI_INT32_T SIMMPI_H(MPI_Datatype,19)
#define MPI_INT64_T SIMMPI_H(MPI_Datatype,20)
#define MPI_UINT8_T SIMMPI_H(MPI_Datatype,21)
#define MPI_UINT16_T SIMMPI_H(MPI_Datatype,22)
#define MPI_UINT32_T SIMMPI_H(MPI_Datatype,23)
#define MPI_UINT64_T SIMMPI_H(MPI_Datatype,24)
#define MPI_AINT SIMMPI_H(MPI_Datatype,25)
#define MPI_OFFSET SIMMPI_H(MPI_Datatype,26)
#define MPI_DOUBLE_INT SIMMPI_H(MPI_Datatype,27)
#define MPI_FLOAT_INT SIMMPI_H(MPI_Datatype,28)
#define MPI_2INT SIMMPI_H(MPI_Datatype,29)
#define MPI_PACKED SIMMPI_H(MPI_Datatype,30)
#define MPI_OP_NULL SIMMPI_H(MPI_Op,0)
#define MPI_MAX SIMMPI_H(MPI_Op,1)
#define MPI_MIN SIMMPI_H(MPI_Op,2)
#define MPI_SUM SIMMPI_H(MPI_Op,3)
#define MPI_PROD SIMMPI_H(MPI_Op,4)
#define MPI_LAND SIMMPI_H(MPI_Op,5)
#define MPI_BAND SIMMPI_H(MPI_Op,6)
#define MPI_LOR SIMMPI_H(MPI_Op,7)
#define MPI_BOR SIMMPI_H(MPI_Op,8)
#define MPI_LXOR SIMMPI_H(MPI_Op,9)
#define MPI_BXOR SIMMPI_H(MPI_Op,10)
#define MPI_MINLOC SIMMPI_H(MPI_Op,11)
#define MPI_MAXLOC SIMMPI_H(MPI_Op,12)
#define MPI_IN_PLACE ((void*)(intptr_t)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_BUFFER 1
#define MPI_ERR_COUNT 2
#define MPI_ERR_TYPE 3
#define MPI_ERR_TAG 4
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_REQUEST 7
#define MPI_ERR_ROOT 8
#define MPI_ERR_GROUP 9
#define MPI_ERR_OP 10
#define MPI_ERR_TOPOLOGY 11
#define MPI_ERR_DIMS 12
#define MPI_ERR_ARG 13
#define MPI_ERR_UNKNOWN 14
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ERR_INTERN 17
#define MPI_ERR_IN_STATUS 18
#define MPI_ERR_PENDING 19
#define MPI_ERR_NO_MEM 39
#define MPI_ERR_LASTCODE 92
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_INFO_KEY 36
#define MPI_MAX_INFO_VAL 256
#define MPI_BSEND_OVERHEAD 128
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_TAG_UB 0
#define MPI_HOST 1
#define MPI_IO 2
#define MPI_WTIME_IS_GLOBAL 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_CART 1
#define MPI_GRAPH 2
#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1
#define MPI_COMM_TYPE_SHARED 0
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int); int MPI_Query_thread(int*); int MPI_Is_thread_main(int*);
int MPI_Get_version(int*, int*); int MPI_Get_library_version(char*, int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*); int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_set_name(MPI_Comm, const char*); int MPI_Comm_get_name(MPI_Comm, char*, int*);
int MPI_Comm_group(MPI_Comm, MPI_Group*); int MPI_Group_size(MPI_Group, int*); int MPI_Group_rank(MPI_Group, int*); int MPI_Group_free(MPI_Group*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler*);
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler*); int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler); int MPI_Errhandler_get(MPI_Comm, MPI_Errhandler*);
int MPI_Error_string(int, char*, int*); int MPI_Error_class(int, int*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*); int MPI_Attr_get(MPI_Comm, int, void*, int*);
int MPI_Get_processor_name(char*, int*);
double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Topo_test(MPI_Comm, int*);
int MPI_Dims_create(int, int, int*); int MPI_Cart_create(MPI_Comm, int, const int*, const int*, int, MPI_Comm*);
int MPI_Cart_rank(MPI_Comm, const int*, int*); int MPI_Cart_coords(MPI_Comm, int, int, int*);
int MPI_Cart_shift(MPI_Comm, int, int, int*, int*); int MPI_Cartdim_get(MPI_Comm, int*);
int MPI_Cart_get(MPI_Comm, int, int*, int*, int*); int MPI_Cart_sub(MPI_Comm, const int*, MPI_Comm*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Recv_init(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Start(MPI_Request*); int MPI_Startall(int, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*); int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*); int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*); int MPI_Cancel(MPI_Request*); int MPI_Test_cancelled(const MPI_Status*, int*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*); int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Buffer_attach(void*, int); int MPI_Buffer_detach(void*, int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*); int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*); int MPI_Op_free(MPI_Op*);
int MPI_Type_size(MPI_Datatype, int*); int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*); int MPI_Type_extent(MPI_Datatype, MPI_Aint*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*); int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*); int MPI_Get_address(const void*, MPI_Aint*);
int MPI_Info_create(MPI_Info*); int MPI_Info_set(MPI_Info, const char*, const char*); int MPI_Info_get(MPI_Info, const char*, int, char*, int*); int MPI_Info_free(MPI_Info*);
int MPI_Pcontrol(const int, ...);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*); int MPI_Free_mem(void*);
#ifdef __cplusplus
}
#endif
#endif
