/* Minimal MPI interface of the model checker (see ../rt.cc). */
#ifndef MC_FAKE_MPI_H
#define MC_FAKE_MPI_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Group;
typedef long long MPI_Offset;
typedef long MPI_Aint;
typedef long MPI_Count;
typedef struct mc_request *MPI_Request;
typedef struct mc_file *MPI_File;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int cancelled; size_t mc_bytes; } MPI_Status;

#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL ((MPI_Request)0x2c000000)   /* not zero, as in the MPI libraries */
#define MPI_FILE_NULL ((MPI_File)0x2e000000)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_INFO_NULL 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERR_FILE_EXISTS 35
#define MPI_ERR_NO_SUCH_FILE 42
#define MPI_ERR_TRUNCATE 14
#define MPI_ERR_IO 32

#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

/* value = (id << 8) | size */
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 0x101
#define MPI_BYTE 0x201
#define MPI_SIGNED_CHAR 0x301
#define MPI_UNSIGNED_CHAR 0x401
#define MPI_INT 0x504
#define MPI_UNSIGNED 0x604
#define MPI_LONG 0x708
#define MPI_UNSIGNED_LONG 0x808
#define MPI_LONG_LONG 0x908
#define MPI_LONG_LONG_INT 0x908
#define MPI_UNSIGNED_LONG_LONG 0xa08
#define MPI_FLOAT 0xb04
#define MPI_DOUBLE 0xc08
#define MPI_INT64_T 0xd08
#define MPI_UINT64_T 0xe08
#define MPI_INT32_T 0xf04
#define MPI_UINT32_T 0x1004
#define MPI_UINT8_T 0x1101
#define MPI_INT8_T 0x1201
#define MPI_CXX_BOOL 0x1301
#define MPI_C_BOOL 0x1401

#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8

#define MPI_MODE_RDONLY 2
#define MPI_MODE_RDWR 8
#define MPI_MODE_WRONLY 4
#define MPI_MODE_CREATE 1
#define MPI_MODE_EXCL 64
#define MPI_MODE_DELETE_ON_CLOSE 16
#define MPI_MODE_APPEND 128
#define MPI_SEEK_SET 600
#define MPI_SEEK_CUR 602
#define MPI_SEEK_END 604

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Query_thread(int*);
int MPI_Is_thread_main(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
double MPI_Wtime(void);
int MPI_Barrier(MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Request_free(MPI_Request*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*);
int MPI_File_close(MPI_File*);
int MPI_File_delete(const char*, MPI_Info);
int MPI_File_seek(MPI_File, MPI_Offset, int);
int MPI_File_get_position(MPI_File, MPI_Offset*);
int MPI_File_get_size(MPI_File, MPI_Offset*);
int MPI_File_set_size(MPI_File, MPI_Offset);
int MPI_File_sync(MPI_File);
int MPI_File_read(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_at(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_read_at_all(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
int MPI_File_write_at_all(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*);
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
#ifdef __cplusplus
}
#endif
#endif
