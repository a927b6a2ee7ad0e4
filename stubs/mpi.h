// Analysis stand-in for mpi.h (no MPI installed): declarations only.
#pragma once
#include <cstddef>
#include <climits>
#include <cstdint>
#include <exception>
typedef struct verif_mpi_comm *MPI_Comm; typedef struct verif_mpi_dt *MPI_Datatype; typedef struct verif_mpi_info *MPI_Info; typedef long MPI_Aint; 
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
extern MPI_Comm verif_mpi_world; extern verif_mpi_dt verif_dt_double, verif_dt_int, verif_dt_unsigned, verif_dt_ushort, verif_dt_ulong, verif_dt_ulonglong, verif_dt_uchar, verif_dt_byte;
#define MPI_COMM_WORLD verif_mpi_world
#define MPI_DOUBLE (&verif_dt_double)
#define MPI_INT (&verif_dt_int)
#define MPI_UNSIGNED (&verif_dt_unsigned)
#define MPI_UNSIGNED_SHORT (&verif_dt_ushort)
#define MPI_UNSIGNED_LONG (&verif_dt_ulong)
#define MPI_UNSIGNED_LONG_LONG (&verif_dt_ulonglong)
#define MPI_UNSIGNED_CHAR (&verif_dt_uchar)
#define MPI_BYTE (&verif_dt_byte)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_BOTTOM ((void *)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_SUCCESS 0
extern "C" {
int MPI_Barrier(MPI_Comm); int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *); int MPI_Type_commit(MPI_Datatype *); int MPI_Type_free(MPI_Datatype *);
int MPI_Get_address(const void *, MPI_Aint *); int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Init(int *, char ***); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int);
}
namespace MPI { void Init(); void Init(int &, char **&); void Finalize(); bool Is_initialized(); 
  class Exception { public: int Get_error_code() const; const char *Get_error_string() const; };
  class Intracomm { public: int Get_size() const; int Get_rank() const; void Barrier() const; void Abort(int) const; }; extern Intracomm COMM_WORLD; }
