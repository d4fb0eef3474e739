// Parallel-netCDF stand-in: files live in memory (harness/fakepnetcdf.cpp).
#ifndef MC_FAKE_PNETCDF_H
#define MC_FAKE_PNETCDF_H
#include <mpi.h>
#include <netcdf.h>
#ifndef NC_64BIT_DATA
#define NC_64BIT_DATA 0x0020
#endif
#define NC_REQ_NULL -1
#ifdef __cplusplus
extern "C" {
#endif
const char* ncmpi_strerror(int);
const char* ncmpi_strerrno(int);
const char* ncmpi_inq_libvers(void);
int ncmpi_create(MPI_Comm, const char*, int, MPI_Info, int*);
int ncmpi_open(MPI_Comm, const char*, int, MPI_Info, int*);
int ncmpi_enddef(int);
int ncmpi_redef(int);
int ncmpi_sync(int);
int ncmpi_close(int);
int ncmpi_abort(int);
int ncmpi_def_dim(int, const char*, MPI_Offset, int*);
int ncmpi_inq_dimid(int, const char*, int*);
int ncmpi_inq_dimlen(int, int, MPI_Offset*);
int ncmpi_inq_varid(int, const char*, int*);
int ncmpi_def_var(int, const char*, nc_type, int, const int*, int*);
int ncmpi_put_att_text(int, int, const char*, MPI_Offset, const char*);
int ncmpi_put_att_double(int, int, const char*, nc_type, MPI_Offset, const double*);
int ncmpi_put_att_int(int, int, const char*, nc_type, MPI_Offset, const int*);
int ncmpi_put_vara_double_all(int, int, const MPI_Offset*, const MPI_Offset*, const double*);
int ncmpi_put_vara_float_all(int, int, const MPI_Offset*, const MPI_Offset*, const float*);
int ncmpi_put_vara_double(int, int, const MPI_Offset*, const MPI_Offset*, const double*);
int ncmpi_put_vara_float(int, int, const MPI_Offset*, const MPI_Offset*, const float*);
int ncmpi_put_var_double_all(int, int, const double*);
int ncmpi_put_var_float_all(int, int, const float*);
int ncmpi_put_var_double(int, int, const double*);
int ncmpi_put_var1_double_all(int, int, const MPI_Offset*, const double*);
int ncmpi_begin_indep_data(int);
int ncmpi_end_indep_data(int);
#ifdef __cplusplus
}
#endif
#endif
