// The library's public interface: C prototypes from /repo/mpi.h, those mpi.h
// leaves out, and the Fortran entry points.
#pragma once
extern "C" {
#include "mpi.h"
int MPI_Init_thread(int*,char***,int,int*);
int MPI_Get_Version(int*,int*);
int MPI_Get_address(void*,MPI_Aint*);
int MPI_Address(void*,MPI_Aint*);
int MPI_Info_free(MPI_Info*);

void mpi_init_(int*); void mpi_init_thread_(int*,int*,int*);
int mpi_finalize_(int*); int mpi_abort_(int*,int*,int*); int mpi_error_string_(int*,char*,int*,int*,size_t);
int mpi_get_processor_name_(char*,int*,int*,size_t); int mpi_initialized_(int*,int*);
void mpi_get_library_version_(char*,int*,int*,size_t); void mpi_get_version_(int*,int*,int*);
double mpi_wtime_(void);
int mpi_info_create_(int*,int*); int mpi_info_set_(int*,char*,char*,int*,size_t,size_t); int mpi_info_free_(int*,int*);
int mpi_comm_free_(int*,int*); int mpi_comm_size_(int*,int*,int*); int mpi_comm_rank_(int*,int*,int*); int mpi_comm_dup_(int*,int*,int*);
int mpi_comm_create_(int*,int*,int*,int*); int mpi_comm_split_(int*,int*,int*,int*,int*); int mpi_comm_group_(int*,int*,int*);
int mpi_intercomm_create_(int*,int*,int*,int*,int*,int*,int*);
int mpi_group_incl_(int*,int*,int*,int*,int*); int mpi_group_range_incl_(int*,int*,int*,int*,int*); int mpi_group_union_(int*,int*,int*,int*);
int mpi_group_intersection_(int*,int*,int*,int*); int mpi_group_difference_(int*,int*,int*,int*); int mpi_group_free_(int*,int*);
int mpi_group_translate_ranks_(int*,int*,int*,int*,int*,int*);
int mpi_cart_create_(int*,int*,int*,int*,int*,int*,int*); int mpi_cart_get_(int*,int*,int*,int*,int*,int*); int mpi_cart_coords_(int*,int*,int*,int*,int*); int mpi_dims_create_(int*,int*,int*,int*);
int mpi_isend_(void*,int*,int*,int*,int*,int*,int*,int*); int mpi_send_(void*,int*,int*,int*,int*,int*,int*); int mpi_ssend_(void*,int*,int*,int*,int*,int*,int*); int mpi_rsend_(void*,int*,int*,int*,int*,int*,int*); int mpi_irsend_(void*,int*,int*,int*,int*,int*,int*,int*);
int mpi_irecv_(void*,int*,int*,int*,int*,int*,int*,int*); int mpi_recv_(void*,int*,int*,int*,int*,int*,int*,int*);
int mpi_sendrecv_(void*,int*,int*,int*,int*,void*,int*,int*,int*,int*,int*,int*,int*);
int mpi_iprobe_(int*,int*,int*,int*,int*,int*); int mpi_probe_(int*,int*,int*,int*,int*);
int mpi_test_(int*,int*,int*,int*); int mpi_wait_(int*,int*,int*); int mpi_waitany_(int*,int*,int*,int*,int*); int mpi_testany_(int*,int*,int*,int*,int*,int*);
int mpi_testall_(int*,int*,int*,int*,int*); int mpi_waitall_(int*,int*,int*,int*); int mpi_testsome_(int*,int*,int*,int*,int*,int*); int mpi_waitsome_(int*,int*,int*,int*,int*,int*); int mpi_request_free_(int*,int*);
int mpi_get_count_(int*,int*,int*,int*); int mpi_get_elements_(int*,int*,int*,int*);
int mpi_pack_(void*,int*,int*,void*,int*,int*,int*,int*); int mpi_unpack_(void*,int*,int*,void*,int*,int*,int*,int*); int mpi_pack_size_(int*,int*,int*,int*,int*);
int mpi_type_struct_(int*,int*,long*,int*,int*,int*); int mpi_type_contiguous_(int*,int*,int*,int*); int mpi_type_vector_(int*,int*,int*,int*,int*,int*);
int mpi_type_hvector_(int*,int*,long*,int*,int*,int*); int mpi_type_create_hvector_(int*,int*,long*,int*,int*,int*); int mpi_type_indexed_(int*,int*,int*,int*,int*,int*);
int mpi_type_hindexed_(int*,int*,long*,int*,int*,int*); int mpi_type_create_indexed_block_(int*,int*,int*,int*,int*,int*);
int mpi_type_size_(int*,int*,int*); int mpi_type_extent_(int*,long*,int*); int mpi_type_lb_(int*,long*,int*); int mpi_type_ub_(int*,long*,int*);
int mpi_type_commit_(int*,int*); int mpi_type_free_(int*,int*); int mpi_get_address_(void*,long*,int*); int mpi_address_(void*,long*,int*);
int mpi_type_dup_(int*,int*,int*) __attribute__((weak));
int mpi_barrier_(int*,int*); int mpi_bcast_(void*,int*,int*,int*,int*,int*);
int mpi_gather_(void*,int*,int*,void*,int*,int*,int*,int*,int*); int mpi_gatherv_(void*,int*,int*,void*,int*,int*,int*,int*,int*,int*);
int mpi_allgather_(void*,int*,int*,void*,int*,int*,int*,int*); int mpi_allgatherv_(void*,int*,int*,void*,int*,int*,int*,int*,int*);
int mpi_scatter_(void*,int*,int*,void*,int*,int*,int*,int*,int*); int mpi_scatterv_(void*,int*,int*,int*,void*,int*,int*,int*,int*,int*);
int mpi_reduce_(void*,void*,int*,int*,int*,int*,int*,int*); int mpi_allreduce_(void*,void*,int*,int*,int*,int*,int*); int mpi_reduce_scatter_(void*,void*,int*,int*,int*,int*,int*); int mpi_scan_(void*,void*,int*,int*,int*,int*,int*);
int mpi_alltoall_(void*,int*,int*,void*,int*,int*,int*,int*); int mpi_alltoallv_(void*,int*,int*,int*,void*,int*,int*,int*,int*,int*); int mpi_alltoallw_(void*,int*,int*,int*,void*,int*,int*,int*,int*,int*);
int mpi_op_create_(void*,int*,int*,int*); int mpi_op_free_(int*,int*);
// initialisation from Fortran: constants of mpif.h and storage of the basic types, checked by the library
void mpi_init_fort_(int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,int*,
  int*,void*,void*,int*,void*,void*,int*,void*,void*,int*,void*,void*,int*,void*,void*,int*) __attribute__((weak));
// generated by tools/build.sh from mpif.h and mpi.h
extern const int sim_fc_n; extern const char*const sim_fc_name[]; extern const int sim_fc_have[]; extern const long sim_fc_c[];
void sim_fc_get_(int*values,int*sizes); void sim_fwtime_(double*);
void __attribute__((weak)) sim_fc_mod_(int*values,int*sizes); void __attribute__((weak)) sim_fc_addr_(int*bytes);   // through the module mpi, if there is one
#define HAVE_DECLS 1
extern int mpiserial_[];     // Fortran COMMON /MPISERIAL/
}
// MPI_Type_dup is declared by mpi.h
