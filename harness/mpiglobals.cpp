// storage for the opaque MPI handles and PETSc logging counters (only their addresses are used)
extern "C" {
char ompi_mpi_comm_world[64], ompi_mpi_comm_self[64], ompi_mpi_comm_null[64], ompi_mpi_double[64], ompi_mpi_int[64], ompi_mpi_datatype_null[64], ompi_mpi_op_sum[64], ompi_mpi_op_min[64], ompi_mpi_op_max[64], ompi_mpi_byte[64], ompi_request_null[64], ompi_mpi_float[64], ompi_mpi_cxx_bool[64], ompi_mpi_c_bool[64], ompi_mpi_long[64], ompi_mpi_char[64];
double petsc_allreduce_ct, petsc_allreduce_ct_th, petsc_irecv_ct, petsc_irecv_ct_th, petsc_irecv_len, petsc_irecv_len_th, petsc_isend_ct, petsc_isend_ct_th, petsc_isend_len, petsc_isend_len_th, petsc_sum_of_waits_ct, petsc_sum_of_waits_ct_th, petsc_wait_all_ct, petsc_wait_all_ct_th, petsc_wait_ct, petsc_wait_ct_th, petsc_wait_any_ct, petsc_wait_any_ct_th, petsc_send_ct, petsc_send_ct_th, petsc_send_len, petsc_send_len_th, petsc_recv_ct, petsc_recv_ct_th, petsc_recv_len, petsc_recv_len_th, petsc_gather_ct, petsc_gather_ct_th, petsc_scatter_ct, petsc_scatter_ct_th;
}
