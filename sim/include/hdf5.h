// compat header: serial HDF5 plus the parallel entry points that the simulator provides
#pragma once
#include "/usr/include/hdf5/serial/hdf5.h"
#if defined(USE_MPI) && !defined(SIM_RT)
#include <mpi.h>
#ifdef __cplusplus
extern "C" {
#endif
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info);
herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t);
herr_t H5Pget_dxpl_mpio(hid_t, H5FD_mpio_xfer_t*);
herr_t H5Pset_dxpl_mpio_collective_opt(hid_t, H5FD_mpio_collective_opt_t);
herr_t H5Pset_dxpl_mpio_chunk_opt(hid_t, H5FD_mpio_chunk_opt_t);
herr_t H5Pset_all_coll_metadata_ops(hid_t, hbool_t);
herr_t H5Pset_coll_metadata_write(hid_t, hbool_t);
#ifdef __cplusplus
}
#endif
#endif
