"""Minimal HDF5 access through ctypes on the installed serial library (no h5py here)."""
import ctypes as C, os
import numpy as np
_l = None
NAMES = ["rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz"]
IATTR = ["time step", "nx", "ny", "nz", "mx", "my", "mz", "ghost zone included", "external ghost zones only included", "all ghost zones included", "reassemble MPI pieces in file"]

def lib():
    global _l
    if _l is None:
        os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")
        l = C.CDLL("/usr/lib/x86_64-linux-gnu/libhdf5_serial.so")
        i64, I, V, S = C.c_int64, C.c_int, C.c_void_p, C.c_char_p
        def d(n, r, *a): f = getattr(l, n); f.restype = r; f.argtypes = list(a)
        d("H5open", I); d("H5Fopen", i64, S, C.c_uint, i64); d("H5Fcreate", i64, S, C.c_uint, i64, i64); d("H5Fclose", I, i64)
        d("H5Dopen2", i64, i64, S, i64); d("H5Dclose", I, i64); d("H5Dget_space", i64, i64); d("H5Sclose", I, i64)
        d("H5Dget_type", i64, i64); d("H5Tget_size", C.c_size_t, i64); d("H5Tget_class", I, i64); d("H5Tclose", I, i64)
        d("H5Sget_simple_extent_ndims", I, i64); d("H5Sget_simple_extent_dims", I, i64, V, V)
        d("H5Dread", I, i64, i64, i64, i64, i64, V); d("H5Dwrite", I, i64, i64, i64, i64, i64, V)
        d("H5Screate_simple", i64, I, V, V); d("H5Screate", i64, I); d("H5Dcreate2", i64, i64, S, i64, i64, i64, i64, i64)
        d("H5Aopen", i64, i64, S, i64); d("H5Aexists", I, i64, S); d("H5Aread", I, i64, i64, V); d("H5Aclose", I, i64)
        d("H5Acreate2", i64, i64, S, i64, i64, i64, i64); d("H5Awrite", I, i64, i64, V)
        d("H5Lexists", I, i64, S, i64); d("H5Eset_auto2", I, i64, V, V)
        l.H5open(); l.H5Eset_auto2(0, None, None)
        l.DBL = C.c_int64.in_dll(l, "H5T_NATIVE_DOUBLE_g").value; l.INT = C.c_int64.in_dll(l, "H5T_NATIVE_INT_g").value
        l.FLT = C.c_int64.in_dll(l, "H5T_NATIVE_FLOAT_g").value
        _l = l
    return _l

def read(path):
    """dict of float64 arrays [z]yx plus '@attr' entries; None if not a readable, complete HDF5 file."""
    l = lib()
    f = l.H5Fopen(path.encode(), 0, 0)
    if f < 0: return None
    out = {}
    try:
        for n in NAMES:
            if l.H5Lexists(f, n.encode(), 0) <= 0: continue
            d = l.H5Dopen2(f, n.encode(), 0)
            if d < 0: return None
            sp = l.H5Dget_space(d); nd = l.H5Sget_simple_extent_ndims(sp)
            dims = (C.c_uint64 * max(nd, 1))(); l.H5Sget_simple_extent_dims(sp, dims, None)
            a = np.empty(tuple(dims[:nd]), dtype=np.float64)
            r = l.H5Dread(d, l.DBL, 0, 0, 0, a.ctypes.data_as(C.c_void_p))
            l.H5Sclose(sp); l.H5Dclose(d)
            if r < 0: return None
            out[n] = a
        for n in IATTR:
            if l.H5Aexists(f, n.encode()) > 0:
                v = C.c_int(0); h = l.H5Aopen(f, n.encode(), 0); r = l.H5Aread(h, l.INT, C.byref(v)); l.H5Aclose(h)
                if r < 0: return None
                out["@" + n] = v.value
        if l.H5Aexists(f, b"total time") > 0:
            v = C.c_double(0); h = l.H5Aopen(f, b"total time", 0); r = l.H5Aread(h, l.DBL, C.byref(v)); l.H5Aclose(h)
            if r < 0: return None
            out["@total time"] = v.value
        out["@date"] = l.H5Aexists(f, b"creation date") > 0
    finally:
        l.H5Fclose(f)
    return out

def write(path, fields, iattrs, total_time, drop=(), dtype=None):
    l = lib()
    f = l.H5Fcreate(path.encode(), 2, 0, 0)
    assert f >= 0, path
    for n, a in fields.items():
        if n in drop: continue
        a = np.ascontiguousarray(a, dtype=np.float64)
        dims = (C.c_uint64 * a.ndim)(*a.shape)
        sp = l.H5Screate_simple(a.ndim, dims, None)
        d = l.H5Dcreate2(f, n.encode(), l.FLT if dtype == "float" else l.DBL, sp, 0, 0, 0)
        l.H5Dwrite(d, l.DBL, 0, 0, 0, a.ctypes.data_as(C.c_void_p))
        l.H5Dclose(d); l.H5Sclose(sp)
    sp = l.H5Screate(0)
    for n, v in iattrs.items():
        if n in drop: continue
        h = l.H5Acreate2(f, n.encode(), l.INT, sp, 0, 0); v = C.c_int(v); l.H5Awrite(h, l.INT, C.byref(v)); l.H5Aclose(h)
    if "total time" not in drop:
        h = l.H5Acreate2(f, b"total time", l.DBL, sp, 0, 0); v = C.c_double(total_time); l.H5Awrite(h, l.DBL, C.byref(v)); l.H5Aclose(h)
    l.H5Sclose(sp)
    l.H5Fclose(f)
