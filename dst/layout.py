"""Independent model of where a cell of the global domain appears in a checkpoint, and of the boundary image."""
import numpy as np

def coords_of(rank, L):
    """rank -> cartesian coordinates for an un-reordered row-major communicator is not assumed: callers use file positions"""
    raise NotImplementedError

def ext_index(n, g, lo, hi):
    """1D map: extended index -g..n+g-1 -> (interior index, mirrored?)"""
    idx, mir = np.empty(n + 2 * g, int), np.zeros(n + 2 * g, bool)
    for e in range(-g, n + g):
        s = e
        m = False
        if e < 0:
            if lo == 3: s = e % n
            elif lo == 2: s = 0
            else: s, m = -1 - e, True
        elif e >= n:
            if hi == 3: s = e % n
            elif hi == 2: s = n - 1
            else: s, m = 2 * n - 1 - e, True
        idx[e + g], mir[e + g] = s, m
    return idx, mir

def extend(fields, dim, g, mesh):
    """global interior fields {var: array [z]yx} -> fields including g boundary layers, by the statement of C03"""
    out = {}
    for v, a in fields.items():
        b = a
        for d in range(dim):
            ax = dim - 1 - d
            f = "xyz"[d]
            idx, mir = ext_index(a.shape[ax], g, mesh["boundary_type_%smin" % f], mesh["boundary_type_%smax" % f])
            b = np.take(b, idx, axis=ax)
            if v in ("rho_v" + f, "b" + f):
                s = np.where(mir, -1.0, 1.0)
                b = b * s.reshape([-1 if k == ax else 1 for k in range(dim)])
        out[v] = b
    return out

def window(ext, dim, g, n, c):
    """the part of the extended global field a sub-domain at coordinates c holds, ghosts included"""
    sl = tuple(slice(c[d] * n[d], c[d] * n[d] + n[d] + 2 * g) for d in reversed(range(dim)))
    return ext[sl]

def allghost_layout(ext, dim, g, n, L):
    """tile the windows of all sub-domains (checkpoint option allghostIncluded)"""
    m = [n[d] + 2 * g for d in range(dim)]
    out = np.empty(tuple(L[d] * m[d] for d in reversed(range(dim))))
    for cz in range(L[2] if dim == 3 else 1):
        for cy in range(L[1]):
            for cx in range(L[0]):
                c = (cx, cy, cz)
                out[tuple(slice(c[d] * m[d], (c[d] + 1) * m[d]) for d in reversed(range(dim)))] = window(ext, dim, g, n, c)
    return out
