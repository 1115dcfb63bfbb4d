"""Shared oracles."""
import numpy as np
from . import h5, gen

def put_restart(sc, d, layout, variant_mpi=True, fname="restart.h5", index=0, time=0.0):
    """write the random start state of a scenario as a checkpoint in directory d"""
    rs = sc.get("restart")
    if not rs: return
    dim = sc["dim"]; G = sc["grid"]; m = sc["ini"]["mesh"]
    h = [(m[a + "max"] - m[a + "min"]) / G[i] for i, a in enumerate("xyz")]
    f = gen.fields(sc["fam"], dim, G, rs["seed"], rs["amp"], sc["ini"]["hydro"]["gamma0"], ext=h, planar=rs.get("planar", False))
    at = {"time step": index, "nx": G[0] // layout[0], "ny": G[1] // layout[1], "nz": G[2] // layout[2], "ghost zone included": 0}
    if variant_mpi: at.update(mx=layout[0], my=layout[1], mz=layout[2])
    h5.write(d + "/" + fname, f, at, time)
    return f

def same(a, b, rtol):
    """largest difference relative to the field's magnitude; nan where nan differ"""
    if a.shape != b.shape: return np.inf
    if a.tobytes() == b.tobytes(): return 0.0
    if not np.array_equal(np.isfinite(a), np.isfinite(b)): return np.inf
    fin = np.isfinite(a)
    if not fin.any(): return 0.0
    s = max(np.abs(a[fin]).max(), np.abs(b[fin]).max(), 1e-12)
    return float(np.abs(a[fin] - b[fin]).max() / s)

def where(a, b):
    if a.shape != b.shape: return "shapes %s and %s" % (a.shape, b.shape)
    d = np.abs(np.where(np.isfinite(a), a, 1e300) - np.where(np.isfinite(b), b, 1e300))
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    return "worst at [z]yx=%s: %.17g vs %.17g" % (tuple(int(x) for x in i), a[i], b[i])

def scale_of(o):
    """physical scale per variable, so that round-off in a vanishing component is not compared with itself"""
    big = lambda k: float(np.max(np.abs(np.where(np.isfinite(o[k]), o[k], 0)), initial=1e-300)) if k in o else 1
    ke, rho = big("energy"), big("rho")
    mom = np.sqrt(abs(ke * rho)); b = np.sqrt(abs(ke))
    return {"rho": rho, "energy": ke, "rho_vx": mom, "rho_vy": mom, "rho_vz": mom, "bx": b, "by": b, "bz": b}

def compare_h5(o, kind, ref, got, rtol, what, attrs=("@time step",), trtol=1e-12):
    """compare two {index: content} sets; report at most one violation"""
    if sorted(ref) != sorted(got):
        o.bad(kind, "%s: output indices %s versus %s" % (what, sorted(ref), sorted(got))); return False
    worst = 0.0
    for i in sorted(ref):
        a, b = ref[i], got[i]
        if a is None or b is None: o.bad(kind, "%s: output %d unreadable (%s)" % (what, i, "reference" if a is None else "subject")); return False
        va, vb = sorted(k for k in a if k[0] != "@"), sorted(k for k in b if k[0] != "@")
        if va != vb: o.bad(kind, "%s: output %d has variables %s versus %s" % (what, i, va, vb)); return False
        ta, tb = a.get("@total time"), b.get("@total time")
        if ta is None or tb is None or abs(ta - tb) > trtol * max(abs(ta), 1e-300): o.bad(kind, "%s: output %d at time %r versus %r" % (what, i, ta, tb)); return False
        for k in attrs:
            if a.get(k) != b.get(k): o.bad(kind, "%s: output %d attribute %s is %r versus %r" % (what, i, k[1:], a.get(k), b.get(k))); return False
        sc = scale_of(a)
        for v in va:
            if a[v].shape != b[v].shape: o.bad(kind, "%s: output %d %s has shape %s versus %s" % (what, i, v, a[v].shape, b[v].shape)); return False
            if a[v].tobytes() == b[v].tobytes(): continue
            if not np.array_equal(np.isfinite(a[v]), np.isfinite(b[v])): o.bad(kind, "%s: output %d %s: non-finite values differ; %s" % (what, i, v, where(a[v], b[v]))); return False
            d = np.abs(a[v] - b[v]); d = d[np.isfinite(d)]
            e = d.max() / max(sc[v], 1e-300) if d.size else 0
            worst = max(worst, e)
            if e > rtol: o.bad(kind, "%s: output %d %s differs by %.3g of its scale; %s" % (what, i, v, e, where(a[v], b[v]))); return False
    return True
