"""C09: the magnetic field stays divergence free."""
import numpy as np
from dst import gen, oracle, layout
ID = "C09"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> MHD problem or random divergence-free state, options, boundary types, decomposition and schedule plan; the discrete divergence of every interior cell whose faces are all interior (all cells on periodic axes) is computed at every "
        "output. Non-trivial: the magnetic field changes; distinct by problem, options, boundary types and decomposition.")
ASSUME = ["tolerance 1e-11 of max|B|/min(dx); cells whose right face is stored in a physical (non-periodic) boundary cell are not judged"]
def gen_scenario(r, i, tier):
    dim = 3 if r.random() < 0.45 else 2
    sc = gen.scenario(r, "mhd", dim, maxr=6, bc=r.choice(["periodic", "any"]), restart_p=0.5, layout=(1, 1, 1) if r.random() < 0.3 else None, steps=r.randint(2, 10))
    L = sc["layout"]; sc["par"] = L != [1, 1, 1] or r.random() < 0.2
    sc["knobs"] = gen.knobs(r, L[0] * L[1] * L[2])
    return sc
def divb(x, dim, h, mesh):
    """|div B| on cells whose right faces are known"""
    tot = 0; ok = np.ones(x["bx"].shape, bool)
    for d in range(dim):
        ax = dim - 1 - d; b = x["b" + "xyz"[d]]
        tot = tot + (np.roll(b, -1, ax) - b) / h[d]
        if mesh["boundary_type_%smin" % "xyz"[d]] != 3:
            m = np.ones(b.shape[ax], bool); m[-1] = False
            ok &= m.reshape([-1 if q == ax else 1 for q in range(dim)])
    return np.abs(tot) * ok, ok
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; dim = sc["dim"]
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, sc["par"])
    res = ctx.run("mpi" if sc["par"] else "ser", gen.make_ini(sc, L), n, sc["knobs"], d=d)
    bcs = tuple(sorted((k, v) for k, v in i["mesh"].items() if "bound" in k))
    o.key = (dim, i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["hydro"]["slope_type"], i["OTHER"]["implementationVersion"], bcs, tuple(L))
    if not res.ok: o.bad("run-failed", res.why()); return
    H = res.h5s(); ks = sorted(H)
    if not ks or any(H[k] is None for k in ks): o.bad("output", "unreadable outputs"); return
    if not all(np.isfinite(H[k][v]).all() for k in ks for v in H[k] if v[0] != "@"): ctx.add("m.not_finite"); return
    m = i["mesh"]; h = [(m[a + "max"] - m[a + "min"]) / sc["grid"][q] for q, a in enumerate("xyz")]
    B = max(np.abs(H[ks[0]]["b" + a]).max() for a in "xyz")
    tol = 1e-11 * max(B, 1e-30) / min(h[:dim])
    e0, ok = divb(H[ks[0]], dim, h, m)
    if (e0 > tol).any(): ok = ok & (e0 <= tol); ctx.add("m.start_not_divergence_free")   # the statement is conditional on the start
    o.nontrivial = any(H[ks[0]]["b" + a].tobytes() != H[ks[-1]]["b" + a].tobytes() for a in "xyz")
    for k in ks[1:]:
        e, _ = divb(H[k], dim, h, m); e = e * ok
        ctx.add("m.cells_judged", int(ok.sum()))
        Bk = max(np.abs(H[k]["b" + a]).max() for a in "xyz")
        if (e > tol * max(1, Bk / max(B, 1e-30)) * k).any():
            p = np.unravel_index(int(np.argmax(e)), e.shape)
            o.bad("divergence", "%s: div B = %.3g (scale %.3g) at cell %s of output %d" % (o.key, e.max(), Bk / min(h[:dim]), tuple(int(q) for q in p), k)); return
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
