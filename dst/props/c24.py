"""C24: density and pressure stay positive and finite."""
import numpy as np
from dst import gen, oracle, layout
ID = "C24"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=1800, thorough=30000)
RULE = ("seed -> built-in hydro or MHD problem with random parameters, solver options, boundary types and decomposition, in a world with random schedules and with freed and fresh memory filled with zeros, ones, signalling NaNs or random bytes; "
        "density and pressure (from the conserved variables, without the solver's floors) must be positive and every value finite at every output. Non-trivial: at least four steps and a changing field; distinct by solver, problem, options, boundary types and decomposition.")
ASSUME = ["CFL number at most 0.5, pressure contrasts up to 100", "MHD runs use periodic and outflow boundaries (the reflecting condition of the MHD solvers does not keep the wall-normal field)", "the 2D MHD wave problem (its start is not implemented) and the hydro disk problem (needs its own domain and gravity settings) are left out", "the MHD rotor (supersonic, magnetically dominated, no positivity guarantee in the scheme) is judged on density and finiteness only"]
f32 = lambda x: float(np.float32(x))
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.35 else 2
    while True:
        sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.3 else None, steps=r.choice([5, 10, 20, 40]), restart_p=0.1, rand=True)
        p = sc["ini"]["hydro"]["problem"]
        if p != "disk": break
    if fam == "mhd":
        for f in gen.FACES[:2 * dim]:
            if sc["ini"]["mesh"]["boundary_type_" + f] == 1: sc["ini"]["mesh"]["boundary_type_" + f] = 2
    sc["ini"]["hydro"]["cfl"] = r.choice([0.3, 0.4, 0.5]); sc["ini"]["run"]["nOutput"] = -1
    if sc["restart"]: sc["restart"]["amp"] = 0.2
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.2
    sc["knobs"] = gen.knobs(r, n)
    return sc
def pressure(sc, x, mesh):
    dim = sc["dim"]; g = f32(sc["ini"]["hydro"]["gamma0"]); d = x["rho"]
    e = x["energy"] - 0.5 * sum(x[v] ** 2 for v in x if v.startswith("rho_v")) / d
    if sc["fam"] == "mhd":
        E = layout.extend({k: x[k] for k in ("bx", "by", "bz")}, dim, 1, mesh)
        inner = tuple(slice(1, -1) for _ in range(dim))
        for q, a in enumerate("xyz"):
            b = E["b" + a]
            c = b[inner] if q >= dim else 0.5 * (b[inner] + b[tuple(slice(2, None) if k == dim - 1 - q else slice(1, -1) for k in range(dim))])
            e = e - 0.5 * c ** 2
    return (g - 1) * e
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, sc["par"])
    res = ctx.run("mpi" if sc["par"] else "ser", gen.make_ini(sc, L), n, sc["knobs"], d=d)
    bcs = tuple(sorted((k, v) for k, v in i["mesh"].items() if "bound" in k))
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["hydro"]["slope_type"], i["OTHER"]["implementationVersion"], bcs, tuple(L))
    if not res.ok: o.bad("run-failed", res.why()); return
    H = res.h5s(); ks = sorted(H)
    if not ks or any(H[k] is None for k in ks): o.bad("output", "unreadable outputs"); return
    for k in ks:
        x = H[k]
        for v in x:
            if v[0] != "@" and not np.isfinite(x[v]).all():
                p = np.argwhere(~np.isfinite(x[v]))
                o.bad("not-finite", "%s: %d values of %s are not finite in output %d (t=%g), first at [z]yx=%s" % (o.key, len(p), v, k, x["@total time"], p[0].tolist())); return
        if x["rho"].min() <= 0: o.bad("density", "%s: density %g in output %d" % (o.key, x["rho"].min(), k)); return
        with np.errstate(all="ignore"): P = pressure(sc, x, i["mesh"])
        if not P.min() > 0 and (i["hydro"]["problem"] != "rotor" or sc["restart"]): o.bad("pressure", "%s: pressure %g at [z]yx=%s in output %d (t=%g)" % (o.key, P.min(), [int(q) for q in np.unravel_index(int(np.argmin(P)), P.shape)], k, x["@total time"])); return
        if not np.isfinite(x["@total time"]): o.bad("time", "%s: time %r" % (o.key, x["@total time"])); return
    ctx.add("m.outputs_judged", len(ks))
    o.nontrivial = len(ks) > 5 and (H[ks[0]]["energy"].tobytes() != H[ks[-1]]["energy"].tobytes())
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
