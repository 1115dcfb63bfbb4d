"""C08: mass, momentum and energy are conserved."""
import numpy as np
from dst import gen, oracle
ID = "C08"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> hydro or MHD problem or random state on a periodic domain, or hydro in a box of reflecting walls, with random options, decomposition and schedule plan; the global integrals of every output are compared with those of the "
        "first one. Non-trivial: the field changes; distinct by family, problem, options, boundary kind and decomposition.")
ASSUME = ["gravity off", "tolerance 1e-11 of the integral of absolute values (momentum: of its physical scale) over at most a dozen steps", "states whose positivity floors act are not produced (moderate amplitudes)"]
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.4 else 2
    wall = fam == "hydro" and r.random() < 0.3
    while True:
        sc = gen.scenario(r, fam, dim, maxr=6, bc="wall" if wall else "periodic", restart_p=0.6, layout=(1, 1, 1) if r.random() < 0.3 else None, steps=r.randint(2, 12), rand=True)
        if "gravity" not in sc["ini"]: break
    sc["wall"] = wall
    L = sc["layout"]; sc["par"] = L != [1, 1, 1] or r.random() < 0.2
    sc["knobs"] = gen.knobs(r, L[0] * L[1] * L[2])
    return sc
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, sc["par"])
    res = ctx.run("mpi" if sc["par"] else "ser", gen.make_ini(sc, L), n, sc["knobs"], d=d)
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["hydro"]["slope_type"], i["OTHER"]["implementationVersion"], sc["wall"], tuple(L))
    if not res.ok: o.bad("run-failed", res.why()); return
    H = res.h5s(); ks = sorted(H)
    if not ks or any(H[k] is None for k in ks): o.bad("output", "unreadable outputs"); return
    if not all(np.isfinite(H[k][v]).all() for k in ks for v in H[k] if v[0] != "@"): ctx.add("m.not_finite"); return
    g = i["hydro"]["gamma0"]
    a = H[ks[0]]
    vs = ["rho", "energy"] + ([] if sc["wall"] else [v for v in a if v.startswith("rho_v")])
    scale = {"rho": np.abs(a["rho"]).sum(), "energy": np.abs(a["energy"]).sum()}
    mom = np.sqrt(scale["rho"] * scale["energy"])
    o.nontrivial = a["rho"].tobytes() != H[ks[-1]]["rho"].tobytes() or a["energy"].tobytes() != H[ks[-1]]["energy"].tobytes()
    worst = 0
    for k in ks[1:]:
        for v in vs:
            e = abs(H[k][v].sum() - a[v].sum()) / scale.get(v, mom)
            worst = max(worst, e)
            if e > 1e-11: o.bad("not-conserved", "%s: sum of %s changes by %.3g of its scale between output %d and %d (%.17g -> %.17g)" % (o.key, v, e, ks[0], k, a[v].sum(), H[k][v].sum())); return
    ctx.add("m.integrals_compared", len(vs) * (len(ks) - 1))
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
