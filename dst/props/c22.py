"""C22: implementation versions are interchangeable."""
import json
import numpy as np
from dst import gen, oracle
ID = "C22"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpi_t", "ser_t"]
CASES = dict(quick=2000, thorough=30000); LIMIT = dict(quick=240, thorough=3000)
RULE = ("seed -> MHD (mostly) or hydro problem or random state with all field components, options, boundary types and decomposition; implementation version 0 (fluxes stored, then gathered) on a calm one-thread run is compared at every step with version 1 (fluxes applied "
        "immediately) or, for MHD, version 2 (states reconstructed from slopes on the fly), whose atomic updates are preempted between any two memory accesses by the thread scheduler in half of the cases. Non-trivial: at least two steps with a changing field; distinct by solver, problem, options, boundary types, decomposition, threads.")
ASSUME = ["tolerance 1e-10 of each field's scale over at most six steps"]
def gen_scenario(r, i, tier):
    fam = r.choice(["mhd", "mhd", "mhd", "hydro"]); dim = 3 if r.random() < 0.4 else 2
    t = r.random() < 0.5
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.4 else None, restart_p=0.5, impl=0, steps=r.randint(2, 6), maxcells=(220 if t else 700) if dim == 2 else (500 if t else 1800))
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.2
    k = gen.knobs(r, n)
    if t: k.update(threads=r.randint(2, 7), omp=r.choice(["preempt"] * 4 + ["perm"]), omp_mean=r.choice([3, 30, 300]))
    sc["thr"] = t; sc["knobs"] = k; sc["other"] = r.choice([1, 2]) if fam == "mhd" else 1
    return sc
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]
    v = ("mpi" if sc["par"] else "ser") + ("_t" if sc["thr"] else "")
    out = []
    for nm, vv, impl, k in (("v0", v, 0, None), ("v%d" % sc["other"], v, sc["other"], sc["knobs"])):
        d = ctx.mkdir(nm); oracle.put_restart(sc, d, L, sc["par"])
        out.append(ctx.run(vv, gen.make_ini(sc, L, dict(OTHER=dict(implementationVersion=impl))), n, k, d=d))
    a, b = out
    bcs = tuple(sorted((q, w) for q, w in i["mesh"].items() if "bound" in q))
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["hydro"]["slope_type"], bcs, tuple(L), sc["knobs"].get("threads", 1), sc["other"])
    what = "%s%dD %s %s on %s ranks, version 0 vs %d" % (sc["fam"], sc["dim"], i["hydro"]["problem"] if not sc["restart"] else "random state", i["hydro"]["riemann"], L, sc["other"])
    for x in out:
        if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    ra, rb = a.h5s(), b.h5s(); ks = sorted(ra)
    if not ks or any(ra[k] is None for k in ks): o.bad("output", what + ": unreadable output"); return
    if not all(np.isfinite(ra[k][q]).all() for k in ks for q in ra[k] if q[0] != "@"): ctx.add("m.reference_not_finite"); return
    oracle.compare_h5(o, "versions-differ", ra, rb, 1e-10, what, attrs=(), trtol=1e-10)
    ctx.add("m.outputs_compared", len(ks)); ctx.add("m.runs_with_preempted_atomics", int(b.res["atomics"] > 0))
    o.nontrivial = len(ks) > 2 and any(ra[ks[0]][q].tobytes() != ra[ks[-1]][q].tobytes() for q in ra[ks[0]] if q[0] != "@")
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
    if sc["thr"]: m = json.loads(json.dumps(sc)); m["thr"] = False; m["knobs"]["omp"] = "serial"; m["knobs"]["threads"] = 1; yield m
