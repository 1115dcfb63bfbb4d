"""C06: kernels are free of races and independent of thread scheduling."""
import numpy as np
from dst import gen, oracle, vtk
ID = "C06"; LEVEL = "exploration"; VARIANTS = ["mpi_t", "ser_t", "sersdm_t"]
CASES = dict(quick=1400, thorough=30000); LIMIT = dict(quick=240, thorough=3000)
RULE = ("seed -> solver (hydro, MHD, spectral difference), problem or random state, options, boundary types, decomposition, 2 to 7 virtual threads per rank and a plan that can preempt a thread at any memory access of any kernel. Every access of every kernel "
        "goes through a happens-before race detector; outputs are compared with the one-thread run of the same binary (bit for bit unless the kernels used atomic updates). Non-trivial: several threads made conflicting-capable accesses and the field changes; "
        "distinct by solver, problem, options, boundary types, threads, decomposition.")
ASSUME = ["memory model: sequential consistency at the granularity of single accesses, races judged by happens-before over fork, join and barriers", "tolerance 1e-10 of each field's scale where atomics accumulate"]
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.4 else 2
    kw = dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else {}
    big = r.random() < 0.3
    sc = gen.scenario(r, fam, dim, maxr=4, layout=(1, 1, 1) if fam == "sdm" or r.random() < 0.6 else None, steps=r.randint(1, 2), maxcells=(900 if big else 220) if dim == 2 else (1400 if big else 500), **kw)
    if big:   # several tiles per kernel
        for q in range(dim): sc["grid"][q] = {2: 24, 3: 9}[dim] // sc["layout"][q] * sc["layout"][q] if fam != "sdm" else {2: 8, 3: 4}[dim]
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = fam != "sdm" and (n > 1 or r.random() < 0.1)
    k = gen.knobs(r, n)
    k.update(threads=r.randint(2, 7), omp=r.choice(["preempt"] * 5 + ["reverse", "perm"]), omp_mean=r.choice([3, 30, 300, 3000]), race=1)
    sc["knobs"] = k
    if fam == "sdm": sc["ini"]["output"].update(vtk_enabled="true", hdf5_enabled="false")
    return sc
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; fam = sc["fam"]
    v = "sersdm_t" if fam == "sdm" else "mpi_t" if sc["par"] else "ser_t"
    out = []
    for nm, k in (("one", dict(threads=1)), ("many", sc["knobs"])):
        d = ctx.mkdir(nm); oracle.put_restart(sc, d, L, sc["par"])
        out.append(ctx.run(v, gen.make_ini(sc, L), n, k, d=d))
    a, b = out
    bcs = tuple(sorted((q, w) for q, w in i["mesh"].items() if "bound" in q))
    o.key = (fam, sc["dim"], sc["order"], i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["hydro"]["slope_type"], i["OTHER"]["implementationVersion"], bcs, tuple(L), sc["knobs"]["threads"])
    what = "%s%dD %s implementation %d, %d threads on %s ranks" % (fam, sc["dim"], i["hydro"]["problem"] if not sc["restart"] else "random state", i["OTHER"]["implementationVersion"], sc["knobs"]["threads"], L)
    for k, m in b.violations[:3]: o.bad(k, "%s: %s" % (what, m))
    if b.violations: return
    if not a.ok: o.bad("reference-failed", what + ": one thread: " + a.why()); return
    if not b.ok: o.bad("run-failed", what + ": " + b.why()); return
    if fam == "sdm": ra, rb = vtk.sdm_states(a.dir), vtk.sdm_states(b.dir)
    else: ra, rb = a.h5s(), b.h5s()
    atom = b.res["atomics"] > 0
    oracle.compare_h5(o, "thread-dependent", ra, rb, 1e-10 if atom and fam == "mhd" else 0.0, what, attrs=())
    ks = sorted(ra)
    o.nontrivial = b.res["accesses"] > 1000 and len(ks) > 1 and any(ra[ks[0]][q].tobytes() != ra[ks[-1]][q].tobytes() for q in ra[ks[0]] if q[0] != "@")
def shrink(sc):
    import json
    from dst.props import c01
    yield from c01.shrink(sc)
    t = sc["knobs"]["threads"]
    if t > 2: n = json.loads(json.dumps(sc)); n["knobs"]["threads"] = 2; yield n
