"""C01: hydro results do not depend on the domain decomposition."""
import numpy as np
from dst import gen, oracle
ID = "C01"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
FAM = "hydro"; RTOL = 1e-10
CASES = dict(quick=3000, thorough=40000)
RULE = ("seed -> random problem or random checkpoint, grid, boundary types, solver options, decomposition, and a schedule/delay/rank-numbering/buffering plan; the simulated multi-rank job is compared at every step with the one-rank job "
        "(and with the non-MPI build). Non-trivial: more than one rank, at least two steps, and the field changes; distinct by problem, options, decomposition and boundary types.")
ASSUME = ["rank-local sizes are equal and not smaller than the ghost width", "relative tolerance 1e-10 of each field's scale, so that re-association by a compiler or a refactoring is not an alarm"]

def gen_(r, i, tier, fam):
    dim = 3 if r.random() < 0.35 else 2
    sc = gen.scenario(r, fam, dim, maxr=8 if tier == "quick" else 12)
    ranks = sc["layout"][0] * sc["layout"][1] * sc["layout"][2]
    sc["knobs"] = gen.knobs(r, ranks)
    sc["serial_ref"] = r.random() < 0.5
    return sc
def gen_scenario(r, i, tier): return gen_(r, i, tier, FAM)

def run_(sc, ctx, o, rtol):
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    d0 = ctx.mkdir("ref"); d1 = ctx.mkdir("par")
    if sc["serial_ref"]: ref = ("ser", 1)
    else: ref = ("mpi", 1)
    oracle.put_restart(sc, d0, [1, 1, 1], ref[0] == "mpi"); oracle.put_restart(sc, d1, L)
    a = ctx.run(ref[0], gen.make_ini(sc, [1, 1, 1]), 1, None, d=d0)
    b = ctx.run("mpi", gen.make_ini(sc, L), n, sc["knobs"], d=d1)
    if not a.ok: o.bad("reference-failed", "the one-rank run ends with " + a.why()); return
    if not b.ok: o.bad("run-failed", "%d ranks %s: %s, while the one-rank run succeeds" % (n, L, b.why())); return
    ra, rb = a.h5s(), b.h5s()
    if any(x is None or not all(np.isfinite(x[v]).all() for v in x if v[0] != "@") for x in ra.values()): ctx.add("m.reference_not_finite"); return
    fin = lambda t: [l for l in t.splitlines() if l.startswith("final time")]
    oracle.compare_h5(o, "decomposition", ra, rb, rtol, "1 rank vs %s ranks (%s)" % (L, sc["ini"]["hydro"]["problem"] if not sc["restart"] else "random state"))
    if fin(a.out()) and not any(fin(b.out(q)) == fin(a.out()) for q in range(n)): o.bad("final-time", "final time line %r vs %r" % (fin(a.out()), fin(b.out())))
    ks = sorted(k for k in ra if ra[k])
    ch = len(ks) >= 3 and any(ra[ks[0]][v].tobytes() != ra[ks[-1]][v].tobytes() for v in ra[ks[0]] if v[0] != "@")
    o.nontrivial = ch
    bit = all(ra[i] and rb.get(i) and all(ra[i][v].tobytes() == rb[i][v].tobytes() for v in ra[i] if v[0] != "@") for i in ra)
    ctx.add("m.bit_identical_cases", int(bit)); ctx.add("m.outputs_compared", len(ks))
    i = sc["ini"]
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["hydro"]["slope_type"], i["OTHER"]["implementationVersion"], tuple(L), tuple(sorted((k, v) for k, v in i["mesh"].items() if "bound" in k)))
def run(sc, ctx, o): run_(sc, ctx, o, RTOL)
def shrink(sc):
    import json
    L = sc["layout"]
    for ax in range(3):
        if L[ax] > 1:
            n = json.loads(json.dumps(sc)); n["grid"][ax] = sc["grid"][ax] // L[ax] * (L[ax] - 1); n["layout"][ax] -= 1
            if n["layout"] != [1, 1, 1]: yield n
