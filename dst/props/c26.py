"""C26: a 3D problem that does not depend on one coordinate evolves as the 2D problem."""
import json
import numpy as np
from dst import gen, oracle, h5
ID = "C26"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> hydro or MHD random 2D state, options, boundary types; a direction of the box (x, y or z) along which the 3D start repeats it, with cells so long that they do not limit the time step, and boundary types of its own. The 2D run on one rank is compared, layer by layer and output by output, with the 3D run on a "
        "random decomposition under an adversarial schedule and a possibly different implementation version. Non-trivial: a field that changes over at least one step; distinct by solver, direction, options, boundary types, decomposition, versions.")
ASSUME = ["tolerance 1e-9 of each field's scale over at most five steps", "no velocity or magnetic field along the repeated direction (the 2D and 3D schemes treat the third component of the field differently: cell-centred and on faces)"]
D = "xyz"
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd", "mhd"])
    sc = gen.scenario(r, fam, 2, layout=(1, 1, 1), problem="blast", restart_p=0, steps=r.randint(1, 5), maxcells=80, bc=r.choice(["any", "any", "periodic"]))
    sc["restart"] = dict(seed=r.getrandbits(40), amp=r.choice([0.05, 0.2, 0.5]), planar=True)
    sc["hydro_vz"] = 0
    q = [0, 1, 2]; r.shuffle(q); sc["axes"] = q            # 2D x, 2D y and the repeated direction lie along these axes
    gw = gen.GW[fam]
    L = [1, 1, 1]
    for _ in range(r.choice([0, 0, 1, 2])):
        a = r.randrange(3)
        if L[0] * L[1] * L[2] < 6: L[a] += 1
    sc["layout"] = L
    per = [0, 0, 0]
    for e in (0, 1): per[q[e]] = r.randint(gw, gw + 3)
    per[q[2]] = r.randint(gw, gw + 1)
    sc["box"] = [per[a] * L[a] for a in range(3)]
    sc["grid"] = [sc["box"][q[0]], sc["box"][q[1]], 1]
    b = gen.bcs(r, 1); sc["bc3"] = [b["xmin"], b["xmax"]]
    sc["long"] = r.choice([1e20, 1e25, 1e30])
    sc["impl3"] = r.choice([0, 1] if fam == "hydro" else [0, 1, 2])
    sc["knobs"] = gen.knobs(r, L[0] * L[1] * L[2])
    sc["par"] = L != [1, 1, 1] or r.random() < 0.3
    return sc
def lift(f, sc, name):
    """the 3D array of a 2D field"""
    q, B = sc["axes"], sc["box"]
    A = np.repeat(f[None], B[q[2]], 0)                     # [w][v][u]
    axes = [None] * 3
    for pos, ax in ((2, q[0]), (1, q[1]), (0, q[2])): axes[2 - ax] = pos
    return np.ascontiguousarray(np.transpose(A, axes))
def named(k, sc): return k[:-1] + D[sc["axes"][D.index(k[-1])]] if k.startswith(("rho_v", "b")) else k
def run(sc, ctx, o):
    q, L, m, i = sc["axes"], sc["layout"], sc["ini"]["mesh"], sc["ini"]; n = L[0] * L[1] * L[2]; fam = sc["fam"]
    o.key = (fam, tuple(q), i["hydro"]["riemann"], i["hydro"]["slope_type"], i["OTHER"]["implementationVersion"], sc["impl3"], tuple(sorted((a, b) for a, b in m.items() if "bound" in a)), tuple(sc["bc3"]), tuple(L))
    what = "%s %s, 2D version %s against 3D version %s repeated along %s on %s ranks" % (fam, i["hydro"]["riemann"], i["OTHER"]["implementationVersion"], sc["impl3"], D[q[2]], L)
    d2, d3 = ctx.mkdir("two"), ctx.mkdir("three")
    f = oracle.put_restart(sc, d2, [1, 1, 1], False)
    B = sc["box"]
    F = {named(k, sc): lift(f[k], sc, k) for k in f}
    if fam == "hydro": F["rho_v" + D[q[2]]] = np.zeros_like(F["rho"])
    at = {"time step": 0, "nx": B[0] // L[0], "ny": B[1] // L[1], "nz": B[2] // L[2], "ghost zone included": 0}
    if sc["par"]: at.update(mx=L[0], my=L[1], mz=L[2])
    h5.write(d3 + "/restart.h5", F, at, 0.0)
    s3 = json.loads(json.dumps(sc)); s3["grid"] = B; m3 = s3["ini"]["mesh"]
    for e in (0, 1):
        for z in ("min", "max"): m3[D[q[e]] + z] = m[D[e] + z]; m3["boundary_type_" + D[q[e]] + z] = m["boundary_type_" + D[e] + z]
    a = D[q[2]]; m3[a + "min"], m3[a + "max"] = 0.0, sc["long"] * B[q[2]]
    m3["boundary_type_%smin" % a], m3["boundary_type_%smax" % a] = sc["bc3"]
    s3["ini"]["run"]["solver_name"] = gen.solver_name(fam, 3); s3["ini"]["OTHER"]["implementationVersion"] = sc["impl3"]
    x2 = ctx.run("ser", gen.make_ini(sc, [1, 1, 1]), 1, None, d=d2)
    x3 = ctx.run("mpi" if sc["par"] else "ser", gen.make_ini(s3, L), n, sc["knobs"], d=d3)
    for x in (x2, x3):
        if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    r2, r3 = x2.h5s(), x3.h5s(); ks = sorted(r2)
    if not ks or any(r2[k] is None for k in ks): o.bad("output", what + ": unreadable output"); return
    if not all(np.isfinite(r2[k][v]).all() for k in ks for v in r2[k] if v[0] != "@"): ctx.add("m.reference_not_finite"); return
    want = {}
    for k in ks:
        want[k] = {(v if v[0] == "@" else named(v, sc)): (A if v[0] == "@" else lift(A, sc, v)) for v, A in r2[k].items()}
        if fam == "hydro": want[k]["rho_v" + a] = np.zeros_like(want[k]["rho"])
    if not oracle.compare_h5(o, "dimension", want, r3, 1e-9, what, attrs=(), trtol=1e-9): return
    ctx.add("m.outputs_compared", len(ks))
    o.nontrivial = len(ks) > 1 and any(r2[ks[0]][v].tobytes() != r2[ks[-1]][v].tobytes() for v in r2[ks[0]] if v[0] != "@")
def shrink(sc):
    if sc["impl3"]: m = json.loads(json.dumps(sc)); m["impl3"] = 0; yield m
    if sc["ini"]["OTHER"]["implementationVersion"]: m = json.loads(json.dumps(sc)); m["ini"]["OTHER"]["implementationVersion"] = 0; yield m
    if sc["ini"]["run"]["nStepmax"] > 1: m = json.loads(json.dumps(sc)); m["ini"]["run"]["nStepmax"] = 1; yield m
    if sc["axes"] != [0, 1, 2]: m = json.loads(json.dumps(sc)); m["axes"] = [0, 1, 2]; B = m["box"]; m["box"] = [B[sc["axes"][0]], B[sc["axes"][1]], B[sc["axes"][2]]]; m["layout"] = [1, 1, 1]; yield m
    if sc["layout"] != [1, 1, 1]: m = json.loads(json.dumps(sc)); m["layout"] = [1, 1, 1]; yield m
