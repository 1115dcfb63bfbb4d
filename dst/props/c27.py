"""C27: uniform flows stay uniform, and the solution does not depend on the units."""
import json
import numpy as np
from dst import gen, oracle, vtk, h5
ID = "C27"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> hydro, MHD or spectral-difference solver, options, boundary types, decomposition and adversarial schedule, and one of: a uniform start with any velocity and magnetic field (none across walls), every output of which has to be that start; or a random state (a blast for spectral difference) "
        "run in two systems of units that differ by powers of two in length, velocity and density, every output of which has to be the same solution. Non-trivial: a uniform flow that moves, or a field that changes; distinct by mode, solver, options, boundary types, decomposition, units.")
ASSUME = ["tolerance 1e-11 of each field's scale (1e-10 in other units) over at most six steps", "the floors smallr and smallc are quantities with units like all others", "spectral difference in other units: gentle blasts without limiter, positivity and rescaled steps, which contain absolute constants"]
D = "xyz"
def gen_scenario(r, i, tier):
    mode = r.choice(["uniform", "units"]); fam = r.choice(["hydro", "hydro", "mhd", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.5 else 2
    order = (r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else None
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.4 else None, problem="implode" if mode == "uniform" else "blast", restart_p=0, steps=r.randint(1, 6), order=order, maxcells=500 if dim == 2 else 1200)
    m = sc["ini"]["mesh"]; sc["mode"] = mode
    U = lambda a, b: round(r.uniform(a, b), 4)
    if mode == "uniform":
        wall = [1 in (m.get("boundary_type_%smin" % d), m.get("boundary_type_%smax" % d)) for d in D]
        s = dict(density=U(0.1, 5), pressure=U(0.1, 5))
        for a in range(3):
            s["v" + D[a]] = 0.0 if wall[a] or (a == 2 and dim == 2) else r.choice([U(-1, 1), U(-5, 5), 0.0])
            if fam == "mhd": s["B" + D[a]] = 0.0 if wall[a] or (a == 2 and dim == 2) else U(-1, 1)   # 2D starts have no z components
        sc["ini"]["implode"] = dict(shape_region=r.choice([0, 1]), **{k + e: v for k, v in s.items() for e in ("_outer", "_inner")})
        sc["state"] = s
    else:
        sc["units"] = [r.randint(-6, 6), r.randint(-4, 4), 2 * r.randint(-3, 3)]
        if fam == "sdm":
            w = lambda d: m[d + "max"] - m[d + "min"]; at = lambda d: m[d + "min"] + w(d) * U(0.3, 0.7)
            sc["ini"]["blast"] = dict(radius=U(0.2, 0.35) * min(map(w, D)), center_x=at("x"), center_y=at("y"), center_z=at("z"), density_in=U(1, 1.2), density_out=U(1, 1.2), pressure_in=U(1, 1.3), pressure_out=U(0.9, 1.1))
            for k in ("limiter_enabled", "positivity_enabled", "rescale_dt_enabled"): sc["ini"].get("sdm", {}).pop(k, None)     # these contain absolute constants, as does the pressure floor of EulerEquations.h
        else: sc["restart"] = dict(seed=r.getrandbits(40), amp=r.choice([0.05, 0.2, 0.5]))
        sc["ini"]["hydro"].update(smallr=2.0 ** -30, smallc=2.0 ** -30)
    n = sc["layout"][0] * sc["layout"][1] * sc["layout"][2]
    sc["par"] = n > 1 or r.random() < 0.3; sc["knobs"] = gen.knobs(r, n)
    if fam == "sdm": sc["ini"]["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false")
    return sc
def states(x, sc): return vtk.sdm_states(x.dir) if sc["fam"] == "sdm" else x.h5s()
def factor(k, u):
    a, b, d = (2.0 ** e for e in u)
    return d if k == "rho" else d * b * b if k == "energy" else d * b if k.startswith("rho_v") else b * d ** 0.5
def in_units(sc):
    n = json.loads(json.dumps(sc)); u = sc["units"]; a, b, d = (2.0 ** e for e in u); i = n["ini"]
    for k in i["mesh"]:
        if "bound" not in k: i["mesh"][k] *= a
    for k, v in i["blast"].items() if sc["fam"] == "sdm" else ():
        i["blast"][k] = v * (a if k[0] in "rc" else d if k[0] == "d" else d * b * b)
    i["hydro"]["smallr"] *= d; i["hydro"]["smallc"] *= b
    i["run"]["tEnd"] *= a / b
    return n
def run(sc, ctx, o):
    dim = sc["dim"]; L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; sdm = sc["fam"] == "sdm"; mode = sc["mode"]
    bcs = tuple(sorted((q, w) for q, w in i["mesh"].items() if "bound" in q))
    o.key = (mode, sc["fam"], dim, sc["order"], i["hydro"]["riemann"], i["OTHER"]["implementationVersion"], i["hydro"]["slope_type"], bcs, tuple(L), tuple(sc.get("units", ())), tuple(sorted(i.get("sdm", {}).items())))
    what = "%s%dD %s version %s on %s ranks, " % (sc["fam"], dim, i["hydro"]["riemann"], i["OTHER"]["implementationVersion"], L) + ("uniform start %s" % sc["state"] if mode == "uniform" else "units scaled by 2^%s" % sc["units"])
    v = ("mpi" if sc["par"] else "ser") + ("sdm" if sdm else "")
    if mode == "uniform":
        x = ctx.run(v, gen.make_ini(sc, L), n, sc["knobs"], d=ctx.mkdir("u"))
        if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
        R = states(x, sc); ks = sorted(R)
        if not ks or any(R[k] is None for k in ks): o.bad("output", what + ": unreadable output"); return
        s = sc["state"]; rho = np.float32(s["density"]).astype(float); f = lambda k: np.float32(s[k]).astype(float)
        w = {"rho": rho}; ke = 0.0
        for a in D:
            w["rho_v" + a] = rho * f("v" + a); ke += 0.5 * rho * f("v" + a) ** 2
            if sc["fam"] == "mhd": w["b" + a] = f("B" + a); ke += 0.5 * f("B" + a) ** 2
        w["energy"] = f("pressure") / (np.float32(i["hydro"]["gamma0"]).astype(float) - 1) + ke
        want = {k: {q: (A if q[0] == "@" else np.full_like(A, w[q])) for q, A in R[k].items()} for k in ks}
        if not oracle.compare_h5(o, "not-uniform", want, R, 1e-11, what, attrs=()): return
        ctx.add("m.uniform_outputs", len(ks)); o.nontrivial = len(ks) > 1 and any(s["v" + a] for a in D); return
    d0, d1 = ctx.mkdir("orig"), ctx.mkdir("units"); t = in_units(sc)
    if sc["restart"]:
        F = oracle.put_restart(sc, d0, L, sc["par"]); G = sc["grid"]
        at = {"time step": 0, "nx": G[0] // L[0], "ny": G[1] // L[1], "nz": G[2] // L[2], "ghost zone included": 0}
        if sc["par"]: at.update(mx=L[0], my=L[1], mz=L[2])
        h5.write(d1 + "/restart.h5", {k: A * factor(k, sc["units"]) for k, A in F.items()}, at, 0.0)
    a = ctx.run(v, gen.make_ini(sc, L), n, None, d=d0)
    b = ctx.run(v, gen.make_ini(t, L), n, sc["knobs"], d=d1)
    for x in (a, b):
        if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    ra, rb = states(a, sc), states(b, sc); ks = sorted(ra)
    if not ks or any(ra[k] is None for k in ks) or any(x is None for x in rb.values()): o.bad("output", what + ": unreadable output"); return
    if not all(np.isfinite(ra[k][q]).all() for k in ks for q in ra[k] if q[0] != "@"): ctx.add("m.reference_not_finite"); return
    if sdm:
        top = lambda k: max(np.abs(ra[k][q]).max() / np.abs(ra[ks[0]][q]).max() for q in ("rho", "energy"))
        ks = [k for q, k in enumerate(ks) if all(top(j) < 1e3 for j in ks[:q + 1])]
        if not ks: return
    u = sc["units"]; T = 2.0 ** (u[0] - u[1])
    want = {k: {q: (A * factor(q, u) if q[0] != "@" else A * T if q == "@total time" else A) for q, A in ra[k].items()} for k in ks}
    if not oracle.compare_h5(o, "units", want, {k: rb[k] for k in rb if k in want or not sdm}, 1e-10, what, attrs=(), trtol=1e-5 if sdm else 1e-10): return
    ctx.add("m.outputs_compared", len(ks))
    o.nontrivial = any(u) and len(ks) > 1 and any(ra[ks[0]][q].tobytes() != ra[ks[-1]][q].tobytes() for q in ra[ks[0]] if q[0] != "@")
def shrink(sc):
    for e in range(3):
        if sc["mode"] == "units" and sc["units"][e]: m = json.loads(json.dumps(sc)); m["units"][e] = 0; yield m
    if sc["layout"] != [1, 1, 1]: m = json.loads(json.dumps(sc)); m["layout"] = [1, 1, 1]; yield m
    if sc["ini"]["run"]["nStepmax"] > 1: m = json.loads(json.dumps(sc)); m["ini"]["run"]["nStepmax"] = 1; yield m
    for k in list(sc["ini"].get("sdm", {})):
        m = json.loads(json.dumps(sc)); del m["ini"]["sdm"][k]; yield m
