"""C25: no direction or place is special: permuted, mirrored and shifted starts give permuted, mirrored and shifted solutions."""
import json
import numpy as np
from dst import gen, oracle, vtk, h5
ID = "C25"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> hydro, MHD or spectral-difference solver, random state (a blast for the latter), options, boundary types, plus a permutation of the axes, mirrored axes and shifts along periodic axes. The original start is run on one rank; the transformed one (mesh, boundary types and decomposition "
        "transformed with it) runs under an adversarial schedule; every output has to be the transformed one of the original. Non-trivial: a transformation that is not the identity and a changing field; distinct by solver, transformation, options, boundary types, decomposition.")
ASSUME = ["tolerance 1e-9 of each field's scale over at most five steps", "mirrored MHD starts on periodic axes only (a checkpoint does not store the last outer faces of other boundaries)", "gravity problems are not part of it; spectral-difference runs that leave the finite or blow up are judged up to that point"]
D = "xyz"
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.55 else 2
    if fam == "sdm": order = r.choice([1, 2, 3]) if dim == 2 else 2
    else: order = None
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.5 else None, problem="blast", restart_p=0, steps=r.randint(1, 5), order=order, maxcells=500 if dim == 2 else 1200, bc=r.choice(["any", "any", "periodic"]))
    m = sc["ini"]["mesh"]
    sc["blast"] = fam == "sdm" or (fam == "hydro" and r.random() < 0.2)
    if sc["blast"]:
        U = lambda a, b: r.uniform(a, b)
        at = lambda d: m[d + "min"] + (m[d + "max"] - m[d + "min"]) * U(0.3, 0.7)
        sc["ini"]["blast"] = dict(radius=U(0.2, 0.35) * min(m[d + "max"] - m[d + "min"] for d in D), center_x=at("x"), center_y=at("y"), center_z=at("z"), density_in=U(0.8, 2), density_out=U(0.8, 1.5), pressure_in=U(1, 5), pressure_out=U(0.2, 1))
    else: sc["restart"] = dict(seed=r.getrandbits(40), amp=r.choice([0.05, 0.2, 0.5]))
    per = [m.get("boundary_type_%smin" % D[a], 0) == 3 for a in range(3)]
    p = list(range(dim)); r.shuffle(p); p += list(range(dim, 3))
    sc["perm"] = p
    sc["mirror"] = [int(a < dim and r.random() < 0.4 and (fam != "mhd" or per[p[a]])) for a in range(3)]
    sc["shift"] = [r.randrange(sc["grid"][p[a]]) if a < dim and per[p[a]] and r.random() < 0.4 and not sc["blast"] else 0 for a in range(3)]
    n = sc["layout"][0] * sc["layout"][1] * sc["layout"][2]
    sc["par"] = n > 1 or r.random() < 0.3; sc["knobs"] = gen.knobs(r, n)
    if fam == "sdm": sc["ini"]["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false")
    return sc
def turn(f, sc):
    """the transformed state"""
    dim, p = sc["dim"], sc["perm"]; ax = lambda a: dim - 1 - a
    axes = [0] * dim
    for a in range(dim): axes[ax(a)] = ax(p[a])
    out = {}
    for k, A in f.items():
        if k[0] == "@": out[k] = A; continue
        c = D.index(k[-1]) if k.startswith(("rho_v", "b")) else None
        new = p.index(c) if c is not None else None
        A = np.transpose(A, axes)
        for a in range(dim):
            if sc["mirror"][a]:
                if k[0] == "b" and new == a: A = np.roll(A, -1, ax(a))
                A = np.flip(A, ax(a))
                if new == a: A = -A
            if sc["shift"][a]: A = np.roll(A, sc["shift"][a], ax(a))
        out[k if c is None else k[:-1] + D[new]] = np.ascontiguousarray(A)
    return out
def ini_turned(sc, L):
    n = json.loads(json.dumps(sc)); p = sc["perm"]; m, om = n["ini"]["mesh"], sc["ini"]["mesh"]
    for a in range(sc["dim"]):
        lo, hi = ("max", "min") if sc["mirror"][a] else ("min", "max")
        m[D[a] + "min"], m[D[a] + "max"] = om[D[p[a]] + "min"], om[D[p[a]] + "max"]
        m["boundary_type_%smin" % D[a]], m["boundary_type_%smax" % D[a]] = om["boundary_type_" + D[p[a]] + lo], om["boundary_type_" + D[p[a]] + hi]
        if sc["blast"]:
            c = sc["ini"]["blast"]["center_" + D[p[a]]]
            n["ini"]["blast"]["center_" + D[a]] = om[D[p[a]] + "min"] + om[D[p[a]] + "max"] - c if sc["mirror"][a] else c
    n["grid"] = [sc["grid"][q] for q in p]
    return n, gen.make_ini(n, L)
def states(x, sc):
    if sc["fam"] != "sdm": return x.h5s()
    out = vtk.sdm_states(x.dir)
    return out
def run(sc, ctx, o):
    dim = sc["dim"]; p = sc["perm"]; L = [sc["layout"][q] for q in p]; n = L[0] * L[1] * L[2]; i = sc["ini"]; sdm = sc["fam"] == "sdm"
    bcs = tuple(sorted((q, w) for q, w in i["mesh"].items() if "bound" in q))
    o.key = (sc["fam"], dim, sc["order"], tuple(p), tuple(sc["mirror"]), tuple(map(bool, sc["shift"])), i["hydro"]["riemann"], i["OTHER"]["implementationVersion"], bcs, tuple(L))
    what = "%s%dD %s version %s, axes %s mirrored %s shifted %s on %s ranks" % (sc["fam"], dim, i["hydro"]["riemann"], i["OTHER"]["implementationVersion"], p[:dim], sc["mirror"][:dim], sc["shift"][:dim], L)
    d0, d1 = ctx.mkdir("orig"), ctx.mkdir("turned")
    tsc, tini = ini_turned(sc, L)
    if sc["restart"]:
        f = oracle.put_restart(sc, d0, [1, 1, 1], False)
        G = tsc["grid"]; at = {"time step": 0, "nx": G[0] // L[0], "ny": G[1] // L[1], "nz": G[2] // L[2], "ghost zone included": 0}
        if sc["par"]: at.update(mx=L[0], my=L[1], mz=L[2])
        h5.write(d1 + "/restart.h5", turn(f, sc), at, 0.0)
    a = ctx.run("sersdm" if sdm else "ser", gen.make_ini(sc, [1, 1, 1]), 1, None, d=d0)
    b = ctx.run(("mpi" if sc["par"] else "ser") + ("sdm" if sdm else ""), tini, n, sc["knobs"], d=d1)
    for x in (a, b):
        if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    ra, rb = states(a, sc), states(b, sc); ks = sorted(ra)
    if not ks or any(ra[k] is None for k in ks) or any(x is None for x in rb.values()): o.bad("output", what + ": unreadable output"); return
    if sdm:
        N = sc["order"]; sh = lambda G: tuple(G[d] * N for d in range(dim))[::-1]
        for R, G in ((ra, sc["grid"]), (rb, tsc["grid"])):
            for k in R: R[k] = {v: (R[k][v].reshape(sh(G)) if v[0] != "@" else R[k][v]) for v in R[k]}
    if not all(np.isfinite(ra[k][q]).all() for k in ks for q in ra[k] if q[0] != "@"): ctx.add("m.reference_not_finite"); return
    if sdm:
        top = lambda k: max(np.abs(ra[k][v]).max() / np.abs(ra[ks[0]][v]).max() for v in ("rho", "energy"))
        keep = [k for q, k in enumerate(ks) if all(top(j) < 1e3 for j in ks[:q + 1])]
        if len(keep) < len(ks): ctx.add("m.blown_up")
        if not keep: return
        ks = keep; ra = {k: ra[k] for k in ks}; rb = {k: rb[k] for k in ks if k in rb}
    if not oracle.compare_h5(o, "direction", {k: turn(ra[k], sc) for k in ks}, rb, 1e-9, what, attrs=(), trtol=1e-9): return
    ctx.add("m.outputs_compared", len(ks))
    o.nontrivial = (p != [0, 1, 2] or any(sc["mirror"]) or any(sc["shift"])) and len(ks) > 1 and any(ra[ks[0]][v].tobytes() != ra[ks[-1]][v].tobytes() for v in ra[ks[0]] if v[0] != "@")
def shrink(sc):
    for k in ("mirror", "shift"):
        for a in range(3):
            if sc[k][a]: m = json.loads(json.dumps(sc)); m[k][a] = 0; yield m
    if sc["perm"] != [0, 1, 2]:
        m = json.loads(json.dumps(sc))
        if sc["fam"] != "mhd" and not any(sc["shift"]): m["perm"] = [0, 1, 2]; yield m
    if sc["layout"] != [1, 1, 1]: m = json.loads(json.dumps(sc)); m["layout"] = [1, 1, 1]; yield m
    for k in list(sc["ini"].get("sdm", {})):
        m = json.loads(json.dumps(sc)); del m["ini"]["sdm"][k]; yield m
