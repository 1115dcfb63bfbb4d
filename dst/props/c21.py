"""C21: spectral-difference runs are decomposition and schedule independent, and conservative."""
import json
import numpy as np
from dst import gen, oracle, vtk
ID = "C21"; LEVEL = "exploration"; VARIANTS = ["mpisdm", "sersdm"]
CASES = dict(quick=2000, thorough=30000); LIMIT = dict(quick=240, thorough=3000)
RULE = ("seed -> spectral-difference solver (2D order 1 to 3, 3D order 2), problem, time integrator, limiter and positivity options, boundary types, decomposition, thread count and an adversarial schedule, heap and clock plan. Every output of the simulated job is decoded, "
        "ordered by position and compared with the one-rank one-thread run; on periodic domains the cell integrals (quadrature weights of the solution points) of density, momentum and energy are compared with those of the start. "
        "Non-trivial: at least one step with a changing field; distinct by solver, problem, options, boundary types, decomposition.")
ASSUME = ["orders instantiated in the simulated image: 2D 1, 2, 3 and 3D 2 (the others are built from the same templates)", "viscous terms (mu > 0) end every run at once: a known finding, so nothing is known about their results", "decomposition tolerance 1e-10 of each field's scale, conservation 1e-11 of the integral of absolute values", "physical time is printed in single precision in the VTK output, compared through the printed step log"]
def gen_scenario(r, i, tier):
    dim = 3 if r.random() < 0.3 else 2
    sc = gen.scenario(r, "sdm", dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.2 else None, steps=r.randint(1, 4), order=r.choice([1, 2, 3]) if dim == 2 else 2, bc=r.choice(["any", "periodic"]))
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.5
    k = gen.knobs(r, n, r.choice([1, 1, 2, 5]))
    sc["knobs"] = k
    sc["ini"]["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii=r.choice(["false", "false", "true"]))
    if r.random() < 0.01: sc["ini"]["hydro"]["mu"] = r.choice([0.01, 0.001]); sc["ini"]["sdm"].pop("limiter_enabled", None)
    return sc
def weights(N):
    x = 0.5 * (1 - np.cos(np.pi * (2 * np.arange(N) + 1) / 2 / N))
    V = np.vander(x, N, increasing=True).T
    return np.linalg.solve(V, 1.0 / (1 + np.arange(N)))
def integrals(st, sc):
    """sum over cells of sum_i w_i U_i; states are in order of position, so consecutive groups of N along each axis form a cell"""
    N, dim, G = sc["order"], sc["dim"], sc["grid"]
    w = weights(N)
    out = {}
    for v in st:
        if v[0] == "@": continue
        a = st[v].reshape([G[d] * N for d in range(dim)][::-1])
        for ax in range(dim):
            a = np.moveaxis(np.tensordot(a.reshape(a.shape[:ax] + (a.shape[ax] // N, N) + a.shape[ax + 1:]), w, axes=(ax + 1, 0)), 0, 0)
        out[v] = (a.sum(), np.abs(a).sum())
    return out
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]
    d0, d1 = ctx.mkdir("ref"), ctx.mkdir("run")
    a = ctx.run("sersdm", gen.make_ini(sc, [1, 1, 1]), 1, None, d=d0)
    b = ctx.run("mpisdm" if sc["par"] else "sersdm", gen.make_ini(sc, L), n, sc["knobs"], d=d1)
    bcs = tuple(sorted((q, w) for q, w in i["mesh"].items() if "bound" in q))
    o.key = (sc["dim"], sc["order"], i["hydro"]["problem"], tuple(sorted(i["sdm"].items())), bcs, tuple(L), i["hydro"]["riemann"])
    what = "%dD order %d %s %s on %s ranks" % (sc["dim"], sc["order"], i["hydro"]["problem"], sorted(i["sdm"]), L)
    if i["hydro"].get("mu") and "signal" in (a.how, b.how): o.bad("viscous", "%s: mu=%s: %s" % (what, i["hydro"]["mu"], a.why() if not a.ok else b.why()), key="viscous-crash"); return
    if not a.ok: o.bad("reference-failed", what + ": one rank: " + a.why()); return
    if not b.ok: o.bad("run-failed", what + ": " + b.why()); return
    ra, rb = vtk.sdm_states(a.dir), vtk.sdm_states(b.dir)
    ks = sorted(ra)
    if not ks or any(ra[k] is None for k in ks): o.bad("output", what + ": unreadable reference output"); return
    import re
    la, lb = [[re.sub(r"\s+", " ", l) for q in range(m) for l in x.out(q).splitlines() if l.startswith("time   step")] for x, m in ((a, 1), (b, n))]
    if la != lb: o.bad("steps", "%s: step log %s versus %s" % (what, la, lb)); return
    asc = i["output"]["outputVtkAscii"] == "true"
    if rb and any(x is None for x in rb.values()): o.bad('output', what + ': unreadable output'); return
    fin = all(np.isfinite(ra[k][v]).all() for k in ks for v in ra[k] if v[0] != "@")
    if not fin: ctx.add("m.reference_not_finite"); return
    top = lambda k: max(np.abs(ra[k]["rho"]).max() / np.abs(ra[ks[0]]["rho"]).max(), np.abs(ra[k]["energy"]).max() / np.abs(ra[ks[0]]["energy"]).max())
    keep = [k for q, k in enumerate(ks) if all(top(j) < 1e3 for j in ks[:q + 1])]   # an unlimited scheme may blow up on a shock: not judged from there on
    if len(keep) < len(ks):
        ctx.add("m.blown_up")
        if sorted(rb) != ks: o.bad("decomposition", "%s: outputs %s versus %s" % (what, ks, sorted(rb))); return
        if not keep: return
        ks = keep; ra = {k: ra[k] for k in ks}; rb = {k: rb[k] for k in ks}
    if not oracle.compare_h5(o, "decomposition", ra, rb, 2e-5 if asc else 1e-10, what, attrs=()): return
    for k in ks:   # the subcells must be at the same places
        if np.abs(ra[k]["@centre"] - rb[k]["@centre"]).max() > 1e-5 * max(1, np.abs(ra[k]["@centre"]).max()): o.bad("geometry", "%s: output %d places its cells elsewhere" % (what, k)); return
    o.nontrivial = len(ks) > 2 and any(ra[ks[0]][v].tobytes() != ra[ks[-1]][v].tobytes() for v in ra[ks[0]] if v[0] != "@")
    ctx.add("m.outputs_compared", len(ks))
    if all(w == 3 for q, w in bcs) and not asc:
        I0 = integrals(rb[ks[0]], sc); mom = np.sqrt(I0["rho"][1] * I0["energy"][1])
        for k in ks[1:]:
            I = integrals(rb[k], sc)
            for v in I:
                e = abs(I[v][0] - I0[v][0]) / max(mom if v.startswith("rho_v") else I0[v][1], I[v][1])
                if e > 1e-11: o.bad("not-conserved", "%s: integral of %s changes by %.3g of its scale at output %d (%.17g -> %.17g)" % (what, v, e, k, I0[v][0], I[v][0])); return
        ctx.add("m.conservation_checked", len(ks) - 1)
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
    for k in list(sc["ini"]["sdm"]):
        n = json.loads(json.dumps(sc)); del n["ini"]["sdm"][k]; yield n
