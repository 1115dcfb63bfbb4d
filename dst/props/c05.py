"""C05: one global time step that respects the CFL limit."""
import re
import numpy as np
from dst import gen, oracle, layout, vtk
ID = "C05"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> hydro (with and without gravity), MHD or spectral-difference problem or random state, options, boundary types, decomposition, schedule and reduction order; every step is saved and the time advanced between two outputs is compared with a reference "
        "computation of the CFL-limited step on the stored global state (last step: the remainder to tEnd, whose value is drawn so that many runs reach it; spectral-difference steps are read from the log, in eight digits). Non-trivial: at least two steps judged; distinct by solver, problem, options, boundary types and decomposition.")
ASSUME = ["parameters are the single-precision values the application's parameter reader delivers", "relative tolerance 1e-8 on the step", "non-isothermal equation of state"]
f32 = lambda x: float(np.float32(x))

def rate(sc, x, mesh):
    """largest signal rate over the domain, from the physics: stored conserved variables -> 1/dt * cfl"""
    dim = sc["dim"]; i = sc["ini"]; g = f32(i["hydro"]["gamma0"]); cfl = f32(i["hydro"]["cfl"])
    smallc = f32(i["hydro"].get("smallc", 1e-10)); smallr = f32(i["hydro"].get("smallr", 1e-10)); smallp = smallc ** 2 / g
    h = [(f32(mesh[a + "max"]) - f32(mesh[a + "min"])) / sc["grid"][q] for q, a in enumerate("xyz")][:dim]
    d = np.maximum(x["rho"], smallr)
    v = [x["rho_v" + a] / d for a in "xyz" if "rho_v" + a in x]
    ek = 0.5 * sum(q ** 2 for q in v)
    if sc["fam"] == "mhd":
        B = {k: x[k] for k in ("bx", "by", "bz")}
        e = layout.extend(B, dim, 1, mesh)
        C = []
        for q, a in enumerate("xyz"):
            b = e["b" + a]; ax = dim - 1 - q
            inner = tuple(slice(1, -1) for _ in range(dim))
            if q < dim:
                right = tuple(slice(2, None) if k == ax else slice(1, -1) for k in range(dim))
                C.append(0.5 * (b[inner] + b[right]))
            else: C.append(b[inner])
        b2 = sum(c ** 2 for c in C)
        p = np.maximum((g - 1) * d * ((x["energy"] - 0.5 * b2) / d - ek), d * smallp)
        c2 = g * p / d; s = 0.5 * (b2 / d + c2)
        R = sum((np.sqrt(s + np.sqrt(np.maximum(0, s * s - c2 * C[q] ** 2 / d))) + np.abs(v[q])) / h[q] for q in range(dim))
        return R.max(), cfl
    p = np.maximum((g - 1) * d * (x["energy"] / d - ek), d * (1e-7 if sc["fam"] == "sdm" else smallp))
    c = np.sqrt(g * p / d)
    if sc["fam"] == "sdm": h = [q / sc["order"] for q in h]
    if "gravity" in i:
        G = gravity(sc, mesh)
        u = sum(c + np.abs(q) for q in v[:dim]); hm = min(h)
        k = np.maximum(sum(np.abs(q) for q in G) * cfl * hm / u ** 2, 1e-4)
        return (u * k / (np.sqrt(1 + 2 * k) - 1) / hm).max(), cfl
    return sum((c + np.abs(v[q])) / h[q] for q in range(dim)).max(), cfl

def gravity(sc, mesh):
    i = sc["ini"]; p = i["hydro"]["problem"]; dim = sc["dim"]
    sec = i.get(p, {})
    if p == "disk": raise KeyError("disk gravity is not modelled")
    s = i.get("rayleigh_taylor", {}) if p == "rayleigh_taylor" else i.get("rising_bubble", {})
    return [np.float64(f32(s.get("g" + a, 0.0))) for a in "xyz"[:dim]]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.4 else 2
    if fam == "sdm":
        sc = gen.scenario(r, fam, dim, maxr=8 if tier == "quick" else 12, layout=(1, 1, 1) if r.random() < 0.25 else None, steps=r.randint(2, 6), order=r.choice([1, 2, 3]) if dim == 2 else 2)
        L = sc["layout"]; n = L[0] * L[1] * L[2]; sc["par"] = n > 1 or r.random() < 0.2
        sc["knobs"] = gen.knobs(r, n); sc["frac"] = r.choice([None, r.uniform(0.05, 6)])
        sc["ini"]["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false")
        return sc
    while True:
        sc = gen.scenario(r, fam, dim, maxr=8 if tier == "quick" else 12, layout=(1, 1, 1) if r.random() < 0.25 else None, steps=r.randint(2, 8), restart_p=0.5, rand=True)
        if sc["ini"]["hydro"]["problem"] not in ("disk", "wave"): break
    if sc["ini"]["hydro"]["problem"] in ("rayleigh_taylor", "rising_bubble"):
        sc["ini"][sc["ini"]["hydro"]["problem"]] = dict(gx=r.choice([0.0, 0.05, -1.0]), gy=r.choice([-0.1, -3.0]), gz=r.choice([0.0, -0.2]))
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.2
    sc["knobs"] = gen.knobs(r, n); sc["frac"] = r.choice([None, r.uniform(0.05, 6), r.uniform(0.05, 6)])
    return sc
def sdm_step(sc, x, m):
    """the limit on the step of a spectral-difference state"""
    R, cfl = rate(sc, x, m); dt = cfl / R; s = sc["ini"].get("sdm", {}); N = sc["order"]
    if s.get("rescale_dt_enabled") == "true" and N >= 2 and not s.get("ssprk2") and (s.get("ssprk3") or s.get("ssprk54")): dt **= (N + 1.0) / 3.0
    return dt
def admissible(sc, x):
    d = x["rho"]
    return (d > 1e-6).all() and ((f32(sc["ini"]["hydro"]["gamma0"]) - 1) * (x["energy"] - 0.5 * sum(x["rho_v" + q] ** 2 for q in "xyz" if "rho_v" + q in x) / d) > 1e-6 * d).all()
def run_sdm(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; v = "mpisdm" if sc["par"] else "sersdm"; m = i["mesh"]; over = {}
    bcs = tuple(sorted((k, q) for k, q in m.items() if "bound" in k))
    o.key = ("sdm", sc["dim"], sc["order"], i["hydro"]["problem"], i["hydro"]["riemann"], tuple(sorted(i.get("sdm", {}).items())), bcs, tuple(L))
    if sc["frac"]:
        d = ctx.mkdir("probe"); res = ctx.run(v, gen.make_ini(sc, L, dict(run=dict(nStepmax=0))), n, None, d=d); H = vtk.sdm_states(d)
        if not res.ok or H.get(0) is None: o.bad("run-failed", "start state not written: " + res.why()); return
        over = dict(run=dict(tEnd=float("%.7g" % (sc["frac"] * sdm_step(sc, H[0], m)))))
    d = ctx.mkdir("run"); ini = gen.make_ini(sc, L, over); res = ctx.run(v, ini, n, sc["knobs"], d=d)
    if not res.ok: o.bad("run-failed", res.why()); return
    H = vtk.sdm_states(d); tEnd = f32(ini["run"]["tEnd"])
    log = [(int(a), float(b), float(c)) for a, b, c in re.findall(r"time   step= *(\d+) \(dt= *(\S+) t= *(\S+)\)", res.alltext(n))]
    if [a for a, b, c in log] != list(range(len(log))): o.bad("log", "%s: steps of the log are %s" % (o.key, [a for a, b, c in log])); return
    if any(H.get(k) is None for k in range(len(log) + 1)): o.bad("output", "%s: unreadable or missing outputs, %s of %d" % (o.key, sorted(H), len(log) + 1)); return
    judged = 0; t = 0.0
    for k in range(len(log)):
        a = H[k + 1]
        if not all(np.isfinite(a[q]).all() for q in a if q[0] != "@"): ctx.add("m.not_finite"); return
        if not admissible(sc, a): ctx.add("m.not_admissible"); return      # an unlimited scheme at a strong jump
        if abs(log[k][2] - t) > 1e-6 * t + 1e-7: o.bad("time", "%s: step %d starts at %r, the steps before add up to %r" % (o.key, k, log[k][2], t)); return
        lim = sdm_step(sc, a, m); want = min(lim, tEnd - t)
        if k + 1 < len(log):
            got = log[k + 1][1]; judged += 1
            if abs(got - want) > 2e-7 * want + (1e-6 * t if want < lim else 0): o.bad("dt", "%s: step %d from t=%.10g advances by %.10g; the CFL limit over the domain gives %.10g, remaining time %.10g" % (o.key, k, t, got, lim, tEnd - t)); return
        t += want
    f = re.search(r"final time is (\S+)", res.alltext(n))
    if f and abs(float(f.group(1)) - t) > 1e-6 * t + 2e-6: o.bad("time", "%s: final time %s, the steps add up to %r" % (o.key, f.group(1), t)); return
    if len(log) < i["run"]["nStepmax"] and abs(t - tEnd) > 1e-6 * tEnd: o.bad("early", "stopped at %r after %d steps (tEnd %r, nStepmax %d)" % (t, len(log), tEnd, i["run"]["nStepmax"])); return
    ctx.add("m.sdm_steps_judged", judged); o.nontrivial = judged >= 1
def run(sc, ctx, o):
    if sc["fam"] == "sdm": return run_sdm(sc, ctx, o)
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; v = "mpi" if sc["par"] else "ser"
    over = {}
    m = i["mesh"]
    if sc["frac"]:
        d = ctx.mkdir("probe"); oracle.put_restart(sc, d, L, sc["par"])
        res = ctx.run(v, gen.make_ini(sc, L, dict(run=dict(nStepmax=0))), n, None, d=d)
        H = res.h5s()
        if not res.ok or 0 not in H: o.bad("run-failed", "start state not written: " + res.why()); return
        R, cfl = rate(sc, H[0], m); over = dict(run=dict(tEnd=float("%.7g" % (sc["frac"] * cfl / R))))
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, sc["par"])
    ini = gen.make_ini(sc, L, over)
    res = ctx.run(v, ini, n, sc["knobs"], d=d)
    if not res.ok: o.bad("run-failed", res.why()); return
    tEnd = f32(ini["run"]["tEnd"])
    H = res.h5s(); ks = sorted(H)
    bcs = tuple(sorted((k, q) for k, q in m.items() if "bound" in k))
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["OTHER"]["implementationVersion"], bcs, tuple(L))
    if not ks or any(H[k] is None for k in ks): o.bad("output", "unreadable outputs"); return
    judged = 0
    seq = []                                         # distinct states in time order
    for k in ks:
        if not seq or H[k]["@total time"] != seq[-1][1]["@total time"]: seq.append((k, H[k]))
    for (k, a), (k2, b) in zip(seq, seq[1:]):
        if not all(np.isfinite(a[q]).all() for q in a if q[0] != "@"): ctx.add("m.not_finite"); return
        R, cfl = rate(sc, a, m)
        t, t2 = a["@total time"], b["@total time"]
        want = min(cfl / R, tEnd - t); got = t2 - t
        judged += 1
        if want == tEnd - t and want < cfl / R: ctx.add("m.clamped_steps")
        if abs(got - want) > 1e-8 * want + 4e-16 * abs(t2):
            o.bad("dt", "%s: step from output %d (t=%.17g) advances by %.17g; the CFL limit over the domain gives %.17g%s" % (o.key, k, t, got, cfl / R, ", remaining time %.17g" % (tEnd - t))); return
        if got > (cfl / R) * (1 + 1e-8): o.bad("cfl", "%s: step of %.17g exceeds the limit %.17g" % (o.key, got, cfl / R)); return
    if len(seq) - 1 < i["run"]["nStepmax"] and seq[-1][1]["@total time"] != tEnd and abs(seq[-1][1]["@total time"] - tEnd) > 1e-14: o.bad("early", "stopped at %r after %d steps (tEnd %r, nStepmax %d)" % (seq[-1][1]["@total time"], len(seq) - 1, tEnd, i["run"]["nStepmax"])); return
    ctx.add("m.steps_judged", judged); o.nontrivial = judged >= 2
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
