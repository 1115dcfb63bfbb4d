"""C36: gravity accelerates the gas exactly as prescribed."""
import json
import numpy as np
from dst import gen, oracle, h5
from dst.props import c33
ID = "C36"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=2000, thorough=40000)
RULE = ("seed -> 2D or 3D hydrodynamics with the uniform field of the Rayleigh-Taylor or rising-bubble problem or the softened point mass of the disk, every Riemann solver, slope and implementation version, decomposition, adversarial schedule and message delays, and one of: a uniform flow on a periodic or open domain, "
        "which has to fall with the given acceleration and keep its density and pressure; a random state on a periodic domain, whose momentum and energy have to change from output to output by exactly the impulse and the work of the field on its mass, at constant mass; one short step of gas at rest, which measures the field in every cell; "
        "an advected density wave falling through a periodic box at two resolutions, whose phase has to follow the accelerated frame to second order in the time step. The run starts from a checkpoint, so that the field is the one a restarted run rebuilds. Non-trivial: an acceleration that changes the velocities; distinct by mode, problem, solver, options, field direction, boundary types, decomposition.")
ASSUME = ["tolerance 1e-11 of each field's scale (uniform flows and budgets), 1e-5 of the largest acceleration (measured fields)", "the point mass sits at the centre of the disk (gravity.x, y, z are left at 0)"]
D = "xyz"
def gen_scenario(r, i, tier):
    mode = r.choice(["fall", "budget", "budget", "field", "drift"]); dim = 3 if r.random() < 0.5 else 2
    sc = gen.scenario(r, "hydro", dim, maxr=6, bc="periodic", layout=(1, 1, 1) if r.random() < 0.35 else None, problem="rayleigh_taylor", restart_p=0, steps=r.randint(1, 8), maxcells=500 if dim == 2 else 1200)
    ini = sc["ini"]; m = ini["mesh"]; U = lambda a, b: round(r.uniform(a, b), 4); sc["mode"] = mode; sc["seed"] = r.getrandbits(40); sc["amp"] = r.choice([0.05, 0.2, 0.5])
    p = r.choice(["rayleigh_taylor", "rising_bubble"] + ["disk"] * (2 if mode == "field" else 0)); ini["hydro"]["problem"] = p; ini.pop("rayleigh_taylor", None)
    if p == "disk":
        ini["gravity"] = dict(point="true", **(dict(G=U(0.5, 2), M=U(0.5, 2)) if r.random() < 0.7 else {}), **(dict(soften=U(0.01, 0.3)) if r.random() < 0.7 else {}))
        ini["disk"] = dict(radius=0.3, **({d + "c": m[d + "min"] + U(0.1, 0.9) * (m[d + "max"] - m[d + "min"]) for d in D} if r.random() < 0.6 else {}))
    else:
        s = r.choice([0.1, 1.0, 1.0, 4.0]); ax = r.choice([[0], [1], [dim - 1], list(range(dim))])
        ini[p] = {"g" + d: round(r.uniform(-s, s), 4) if q in ax else 0.0 for q, d in enumerate(D)}
        if r.random() < 0.15: del ini[p]["gy"]            # the default
    if mode in ("fall", "field"):
        for d in range(dim):
            if r.random() < 0.5:
                for e in ("min", "max"): m["boundary_type_" + D[d] + e] = 2
    sc["state"] = dict(rho=U(0.3, 3), p=U(0.3, 3), v=[0.0 if mode == "field" else r.choice([U(-1, 1), U(-3, 3), 0.0]) for _ in range(dim)])
    if mode == "field": ini["run"].update(tEnd=1e-7, nStepmax=3, nOutput=1)
    if mode == "drift":
        a = sc["axis"] = r.randrange(dim); n = [4] * dim + [1] * (3 - dim); n[a] = 24; sc["grid"] = n; sc["state"]["v"] = [U(-0.5, 0.5) for _ in range(dim)]; sc["state"]["p"] = U(0.5, 1.5)
        for q, d in enumerate(D): m[d + "min"] = U(-1, 1); m[d + "max"] = m[d + "min"] + (1.0 if q == a else U(0.8, 1.2) * n[q] / 24)
        g = r.choice([1, -1]) * U(1.5, 3); ini[p] = {"g" + d: (g if q == a else r.choice([0.0, U(-1, 1)])) for q, d in enumerate(D)}
        ini["run"].update(tEnd=U(0.4, 0.6), nStepmax=10 ** 6, nOutput=1); sc["factor"] = 2; ini["hydro"]["slope_type"] = r.choice([1, 2]); ini["hydro"]["cfl"] = r.choice([0.5, 0.7])
        ok = [L for L in [(1, 1, 1)] + gen.layouts(dim, 6) if all(n[q] % L[q] == 0 and n[q] // L[q] >= 2 for q in range(dim))]; sc["layout"] = list(r.choice(ok))
    L = sc["layout"]; N = L[0] * L[1] * L[2]; sc["par"] = N > 1 or r.random() < 0.3; sc["knobs"] = gen.knobs(r, N); sc["restart"] = True
    return sc
def field(sc):
    i = sc["ini"]; p = i["hydro"]["problem"]; return [float(np.float32(i[p].get("g" + d, -0.1 if d == "y" else 0.0))) for d in D[:sc["dim"]]]
def mesh(sc, f=1):
    m = sc["ini"]["mesh"]; dim = sc["dim"]; G = [n * (f if n > 4 or sc["mode"] != "drift" else 1) for n in sc["grid"][:dim]] + [1] * (3 - dim)
    lo = [float(np.float32(m[d + "min"])) for d in D]; return G, lo, [(float(np.float32(m[d + "max"])) - lo[q]) / G[q] for q, d in enumerate(D)]
def solve(sc, ctx, F, G, name, what, o):
    L = sc["layout"]; t = json.loads(json.dumps(sc)); t["grid"] = G; d = ctx.mkdir(name); at = {"time step": 0, "nx": G[0] // L[0], "ny": G[1] // L[1], "nz": G[2] // L[2], "ghost zone included": 0}
    if sc["par"]: at.update(mx=L[0], my=L[1], mz=L[2])
    h5.write(d + "/restart.h5", F, at, 0.0)
    x = ctx.run("mpi" if sc["par"] else "ser", gen.make_ini(t, L), L[0] * L[1] * L[2], sc["knobs"], d=d)
    if not x.ok: o.bad("run-failed", what + ": " + x.why()); return None
    H = x.h5s(); ks = sorted(H)
    if len(ks) < 2 or any(H[k] is None for k in ks): o.bad("output", what + ": unreadable or missing outputs"); return None
    return [H[k] for k in ks]
def run(sc, ctx, o):
    mode, dim = sc["mode"], sc["dim"]; i = sc["ini"]; hy = i["hydro"]; p = hy["problem"]; gam = float(np.float32(hy["gamma0"])); s = sc["state"]
    bcs = tuple(sorted((q, w) for q, w in i["mesh"].items() if "bound" in q)); gd = "point" if p == "disk" else tuple(np.sign(field(sc)))
    o.key = (mode, dim, p, hy["riemann"], i["OTHER"]["implementationVersion"], hy["slope_type"], gd, bcs, tuple(sc["layout"]))
    what = "%s: %dD %s %s version %s slope %s on %s" % (mode, dim, p, hy["riemann"], i["OTHER"]["implementationVersion"], hy["slope_type"], sc["layout"])
    G, lo, h = mesh(sc); sh = tuple(G[:dim])[::-1]; one = np.ones(sh)
    def state(rho, v, pr):
        f = {"rho": rho, "energy": pr / (gam - 1) + 0.5 * rho * sum(q * q for q in v)}
        for q in range(dim): f["rho_v" + D[q]] = rho * v[q]
        return f
    if mode == "drift": return drift(sc, ctx, o, state, what)
    if mode == "budget": F = gen.fields("hydro", dim, G, sc["seed"], sc["amp"], gam, ext=h)
    else: F = state(s["rho"] * one, [q * one for q in s["v"]], s["p"] * one)
    H = solve(sc, ctx, F, G, "run", what, o)
    if H is None: return
    T = [x["@total time"] for x in H]
    if mode == "fall":
        g = field(sc)
        want = {}
        for k, x in enumerate(H):
            v = [s["v"][q] + g[q] * T[k] for q in range(dim)]; w = state(s["rho"] * one, [q * one for q in v], s["p"] * one)
            want[k] = {q: (A if q[0] == "@" else w[q]) for q, A in x.items()}
        if not oracle.compare_h5(o, "fall", want, dict(enumerate(H)), 1e-11, what + ": a uniform flow in the field %s" % g, attrs=()): return
        ctx.add("m.outputs_compared", len(H)); o.nontrivial = any(g) and T[-1] > 0; return
    if mode == "budget":
        g = field(sc); M = F["rho"].sum(); es = np.abs(F["energy"]).sum(); ps = np.sqrt(M * es)
        for k in range(1, len(H)):
            a, b, dt = H[k - 1], H[k], T[k] - T[k - 1]
            if not all(np.isfinite(b[q]).all() for q in F): ctx.add("m.not_finite"); return
            if abs(b["rho"].sum() - M) > 1e-11 * M: o.bad("mass", "%s: mass changes from %.17g to %.17g" % (what, M, b["rho"].sum())); return
            w = 0.0; ps = max(ps, np.sqrt(M * np.abs(b["energy"]).sum())); es = max(es, np.abs(b["energy"]).sum()); I = 0.5 * dt * (a["rho"] + b["rho"])
            for q in range(dim):
                n = "rho_v" + D[q]; d = b[n].sum() - a[n].sum() - g[q] * dt * M; w = w + (b[n] ** 2 - (b[n] - g[q] * I) ** 2).astype(np.longdouble) / (2 * b["rho"])
                if abs(d) > 1e-11 * ps: o.bad("impulse", "%s: between outputs %d and %d the momentum along %s changes by %.12g, the field %s acting on the mass for the time %g gives %.12g" % (what, k - 1, k, D[q], b[n].sum() - a[n].sum(), g, dt, g[q] * dt * M)); return
            d = b["energy"].sum() - a["energy"].sum() - float(w.sum())
            if abs(d) > 1e-11 * es: o.bad("work", "%s: between outputs %d and %d the energy changes by %.12g, the field does the work %.12g" % (what, k - 1, k, b["energy"].sum() - a["energy"].sum(), float(w.sum()))); return
        ctx.add("m.budgets", (len(H) - 1) * (dim + 2)); o.nontrivial = any(g); return
    # the field in every cell, from one short step
    if p == "disk":
        P = lambda sec, k, d: float(np.float32(i.get(sec, {}).get(k, d))); hi = [lo[q] + h[q] * sc["grid"][q] for q in range(3)]
        X = c33.grids(G, lo, h, dim); c = [P("disk", d + "c", (lo[q] + hi[q]) / 2) for q, d in enumerate(D)]; X = [X[q] - c[q] for q in range(dim)]
        r3 = (sum(q * q for q in X) + P("gravity", "soften", .01) ** 2) ** 1.5; g = [-P("gravity", "G", 1) * P("gravity", "M", 1) * q / r3 for q in X]
    else: g = [q * one for q in field(sc)]
    if abs(T[-1] - 1e-7) > 1e-12: o.bad("time", "%s: last output at %r" % (what, T[-1])); return
    top = max(np.abs(q).max() for q in g); b = H[-1]
    for q in range(dim):
        e = np.abs(b["rho_v" + D[q]] / b["rho"] / T[-1] - g[q])
        if e.max() > 1e-5 * top + 1e-7 * s["p"] ** 0.5:
            j = np.unravel_index(e.argmax(), e.shape); o.bad("field", "%s: acceleration along %s in cell %s is %.9g, prescribed is %.9g" % (what, D[q], j, b["rho_v" + D[q]][j] / b["rho"][j] / T[-1], g[q][j])); return
    if np.abs(b["rho"] - s["rho"]).max() > 1e-5 * s["rho"]: o.bad("field", what + ": density changes"); return
    ctx.add("m.cells_measured", b["rho"].size); o.nontrivial = top > 0
def drift(sc, ctx, o, state, what):
    dim, a, s = sc["dim"], sc["axis"], sc["state"]; g = field(sc); E = []
    for f in (1, 2):
        G, lo, h = mesh(sc, f); X = c33.grids(G, lo, h, dim); ph = 2 * np.pi * (X[a] - lo[a]) / (h[a] * G[a]); sh = ph.shape
        H = solve(sc, ctx, state(s["rho"] * (1 + 0.2 * np.cos(ph)), [q * np.ones(sh) for q in s["v"]], s["p"] * np.ones(sh)), G, "res%d" % f, what, o)
        if H is None: return
        x, t = H[-1], H[-1]["@total time"]; z = (x["rho"] * np.exp(-1j * ph)).sum(); k = 2 * np.pi / (h[a] * G[a])
        E.append(float(abs(np.angle(z * np.exp(1j * k * (s["v"][a] * t + 0.5 * g[a] * t * t))))))
        v = [np.abs(x["rho_v" + D[q]] / x["rho"] - s["v"][q] - g[q] * t).max() for q in range(dim)]
        if max(v) > 1e-3: o.bad("velocity", "%s: velocities are off by %.3g" % (what, max(v))); return
    if __import__("os").environ.get("PPK_ERR"): print("ERR", what, E, E[0] / max(E[1], 1e-300))
    ctx.add("m.phases"); o.nontrivial = True
    if E[1] > max(E[0] / 2.6, 3.5e-3): o.bad("phase", "%s: the phase of a falling density wave is off by %.3g, and by %.3g on a finer mesh" % (what, E[0], E[1]))
def shrink(sc):
    if sc["layout"] != [1, 1, 1] and sc["mode"] == "drift": m = json.loads(json.dumps(sc)); m["layout"] = [1, 1, 1]; m["par"] = False; yield m
    if sc["ini"]["run"]["nStepmax"] > 1 and sc["mode"] in ("fall", "budget"): m = json.loads(json.dumps(sc)); m["ini"]["run"]["nStepmax"] = 1; yield m
