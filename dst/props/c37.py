"""C37: spectral-difference shock capturing repairs what it must and nothing else."""
import json
import numpy as np
from dst import gen, vtk
from dst.props import c21
ID = "C37"; LEVEL = "exploration"; VARIANTS = ["mpisdm", "sersdm"]
CASES = dict(quick=1500, thorough=30000); LIMIT = dict(quick=240, thorough=3000)
RULE = ("seed -> 2D spectral-difference solver of order 1 to 3 or 3D of order 2, start state, TVB constant, time integrator, decomposition, thread count and an adversarial schedule, heap and clock plan. A run of one vanishing time step shows what limiting and positivity preserving do to the start: every cell average has to be kept, and every cell has to be "
        "the one an executable model of the documented procedures gives (characteristic minmod slopes; density pulled to the average by the largest factor that keeps it positive), with positive density and pressure at every flux point, and pressure repaired by a contraction towards the average. "
        "Runs of strong explosions with both options on have to keep cell averages of density and pressure positive and everything finite. Non-trivial: at least one cell repaired and one kept (runs: all); distinct by mode, order, problem, options, decomposition.")
ASSUME = ["periodic boundaries", "limiter_characteristics_enabled=true (the code limits characteristic variables whatever it is set to)", "tolerance 1e-8 of each field's scale; cells within 1e-9 of a threshold of the limiter are not compared", "long runs: HLLC solver, CFL number at most 0.1, contrasts up to 1e7"]
f32 = lambda x: float(np.float32(x))
def gen_scenario(r, i, tier):
    dim = 3 if r.random() < 0.35 else 2; mode = r.choice(["limit", "limit", "positive", "both", "run"]); U = lambda a, b: round(r.uniform(a, b), 4)
    p = r.choice(["blast", "blast", "implode", "kelvin_helmholtz"] + (["four_quadrant", "sod", "gresho_vortex", "isentropic_vortex", "shu_osher"] if dim == 2 else [])) if mode == "limit" else r.choice(["blast", "blast", "implode"])
    sc = gen.scenario(r, "sdm", dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.3 else None, steps=r.randint(1, 4), order=r.choice([2, 2, 2, 3, 3, 3, 1]) if dim == 2 else 2, bc="periodic", problem=p)
    ini = sc["ini"]; m = ini["mesh"]; L = sc["layout"]; n = L[0] * L[1] * L[2]; sc["mode"] = mode
    ini["sdm"] = {r.choice(["forward_euler"] * 2 + ["ssprk2", "ssprk3", "ssprk54"]) if mode in ("limit", "run") else "forward_euler": "true"}
    if mode != "positive": ini["sdm"].update(limiter_enabled="true", limiter_characteristics_enabled="true"); M = r.choice([0.0, 0.0, 0.0, 0.0, U(0.01, 1), U(0.01, 1), U(1, 10), None])
    if mode != "positive" and M is not None: ini["sdm"]["M_TVB"] = M
    if mode != "limit": ini["sdm"]["positivity_enabled"] = "true"
    if mode != "limit":
        e = lambda a, b: float("%.4g" % 10 ** r.uniform(a, b)); at = lambda d: round(m[d + "min"] + (m[d + "max"] - m[d + "min"]) * r.uniform(.3, .7), 4)
        if p == "blast": ini["blast"] = dict(radius=U(0.2, 0.4), center_x=at("x"), center_y=at("y"), center_z=at("z"), density_in=e(-3, 1), density_out=e(-3, 1), pressure_in=e(-2, 3), pressure_out=e(-4, 0))
        else: ini["implode"] = dict(shape_region=r.choice([0, 1]), density_outer=e(-3, 1), density_inner=e(-3, 1), pressure_outer=e(-4, 1), pressure_inner=e(-4, 1), **{v + s: U(-2, 2) for v in ("vx", "vy", "vz")[:dim] for s in ("_inner", "_outer")})
    ini["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false")
    if mode == "run": ini["run"].update(nStepmax=r.choice([5, 10, 20]), nOutput=-1); ini["hydro"]["cfl"] = r.choice([0.05, 0.1]); ini["hydro"]["riemann"] = "hllc"
    else: ini["run"].update(tEnd=1e-13, nStepmax=3, nOutput=1)
    sc["par"] = n > 1 or r.random() < 0.5; sc["knobs"] = gen.knobs(r, n, r.choice([1, 1, 3]))
    return sc
V = lambda dim: ["rho", "energy"] + ["rho_v" + d for d in "xyz"[:dim]]
def cells(st, sc):
    """(variable, z, y, x, point z, point y, point x); 2D without z"""
    N, dim, G = sc["order"], sc["dim"], sc["grid"]; out = []
    for v in V(dim):
        a = st[[k for k in st if k.lower().replace("_", "") == v.replace("_", "")][0]] if v not in st else st[v]
        s = []
        for d in reversed(range(dim)): s += [G[d], N]
        out.append(a.reshape(s).transpose(list(range(0, 2 * dim, 2)) + list(range(1, 2 * dim, 2))))
    return np.array(out)
def points(N): return 0.5 * (1 - np.cos(np.pi * (2 * np.arange(N) + 1) / 2 / N))
def lagrange(N, at):
    x = points(N); return np.array([[np.prod([(t - x[k]) / (x[j] - x[k]) for k in range(N) if k != j]) for j in range(N)] for t in at])   # (at, N)
def average(A, dim, N):
    w = c21.weights(N)
    for _ in range(dim): A = A @ w
    return A
def slope(A, dim, N, d):
    """average over the cell of the derivative along d (cell units)"""
    w = c21.weights(N); x = points(N); P = np.polynomial.polynomial
    der = np.array([sum(w[q] * P.polyval(x[q], P.polyder(P.polyfit(x, np.eye(N)[j], N - 1))) for q in range(N)) if N > 1 else 0.0 for j in range(N)])
    for q in range(dim): A = A @ (der if q == d else w)    # the last axis is x
    return A
def right(U, dim, d, gam):
    rho, E, mom = U[0], U[1], U[2:]; v = mom / rho; q = 0.5 * (v ** 2).sum(); p = (gam - 1) * (E - rho * q); c = np.sqrt(gam * p / rho); H = (E + p) / rho; R = []
    for s in (-1, 0, 1):
        w = v.copy(); w[d] += s * c; R.append(np.concatenate([[1.0, H + s * v[d] * c if s else q], w]))
    for t in range(dim):
        if t != d: w = np.zeros(dim); w[t] = 1; R.append(np.concatenate([[0.0, v[t]], w]))
    return np.array(R).T
def limiter(A, sc, gam, M):
    """the documented procedure; returns the limited cells and a mask of the cells next to a threshold"""
    N, dim = sc["order"], sc["dim"]; ave = average(A, dim, N); out = A.copy(); amb = np.zeros(ave.shape[1:], bool); hit = np.zeros(ave.shape[1:], bool)
    S = [slope(A, dim, N, d) for d in range(dim)]; dl = [ave - np.roll(ave, 1, axis=dim - d) for d in range(dim)]; dr = [np.roll(ave, -1, axis=dim - d) - ave for d in range(dim)]
    x = points(N) - 0.5
    for c in np.ndindex(*ave.shape[1:]):
        k = (slice(None),) + c; U = ave[k]; ch = 0.0; new = []
        for d in range(dim):
            R = right(U, dim, d, gam); a, b, e = (np.linalg.solve(R, q[d][k]) for q in (S, dl, dr))
            m = np.where((a * b > 0) & (b * e > 0), np.sign(a) * np.minimum(np.abs(a), np.minimum(np.abs(b), np.abs(e))), 0.0); m = np.where(np.abs(a) < M, a, m)
            if M > 0 and (np.abs(np.abs(a) - M) < 1e-9 * (1 + M)).any(): amb[c] = True
            ch += np.abs(m - a).sum() / (dim + 2); new.append(R @ m)
        if 1e-12 < ch < 1e-8: amb[c] = True
        if ch > 1e-10:
            hit[c] = True; o = ave[k].reshape((-1,) + (1,) * dim) + np.zeros((dim + 2,) + (N,) * dim)
            for d in range(dim): o = o + new[d].reshape((-1,) + (1,) * dim) * x.reshape([N if q == dim - 1 - d else 1 for q in range(dim)])
            out[k] = o
    return out, amb, hit
def fluxpoints(A, dim, N):
    f = {1: [0, 1], 2: [0, .5, 1], 3: [0, .5 - .5 / 3 ** .5, .5 + .5 / 3 ** .5, 1]}[N]; Lg = lagrange(N, f); out = []
    for d in range(dim): B = np.moveaxis(np.tensordot(A, Lg, axes=(A.ndim - 1 - d, 1)), -1, A.ndim - 1 - d); out.append(B.reshape(B.shape[:dim + 1] + (-1,)))
    return np.concatenate(out, axis=-1)         # (var, cells..., points)
def press(U, gam): return (gam - 1) * (U[1] - 0.5 * (U[2:] ** 2).sum(axis=0) / U[0])
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; mode, dim, N = sc["mode"], sc["dim"], sc["order"]; gam = f32(i["hydro"]["gamma0"])
    M = f32(i["sdm"].get("M_TVB", 40)); lim = "limiter_enabled" in i["sdm"]; pos = "positivity_enabled" in i["sdm"]
    what = "%s: %dD order %d %s %s on %s ranks" % (mode, dim, N, i["hydro"]["problem"], sorted(i["sdm"].items()), L)
    o.key = (mode, dim, N, i["hydro"]["problem"], tuple(sorted(i["sdm"])), M == 0, tuple(L))
    x = ctx.run("mpisdm" if sc["par"] else "sersdm", gen.make_ini(sc, L), n, sc["knobs"], d=ctx.mkdir("run"))
    if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    H = vtk.sdm_states(x.dir); ks = sorted(H)
    if len(ks) < 2 or any(H[k] is None for k in ks): o.bad("output", what + ": unreadable or missing output"); return
    if mode == "run":
        for k in ks:
            A = cells(H[k], sc)
            a = average(A, dim, N)
            if not np.isfinite(A).all(): o.bad("not-finite", "%s: output %d" % (what, k)); return
            if a[0].min() <= 0 or press(a, gam).min() <= 0: o.bad("average", "%s: output %d: average density %.3g, pressure of the average %.3g" % (what, k, a[0].min(), press(a, gam).min())); return
        o.nontrivial = True; return
    A, B = cells(H[ks[0]], sc), cells(H[ks[-1]], sc); sh = (-1,) + (1,) * (2 * dim); sc1 = np.abs(A).max(axis=tuple(range(1, A.ndim))) 
    sc1[2:] = np.maximum(sc1[2:].max(), np.sqrt(sc1[0] * sc1[1])); tol = 1e-8
    a, b = average(A, dim, N), average(B, dim, N)
    e = np.abs(a - b) / sc1.reshape((-1,) + (1,) * dim)
    if not e.max() < tol: o.bad("average", "%s: a cell average changes by %.3g" % (what, e.max())); return
    err = lambda P, Q: (np.abs(P - Q) / sc1.reshape(sh)).max(axis=(0,) + tuple(range(dim + 1, 2 * dim + 1)))
    W = A; amb = np.zeros(a.shape[1:], bool); hit = amb
    if lim: W, amb, hit = limiter(A, sc, gam, M)
    if not pos:
        e = np.where(amb, 0, err(W, B))
        if e.max() > tol:
            c = np.unravel_index(e.argmax(), e.shape); k = (slice(None),) + c
            o.bad("limiter", "%s: cell %s differs from the limited polynomial by %.3g: limited %s, saved %s, before %s" % (what, [int(q) for q in c], e.max(), W[k][0].ravel(), B[k][0].ravel(), A[k][0].ravel())); return
        ctx.add("m.cells_limited", int(hit.sum())); ctx.add("m.cells_kept", int((~hit).sum())); o.nontrivial = hit.any() and not hit.all(); return
    F = fluxpoints(W, dim, N); dev = lambda Z: Z - a.reshape(a.shape + (1,) * dim)
    FB = fluxpoints(B, dim, N); sr = f32(i["hydro"].get("smallr", 1e-10))
    with np.errstate(all="ignore"): need1 = F[0].min(axis=-1) < sr
    if FB[0].min() < -1e-8 * sc1[0]: o.bad("density", "%s: density %.3g at a flux point" % (what, FB[0].min())); return
    pb = FB[1] * FB[0] - 0.5 * (FB[2:] ** 2).sum(axis=0)
    if pb.min() < -1e-8 * sc1[0] * sc1[1]: o.bad("pressure", "%s: pressure times density %.3g at a flux point" % (what, pb.min())); return
    # density is pulled towards the average by the largest factor which keeps it positive, then the whole state
    with np.errstate(all="ignore"): t1 = np.where(need1, (a[0] - sr) / (a[0] - F[0].min(axis=-1)), 1.0)
    W1 = W.copy(); W1[0] = a[0].reshape(a[0].shape + (1,) * dim) + t1.reshape(t1.shape + (1,) * dim) * dev(W)[0]
    F1 = fluxpoints(W1, dim, N); need2 = press(F1, gam).min(axis=-1) < 1e-12
    e = np.where(amb | need2, 0, err(W1, B))
    if e.max() > tol: o.bad("kept", "%s: a cell with positive pressure differs by %.3g from the one with positive density" % (what, e.max())); return
    # pressure: a contraction towards the average
    D1, DB = dev(W1), dev(B)
    for c in zip(*np.nonzero(need2 & ~amb)):
        k = (slice(None),) + c; u, w = D1[k].reshape(dim + 2, -1) / sc1[:, None], DB[k].reshape(dim + 2, -1) / sc1[:, None]; t = (u * w).sum() / max((u * u).sum(), 1e-300)
        if np.abs(w - t * u).max() > tol or not -tol <= t <= 1 + tol: o.bad("contraction", "%s: cell %s is not pulled towards its average (factor %.9g, off by %.3g)" % (what, c, t, np.abs(w - t * u).max())); return
        ctx.add("m.cells_pulled")
    ctx.add("m.cells_density", int(need1.sum())); ctx.add("m.cells_pressure", int(need2.sum())); o.nontrivial = bool(need1.any() or need2.any())
def shrink(sc):
    if sc["layout"] != [1, 1, 1]: m = json.loads(json.dumps(sc)); m["layout"] = [1, 1, 1]; m["par"] = False; m["knobs"]["threads"] = 1; yield m
