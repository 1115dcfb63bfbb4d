"""C33: smooth solutions converge at the design order, discontinuous ones to the entropy solution."""
import json
import numpy as np
from dst import gen, vtk, h5
ID = "C33"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=500, thorough=15000)
RULE = ("seed -> hydro, MHD or spectral difference, every Riemann solver, slope and implementation version, and one problem with a known solution: a plane linear wave of any family (entropy, shear, sound; fast, Alfven, slow) on a random uniform moving and magnetised state, along an axis or oblique; a random shock tube along any axis "
        "(exact Riemann solution; for MHD an independent one-dimensional solver); a moving isentropic vortex (also at three time steps on one mesh, for the order of the time integrator), Sod's tube and the interfaces of the four-quadrant problem for spectral difference; a gas at rest in hydrostatic equilibrium. Each is run at two (three) resolutions, with its own decomposition, adversarial schedule and message delays, and the error against the solution has to fall as the order of the scheme demands. Non-trivial: an error that could be compared at both resolutions; distinct by mode, solver, options, direction, wave family, decomposition.")
ASSUME = ["the demanded rates leave room for coarse resolutions and limiters at extrema", "MHD tubes are compared with a second order one-dimensional solver of the harness at several times the resolution"]
D = "xyz"

# ------------------------------------------------------------------------------------------------ exact solutions
def riemann(L, R, g, xi):
    """exact solution of the Riemann problem of (rho, un, p) states, at xi = x/t: rho, un, p, left_of_contact"""
    (rl, ul, pl), (rr, ur, pr) = L, R
    al, ar = np.sqrt(g * pl / rl), np.sqrt(g * pr / rr)
    def f(p, r, q, a):
        if p > q: A, B = 2 / (g + 1) / r, (g - 1) / (g + 1) * q; s = np.sqrt(A / (p + B)); return (p - q) * s, s * (1 - (p - q) / 2 / (p + B))
        return 2 * a / (g - 1) * ((p / q) ** ((g - 1) / 2 / g) - 1), 1 / r / a * (p / q) ** (-(g + 1) / 2 / g)
    lo, hi = 1e-12, 1e4
    for _ in range(200):
        p = (lo * hi) ** 0.5
        if f(p, rl, pl, al)[0] + f(p, rr, pr, ar)[0] + ur - ul > 0: hi = p
        else: lo = p
    u = 0.5 * (ul + ur) + 0.5 * (f(p, rr, pr, ar)[0] - f(p, rl, pl, al)[0])
    def side(r, q, v, a, s, xi):     # the wave on one side, seen in s*x
        v, us, xi = s * v, s * u, s * xi                       # now the undisturbed gas is on the right
        if p > q:
            S = v + a * np.sqrt((g + 1) / 2 / g * p / q + (g - 1) / 2 / g); z = p / q; k = (g - 1) / (g + 1); ins = xi < S
            return np.where(ins, r * (z + k) / (k * z + 1), r), s * np.where(ins, us, v), np.where(ins, p, q)
        rs = r * (p / q) ** (1 / g); as_ = a * (p / q) ** ((g - 1) / 2 / g); hd, tl = v + a, us + as_
        c = 2 / (g + 1) - (g - 1) / (g + 1) / a * (v - xi); c = np.maximum(c, 1e-12)
        fan = (xi > tl) & (xi < hd)
        rr_ = np.where(xi <= tl, rs, np.where(fan, r * c ** (2 / (g - 1)), r)); uu = np.where(xi <= tl, us, np.where(fan, 2 / (g + 1) * (-a + (g - 1) / 2 * v + xi), v)); pp = np.where(xi <= tl, p, np.where(fan, q * c ** (2 * g / (g - 1)), q))
        return rr_, s * uu, pp
    left = xi < u
    a, b = side(rl, pl, ul, al, -1, xi), side(rr, pr, ur, ar, 1, xi)
    return np.where(left, a[0], b[0]), np.where(left, a[1], b[1]), np.where(left, a[2], b[2]), left

def mhd1d(WL, WR, bn, g, x0, lo, hi, t1, n):
    """second order one-dimensional MHD solver; rows of W: rho, un, ut1, ut2, p, bt1, bt2; returns cell centres and W"""
    h = (hi - lo) / n; x = lo + (np.arange(n) + 0.5) * h; W = np.where(x < x0, np.array(WL)[:, None], np.array(WR)[:, None])
    def cons(W): r, u, v, w, p, b, c = W; return np.array([r, r * u, r * v, r * w, p / (g - 1) + 0.5 * r * (u * u + v * v + w * w) + 0.5 * (bn * bn + b * b + c * c), b, c])
    def prim(U): r = U[0]; u, v, w = U[1:4] / r; b, c = U[5:]; return np.array([r, u, v, w, (g - 1) * (U[4] - 0.5 * r * (u * u + v * v + w * w) - 0.5 * (bn * bn + b * b + c * c)), b, c])
    def fast(W): r, u, v, w, p, b, c = W; a2 = g * p / r; B = (bn * bn + b * b + c * c) / r; s = a2 + B; return np.sqrt(0.5 * (s + np.sqrt(np.maximum(s * s - 4 * a2 * bn * bn / r, 0))))
    def flux(W):
        r, u, v, w, p, b, c = W; pt = p + 0.5 * (b * b + c * c - bn * bn); E = p / (g - 1) + 0.5 * r * (u * u + v * v + w * w) + 0.5 * (bn * bn + b * b + c * c)
        return np.array([r * u, r * u * u + pt, r * u * v - bn * b, r * u * w - bn * c, (E + p + 0.5 * (bn * bn + b * b + c * c)) * u - bn * (bn * u + b * v + c * w), b * u - bn * v, c * u - bn * w])
    def rhs(U):
        W = prim(np.concatenate([U[:, :1], U[:, :1], U, U[:, -1:], U[:, -1:]], axis=1)); d = np.diff(W, axis=1); a, b = d[:, :-1], d[:, 1:]
        s = np.where(a * b > 0, np.sign(a) * np.minimum(np.minimum(2 * abs(a), 2 * abs(b)), 0.5 * abs(a + b)), 0); l, r = (W[:, 1:-1] + 0.5 * s)[:, :-1], (W[:, 1:-1] - 0.5 * s)[:, 1:]
        cl, cr = fast(l), fast(r); sl, sr = np.minimum(np.minimum(l[1] - cl, r[1] - cr), 0), np.maximum(np.maximum(l[1] + cl, r[1] + cr), 0)
        F = (sr * flux(l) - sl * flux(r) + sl * sr * (cons(r) - cons(l))) / (sr - sl); return -(F[:, 1:] - F[:, :-1]) / h
    U = cons(W); t = 0.0
    while t < t1 - 1e-14:
        W = prim(U); dt = min(0.4 * h / (abs(W[1]) + fast(W)).max(), t1 - t); V = U + dt * rhs(U); U = 0.5 * (U + V + dt * rhs(V)); t += dt
    return x, prim(U)

def modes(fam, s, n):
    """wave families of the uniform state s along the unit vector n: list of (name, speed, perturbation of rho,v,p,B)"""
    g, rho, p, v, B = s["gamma"], s["rho"], s["p"], np.array(s["v"]), np.array(s["B"]); vn = v @ n; out = [("entropy", vn, np.array([1.0] + [0] * 7))]
    if fam == "hydro":
        c = np.sqrt(g * p / rho)
        for sg in (1, -1): out.append(("sound", vn + sg * c, np.concatenate([[rho], sg * c * n, [rho * c * c], [0, 0, 0]])))
        t = np.cross(n, [0, 0, 1.0]); t = t / np.linalg.norm(t) if np.linalg.norm(t) > 0 else np.array([1.0, 0, 0])
        out.append(("shear", vn, np.concatenate([[0], t, [0, 0, 0, 0]]))); out.append(("shear", vn, np.concatenate([[0], np.cross(n, t), [0, 0, 0, 0]])))
        return out
    M = np.zeros((8, 8)); bn = B @ n
    for k in range(8):
        e = np.zeros(8); e[k] = 1; dr, dv, dp, dB = e[0], e[1:4], e[4], e[5:]; q = dv @ n
        M[:, k] = np.concatenate([[vn * dr + rho * q], vn * dv + (n * (dp + B @ dB) - bn * dB) / rho, [vn * dp + g * p * q], vn * dB + B * q - bn * dv])
    w, V = np.linalg.eig(M); w, V = w.real, V.real; o = np.argsort(w)
    for j, q in enumerate(o):
        if j in (3, 4): continue
        gap = min([abs(w[q] - w[r]) for r in range(8) if r != q])
        if gap > 0.05: out.append((["fast", "alfven", "slow", "", "", "slow", "alfven", "fast"][j], w[q], V[:, q] / np.abs(V[:, q]).max()))
    return out

# ------------------------------------------------------------------------------------------------ scenarios
def gen_scenario(r, i, tier):
    mode = r.choice(["wave"] * 5 + ["tube", "tube", "sdm", "sdm", "time", "rest"])
    U = lambda a, b: round(r.uniform(a, b), 4)
    fam = "sdm" if mode in ("sdm", "time") else "hydro" if mode == "rest" else r.choice(["hydro", "mhd", "mhd"]); order = r.choice([1, 2, 3]) if fam == "sdm" else None; dim = (3 if order == 2 and r.random() < 0.4 else 2) if fam == "sdm" else r.choice([2, 3])
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1), problem="blast", restart_p=0, steps=10 ** 6, order=order)
    ini = sc["ini"]; m = ini["mesh"]; h = ini["hydro"]; sc["mode"] = mode
    for k in [k for k in m if "bound" in k]: del m[k]
    bc = lambda d, a, b=None: m.update({"boundary_type_%smin" % D[d]: a, "boundary_type_%smax" % D[d]: b or a})
    gw = gen.GW[fam]; thin = {"hydro": 4, "mhd": 4, "sdm": 2}[fam]
    org, ln = [U(-1, 1) for _ in D], [r.choice([1.0, 1.0, U(0.5, 2)]) for _ in D]
    n = [thin] * dim + [1] * (3 - dim); h["cfl"] = r.choice([0.3, 0.5, 0.7])
    st = lambda: dict(rho=U(0.5, 2), p=U(0.5, 2), v=[U(-1, 1), U(-1, 1), U(-1, 1) if dim == 3 or fam == "mhd" else 0.0], B=[U(-1, 1) if fam == "mhd" else 0.0 for _ in D])
    if mode == "wave":
        if fam == "mhd" and r.random() < 0.6: h["slope_type"] = 2
        s = sc["state"] = dict(st(), gamma=float(np.float32(h["gamma0"])))
        ax = r.sample(range(dim), 2 if r.random() < 0.5 else 1); sc["k"] = [r.choice([1, -1]) if d in ax else 0 for d in range(3)]
        for d in ax: n[d] = 32 if len(ax) == 1 else 20
        if len(ax) == 2:
            for d in ax: ln[d] = r.choice([1.0, U(0.8, 1.25)])
        for d in range(dim):
            if d not in ax: ln[d] = max(ln) * U(0.8, 1.2) * n[d] / 32.0
            bc(d, 3)
        kv = np.array([2 * np.pi * sc["k"][d] / ln[d] for d in range(3)]); nn = kv / np.linalg.norm(kv); ms = modes(fam, s, nn)
        q = r.choice(sorted(set(x[0] for x in ms))); sc["wave"] = r.choice([j for j in range(len(ms)) if ms[j][0] == q]); sc["name"] = q
        if fam == "hydro" and dim == 2 and abs(ms[sc["wave"]][2][3]) > 0: sc["wave"] = 0; sc["name"] = "entropy"
        a = max(abs(x[1]) for x in ms); sc["tEnd"] = round(r.uniform(0.3, 0.6) * 2 * np.pi / np.linalg.norm(kv) / max(a, 1), 4); sc["factor"] = 2
    elif mode == "tube":
        a = sc["axis"] = r.randrange(dim); n[a] = 40; ln[a] = 1.0; org[a] = 0.0
        for d in range(dim):
            bc(d, 2 if d == a or r.random() < 0.5 else 3)
            if d != a: ln[d] = U(0.8, 1.2) * n[d] / 40
        s = [st(), st()]; s[1]["B"][a] = s[0]["B"][a]; s[1]["v"][a] = round(s[0]["v"][a] + r.uniform(-0.7, 0.4), 4); sc["state"] = s; sc["x0"] = 0.5; sc["factor"] = 3; g = h["gamma0"]
        if fam == "hydro" and r.random() < 0.5:      # a strong expansion whose fan spans zero velocity
            s[0]["p"], s[0]["rho"] = U(1, 3), U(0.8, 1.5); s[1]["p"], s[1]["rho"] = round(s[0]["p"] * r.uniform(0.05, 0.2), 4), round(s[0]["rho"] * r.uniform(0.15, 0.4), 4)
            s[0]["v"][a] = s[1]["v"][a] = round(np.sqrt(g * s[0]["p"] / s[0]["rho"]) * r.uniform(0.5, 0.8), 4)
            if r.random() < 0.5: s.reverse(); s[0]["v"][a] = s[1]["v"][a] = -s[0]["v"][a]
        c = max(np.sqrt(g * q["p"] / q["rho"] + sum(b * b for b in q["B"]) / q["rho"]) + abs(q["v"][a]) for q in s)
        sc["tEnd"] = round(0.3 / c / 1.3, 4)
    elif mode == "time":
        h["problem"] = "isentropic_vortex"; del ini["blast"]; sd = ini["sdm"] = {}; q = sc["sub"] = r.choice(["forward_euler", "ssprk2", "ssprk3", "ssprk54"]); sd[q] = "true"; h["cfl"] = 0.4 if order < 3 else 0.3
        org, ln = [-6.0, -6.0, 0.0], [12.0, 12.0, 1.0]; bc(0, 3); bc(1, 3); n = [10, 10, 1]; sc["factor"] = 1; sc["tEnd"] = U(0.8, 1.2)
        if dim == 3: n[2] = 2; ln[2] = U(1.5, 2.5); bc(2, 3)
        ini["isentropic_vortex"] = dict(density_ambient=U(0.8, 1.2), temperature_ambient=U(1, 1.2), vx_ambient=r.choice([1, -1]) * U(0.5, 0.7), vy_ambient=r.choice([1, -1]) * U(0.5, 0.7), strength=U(1, 2.5))   # no velocity changes sign or turns supersonic: a smooth flux
    elif mode == "sdm":
        p = sc["sub"] = r.choice(["isentropic_vortex", "isentropic_vortex", "sod", "four_quadrant"]) if dim == 2 else "isentropic_vortex"; h["problem"] = p; del ini["blast"]; sd = ini["sdm"] = {}
        h["cfl"] = 0.3 if p == "isentropic_vortex" else 0.2
        sd[{1: r.choice(["forward_euler", "ssprk2"]), 2: r.choice(["ssprk2", "ssprk3"]), 3: r.choice(["ssprk3", "ssprk54"])}[order] if p == "isentropic_vortex" else r.choice(["ssprk2", "ssprk3", "ssprk54"])] = "true"
        if p == "isentropic_vortex":
            org, ln = [-6.0, -6.0, 0.0], [12.0, 12.0, 1.0]; bc(0, 3); bc(1, 3); n = [12, 12, 1] if order > 1 else [24, 24, 1]; sc["factor"] = 2
            if dim == 3: n[2] = 2; ln[2] = U(1.5, 2.5); bc(2, 3)
            sc["tEnd"] = U(0.5, 1.0)
            ini[p] = dict(density_ambient=U(0.8, 1.2), temperature_ambient=U(0.9, 1.2), vx_ambient=U(-1, 1), vy_ambient=U(-1, 1), center_x=U(-0.5, 0.5), center_y=U(-0.5, 0.5), strength=U(1, 4))
        else:
            sd.update(limiter_enabled="true", positivity_enabled="true")
            if r.random() < 0.5: sd["limiter_characteristics_enabled"] = "true"
            bc(0, 2); bc(1, 2); org, ln = [0.0, 0.0, 0.0], [1.0, 1.0, 1.0]; sc["factor"] = 3
            if p == "sod": n = [20, 2, 1]; ln[1] = 0.1; h["gamma0"] = 1.4; sc["tEnd"] = U(0.12, 0.18)
            else: n = [14, 14, 1]; sc["tEnd"] = 0.1; sc["factor"] = 2; h["gamma0"] = 1.4; ini["riemann2d"] = dict(config_number=r.randint(0, 18), x=0.5, y=0.5)
    else:
        h["problem"] = "rayleigh_taylor"; del ini["blast"]; ini["gravity"] = dict(static="true"); d = U(0.5, 2); g = [U(-0.3, 0.3) for _ in range(dim)]
        ini["rayleigh_taylor"] = dict(amplitude=0.0, d0=d, d1=d, **{"g" + D[a]: g[a] for a in range(dim)})
        n = [16, 16, 1] if dim == 2 else [10, 10, 10]; org, ln = [-0.5] * 3, [1.0] * 3; sc["factor"] = 2; sc["tEnd"] = 0.1
        for a in range(dim): bc(a, 2)
    if mode in ("wave", "tube"): ini["blast"] = {}
    sc["grid"] = n; m.update({D[d] + e: org[d] + (ln[d] if e == "max" else 0) for d in range(3) for e in ("min", "max")})
    ini["run"].update(tEnd=sc["tEnd"], nOutput=1)
    lay = lambda: [q for q in [(1, 1, 1)] * 2 + gen.layouts(dim, 6) if all(n[d] % q[d] == 0 and n[d] // q[d] >= max(gw, 2 if fam == "sdm" else 0) for d in range(dim))]
    sc["runs"] = []
    for _ in range(3 if mode == "time" else 2):
        L = r.choice(lay()); N = L[0] * L[1] * L[2]; sc["runs"].append(dict(layout=list(L), par=N > 1 or r.random() < 0.3, knobs=gen.knobs(r, N)))
    if fam == "sdm": ini["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false")
    return sc

# ------------------------------------------------------------------------------------------------ start and reference states
def axes(sc, f):
    m = sc["ini"]["mesh"]; dim = sc["dim"]; G = [sc["grid"][d] * (f if sc["grid"][d] > 4 or sc["mode"] not in ("wave", "tube") else 1) for d in range(dim)] + [1] * (3 - dim)
    lo = [float(np.float32(m[d + "min"])) for d in D]; hi = [float(np.float32(m[d + "max"])) for d in D]; return G, lo, [(hi[d] - lo[d]) / G[d] for d in range(3)]
def grids(G, lo, h, dim, off=(0.5, 0.5, 0.5)):
    ax = [lo[d] + (np.arange(G[d]) + off[d]) * h[d] for d in range(3)]
    if dim == 2: x, y = np.meshgrid(ax[0], ax[1], indexing="xy"); return [x, y, 0 * x]
    z, y, x = np.meshgrid(ax[2], ax[1], ax[0], indexing="ij"); return [x, y, z]
def conserved(fam, dim, g, W, faces=None, Bc=None):
    f = dict(rho=W[0], rho_vx=W[0] * W[1], rho_vy=W[0] * W[2], energy=W[4] / (g - 1) + 0.5 * W[0] * (W[1] ** 2 + W[2] ** 2 + W[3] ** 2))
    if dim == 3 or fam == "mhd": f["rho_vz"] = W[0] * W[3]
    if fam == "mhd": f["energy"] = f["energy"] + 0.5 * sum(b * b for b in Bc); f.update(bx=faces[0], by=faces[1], bz=faces[2])
    return f
AMP = 1e-6
def wave_state(sc, f, t):
    G, lo, h = axes(sc, f); dim, fam, s = sc["dim"], sc["fam"], sc["state"]; kv = np.array([2 * np.pi * sc["k"][d] / (h[d] * G[d]) for d in range(3)]); n = kv / np.linalg.norm(kv)
    _, lam, R = modes(fam, s, n)[sc["wave"]]; om = lam * np.linalg.norm(kv)
    ph = lambda X: np.cos(sum(kv[d] * (X[d] - lo[d]) for d in range(3)) - om * t)
    X = grids(G, lo, h, dim); c = ph(X); W = [q + AMP * R[j] * c for j, q in enumerate([s["rho"]] + s["v"] + [s["p"]])]
    fc = bc = None
    if fam == "mhd":
        fc, bc = [], []
        for d in range(3):
            if d >= dim: b = s["B"][d] + AMP * R[5 + d] * c; fc.append(b); bc.append(b); continue
            q = np.prod([np.sinc(kv[e] * h[e] / 2 / np.pi) for e in range(dim) if e != d]); a = lambda o: s["B"][d] + AMP * R[5 + d] * q * ph(grids(G, lo, h, dim, [o if e == d else 0.5 for e in range(3)]))
            fc.append(a(0.0)); bc.append(0.5 * (a(0.0) + a(1.0)))
    return conserved(fam, dim, s["gamma"], W, fc, bc)
def tube_state(sc, f, t, ref=None):
    G, lo, h = axes(sc, f); dim, fam, (l, r), a = sc["dim"], sc["fam"], sc["state"], sc["axis"]; g = float(np.float32(sc["ini"]["hydro"]["gamma0"])); n = G[a]; o = [(a + 1) % 3, (a + 2) % 3]
    if t == 0:
        x = lo[a] + (np.arange(n) + 0.5) * h[a]; left = x < sc["x0"]; W = [np.where(left, p, q) for p, q in zip([l["rho"]] + l["v"] + [l["p"]] + l["B"], [r["rho"]] + r["v"] + [r["p"]] + r["B"])]
    elif fam == "hydro":
        m = 8; x = lo[a] + (np.arange(n * m) + 0.5) * h[a] / m; q, u, p, left = riemann((l["rho"], l["v"][a], l["p"]), (r["rho"], r["v"][a], r["p"]), g, (x - sc["x0"]) / t)
        W = [q, None, None, None, p, 0 * q, 0 * q, 0 * q]; W[1 + a] = u
        for b in o: W[1 + b] = np.where(left, l["v"][b], r["v"][b])
        return {k: v.reshape(n, m).mean(1) for k, v in conserved(fam, 3, g, W).items() if k != "rho_vz" or dim == 3}
    else:
        m = ref.shape[1] // n; q = ref; W = [q[0], None, None, None, q[4], None, None, None]; W[1 + a], W[1 + o[0]], W[1 + o[1]] = q[1], q[2], q[3]; W[5 + a], W[5 + o[0]], W[5 + o[1]] = l["B"][a] + 0 * q[0], q[5], q[6]
        return {k: v.reshape(n, m).mean(1) for k, v in conserved(fam, 3, g, W, W[5:], W[5:]).items()}
    sh = [1] * dim; sh[dim - 1 - a] = n; full = tuple(G[d] for d in range(dim))[::-1]; W = [np.broadcast_to(w.reshape(sh), full).copy() for w in W]
    return conserved(fam, dim, g, W, W[5:], W[5:])

def solve(sc, ctx, j, what, o):
    """run resolution j; returns final outputs and their time"""
    f = sc["factor"] ** j; q = sc["runs"][min(j, len(sc["runs"]) - 1)]; L = q["layout"]; N = L[0] * L[1] * L[2]; G, lo, h = axes(sc, f); d = ctx.mkdir("res%d" % j); t = json.loads(json.dumps(sc)); t["grid"] = G
    if sc["mode"] == "time": t["ini"]["hydro"]["cfl"] = sc["ini"]["hydro"]["cfl"] / 2 ** j
    if sc["mode"] in ("wave", "tube"):
        F = wave_state(sc, f, 0.0) if sc["mode"] == "wave" else tube_state(sc, f, 0.0); at = {"time step": 0, "nx": G[0] // L[0], "ny": G[1] // L[1], "nz": G[2] // L[2], "ghost zone included": 0}
        if q["par"]: at.update(mx=L[0], my=L[1], mz=L[2])
        h5.write(d + "/restart.h5", F, at, 0.0); t["restart"] = True
    x = ctx.run(("mpi" if q["par"] else "ser") + ("sdm" if sc["fam"] == "sdm" else ""), gen.make_ini(t, L), N, q["knobs"], d=d)
    if not x.ok: o.bad("run-failed", "%s at %s cells: %s" % (what, G, x.why())); return None
    S = vtk.sdm_states(d) if sc["fam"] == "sdm" else x.h5s()
    if not S or S[max(S)] is None: o.bad("output", what + ": no readable last output"); return None
    S = S[max(S)]; T = S.get("@total time")
    if T is None or abs(T - sc["tEnd"]) > 1e-5 * sc["tEnd"]: o.bad("time", "%s: last output at time %r instead of %r" % (what, T, sc["tEnd"])); return None
    return {k: v for k, v in S.items() if k[0] != "@"}, float(T), f
def run(sc, ctx, o):
    mode, fam, dim = sc["mode"], sc["fam"], sc["dim"]; hy = sc["ini"]["hydro"]; st = hy["slope_type"]
    cfgn = sc["ini"].get("riemann2d", {}).get("config_number", ""); sub = {"wave": lambda: (sc["name"], tuple(map(abs, sc["k"]))), "tube": lambda: sc["axis"], "sdm": lambda: (sc["sub"], sc["order"], cfgn, tuple(sorted(sc["ini"]["sdm"]))), "time": lambda: (sc["sub"], sc["order"]), "rest": lambda: 0}[mode]()
    o.key = (mode, fam, dim, hy["riemann"], sc["ini"]["OTHER"]["implementationVersion"], st, sub, str([q["layout"] for q in sc["runs"]]))
    what = "%s: %s%dD %s version %s slope %s %s on %s" % (mode, fam, dim, hy["riemann"], sc["ini"]["OTHER"]["implementationVersion"], st, sub, [q["layout"] for q in sc["runs"]])
    R = []
    for j in range(len(sc["runs"])):
        s = solve(sc, ctx, j, what, o)
        if s is None: return
        R.append(s)
    E = []; g = float(np.float32(hy["gamma0"]))
    if mode == "tube" and fam == "mhd":
        l, r, a = sc["state"][0], sc["state"][1], sc["axis"]; q = [(a + 1) % 3, (a + 2) % 3]; pick = lambda s: [s["rho"], s["v"][a], s["v"][q[0]], s["v"][q[1]], s["p"], s["B"][q[0]], s["B"][q[1]]]
        _, ref = mhd1d(pick(l), pick(r), l["B"][a], g, sc["x0"], 0.0, 1.0, sc["tEnd"], 480)
    if mode == "time":    # fluxes have kinks (choice of waves): either measure of the difference may show the rate
        dd = [[np.abs(R[j][0][k] - R[j + 1][0][k]) for k in R[j][0]] for j in (0, 1)]
        E = max(([max(f(x) for x in q) for q in dd] for f in (np.mean, np.median)), key=lambda e: e[0] / max(e[1], 1e-300))
    def err(A, t, f):
        if mode == "wave": W = wave_state(sc, f, t); return max(np.abs(A[k] - W[k]).mean() for k in W) / max(np.ptp(W[k]) for k in W) * 2
        if mode == "tube":
            W = tube_state(sc, f, t, ref if fam == "mhd" else None); a = sc["axis"]; e = 0
            for k in W:
                P = np.moveaxis(A[k], dim - 1 - a, -1).reshape(-1, A[k].shape[dim - 1 - a]); s = max(np.ptp(W[k]), 0.1); e += np.abs(P - W[k]).mean() / s
                if np.ptp(P, axis=0).max() > 1e-9: o.bad("plane", "%s: %s varies across the tube by %.3g" % (what, k, np.ptp(P, axis=0).max())); return None
            return e / len(W)
        if mode == "rest":
            X = grids(*axes(sc, f), dim); c = np.sqrt(g * (1 + 1.0) / sc["ini"]["rayleigh_taylor"]["d0"]); ins = np.all([np.abs(X[d]) < 0.5 - 1.5 * c * t for d in range(dim)], axis=0)
            return max(np.abs(A[k][ins]).max() for k in A if k.startswith("rho_v")) if ins.any() else None
        return sdm_error(sc, A, t, f, g)
    if mode != "time":
        E = [err(*q) for q in R]
        if None in E: ctx.add("m.skipped"); return
    E = [float(e) for e in E]; q, fl, top = demand(sc); ctx.add("m.pairs"); o.nontrivial = True
    if __import__("os").environ.get("PPK_ERR"): print("ERR", what, E, E[0] / max(E[1], 1e-300))
    if not E[1] <= top: o.bad("error", "%s: an error of %.3g on the fine mesh" % (what, E[1])); return
    if E[1] > max(E[0], fl) / q:
        if mode == "wave" or sc.get("sub") == "isentropic_vortex":      # not yet in the asymptotic range?
            s = solve(sc, ctx, 2, what, o); ctx.add("m.third_resolution")
            if s is None: return
            e = float(err(*s))
            if e <= E[1] / q: return
            E.append(e)
        o.bad("order", "%s: refining the mesh %d times changes the error from %s, a factor of %.3g where the scheme has to reach %.3g" % (what, sc["factor"], " to ".join("%.4g" % e for e in E), E[-2] / E[-1], q))
def demand(sc):
    """what the scheme has to reach: improvement between the resolutions, error from which on it counts, largest error on the fine mesh"""
    st = sc["ini"]["hydro"]["slope_type"]; mode = sc["mode"]
    if mode == "wave":
        ob = sum(map(abs, sc["k"])) > 1
        return (1.6, 0.01, 0.45 if ob else 0.2) if st == 0 else ((2.2, 0.008, 0.08) if ob else (2.8, 0.004, 0.03)) if st == 1 else ((2.8, 0.006, 0.02) if ob else (3.2, 0.004, 0.01))
    if mode == "tube": return (1.1, 0.015, 0.1 if st == 0 else 0.06)
    if mode == "time": return ({"forward_euler": 1.7, "ssprk2": 3.3, "ssprk3": 6.5, "ssprk54": 12}[sc["sub"]], 1e-11, 1)
    if mode == "rest": return (1.0, 0.005, 0.01)
    N = sc["order"]
    if sc["sub"] == "isentropic_vortex": return ((1.55, 0.001, 0.08), (3.0, 3e-4, 0.02), (5.8, 1e-4, 0.002))[N - 1]
    if sc["sub"] == "sod": return ((1.5, 0, 0.05), (1.6, 0, 0.02), (1.9, 0, 0.01))[N - 1]
    return ((1.1, 0.02, 0.2), (1.1, 0.02, 0.1), (1.1, 0.02, 0.1))[N - 1]
def sdm_error(sc, A, t, f, g):
    N = sc["order"]; G, lo, h = axes(sc, f); i = sc["ini"]; pt = {1: [0.5], 2: [0.5 - 0.5 * np.cos(np.pi * (2 * k + 1) / 4) for k in range(2)], 3: [0.5 - 0.5 * np.cos(np.pi * (2 * k + 1) / 6) for k in range(3)]}[N]
    ax = [np.concatenate([lo[d] + (c + np.array(pt)) * h[d] for c in range(G[d])]) for d in range(sc["dim"])]; x, y = np.meshgrid(ax[0], ax[1], indexing="xy") if sc["dim"] == 2 else np.meshgrid(ax[2], ax[1], ax[0], indexing="ij")[:0:-1]; A = {k: v.reshape(x.shape) for k, v in A.items()}; p = sc["sub"]
    F = lambda k: float(np.float32(i[p][k]))
    if p == "isentropic_vortex":
        T, ua, va, b = F("temperature_ambient"), F("vx_ambient"), F("vy_ambient"), F("strength"); X = (x - F("center_x") - ua * t + 6) % 12 - 6; Y = (y - F("center_y") - va * t + 6) % 12 - 6; q = np.exp(1 - X * X - Y * Y); s = b / 2 / np.pi * np.sqrt(q)
        th = T - (g - 1) * b * b / (8 * g * np.pi ** 2) * q; r = F("density_ambient") * (th / T) ** (1 / (g - 1)); u, v = ua - Y * s, va + X * s
        W = conserved("hydro", sc["dim"], g, [r, u, v, 0 * r, r * th]); return max(np.abs(A[k] - W[k]).mean() for k in W)
    if p == "sod":
        W = conserved("hydro", 2, g, (lambda q, u, p, l: [q, u, 0 * q, 0 * q, p])(*riemann((1, 0, 1), (.125, 0, .1), g, (x - 0.5) / t))); return np.mean([np.abs(A[k] - W[k]).mean() for k in W])
    from dst.props.c29 import LAXLIU
    q = LAXLIU[i["riemann2d"]["config_number"]]; e = []; c = max(np.sqrt(g * s[3] / s[0]) + max(abs(s[1]), abs(s[2])) for s in q) * 1.2 * t   # nothing of the middle or the borders comes closer
    for lo_, hi_, d, side in ((1, 0, 0, 1), (2, 3, 0, -1), (2, 1, 1, -1), (3, 0, 1, 1)):      # lower and upper state, normal direction, side of the middle
        L, R = q[lo_], q[hi_]; n, s = (x, y) if d == 0 else (y, x); k, j = (1, 2) if d == 0 else (2, 1); r, u, p_, left = riemann((L[0], L[k], L[3]), (R[0], R[k], R[3]), g, (n - 0.5) / t); w = np.where(left, L[j], R[j])
        W = conserved("hydro", 2, g, [r, u, w, 0 * r, p_] if d == 0 else [r, w, u, 0 * r, p_]); m = side * (s - 0.5) > c
        if m.sum() < 40: continue
        e += [np.abs(A[k] - W[k])[m].mean() for k in W]
    return np.mean(e) if e else None
def shrink(sc):
    for j in range(len(sc["runs"])):
        if sc["runs"][j]["layout"] != [1, 1, 1]: m = json.loads(json.dumps(sc)); m["runs"][j]["layout"] = [1, 1, 1]; yield m
