"""C29: the built-in start states are the ones their parameters describe."""
import json
import numpy as np
from dst import gen, oracle, vtk
ID = "C29"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm", "ser_t", "sersdm_t"]
CASES = dict(quick=7000, thorough=150000)
RULE = ("seed -> built-in problem of any solver (implode, blast, Kelvin-Helmholtz in every perturbation mode, Gresho vortex, the 19 four-quadrant configurations of Lax and Liu, isentropic vortex at the start or the end time, Rayleigh-Taylor, rising bubble, disk; Orszag-Tang, rotor, field loop, linear waves; Sod, Shu-Osher, wedge, jet), with sampled or "
        "default parameters, box, resolution, decomposition, threads, adversarial schedule and dirty memory. The state saved before the first step has to be the one the parameters describe at every cell or solution point of the whole box: densities, momenta, energies and face fields of an independent reference. Points within rounding of a region's "
        "border may lie on either side. Non-trivial: the start state is not uniform; distinct by solver, problem, mode, decomposition.")
ASSUME = ["random perturbations are judged by their range and by the consistency of momentum and energy", "parameters are read in single precision"]
f32 = lambda x: float(np.float32(x)); pi = np.pi
LAXLIU = {  # (rho, u, v, p) of the upper right, upper left, lower left and lower right quadrant
 0: [(1, 0, 0, 1), (.5197, -.7259, 0, .4), (.1072, -.7259, -1.4045, .0439), (.2579, 0, -1.4045, .15)],
 1: [(1, 0, 0, 1), (.5197, -.7259, 0, .4), (1, -.7259, -.7259, 1), (.5197, 0, -.7259, .4)],
 2: [(1.5, 0, 0, 1.5), (.5323, 1.206, 0, .3), (.138, 1.206, 1.206, .029), (.5323, 0, 1.206, .3)],
 3: [(1.1, 0, 0, 1.1), (.5065, .8939, 0, .35), (1.1, .8939, .8939, 1.1), (.5065, 0, .8939, .35)],
 4: [(1, -.75, -.5, 1), (2, -.75, .5, 1), (1, .75, .5, 1), (3, .75, -.5, 1)],
 5: [(1, .75, -.5, 1), (2, .75, .5, 1), (1, -.75, .5, 1), (3, -.75, -.5, 1)],
 6: [(1, .1, .1, 1), (.5197, -.6259, .1, .4), (.8, .1, .1, .4), (.5197, .1, -.6259, .4)],
 7: [(.5197, .1, .1, .4), (1, -.6259, .1, 1), (.8, .1, .1, 1), (1, .1, -.6259, 1)],
 8: [(1, 0, .3, 1), (2, 0, -.3, 1), (1.039, 0, -.8133, .4), (.5197, 0, -.4259, .4)],
 9: [(1, 0, .4297, 1), (.5, 0, .6076, 1), (.2281, 0, -.6076, .3333), (.4562, 0, -.4297, .3333)],
 10: [(1, .1, 0, 1), (.5313, .8276, 0, .4), (.8, .1, 0, .4), (.5313, .1, .7276, .4)],
 11: [(.5313, 0, 0, .4), (1, .7276, 0, 1), (.8, 0, 0, 1), (1, 0, .7276, 1)],
 12: [(1, 0, -.3, 1), (2, 0, .3, 1), (1.0625, 0, .8145, .4), (.5313, 0, .4276, .4)],
 13: [(2, 0, -.5606, 8), (1, 0, -1.2172, 8), (.4736, 0, 1.2172, 2.6667), (.9474, 0, 1.1606, 2.6667)],
 14: [(1, .1, -.3, 1), (.5197, -.6259, -.3, .4), (.8, .1, -.3, .4), (.5313, .1, .4276, .4)],
 15: [(.5313, .1, .1, .4), (1.0222, -.6179, .1, 1), (.8, .1, .1, 1), (1, .1, .8276, 1)],
 16: [(1, 0, -.4, 1), (2, 0, -.3, 1), (1.0625, 0, .2145, .4), (.5197, 0, -1.1259, .4)],
 17: [(1, 0, 1, 1), (2, 0, -.3, 1), (1.0625, 0, .2145, .4), (.5197, 0, .2741, .4)],
 18: [(1, 0, .3, 1), (2, 0, -.3, 1), (1.0625, 0, .2145, .4), (.5197, 0, -.4259, .4)]}

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd", "sdm"]); dim = 3 if r.random() < 0.4 else 2
    kw = dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else {}
    if fam == "sdm" and dim == 3: kw["problem"] = r.choice(gen.SDM3 + ["sod", "shu_osher", "isentropic_vortex", "gresho_vortex"])
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.4 else None, steps=0, restart_p=0, maxcells=900 if dim == 2 else 1400, rand=True, **kw)
    ini = sc["ini"]; p = ini["hydro"]["problem"]; m = ini["mesh"]; U = lambda a, b: round(r.uniform(a, b), 4)
    ini["run"].update(nStepmax=0, tEnd=r.choice([1.0, 7.3, 0.4]))
    if r.random() < 0.3: ini.pop({"kelvin_helmholtz": "KH", "gresho_vortex": "Gresho", "field_loop": "FieldLoop"}.get(p, p), None)   # defaults
    if p in ("rayleigh_taylor", "rising_bubble"):
        g = dict(gx=U(-0.3, 0.3), gy=U(-0.3, 0.1)) if r.random() < 0.7 else {}
        if dim == 3 and g: g["gz"] = U(-0.2, 0.2)
        if p == "rayleigh_taylor" and r.random() < 0.6: g.update(amplitude=U(0.005, 0.2), d0=U(0.5, 1.5), d1=U(1.5, 3))
        ini.pop("rayleigh_taylor", None); ini[p] = dict(ini.get(p, {}), **g)
    if p == "orszag_tang" and r.random() < 0.6: ini["OrszagTang"] = dict(kt=U(0, 2))
    if p == "implode" and fam == "mhd" and dim == 2 and r.random() < 0.5: ini["implode"] = dict(ini.get("implode", {}), By_outer=U(-0.3, 0.3), Bx_inner=U(-0.3, 0.3))
    if p == "disk" and r.random() < 0.5: ini["disk"] = dict(ini.get("disk", {}), radius_inner=U(0.01, 0.2), ref_sound_speed=r.choice([U(0.1, 0.5), U(0.5, 1.5)])); ini["gravity"] = dict(ini.get("gravity", {}), G=U(0.5, 2), M=U(0.5, 1.5), soften=U(0.005, 0.1))
    if p == "wave": ini["wave"] = dict(type=r.choice([0, 1, 2, 3]), amplitude=r.choice([1e-2, 1e-6, 0.3]))
    if p == "jet" and r.random() < 0.5: ini["jet"] = dict(ini.get("jet", {}), u_bulk=U(-1, 1), v_bulk=U(-1, 1), w_bulk=U(-1, 1))
    if p == "wedge" and r.random() < 0.5: ini["wedge"] = dict(ini.get("wedge", {}), rho1=U(4, 9), p1=U(50, 120), u1=U(4, 9), v1=U(-6, 0), rho2=U(1, 2), p2=U(0.5, 2), u2=U(-1, 1), v2=U(-1, 1))
    if p == "isentropic_vortex": ini["isentropic_vortex"] = dict(ini.get("isentropic_vortex", {}), use_tEnd=r.choice(["true", "false"])) if fam == "sdm" else ini.get("isentropic_vortex", {})
    if p not in ("isentropic_vortex", "shu_osher") and r.random() < 0.4:
        for d in "xyz":
            a = U(-1, 1) if p not in ("field_loop", "gresho_vortex") else U(-0.7, -0.3); m[d + "min"], m[d + "max"] = a, round(a + r.choice([1, 0.75, 1.6]), 4)
    ini["output"].update(hdf5_enabled="false" if fam == "sdm" else "true", vtk_enabled="true" if fam == "sdm" else "false", outputVtkAscii="false")
    n = sc["layout"][0] * sc["layout"][1] * sc["layout"][2]
    sc["par"] = n > 1 or r.random() < 0.2; sc["threads"] = 1 if sc["par"] else r.choice([1, 1, 2, 5])
    sc["knobs"] = gen.knobs(r, n, sc["threads"])
    return sc

def reference(sc):
    """-> list of alternatives [(fields, mask)] ; each field array has axes (z,) y, x ; mask: points within rounding of a region's border"""
    ini = sc["ini"]; dim = sc["dim"]; fam = sc["fam"]; G = sc["grid"]; p = ini["hydro"]["problem"]; m = {k: f32(v) for k, v in ini["mesh"].items() if k[1:] in ("min", "max")}
    def P(sec, k, d): v = ini.get(sec, {}).get(k); return f32(v) if v is not None else f32(d)
    def I(sec, k, d): return int(ini.get(sec, {}).get(k, d))
    def B(sec, k, d): return str(ini.get(sec, {}).get(k, d)).lower() == "true"
    lo = [m["xmin"], m["ymin"], m["zmin"]]; hi = [m["xmax"], m["ymax"], m["zmax"]]; Ln = [hi[d] - lo[d] for d in range(3)]; h = [Ln[d] / G[d] for d in range(3)]
    if fam == "sdm":
        N = sc["order"]; s = np.array([0.5 * (1 - np.cos((2 * k - 1) * pi / (2 * N))) for k in range(1, N + 1)])
        ax = [(lo[d] + (np.arange(G[d])[:, None] + s[None, :]) * h[d]).ravel() for d in range(3)]
    else: ax = [lo[d] + (np.arange(G[d]) + 0.5) * h[d] for d in range(3)]
    if dim == 2: x, y = np.meshgrid(ax[0], ax[1], indexing="xy"); z = 0 * x; up = 0 * x
    else: z, y, x = np.meshgrid(ax[2], ax[1], ax[0], indexing="ij")
    g1 = f32(ini["hydro"]["gamma0"]) - 1; gam = g1 + 1; O = 0 * x
    fuzzy = np.zeros(x.shape, bool)
    def less(a, b, strict=True):
        nonlocal fuzzy
        fuzzy = fuzzy | (np.abs(a - b) < 1e-9)
        return a < b
    def pick(c, a, b): return np.where(c, a, b)
    def prim(rho, u, v, w, pr, b=(0, 0, 0), bc=None):
        f = dict(rho=rho + O, rho_vx=rho * u + O, rho_vy=rho * v + O); e = pr / g1 + 0.5 * rho * (u * u + v * v + w * w) + O
        if dim == 3 or fam == "mhd": f["rho_vz"] = rho * w + O
        if fam == "mhd":
            f.update(bx=b[0] + O, by=b[1] + O, bz=b[2] + O); c = bc or b
            e = e + 0.5 * (c[0] ** 2 + c[1] ** 2 + c[2] ** 2)
        f["energy"] = e
        return f
    def loose(f, *ks): f["@tol"] = {k: t for k, t in ks}; return f
    if p == "implode":
        sh = I(p, "shape_region", 0)
        if sh == 1:
            q = x + y * y if dim == 2 and fam != "mhd" else x + y + z
            top = 1.5 if dim == 2 and fam != "mhd" else 2.5
            out = less(0.5, q) & less(q, top)
        else: out = less((lo[0] + hi[0]) / 2 + lo[1] + (lo[2] if dim == 3 else 0), x + y + z)
        q = {}
        for n, d1, d2 in (("density", 1, .125), ("pressure", 1, .14), ("vx", 0, 0), ("vy", 0, 0), ("vz", 0, 0), ("Bx", 0, 0), ("By", 0, 0), ("Bz", 0, 0)): q[n] = pick(out, P(p, n + "_outer", d1), P(p, n + "_inner", d2))
        if dim == 2: q["vz"] = q["Bz"] = 0 * q["vz"]
        return prim(q["density"], q["vx"], q["vy"], q["vz"], q["pressure"], (q["Bx"], q["By"], q["Bz"])), fuzzy
    if p == "blast":
        R = P(p, "radius", (lo[0] + hi[0]) / 20); c = [P(p, "center_" + "xyz"[d], (lo[d] + hi[d]) / 2) for d in range(3)]
        i = less((x - c[0]) ** 2 + (y - c[1]) ** 2 + ((z - c[2]) ** 2 if dim == 3 else 0), R * R)
        return prim(pick(i, P(p, "density_in", 1), P(p, "density_out", 1.2)), 0, 0, 0, pick(i, P(p, "pressure_in", 10), P(p, "pressure_out", .1)), (.5, .5, .5)), fuzzy
    if p == "kelvin_helmholtz":
        K = lambda k, d: P("KH", k, d); d1, d2, v1, v2, pr = K("d_in", 1), K("d_out", 1), K("vflow_in", -.5), K("vflow_out", .5), K("pressure", 10); b = (.5, 0, 0)
        t = y if dim == 2 else z; mo = I("KH", "mode", 2); w0 = K("w0", .1); de = K("delta", .03)
        if B("KH", "perturbation_rand", "false"):
            tn = (t - lo[dim - 1]) / Ln[dim - 1]; o = less(tn, .25) | less(.75, tn)
            if fam == "mhd" and dim == 3: b = (0, 0, 0)
            f = prim(pick(o, d2, d1), pick(o, v2, v1), 0 * O, 0 * O, pr, b); A = K("amplitude", .1) * 0.5
            f["@rand"] = (A, pr, b); return f, fuzzy
        if B("KH", "perturbation_sine_robertson", "true"):
            with np.errstate(over='ignore'): ra = 1 / (1 + np.exp(2 * (t - .25) / de)) + 1 / (1 + np.exp(2 * (.75 - t) / de))
            d = d1 + ra * (d2 - d1); u = v1 + ra * (v2 - v1)
            if dim == 2: return prim(d, u, w0 * np.sin(mo * pi * x), 0, pr, b), fuzzy
            return prim(d, u, v1 / 2 + ra * (v2 / 2 - v1 / 2), w0 * np.sin(mo * pi * x) * np.sin(mo * pi * y), pr, b), fuzzy
        if B("KH", "perturbation_sine", "false") and fam == "mhd":
            i = ~less(t, .25) & ~less(.75, t); u = pick(i, v1, v2); d = pick(i, d1, d2); w = w0 * np.sin(mo * pi * x)
            return (prim(d, u, w, 0, pr, b) if dim == 2 else prim(d, u, 0, w, pr, b)), fuzzy
        return None, fuzzy
    if p == "gresho_vortex":
        r0 = P("Gresho", "rho0", 1); Ma = P("Gresho", "Ma", .1); p0 = r0 / (gam * Ma * Ma); r = np.sqrt(x * x + y * y); s = np.maximum(r, 1e-300)
        a, b = less(r, .2), less(r, .4)
        uph = np.where(a, 5 * r, np.where(b, 2 - 5 * r, 0)); pr = p0 + np.where(a, 12.5 * r * r, np.where(b, 12.5 * r * r + 4 * (1 - 5 * r - np.log(.2) + np.log(s)), -2 + 4 * np.log(2.0)))
        return prim(r0, -y / s * uph, x / s * uph, 0, pr), fuzzy & False    # continuous
    if p == "four_quadrant":
        c = I("riemann2d", "config_number", 0); xt, yt = P("riemann2d", "x", .8), P("riemann2d", "y", .8); q = LAXLIU.get(c, LAXLIU[0]); a, b = less(x, xt), less(y, yt)
        S = [np.where(a, np.where(b, q[2][k], q[1][k]), np.where(b, q[3][k], q[0][k])) for k in range(4)]
        return prim(S[0], S[1], S[2], 0, S[3]), fuzzy
    if p == "isentropic_vortex":
        K = lambda k, d: P(p, k, d); ra, Ta, ua, va, be = K("density_ambient", 1), K("temperature_ambient", 1), K("vx_ambient", 1), K("vy_ambient", 1), K("strength", 5); cx, cy = K("center_x", (lo[0] + hi[0]) / 2), K("center_y", (lo[1] + hi[1]) / 2)
        if fam == "sdm" and B(p, "use_tEnd", "false"):
            t = P("run", "tEnd", 1); cx, cy = [lo[d] + (c + t * u - lo[d]) % Ln[d] for d, c, u in ((0, cx, ua), (1, cy, va))]
        xp, yp = x - cx, y - cy; r2 = xp * xp + yp * yp; du, dv = -yp * be / (2 * pi) * np.exp(.5 * (1 - r2)), xp * be / (2 * pi) * np.exp(.5 * (1 - r2))
        with np.errstate(invalid='ignore'):
            T = Ta - g1 * be * be / (8 * gam * pi * pi) * np.exp(1 - r2); rho = ra * (T / Ta) ** (1 / g1)
        return prim(rho, ua + du, va + dv, 0, rho * T), fuzzy
    if p == "rayleigh_taylor":
        K = lambda k, d: P(p, k, d); A = K("amplitude", .01); t, k = (y, 1) if dim == 2 else (z, 2); rho = pick(less((lo[k] + hi[k]) / 2, t), K("d1", 2), K("d0", 1))
        mom = A * (1 + np.cos(2 * pi * x / Ln[0])) * (1 + np.cos(2 * pi * y / Ln[1])) / 4; pr = 1 + rho * (K("gx", 0) * x + K("gy", -.1) * y + (K("gz", 0) * z if dim == 3 else 0))
        f = prim(rho, 0, 0, 0, pr); f["rho_v" + "xyz"[k]] = mom
        f["@tol"] = dict(energy=0.5 * mom ** 2 / rho * 1.0001)     # with or without the energy of the perturbation itself
        return f, fuzzy
    if p == "rising_bubble":
        K = lambda k, d: P(p, k, d); r = np.sqrt((x - K("x0", .5)) ** 2 + (y - K("y0", .25)) ** 2 + ((z - K("z0", .5)) ** 2 if dim == 3 else 0)); rho = pick(less(r, K("R", .1)), K("din", 1), K("dout", 2))
        return prim(rho, 0, 0, 0, 1 + rho * (K("gx", 0) * x + K("gy", -.1) * y + (K("gz", 0) * z if dim == 3 else 0))), fuzzy
    if p == "disk":
        K = lambda k, d: P(p, k, d); R = K("radius", Ln[0] * .125); Ri = K("radius_inner", R / 10); c = [K("xyz"[d] + "c", (lo[d] + hi[d]) / 2) for d in range(3)]; r0, rc, cw, c0 = K("ref_density", 1), K("contrast_density", 100), K("contrast_width", .01), K("ref_sound_speed", .2)
        GM = P("gravity", "G", 1) * P("gravity", "M", 1); ep = P("gravity", "soften", .01)
        X, Y, Z = x - c[0], y - c[1], (z - c[2] if dim == 3 else 0 * x); r = np.sqrt(X * X + Y * Y); rs = np.sqrt(X * X + Y * Y + ep * ep); rp = np.sqrt(X * X + Y * Y + ep * ep + Z * Z)
        inn = less(r, Ri); cs = c0 / np.sqrt(np.where(inn, Ri, np.maximum(r, 1e-300)) / R)
        o2 = np.where(inn, GM / rs ** 3 - 2.5 * (cs / rs) ** 2, GM / (rs * rs * rp) - 3.5 * (cs / rs) ** 2); om = np.sqrt(np.maximum(o2, 0))
        with np.errstate(over='ignore', under='ignore'):
            rho = r0 * (rs / R) ** -2.5 * np.exp(GM / cs ** 2 * (1 / rp - 1 / rs)); za = np.abs(Z)
            far = less(R + cw, r) | less(.5 * R + cw, za); near = less(R, r) | less(.5 * R, za)
            rho = np.where(near, np.where(far, rho / rc, rho * rc ** -np.maximum((r - R) / cw, (za - .5 * R) / cw)), rho); rho = np.maximum(rho, 1e-6)
        s = np.where(r > 0, rs / np.maximum(r, 1e-300), 0)
        f = prim(rho, -Y * s * om, X * s * om, 0, cs ** 2 * rho)
        fuzzy |= (r < 1e-6)
        te = 1e-13 * (GM / rs ** 3 + 3.5 * (cs / rs) ** 2); dom = np.where(np.abs(o2) < te, np.sqrt(2 * te), te / np.maximum(om, 1e-300))   # round-off of om where the two terms cancel
        f["@tol"] = dict(rho_vx=rho * rs * np.minimum(dom, np.sqrt(2 * te)), rho_vy=rho * rs * np.minimum(dom, np.sqrt(2 * te)))
        f["energy"] = cs ** 2 * rho / g1 + .5 * rho * np.maximum(o2, 0) * (X * X + Y * Y + ep * ep)
        return f, fuzzy
    if p in ("orszag_tang", "field_loop", "wave"):
        # face fields one cell further on the right, for the energy at the centres
        e = [np.concatenate([ax[d], [ax[d][-1] + h[d], ax[d][-1] + 2 * h[d]]]) for d in range(3)]
        if dim == 2: xe, ye = np.meshgrid(e[0], e[1], indexing="xy"); ze = 0 * xe
        else: ze, ye, xe = np.meshgrid(e[2], e[1], e[0], indexing="ij")
        sh = lambda a, d: np.roll(a, -1, dim - 1 - d); cut = tuple(slice(0, -2) for _ in range(dim))
        cc = lambda b: ((.5 * (b[0] + sh(b[0], 0)))[cut], (.5 * (b[1] + sh(b[1], 1)))[cut], (.5 * (b[2] + sh(b[2], 2)))[cut] if dim == 3 else b[2][cut])
    if p == "orszag_tang":
        B0, p0 = 1 / np.sqrt(4 * pi), gam / (4 * pi); d0 = gam * p0; kt = P("OrszagTang", "kt", 0); co = np.cos(4 * pi * kt * (ze - lo[2]) / Ln[2]) if dim == 3 else 1
        b = (-B0 * co * np.sin(2 * pi * ye), B0 * co * np.sin(4 * pi * xe), 0 * xe)
        return prim(d0, -np.sin(2 * pi * y), np.sin(2 * pi * x), 0, p0, tuple(q[cut] for q in b), cc(b)), fuzzy
    if p == "rotor":
        K = lambda k, d: P(p, k, d); r0, r1, u0, p0, b0 = K("r0", .1), K("r1", .115), K("u0", 2), K("p0", 1), K("b0", 5 / np.sqrt(4 * pi)); X, Y = x - (lo[0] + hi[0]) / 2, y - (lo[1] + hi[1]) / 2; r = np.sqrt(X * X + Y * Y); f = (r1 - r) / (r1 - r0)
        a, b = ~less(r0, r), ~less(r1, r); s = np.maximum(r, 1e-300); rho = np.where(a, 10, np.where(b, 1 + 9 * f, 1)); w = np.where(a, u0 / r0 * (f if dim == 2 else 1), np.where(b, f * u0 / s, 0))
        return prim(rho, -w * Y, w * X, 0, p0, (b0, 0, 0)), fuzzy & False
    if p == "field_loop":
        K = lambda k, d: P("FieldLoop", k, d); R, di, A, vf = K("radius", 1), K("density_in", 1), K("amplitude", 1), K("vflow", 1)
        re = np.sqrt(xe * xe + ye * ye); Az = np.where(re < R, A * (R - re), 0); b = ((sh(Az, 1) - Az) / h[1], -(sh(Az, 0) - Az) / h[0], 0 * Az)
        rho = pick(less(np.sqrt(x * x + y * y), R), di, 1); ct = 2 / np.sqrt(5); st = np.sqrt(1 - ct * ct); w = vf if dim == 3 else vf / np.sqrt(1.0 * G[0] ** 2 + G[1] ** 2 + 1)
        return prim(rho, vf * ct, vf * st, w, 1, tuple(q[cut] for q in b), cc(b)), fuzzy
    if p == "wave":
        ty = I(p, "type", 0); A = P(p, "amplitude", 1e-6); V0 = 1.0 if ty == 3 else 0.0
        R = [(4.472136e-01, -8.944272e-01, 4.216370e-01, 1.490712e-01, 2.012461, 8.432740e-01, 2.981424e-01), (0, 0, -3.333333e-01, 9.428090e-01, 0, -3.333333e-01, 9.428090e-01), (8.944272e-01, -4.472136e-01, -8.432740e-01, -2.981424e-01, 6.708204e-01, -4.216370e-01, -1.490712e-01), (1, 1, 0, 0, .5, 0, 0)][ty]
        a3 = np.arctan(Ln[0] / Ln[1]); s3, c3 = np.sin(a3), np.cos(a3); a2 = np.arctan(.5 * (Ln[0] * c3 + Ln[1] * s3) / Ln[2]); s2, c2 = np.sin(a2), np.cos(a2); k = 2 * pi / min(Ln[0] * c2 * c3, Ln[1] * c2 * s3, Ln[2] * s2); dby, dbz = A * R[5], A * R[6]; by0 = np.sqrt(2.0)
        def pot(X, Y, Z):
            tx = X * c2 * c3 + Y * c2 * s3 + Z * s2; ty_ = -X * s3 + Y * c3; ay = .5 * tx - dbz / k * np.cos(k * tx); az = -by0 * tx + dby / k * np.cos(k * tx) + ty_
            return -ay * s3 - az * s2 * c3, ay * c3 - az * s2 * s3, az * c2
        H = [q / 2 for q in h]
        ax_, ay_, az_ = pot(xe, ye - H[1], ze - H[2])[0], pot(xe - H[0], ye, ze - H[2])[1], pot(xe - H[0], ye - H[1], ze)[2]
        b = ((sh(az_, 1) - az_) / h[1] - (sh(ay_, 2) - ay_) / h[2], (sh(ax_, 2) - ax_) / h[2] - (sh(az_, 0) - az_) / h[0], (sh(ay_, 0) - ay_) / h[0] - (sh(ax_, 1) - ax_) / h[1])
        sn = np.sin(k * (c2 * (x * c3 + y * s3) + z * s2)); Mx, My, Mz = V0 + A * sn * R[1], A * sn * R[2], A * sn * R[3]
        f = dict(rho=1 + A * sn * R[0], rho_vx=Mx * c2 * c3 - My * s3 - Mz * s2 * c3, rho_vy=Mx * c2 * s3 + My * c3 - Mz * s2 * s3, rho_vz=Mx * s2 + Mz * c2, energy=1 / gam / g1 + .5 * V0 ** 2 + .5 * (1 + 2 + .25) + A * sn * R[4], bx=b[0][cut], by=b[1][cut], bz=b[2][cut])
        t = 1e-13 * max(np.abs(q).max() for q in (ax_, ay_, az_)) / min(h); f["@tol"] = dict(bx=t, by=t, bz=t)
        return f, fuzzy
    if p == "sod": a = less(x, .5); return prim(pick(a, 1, .125), 0, 0, 0, pick(a, 1, .1)), fuzzy
    if p == "shu_osher": a = less(x, -4.0); return prim(pick(a, 27 / 7, 1 + np.sin(5 * x) / 5), pick(a, 4 * np.sqrt(35.0) / 9, 0), 0, 0, pick(a, 31 / 3, 1)), fuzzy
    if p == "wedge":
        K = lambda k, d: P(p, k, d); an = K("front_angle", pi / 3); a = less(np.tan(an) * (x - K("front_x", .1)), y)
        return prim(pick(a, K("rho1", 8), K("rho2", 1.4)), pick(a, K("u1", 8.25 * np.cos(an - pi / 2)), K("u2", 0)), pick(a, K("v1", 8.25 * np.sin(an - pi / 2)), K("v2", 0)), 0 if dim == 2 else pick(a, K("w1", 0), K("w2", 0)), pick(a, K("p1", 116.5), K("p2", 1))), fuzzy
    if p == "jet":
        K = lambda k, d: P(p, k, d); f = prim(K("rho_bulk", .5), K("u_bulk", 0), K("v_bulk", 0), K("w_bulk", 0), K("p_bulk", .4127)); return f, fuzzy
    return None, fuzzy

def run(sc, ctx, o):
    L, dim, fam, ini = sc["layout"], sc["dim"], sc["fam"], sc["ini"]; N = L[0] * L[1] * L[2]; p = ini["hydro"]["problem"]
    v = ("mpi" if sc["par"] else "ser") + ("sdm" if fam == "sdm" else "") + ("_t" if sc["threads"] > 1 else "")
    R, fuzzy = reference(sc)
    if R is None: ctx.add("m.no_reference"); return
    a = ctx.run(v, gen.make_ini(sc, L), N, sc["knobs"]); what = "%s%dD%s %s on %s" % (fam, dim, " order %d" % sc["order"] if fam == "sdm" else "", p, L)
    if not a.ok: o.bad("run-failed", what + ": " + a.why()); return
    S = vtk.sdm_states(a.dir) if fam == "sdm" else a.h5s()
    if 0 not in S or S[0] is None: o.bad("output", what + ": no readable first output"); return
    A = {k: q for k, q in S[0].items() if k[0] != "@"}
    if fam == "sdm": A = {k: q.reshape(R["rho"].shape) if q.size == R["rho"].size else q for k, q in A.items()}
    sub = ini.get("KH", {}).get("perturbation_rand", "") if p == "kelvin_helmholtz" else ini.get("riemann2d", {}).get("config_number", "") if p == "four_quadrant" else ini.get("implode", {}).get("shape_region", "") if p == "implode" else ini.get("wave", {}).get("type", "") if p == "wave" else ""
    o.key = (fam, dim, sc["order"], p, sub, tuple(L)); o.nontrivial = bool(np.ptp(R["rho"]) > 0 or np.ptp(R["energy"]) > 0)
    T = R.pop("@tol", {}); rnd = R.pop("@rand", None)
    if set(A) != set(R): o.bad("fields", "%s: saved %s instead of %s" % (what, sorted(A), sorted(R))); return
    for k in A:
        if A[k].shape != R[k].shape: o.bad("shape", "%s: %s has shape %s instead of %s" % (what, k, A[k].shape, R[k].shape)); return
    if rnd:
        amp, pr, b = rnd; rho = A["rho"]; vs = ["rho_vx", "rho_vy"] + (["rho_vz"] if dim == 3 else []); ke = 0; inside = ~fuzzy
        if fam == "mhd" and dim == 2 and (A["rho_vz"] != 0).any(): o.bad("state", what + ": third momentum of a plane start state"); return
        for k in vs:
            u = A[k] / rho; u0 = R[k] / R["rho"]; ke = ke + 0.5 * rho * u * u
            bad = inside & ~(np.abs(u - u0) <= amp * (1 + 1e-9) + 1e-12)
            if bad.any(): q = tuple(np.argwhere(bad)[0]); o.bad("state", "%s: velocity %s/rho=%.9g at %s, more than half the amplitude away from %.9g" % (what, k, u[q], q, u0[q])); return
            if rho.size >= 60 and inside.sum() >= 40 and np.ptp((u - u0)[inside]) < 0.5 * amp: o.bad("state", "%s: %s has next to no perturbation: %.3g of amplitude %.3g" % (what, k, np.ptp((u - u0)[inside]), 2 * amp)); return
        R["energy"] = pr / (f32(ini["hydro"]["gamma0"]) - 1) + ke + 0.5 * sum(q * q for q in b) * (fam == "mhd"); 
        for k in vs: R.pop(k)
    mom = float(np.sqrt(np.nanmax(np.abs(A["rho"])) * np.nanmax(np.abs(A["energy"]))))
    for k in R:
        d = np.abs(A[k] - R[k]); sc_ = np.abs(R[k]); sc_ = np.maximum(sc_, 0.05 * (max(mom, np.nanmax(sc_)) if k.startswith("rho_v") else np.nanmax(sc_)))
        ok = (d <= 2e-11 * sc_ + T.get(k, 0) + 1e-14) | fuzzy | (A[k] == R[k]) | (np.isnan(A[k]) & np.isnan(R[k]))
        if not ok.all():
            q = tuple(np.argwhere(~ok)[0]); o.bad("state", "%s: %s at %s (from the last axis) is %.17g; the parameters give %.17g (%d of %d points)" % (what, k, q[::-1], A[k][q], R[k][q], (~ok).sum(), ok.size)); return
    ctx.add("m.points_compared", int(ok.size))

def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
