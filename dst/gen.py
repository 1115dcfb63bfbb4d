"""Scenario generation: problems, decompositions, simulator knobs, random admissible states."""
import random
import numpy as np

# -------------------------------------------------------------------------------- simulator knobs
def knobs(r, ranks, threads=1, disk=False, calm=0.0):
    k = dict(seed=r.getrandbits(48), threads=threads)
    k["sched"] = r.choice(["random", "random", "block", "prio", "rr"])
    if ranks > 1:
        k["eager"] = r.choice([0, 0, 64, 512, 4096, 1 << 30])
        k["delay"] = r.choice([0, 0.001, 0.01, 0.3])
        k["reorder"] = int(r.random() < 0.6)
        k["late_send"] = int(r.random() < 0.5); k["late_recv"] = int(r.random() < 0.5)
        k["redorder"] = int(r.random() < 0.5)
        k["loose_coll"] = int(r.random() < 0.7)
        k["stall_p"] = r.choice([0, 0, 0.01, 0.05])
    k["garbage"] = r.choice(["none", "zero", "ff", "snan", "rand"])
    k["clock0"] = float(r.choice([0, 1e9, 1.7e9, 4e9, 951782400]))
    k["jump_p"] = r.choice([0, 0, 0.1]); k["jump_max"] = r.choice([1.0, 1e4, 1e7])
    if threads > 1: k["omp"] = r.choice(["reverse", "perm", "perm", "serial"])
    if disk:
        k["short_p"] = r.choice([0, 0.05, 0.3]); k["eintr_p"] = r.choice([0, 0.05, 0.2])
    return k

# -------------------------------------------------------------------------------- problems
HYDRO2 = ["implode", "blast", "gresho_vortex", "four_quadrant", "isentropic_vortex", "rayleigh_taylor", "rising_bubble", "disk", "kelvin_helmholtz"]
HYDRO3 = ["implode", "blast", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk", "kelvin_helmholtz"]
MHD2 = ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop"]
MHD3 = ["blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"]   # the 2D wave start is not implemented in the code
SDM2 = ["implode", "blast", "four_quadrant", "isentropic_vortex", "gresho_vortex", "kelvin_helmholtz", "sod", "shu_osher", "wedge", "jet"]
SDM3 = ["implode", "blast", "kelvin_helmholtz", "jet"]
FACES = ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"]
GW = dict(hydro=2, mhd=3, sdm=1)

def bcs(r, dim, mode="any"):
    b = {}
    for d in range(dim):
        lo, hi = FACES[2 * d], FACES[2 * d + 1]
        if mode == "periodic" or (mode == "any" and r.random() < 0.35): b[lo] = b[hi] = 3
        elif mode == "wall": b[lo] = b[hi] = 1
        else: b[lo], b[hi] = r.choice([1, 2]), r.choice([1, 2])
    return b

def solver_name(fam, dim, order=None):
    return {"hydro": "Hydro_Muscl_%dD", "mhd": "MHD_Muscl_%dD"}[fam] % dim if fam != "sdm" else "Hydro_SDM_%dD_degree%d" % (dim, order)

def layouts(dim, maxr):
    out = []
    for mx in range(1, 5):
        for my in range(1, 5):
            for mz in range(1, 4 if dim == 3 else 2):
                if 1 < mx * my * mz <= maxr: out.append((mx, my, mz))
    return out

def problem_params(r, p, fam, dim, mesh, rand):
    """user parameters of a problem's start state, away from the defaults"""
    U = lambda a, b: round(r.uniform(a, b), 4)
    at = lambda d, lo=0.3, hi=0.7: round(mesh[d + "min"] + (mesh[d + "max"] - mesh[d + "min"]) * r.uniform(lo, hi), 4)
    L = min(mesh["xmax"] - mesh["xmin"], mesh["ymax"] - mesh["ymin"])
    if p == "blast":
        return dict(blast=dict(radius=U(0.15, 0.35) * L, center_x=at("x"), center_y=at("y"), center_z=at("z"), density_in=U(0.8, 2), density_out=U(0.8, 1.5), pressure_in=U(1, 10), pressure_out=U(0.2, 1)))
    if p == "implode":
        d = dict(shape_region=r.choice([0, 1]), density_outer=U(0.8, 1.5), density_inner=U(0.3, 1), pressure_outer=U(0.8, 1.5), pressure_inner=U(0.2, 1))
        for v in "vx", "vy", "vz":
            if r.random() < 0.5: d[v + "_outer"] = U(-0.3, 0.3); d[v + "_inner"] = U(-0.3, 0.3)
        if fam == "mhd":
            for b in "Bx", "By", "Bz": d[b + "_outer"] = d[b + "_inner"] = U(-0.3, 0.3)   # one value: the jump of By and Bz is kept divergence free this way only
        return dict(implode=d)
    if p == "kelvin_helmholtz":
        k = r.choice((["sine"] if fam == "mhd" else []) + ["rob", "both"] + (["rand", "rand"] if rand else []))   # the plain sine exists for MHD only
        d = dict(perturbation_sine=str(k in ("sine", "both")).lower(), perturbation_sine_robertson=str(k in ("rob", "both")).lower(), perturbation_rand=str(k == "rand").lower(),
                 d_in=U(1, 2), d_out=U(0.8, 1.2), pressure=U(2, 10), vflow_in=U(-0.6, -0.2), vflow_out=U(0.2, 0.6), amplitude=U(0.01, 0.15), inner_size=U(0.1, 0.3), mode=r.choice([1, 2, 4]), w0=U(0.05, 0.15), delta=U(0.03, 0.08))
        if k == "rand" and r.random() < 0.5: d["rand_seed"] = r.randint(1, 1000)
        return dict(KH=d)
    if p == "gresho_vortex": return dict(Gresho=dict(rho0=U(0.8, 2), Ma=U(0.1, 0.5), u=U(-0.2, 0.2), v=U(-0.2, 0.2), w=U(-0.2, 0.2)))
    if p == "disk": return dict(disk=dict(radius=U(0.2, 0.35), xc=at("x", 0.4, 0.6), yc=at("y", 0.4, 0.6), zc=at("z", 0.4, 0.6), ref_density=U(0.8, 1.5), contrast_density=U(10, 100), contrast_width=U(0.01, 0.05), ref_sound_speed=U(0.2, 0.4)))
    if p == "rising_bubble": return dict(rising_bubble=dict(R=U(0.1, 0.3), x0=at("x"), y0=at("y"), z0=at("z"), din=U(0.8, 1.2), dout=U(1.2, 2)))
    if p == "rotor": return dict(rotor=dict(r0=U(0.1, 0.2), r1=U(0.22, 0.3), u0=U(0.5, 2), p0=U(0.5, 1.5), b0=U(0.3, 1.4)))
    if p == "field_loop": return dict(FieldLoop=dict(radius=U(0.2, 0.4), density_in=U(1, 2), amplitude=r.choice([1.0, 0.1, 1e-3]), vflow=U(0.2, 1)))
    if p == "isentropic_vortex": return dict(isentropic_vortex=dict(density_ambient=U(0.8, 1.2), temperature_ambient=U(0.9, 1.2), vx_ambient=U(-1, 1), vy_ambient=U(-1, 1), center_x=at("x"), center_y=at("y"), strength=U(2, 5), **(dict(use_tEnd="true") if r.random() < 0.2 else {})))
    if p == "wedge": return dict(wedge=dict(front_x=at("x", 0.05, 0.5), front_angle=U(0.8, 1.4), shock_speed=U(5, 12)))
    if p == "jet": return dict(jet=dict(rho_jet=U(0.3, 1.5), u_jet=U(0.5, 3), p_jet=U(0.4, 1), rho_bulk=U(0.5, 1), p_bulk=U(0.4, 1), pos_jet=at("y", 0.2, 0.6), width_jet=U(0.1, 0.4)))
    return {}

def scenario(r, fam, dim, maxr=6, bc="any", restart_p=0.35, problem=None, maxcells=None, steps=None, order=None, periodic_problem=False, layout=None, impl=None, rand=False):
    gw = GW[fam]
    L = layout or r.choice(layouts(dim, maxr))
    lo = gw
    while True:
        n = [r.randint(lo, {2: 10, 3: 5}[dim] + (gw if dim == 3 else 0)) for _ in range(dim)]
        if fam == "sdm": n = [r.randint(2, 5) for _ in range(dim)]
        if dim == 2: n.append(1)
        G = [n[i] * L[i] for i in range(3)]
        if G[0] * G[1] * G[2] <= (maxcells or {2: 900, 3: 2600}[dim]): break
    probs = {("hydro", 2): HYDRO2, ("hydro", 3): HYDRO3, ("mhd", 2): MHD2, ("mhd", 3): MHD3, ("sdm", 2): SDM2, ("sdm", 3): SDM3}[fam, dim]
    p = problem or r.choice(probs)
    b = bcs(r, dim, bc)
    if p in ("wedge", "jet"): b = {f: 2 for f in b}   # these problems bring boundaries of their own
    lx = [r.choice([1.0, 1.0, 2.0]) for _ in range(3)]
    org = [r.choice([0.0, 0.0, -0.5, 1.0]) for _ in range(3)]
    if p in ("field_loop", "gresho_vortex", "isentropic_vortex"): org, lx = [-0.5] * 3, [1.0] * 3
    if p == "isentropic_vortex": org, lx = [-5.0] * 3, [10.0] * 3
    if p == "shu_osher": org, lx = [-5.0, -1.0, 0.0], [10.0, 2.0, 1.0]
    mesh = dict(xmin=org[0], xmax=org[0] + lx[0], ymin=org[1], ymax=org[1] + lx[1], zmin=org[2], zmax=org[2] + lx[2])
    for f, v in b.items(): mesh["boundary_type_" + f] = v
    hyd = dict(gamma0=r.choice([1.4, 1.666, 1.25]), cfl=r.choice([0.3, 0.5, 0.7]), niter_riemann=10, iorder=2, slope_type=r.choice([0, 1, 2]) if fam == "hydro" else r.choice([1, 2]), problem=p,
               riemann=r.choice(["approx", "hll", "hllc", "llf"] if fam == "hydro" else ["hlld", "hlld", "hll", "hll", "llf", "llf", "approx", "hllc"] if fam == "mhd" else ["hllc", "approx"]))
    run = dict(solver_name=solver_name(fam, dim, order), tEnd=100.0, nStepmax=steps or r.randint(2, 6), nOutput=-1, nlog=1)
    ini = dict(run=run, mesh=mesh, hydro=hyd, output=dict(outputDir="./", outputPrefix="out", vtk_enabled="false", hdf5_enabled="true"),
               OTHER=dict(implementationVersion=impl if impl is not None else r.choice([0, 1] if fam == "hydro" else [0, 1, 2])))
    if p in ("rayleigh_taylor", "rising_bubble"): ini["gravity"] = dict(static="true"); ini["rayleigh_taylor"] = dict(gx=r.choice([0.0, 0.05]), gy=-0.1); 
    if p == "disk": ini["gravity"] = dict(point="true")
    if p == "kelvin_helmholtz": ini["KH"] = dict(perturbation_sine=r.choice(["true", "false"]), perturbation_sine_robertson="true", perturbation_rand="false")
    if p == "four_quadrant": ini["riemann2d"] = dict(config_number=r.randint(0, 18), x=org[0] + lx[0] * 0.6, y=org[1] + lx[1] * 0.6)
    if p == "blast": ini["blast"] = dict(radius=0.2531 * min(lx[:dim]), pressure_in=r.choice([10.0, 2.0]), pressure_out=r.choice([0.1, 1.0]))
    if p == "implode": ini["implode"] = dict(shape_region=r.choice([0, 1]), **({"Bx_outer": 0.1, "Bx_inner": 0.1, "By_outer": 0.05, "By_inner": 0.05} if fam == "mhd" else {}))
    if p == "field_loop" and r.random() < 0.7: ini["FieldLoop"] = dict(radius=0.3, amplitude=r.choice([1.0, 1e-3]))
    if p == "wave": ini["wave"] = dict(type=r.choice([0, 1, 2, 3]), amplitude=r.choice([1e-2, 1e-6]))
    if p == "disk": ini["disk"] = dict(radius=0.3)
    if r.random() < 0.6:
        for sec, kv in problem_params(r, p, fam, dim, mesh, rand).items(): ini[sec] = dict(ini.get(sec, {}), **kv)
    if fam == "sdm":
        sd = ini["sdm"] = {r.choice(["forward_euler", "ssprk2", "ssprk3", "ssprk54"]): "true"}
        if r.random() < 0.3: sd["limiter_enabled"] = "true"; sd["limiter_characteristics_enabled"] = r.choice(["true", "false"])
        if r.random() < 0.3: sd["positivity_enabled"] = "true"
        if r.random() < 0.15: sd["rescale_dt_enabled"] = "true"
        hyd["cfl"] = 0.3
    sc = dict(fam=fam, dim=dim, order=order, layout=list(L), grid=G, ini=ini, restart=None)
    if fam != "sdm" and problem is None and p not in ("rayleigh_taylor", "rising_bubble", "disk") and r.random() < restart_p:
        sc["restart"] = dict(seed=r.getrandbits(40), amp=r.choice([0.05, 0.2, 0.5]))
    return sc

def make_ini(sc, layout, over=None):
    ini = {s: dict(kv) for s, kv in sc["ini"].items()}
    n = [sc["grid"][i] // layout[i] for i in range(3)]
    ini["mesh"].update(nx=n[0], ny=n[1], nz=n[2])
    ini["mpi"] = dict(mx=layout[0], my=layout[1], mz=layout[2])
    if sc.get("restart"): ini["run"].update(restart_enabled="true", restart_filename="restart.h5")
    for s, kv in (over or {}).items(): ini.setdefault(s, {}).update(kv)
    return ini

# -------------------------------------------------------------------------------- random states
def fields(fam, dim, grid, seed, amp, gamma, ext=None, smooth=False, planar=False):
    """random admissible conserved state on the global grid; periodic divergence-free B (planar: no third component)"""
    g = np.random.default_rng(seed)
    sh = tuple(grid[i] for i in range(dim))[::-1]
    U = lambda s=1.0: g.uniform(-s, s, sh)
    rho = 1.0 + amp * U(0.8)
    v = [0.3 * amp * U() + g.uniform(-0.2, 0.2) for _ in range(3)]
    if (fam == "hydro" and dim == 2) or planar: v[2] = 0 * rho
    p = 1.0 + amp * U(0.8)
    f = dict(rho=rho, rho_vx=rho * v[0], rho_vy=rho * v[1])
    ke = 0.5 * rho * (v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
    if dim == 3 or fam == "mhd": f["rho_vz"] = rho * v[2]
    e = p / (gamma - 1) + ke
    if fam == "mhd":
        h = ext or [1.0 / n for n in grid]
        a = 0.3 * amp
        rollp = lambda A, ax: np.roll(A, -1, ax)   # value at index+1 (periodic)
        if dim == 2:
            Az = a * U() * min(h[:2])
            bx = (rollp(Az, 0) - Az) / h[1] + 0.2
            by = -(rollp(Az, 1) - Az) / h[0] - 0.1
            bz = 0 * rho if planar else 0.1 + 0.2 * a * U()
            bzc = bz
        else:
            s = min(h)
            Ax, Ay, Az = a * U() * s, a * U() * s, a * U() * s
            bx = (rollp(Az, 1) - Az) / h[1] - (rollp(Ay, 0) - Ay) / h[2] + 0.2
            by = (rollp(Ax, 0) - Ax) / h[2] - (rollp(Az, 2) - Az) / h[0] - 0.1
            bz = (rollp(Ay, 2) - Ay) / h[0] - (rollp(Ax, 1) - Ax) / h[1] + 0.15
            bzc = 0.5 * (bz + rollp(bz, 0))
        ax = dim - 1
        bxc = 0.5 * (bx + rollp(bx, ax)); byc = 0.5 * (by + rollp(by, ax - 1))
        # boundary faces of non-periodic domains see other values: leave head-room in the energy
        bmax = max(np.abs(bx).max(), np.abs(by).max(), np.abs(bz).max())
        e = e + 0.5 * (bxc ** 2 + byc ** 2 + bzc ** 2) + (0.5 * bmax ** 2 if amp > 0.1 else 0)
        f.update(bx=bx, by=by, bz=bz)
    f["energy"] = e
    return f
