"""C03: ghost cells hold the boundary image of the global field."""
import numpy as np
from dst import gen, oracle, layout, h5
ID = "C03"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=3600, thorough=60000)
RULE = ("seed -> random field (distinct value in every cell and component), grid, boundary types, decomposition and schedule plan; the job starts from a checkpoint whose ghost layers are poisoned, fills its ghosts, dumps every sub-domain with its ghosts, takes up to three steps and dumps again after each; "
        "every value is compared bit for bit with the image computed by an independent separable index map from the global field (of the checkpoint for the first dump, of the interior cells of the same dump afterwards, so that a ghost cell left from an earlier fill shows). Non-trivial: every case; distinct by dimension, family, decomposition and boundary types.")
ASSUME = ["sub-domains are at least as large as the ghost width", "ghost cells are refilled before each dump"]
GWD = dict(hydro=2, mhd=3)

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.45 else 2
    par = r.random() < 0.85
    if par: L = r.choice(gen.layouts(dim, 8 if tier == "quick" else 12) + [(1, 1, 1)])
    else: L = (1, 1, 1)
    g = GWD[fam]
    n = [r.randint(g, g + r.choice([0, 2, 4])) for _ in range(dim)] + ([1] if dim == 2 else [])
    b = {}
    for d in range(dim):
        lo, hi = gen.FACES[2 * d], gen.FACES[2 * d + 1]
        if r.random() < 0.4: b[lo] = b[hi] = 3
        else: b[lo], b[hi] = r.choice([1, 2]), r.choice([1, 2])
    k = gen.knobs(r, L[0] * L[1] * L[2], disk=r.random() < 0.3)
    return dict(fam=fam, dim=dim, layout=list(L), grid=[n[d] * L[d] for d in range(3)], bc=b, par=par, fseed=r.getrandbits(40), knobs=k, steps=r.choice([0, 0, 1, 2, 3]))

def run(sc, ctx, o):
    dim, fam, L, G = sc["dim"], sc["fam"], sc["layout"], sc["grid"]
    g = GWD[fam]; n = [G[d] // L[d] for d in range(3)]
    rng = np.random.default_rng(sc["fseed"])
    sh = tuple(G[d] for d in reversed(range(dim)))
    vs = ["rho", "energy", "rho_vx", "rho_vy"] + (["rho_vz"] if dim == 3 or fam == "mhd" else []) + (["bx", "by", "bz"] if fam == "mhd" else [])
    F = {}
    for q, v in enumerate(vs):
        a = rng.permutation(int(np.prod(sh))).reshape(sh) / np.prod(sh)     # every cell distinct
        F[v] = {"rho": 1 + a, "energy": 100 + a}.get(v, 0.01 + 0.1 * a + 0.2 * (q - 2) / 10)
    mesh = dict(xmin=0.0, xmax=1.0, ymin=0.0, ymax=1.0, zmin=0.0, zmax=1.0, nx=n[0], ny=n[1], nz=n[2], **{"boundary_type_" + f: v for f, v in sc["bc"].items()})
    ini = dict(run=dict(solver_name=gen.solver_name(fam, dim), tEnd=1.0, nStepmax=sc["steps"], nOutput=-1 if sc["steps"] else 1, nlog=1, restart_enabled="true", restart_filename="restart.h5"), mesh=mesh,
               hydro=dict(gamma0=1.4, cfl=0.5, niter_riemann=10, iorder=2, slope_type=1, problem="blast", riemann="hlld" if fam == "mhd" else "hllc"),
               output=dict(outputDir="./", outputPrefix="out", vtk_enabled="false", hdf5_enabled="true", ghostIncluded="true", allghostIncluded="true" if sc["par"] else "false"),
               OTHER=dict(implementationVersion=0), mpi=dict(mx=L[0], my=L[1], mz=L[2]))
    want = {v: layout.allghost_layout(e, dim, g, n, L) for v, e in layout.extend(F, dim, g, mesh).items()}
    # the checkpoint: same layout, ghosts poisoned
    inner = np.zeros_like(want["rho"], bool)
    m = [n[d] + 2 * g for d in range(dim)]
    ok = [np.array([g <= x % m[d] < g + n[d] for x in range(L[d] * m[d])]) for d in range(dim)]
    inner = np.ones_like(want["rho"], bool)
    for d in range(dim): inner &= ok[d].reshape([-1 if ax == dim - 1 - d else 1 for ax in range(dim)])
    d = ctx.mkdir("run")
    h5.write(d + "/restart.h5", {v: np.where(inner, w, 1e33) for v, w in want.items()}, {"time step": 0, "nx": n[0], "ny": n[1], "nz": n[2], "mx": L[0], "my": L[1], "mz": L[2], "ghost zone included": 1}, 0.0)
    N = L[0] * L[1] * L[2]
    res = ctx.run("mpi" if sc["par"] else "ser", ini, N, sc["knobs"], d=d)
    o.key = (fam, dim, tuple(L), tuple(sorted(sc["bc"].items())), sc["par"]); o.nontrivial = True
    if not res.ok: o.bad("run-failed", "%s: %s" % (L, res.why())); return
    out = res.h5s()
    if 0 not in out or out[0] is None: o.bad("no-output", "no readable initial output: %s" % res.files()); return
    ctx.add("m.ghost_values_compared", int((~inner).sum()) * len(vs))
    if len(out) < sc["steps"] + 1: o.bad("no-output", "only outputs %s after %d steps" % (sorted(out), sc["steps"])); return
    want0 = want
    for i in sorted(out):
        x = out[i]
        if x is None: o.bad("no-output", "output %d is not readable" % i); return
        want = want0
        if i >= 2:   # outputs 0 and 1 hold the state of the checkpoint
            if any(v not in x or x[v].shape != want0[v].shape for v in vs): o.bad("shape", "output %d has fields %s" % (i, {v: x[v].shape for v in vs if v in x})); return
            if not all(np.isfinite(x[v][inner]).all() for v in vs): break
            E = {v: x[v][inner].reshape(sh) for v in vs}
            want = {v: layout.allghost_layout(e, dim, g, n, L) for v, e in layout.extend(E, dim, g, mesh).items()}
            ctx.add("m.dumps_after_a_step", 1)
        for v in vs:
            if x[v].shape != want[v].shape: o.bad("shape", "%s has shape %s instead of %s" % (v, x[v].shape, want[v].shape)); return
            if x[v].tobytes() != want[v].tobytes() and not np.array_equal(x[v], want[v]):
                bad = np.argwhere(x[v] != want[v])
                p = tuple(int(t) for t in bad[0])
                loc = [(p[dim - 1 - d] // m[d], p[dim - 1 - d] % m[d] - g) for d in range(dim)]
                o.bad("ghost", "%s: %d of %d values of %s wrong in output %d (%d in ghosts); first: sub-domain %s local cell %s holds %.17g instead of %.17g; layout %s sizes %s bc %s" % (
                    fam + str(dim) + "D", len(bad), x[v].size, v, i, sum(not inner[tuple(t)] for t in bad), [a for a, _ in loc], [b for _, b in loc], x[v][p], want[v][p], L, n[:dim], sc["bc"])); return
def shrink(sc):
    import json
    L = sc["layout"]
    for ax in range(3):
        if L[ax] > 1:
            s = json.loads(json.dumps(sc)); s["grid"][ax] = sc["grid"][ax] // L[ax] * (L[ax] - 1); s["layout"][ax] -= 1; yield s
    for f in sorted(sc["bc"]):
        if sc["bc"][f] == 1:
            s = json.loads(json.dumps(sc)); s["bc"][f] = 2; yield s
