"""C20: an up-scaled restart prolongates the checkpoint exactly."""
import json, os, shutil
import numpy as np
from dst import gen, oracle, layout, h5
from dst.props import c01, c12
ID = "C20"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=1800, thorough=30000)
RULE = ("seed -> half-resolution checkpoint (random divergence-free state written in the layout the ghost options announce, or written by the application after some steps, possibly on another decomposition), fine grid, decomposition, ghost option, boundary types, schedule plan and interrupted reads. "
        "The first output of the up-scaled run is compared bit for bit with an independent prolongation, its field must be divergence free where the checkpoint is, and its later outputs must be those of a run started from the explicitly prolongated state. Non-trivial: every case; distinct by solver, origin, ghost option, decompositions, boundary types.")
ASSUME = ["MHD needs a checkpoint that includes its ghost layers, as the code documents", "divergence is judged to 1e-12 of the field scale"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd", "mhd"]); dim = 3 if r.random() < 0.4 else 2
    par = r.random() < 0.75
    g = gen.GW[fam]
    sc = gen.scenario(r, fam, dim, maxr=8 if tier == "quick" else 12, layout=None if par else (1, 1, 1), steps=r.randint(0, 2), restart_p=1.0, maxcells=300 if dim == 2 else 800)
    sc["par"] = par; sc["mode"] = r.choice(["ghost", "all"]) if par else "ghost"
    if fam == "hydro" and r.random() < 0.3: sc["mode"] = "plain"
    sc["coarse"] = sc["grid"]; sc["grid"] = [2 * x if q < dim else x for q, x in enumerate(sc["grid"])]
    if not sc["restart"]: sc["restart"] = dict(seed=r.getrandbits(40), amp=r.choice([0.05, 0.2, 0.5]))   # problems with gravity
    sc["restart"].update(index=r.choice([0, 2, 7]), time=r.choice([0.0, 0.25, 1.7]))
    sc["app"] = r.choice([0, 0, 1, 3])
    # a ghost-included file can be written by any decomposition
    Lw = list(sc["layout"])
    if sc["mode"] != "all" and par and r.random() < 0.5: Lw = [1, 1, 1]
    sc["wlayout"] = Lw
    L = sc["layout"]
    sc["knobs"] = gen.knobs(r, L[0] * L[1] * L[2], disk=r.random() < 0.5)
    return sc

def prolong(E, v, dim, g, grid):
    """independent prolongation of an extended coarse field: value of the containing cell, faces averaged"""
    a = E
    for d in range(dim):
        ax = dim - 1 - d
        f = np.arange(grid[d])
        lo = np.take(a, f // 2 + g, axis=ax)
        if v == "b" + "xyz"[d]:
            hi = np.take(a, f // 2 + 1 + g, axis=ax)
            m = (f % 2 == 1).reshape([-1 if k == ax else 1 for k in range(dim)])
            a = np.where(m, (lo + hi) / 2, lo)
        else: a = lo
    return a

def div(F, dim, h):
    bx, by = F["bx"], F["by"]
    D = lambda a, ax: np.diff(a, axis=ax)
    if dim == 2: return D(bx, 1)[:-1, :] / h[0] + D(by, 0)[:, :-1] / h[1], max(np.abs(F[b]).max() for b in ("bx", "by")) / min(h[:2])
    return D(bx, 2)[:-1, :-1, :] / h[0] + D(by, 1)[:-1, :, :-1] / h[1] + D(F["bz"], 0)[:, :-1, :-1] / h[2], max(np.abs(F[b]).max() for b in ("bx", "by", "bz")) / min(h)

def run(sc, ctx, o):
    dim, fam, L, G, Gc, mode, par = sc["dim"], sc["fam"], sc["layout"], sc["grid"], sc["coarse"], sc["mode"], sc["par"]
    g = gen.GW[fam]; n = [G[d] // L[d] for d in range(3)]; N = L[0] * L[1] * L[2]; i = sc["ini"]; rs = sc["restart"]; v = "mpi" if par else "ser"
    o.key = (fam, dim, mode, par, tuple(L), tuple(sc["wlayout"]), bool(sc["app"]), tuple(sorted((k, x) for k, x in i["mesh"].items() if "bound" in k))); o.nontrivial = True
    opt = dict(ghostIncluded="true" if mode == "ghost" else "false", allghostIncluded="true" if mode == "all" else "false")
    what = "%s%dD %s %s %s on %s" % (fam, dim, "application" if sc["app"] else "random", mode, "mpi" if par else "serial", L)
    csc = dict(sc, grid=Gc)
    m = i["mesh"]
    d0 = ctx.mkdir("file")
    if not sc["app"]:
        F0 = oracle.put_restart(csc, d0, L, par, index=rs["index"], time=rs["time"])
        nc = [Gc[d] // L[d] for d in range(3)]
        at = {"time step": rs["index"], "nx": nc[0], "ny": nc[1], "nz": nc[2]}
        if par: at.update(mx=L[0], my=L[1], mz=L[2])
        E0 = layout.extend(F0, dim, g, m)
        src = d0 + "/up.h5"
        h5.write(src, c12.place(F0, mode, par, dim, g, nc, L, m), at, rs["time"])
        idx, t0 = rs["index"], rs["time"]
    else:
        Lw = sc["wlayout"]
        oracle.put_restart(csc, d0, Lw, par, index=rs["index"], time=rs["time"])
        nw = [Gc[d] // Lw[d] for d in range(3)]
        h5.write(d0 + "/restart.h5", c12.place(gen.fields(fam, dim, Gc, rs["seed"], rs["amp"], i["hydro"]["gamma0"], ext=[(m[a + "max"] - m[a + "min"]) / Gc[q] for q, a in enumerate("xyz")]), mode, par, dim, g, nw, Lw, m),
                 dict({"time step": rs["index"], "nx": nw[0], "ny": nw[1], "nz": nw[2]}, **({"mx": Lw[0], "my": Lw[1], "mz": Lw[2]} if par else {})), rs["time"])
        w = ctx.run(v, gen.make_ini(csc, Lw, dict(run=dict(nStepmax=sc["app"]), output=opt)), Lw[0] * Lw[1] * Lw[2], None, d=d0)
        if not w.ok: o.bad("run-failed", what + ": coarse run: " + w.why()); return
        H = w.h5s(); idx = max(H); x = H[idx]
        if x is None: o.bad("run-failed", what + ": coarse output not readable"); return
        src = d0 + "/out_%07d.h5" % idx; t0 = x["@total time"]
        # interior of what was written
        F0 = {}
        for q in x:
            if q[0] == "@": continue
            a = x[q]
            if mode == "ghost": a = a[(slice(g, -g),) * dim]
            elif mode == "all":
                for d in range(dim):
                    mm = nw[d] + 2 * g
                    a = np.take(a, [z for z in range(Lw[d] * mm) if g <= z % mm < g + nw[d]], axis=dim - 1 - d)
            F0[q] = a
        E0 = layout.extend(F0, dim, g, m)
        if not all(np.isfinite(a).all() for a in F0.values()): ctx.add("m.not_finite"); return
    P = {q: prolong(E0[q], q, dim, g, G) for q in E0}
    d = ctx.mkdir("run"); shutil.copyfile(src, d + "/restart.h5")
    res = ctx.run(v, gen.make_ini(sc, L, dict(run=dict(restart_upscale="true"), output=opt)), N, sc["knobs"], d=d)
    if not res.ok: o.bad("run-failed", what + ": " + res.why()); return
    X = res.h5s()
    if not X or any(x is None for x in X.values()): o.bad("outputs", what + ": outputs not readable"); return
    if min(X) != idx: o.bad("outputs", "%s: first output has index %d instead of %d" % (what, min(X), idx)); return
    x = X[idx]
    if x["@total time"] != t0: o.bad("time", "%s: first output at time %r instead of %r" % (what, x["@total time"], t0)); return
    W = c12.place(P, mode, par, dim, g, n, L, m)
    inner = c12.place({"rho": np.ones(P["rho"].shape)}, mode, par, dim, g, n, L, dict(m, **{"boundary_type_" + f: 2 for f in gen.FACES}))["rho"]
    for q in sorted(P):
        if q not in x or x[q].shape != W[q].shape: o.bad("value", "%s: %s missing or of shape %s instead of %s" % (what, q, x[q].shape if q in x else None, W[q].shape)); return
        ctx.add("m.values_compared", int(W[q].size))
        if not np.array_equal(x[q], W[q]): o.bad("value", "%s: %s: %d of %d values are not those of the prolongated checkpoint; %s; sizes %s" % (what, q, int((x[q] != W[q]).sum()), W[q].size, oracle.where(W[q], x[q]), n[:dim])); return
    if fam == "mhd":
        h = [(m[a + "max"] - m[a + "min"]) / G[q] for q, a in enumerate("xyz")]
        # coarse divergence of every cell, outer faces taken from the ghost layer; fine cells inherit it
        Ec = {b: E0[b][tuple(slice(g, Gc[d] + g + 1) for d in reversed(range(dim)))] for b in ("bx", "by", "bz")}
        dc, s0 = div(Ec, dim, [2 * z for z in h])
        for d in range(dim): dc = np.repeat(dc, 2, axis=dim - 1 - d)
        df, s1 = div(P, dim, h)
        ok = np.abs(dc)[tuple(slice(0, z) for z in df.shape)] < 1e-12 * s0
        ctx.add("m.divergence_checked", int(ok.sum()))
        if (np.abs(df) * ok).max() > 1e-11 * s1: o.bad("divergence", "%s: divergence %g of scale %g" % (what, (np.abs(df) * ok).max(), s1)); return
    # the rest of the run is that of a run started from the prolongated state
    d = ctx.mkdir("same")
    at = {"time step": idx, "nx": n[0], "ny": n[1], "nz": n[2]}
    if par: at.update(mx=L[0], my=L[1], mz=L[2])
    h5.write(d + "/restart.h5", W, at, t0)
    ref = ctx.run(v, gen.make_ini(sc, L, dict(output=opt)), N, None, d=d)
    if not ref.ok: o.bad("run-failed", what + ": run from the prolongated state: " + ref.why()); return
    oracle.compare_h5(o, "continuation", ref.h5s(), X, 0.0, what + ": run from the prolongated state against up-scaled run")

def shrink(sc):
    if sc.get("app"):
        s = json.loads(json.dumps(sc)); s["app"] = 0; yield s
    L = sc["layout"]
    for ax in range(3):
        if L[ax] > 1:
            s = json.loads(json.dumps(sc)); s["grid"][ax] = sc["grid"][ax] // L[ax] * (L[ax] - 1); s["coarse"][ax] = sc["coarse"][ax] // L[ax] * (L[ax] - 1); s["layout"][ax] -= 1
            s["wlayout"] = [1, 1, 1] if sc["wlayout"] == [1, 1, 1] else list(s["layout"]); yield s
