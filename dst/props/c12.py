"""C12: HDF5 outputs hold exactly the simulated state."""
import os
import xml.etree.ElementTree as ET
import numpy as np
from dst import gen, oracle, layout, h5
from dst.props import c01
ID = "C12"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=2000, thorough=40000)
RULE = ("seed -> hydro or MHD start state (mostly a checkpoint with a random state, index and time), ghost options (none, outer, all), pieces joined or stacked, compression, decomposition, schedule plan, interrupted and partial disk operations. "
        "The first output is compared bit for bit with the start state, every output with a one-rank run that uses the default layout (1e-10) and with the default layout on the same decomposition (bits); positions and ghost values come from an independent model of each layout; sizes, index, "
        "time and layout flags must be those of the run. Non-trivial: a ghost option, stacked pieces, several ranks or compression; distinct by solver, layout option, decomposition, boundary types.")
ASSUME = ["sub-domains are at least as large as the ghost width", "ghost layers of an output are those of the saved time"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.4 else 2
    par = r.random() < 0.8
    sc = gen.scenario(r, fam, dim, maxr=8 if tier == "quick" else 12, layout=None if par else (1, 1, 1), steps=r.randint(0, 4), restart_p=1.0 if r.random() < 0.75 else 0.0, maxcells=500 if dim == 2 else 1600)
    if par and r.random() < 0.1: sc["layout"] = [1, 1, 1]
    if sc["restart"]: sc["restart"].update(index=r.choice([0, 2, 7, 123]), time=r.choice([0.0, 0.25, 1.7]))
    m = r.choice(["plain", "ghost", "ghost", "all", "all", "stack", "stackghost"]) if par else r.choice(["plain", "ghost"])
    sc["mode"] = m; sc["par"] = par
    sc["comp"] = r.choice([0, 0, 1, 9]) if not par else 0
    sc["verbose"] = r.random() < 0.2
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["knobs"] = gen.knobs(r, n, disk=r.random() < 0.6)
    return sc

def place(F, mode, par, dim, g, n, L, mesh):
    """global interior fields -> the arrays the file must hold"""
    if mode == "plain": return F
    E = layout.extend(F, dim, g, mesh)
    if mode == "ghost": return E
    if mode == "all": return {v: layout.allghost_layout(e, dim, g, n, L) for v, e in E.items()} if par else F
    out = {}
    for v in F:
        parts = []
        for cx in range(L[0]):
            for cy in range(L[1]):
                for cz in range(L[2]):
                    c = (cx, cy, cz)
                    parts.append(layout.window(E[v], dim, g, n, c) if mode == "stackghost" else F[v][tuple(slice(c[d] * n[d], (c[d] + 1) * n[d]) for d in reversed(range(dim)))])
        out[v] = np.concatenate(parts, axis=0)
    return out

def xdmf(o, d, X, vs, dim, what):
    """the XDMF index describes every file as it is: existing datasets, each once, with their true dimensions"""
    p = d + "/out.xmf"
    if not os.path.exists(p): o.bad("xdmf", what + ": no XDMF index"); return
    try: root = ET.fromstring(open(p).read().replace('<!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>', ""))
    except ET.ParseError as e: o.bad("xdmf", "%s: the XDMF index is not well-formed: %s" % (what, e)); return
    seen = set()
    for gr in root.iter("Grid"):
        if gr.get("GridType") != "Uniform": continue
        topo = gr.find("Topology"); tdim = topo.get("NumberOfElements", topo.get("Dimensions", "")).split()
        if not topo.get("TopologyType", "").startswith("%dD" % dim): o.bad("xdmf", "%s: topology %s" % (what, topo.attrib)); return
        names = []
        for at in gr.iter("Attribute"):
            for ds in list(at.iter("DataStructure")) + list(at.iter("DataItem")):
                if ds.get("Format") != "HDF": continue
                f, v = ds.text.strip().split(":/"); k = int(f[-10:-3]) if f[-3:] == ".h5" and f[-10:-3].isdigit() else None
                if k not in X: continue                        # outputs of the run that was resumed live elsewhere
                names.append(v); seen.add(k)
                if v not in X[k]: o.bad("xdmf", "%s: the XDMF index names %s of %s, which does not exist" % (what, v, f)); return
                if at.get("Name") != v: o.bad("xdmf", "%s: the XDMF index calls %s of %s %s" % (what, v, f, at.get("Name"))); return
                sh = [str(q) for q in X[k][v].shape]
                if ds.get("Dimensions", "").split() != sh or tdim != sh: o.bad("xdmf", "%s: the XDMF index gives %s of %s dimensions %s (mesh %s), it has %s" % (what, v, f, ds.get("Dimensions"), tdim, sh)); return
        if names and sorted(names) != vs: o.bad("xdmf", "%s: the XDMF index lists %s for %s instead of %s" % (what, sorted(names), gr.get("Name"), vs)); return
    if seen != set(X): o.bad("xdmf", "%s: the XDMF index lists outputs %s of %s" % (what, sorted(seen), sorted(X))); return

def run(sc, ctx, o):
    dim, fam, L, G, mode, par = sc["dim"], sc["fam"], sc["layout"], sc["grid"], sc["mode"], sc["par"]
    g = gen.GW[fam]; n = [G[d] // L[d] for d in range(3)]; N = L[0] * L[1] * L[2]; i = sc["ini"]; rs = sc["restart"]
    o.key = (fam, dim, mode, par, tuple(L), sc["comp"], tuple(sorted((k, v) for k, v in i["mesh"].items() if "bound" in k)), bool(rs), i["OTHER"]["implementationVersion"])
    o.nontrivial = mode != "plain" or N > 1 or sc["comp"] > 0
    opt = dict(ghostIncluded="true" if mode in ("ghost", "stackghost") else "false", allghostIncluded="true" if mode == "all" else "false", reassembleInFile="false" if mode[:5] == "stack" else "true",
               hdf5_verbose="true" if sc["verbose"] else "false", outputHdf5CompressionLevel=sc["comp"])
    kw = dict(index=rs["index"], time=rs["time"]) if rs else {}
    what = "%s%dD %s %s on %s" % (fam, dim, mode, "mpi" if par else "serial", L)
    # one rank, default layout
    d = ctx.mkdir("ref"); F0 = oracle.put_restart(sc, d, [1, 1, 1], False, **kw)
    ref = ctx.run("ser", gen.make_ini(sc, [1, 1, 1]), 1, None, d=d)
    if not ref.ok: o.bad("run-failed", "one-rank run: " + ref.why()); return
    # same decomposition, default layout
    d = ctx.mkdir("plain"); oracle.put_restart(sc, d, L, par, **kw)
    pl = ctx.run("mpi" if par else "ser", gen.make_ini(sc, L), N, None, d=d)
    if not pl.ok: o.bad("run-failed", "default layout: " + pl.why()); return
    d = ctx.mkdir("run")
    if rs:
        # start file in the layout the ghost options announce; stacked files can not be restarted from
        m0 = mode if mode in ("plain", "ghost", "all") else "plain"
        at = {"time step": rs["index"], "nx": n[0], "ny": n[1], "nz": n[2]}
        if par: at.update(mx=L[0], my=L[1], mz=L[2])
        if mode == "stackghost": m0 = "ghost"
        h5.write(d + "/restart.h5", place(F0, m0, par, dim, g, n, L, i["mesh"]), at, rs["time"])
    res = ctx.run("mpi" if par else "ser", gen.make_ini(sc, L, dict(output=opt)), N, sc["knobs"], d=d)
    if not res.ok: o.bad("run-failed", what + ": " + res.why()); return
    R, P, X = ref.h5s(), pl.h5s(), res.h5s()
    i0 = rs["index"] if rs else 0
    if not (sorted(R) == sorted(P) == sorted(X)) or not X or min(X) != i0: o.bad("outputs", "%s: output indices %s, default layout %s, one rank %s" % (what, sorted(X), sorted(P), sorted(R))); return
    if any(x is None for q in (R, P, X) for x in q.values()): o.bad("outputs", what + ": an output is not readable"); return
    if rs:
        for v in F0:
            if v not in P[i0] or not np.array_equal(F0[v], P[i0][v]): o.bad("start-state", "%s: %s of the first output is not that of the start state: %s" % (what, v, oracle.where(F0[v], P[i0][v]) if v in P[i0] else "missing")); return
        if P[i0]["@total time"] != rs["time"]: o.bad("start-state", "%s: time %r instead of %r" % (what, P[i0]["@total time"], rs["time"])); return
    vs = sorted(["rho", "energy", "rho_vx", "rho_vy"] + (["rho_vz"] if dim == 3 or fam == "mhd" else []) + (["bx", "by", "bz"] if fam == "mhd" else []))
    if not oracle.compare_h5(o, "value", R, P, 1e-10, what + ": default layout against one rank"): return
    nanfree = True
    for k in sorted(X):
        x, p = X[k], P[k]
        have = sorted(v for v in x if v[0] != "@")
        if have != vs: o.bad("variables", "%s: output %d holds %s instead of %s" % (what, k, have, vs)); return
        want = place({v: p[v] for v in vs}, mode, par, dim, g, n, L, i["mesh"])
        for v in vs:
            ctx.add("m.values_compared", int(want[v].size))
            if x[v].shape != want[v].shape: o.bad("shape", "%s: output %d %s has shape %s instead of %s" % (what, k, v, x[v].shape, want[v].shape)); return
            if not np.array_equal(x[v], want[v], equal_nan=True): o.bad("value", "%s: output %d %s: %d of %d values differ; %s; sizes %s bc %s" % (what, k, v, int((x[v] != want[v]).sum()), x[v].size, oracle.where(want[v], x[v]), n, i["mesh"])); return
        at = {"@time step": k, "@nx": n[0], "@ny": n[1], "@nz": n[2]}
        if par: at.update({"@mx": L[0], "@my": L[1], "@mz": L[2], "@external ghost zones only included": int(opt["ghostIncluded"] == "true"), "@all ghost zones included": int(mode == "all"), "@reassemble MPI pieces in file": int(mode[:5] != "stack")})
        else: at["@ghost zone included"] = int(mode == "ghost")
        if not par: at = {a: b for a, b in at.items() if a in ("@time step", "@ghost zone included") or a in x}
        bad = {a: (x.get(a), b) for a, b in at.items() if x.get(a) != b}
        if bad: o.bad("attribute", "%s: output %d attributes (found, expected): %s" % (what, k, bad)); return
        if not x["@date"]: o.bad("attribute", "%s: output %d has no creation date" % (what, k)); return
        if x["@total time"] != p["@total time"]: o.bad("attribute", "%s: output %d time %r instead of %r" % (what, k, x["@total time"], p["@total time"])); return
    xdmf(o, d, X, vs, dim, what)
shrink = c01.shrink
