"""C13: VTK outputs hold exactly the simulated state."""
import os, re
import xml.etree.ElementTree as ET
import numpy as np
from dst import gen, oracle, vtk, h5
from dst.props import c01
ID = "C13"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=1800, thorough=30000)
RULE = ("seed -> finite-volume solver writing VTK image files and HDF5 (or spectral-difference solver writing unstructured files in both formats), ASCII or raw, decomposition, schedule plan, interrupted and partial writes. An independent reader decodes every piece; values are compared with "
        "the HDF5 output of the same index (bits for raw data, printed precision for ASCII), extents must tile the domain, the parallel header must name exactly the existing pieces with their extents. Spectral difference: the two formats must agree and sub-cells must tile the domain. "
        "Non-trivial: every case; distinct by solver, format, decomposition, problem.")
ASSUME = ["physical time is not part of image files", "floating-point header values (origin, spacing) to printed precision", "the HDF5 output of the same step is judged by C12"]

def gen_scenario(r, i, tier):
    if r.random() < 0.22:
        dim = 3 if r.random() < 0.3 else 2
        sc = gen.scenario(r, "sdm", dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.25 else None, steps=r.randint(0, 2), order=r.choice([1, 2, 3]) if dim == 2 else 2)
    else:
        fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.4 else 2
        sc = gen.scenario(r, fam, dim, maxr=8 if tier == "quick" else 12, layout=(1, 1, 1) if r.random() < 0.25 else None, steps=r.randint(0, 3), restart_p=0.6, maxcells=400 if dim == 2 else 1400)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.3
    sc["ascii"] = r.random() < 0.45
    sc["ghost"] = r.random() < 0.15 and not sc["restart"]
    sc["dir"] = r.choice(["./", "./", "data"]); sc["prefix"] = r.choice(["out", "out", "w.x_2"])
    sc["knobs"] = gen.knobs(r, n, disk=r.random() < 0.6)
    return sc

def bits(o, kind, what, got, want, asc):
    if got.shape != want.shape: o.bad(kind, "%s has %s values instead of %s" % (what, got.shape, want.shape)); return False
    if asc:
        ok = (np.abs(got - want) <= 6e-6 * np.abs(want) + 1e-300) | (np.isnan(got) & np.isnan(want)) | (got == want)
    else: ok = (got == want) | (np.isnan(got) & np.isnan(want))
    if not ok.all(): o.bad(kind, "%s: %d of %d values differ; %s" % (what, int((~ok).sum()), ok.size, oracle.where(want, got))); return False
    return True

def run(sc, ctx, o):
    L, G, dim, fam = sc["layout"], sc["grid"], sc["dim"], sc["fam"]; N = L[0] * L[1] * L[2]; i = sc["ini"]; n = [G[d] // L[d] for d in range(3)]; par = sc["par"]
    o.key = (fam, dim, sc["order"], sc["ascii"], par, tuple(L), i["hydro"]["problem"] if not sc["restart"] else "random", sc["dir"]); o.nontrivial = True
    what0 = "%s%dD %s on %s" % (fam, dim, "ascii" if sc["ascii"] else "raw", L)
    pre, sub = sc["prefix"], sc["dir"].rstrip("/")
    opt = dict(vtk_enabled="true", hdf5_enabled="false" if fam == "sdm" else "true", outputVtkAscii="true" if sc["ascii"] else "false", outputDir=sc["dir"], outputPrefix=pre)
    if sc["ghost"] and fam != "sdm": opt["ghostIncluded"] = "true"
    if fam == "sdm": return sdm(sc, ctx, o, what0, opt)
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, par)
    os.makedirs(d + "/" + sub, exist_ok=True)
    res = ctx.run("mpi" if par else "ser", gen.make_ini(sc, L, dict(output=opt)), N, sc["knobs"], d=d)
    if not res.ok: o.bad("run-failed", what0 + ": " + res.why()); return
    od = d + "/" + sub
    names = sorted(os.listdir(od))
    H = {int(f[-10:-3]): h5.read(od + "/" + f) for f in names if re.fullmatch(re.escape(pre) + r"_\d{7}\.h5", f)}
    if not H or any(x is None for x in H.values()): o.bad("outputs", what0 + ": HDF5 outputs not readable"); return
    g = gen.GW[fam]
    vti = sorted(f for f in names if f.endswith((".vti", ".pvti")))
    expect = []
    for k in H: expect += ["%s_time%07d_mpi%05d.vti" % (pre, k, q) for q in range(N)] + ["%s_time%07d.pvti" % (pre, k)] if par else ["%s_%07d.vti" % (pre, k)]
    if sorted(expect) != vti: o.bad("files", "%s: VTK files missing %s, unexpected %s" % (what0, sorted(set(expect) - set(vti))[:4], sorted(set(vti) - set(expect))[:4])); return
    org = [i["mesh"][a + "min"] for a in "xyz"]; sp = [(i["mesh"][a + "max"] - i["mesh"][a + "min"]) / G[q] for q, a in enumerate("xyz")]
    close = lambda x, y: abs(x - y) <= 1e-5 * max(abs(y), 1e-3)
    for k in sorted(H):
        what = "%s output %d" % (what0, k)
        ref = {v: a for v, a in H[k].items() if v[0] != "@"}
        if sc["ghost"]:
            ref = {v: a[(slice(g, -g),) * dim] for v, a in ref.items()}
        seen = {v: np.full(a.shape, False) for v, a in ref.items()}
        if par:
            try: ph = vtk.read_pvti(od + "/%s_time%07d.pvti" % (pre, k)); ET.parse(od + "/%s_time%07d.pvti" % (pre, k))
            except (ValueError, OSError, AttributeError, ET.ParseError) as e: o.bad("header", "%s: parallel header: %s" % (what, e)); return
            pieces = [(s, e) for e, s in ph["pieces"]]
            if sorted(s for s, e in pieces) != sorted("%s_time%07d_mpi%05d.vti" % (pre, k, q) for q in range(N)): o.bad("header", "%s: parallel header names %s" % (what, [s for s, e in pieces])); return
            if sorted(ph["names"]) != sorted(ref): o.bad("header", "%s: parallel header lists fields %s instead of %s" % (what, ph["names"], sorted(ref))); return
        else: pieces = [("%s_%07d.vti" % (pre, k), None)]; ph = None
        heads = [ph] if ph else []
        for src, ext in pieces:
            try: p = vtk.read_vti(od + "/" + src)
            except (ValueError, OSError, AttributeError, KeyError, IndexError) as e: o.bad("piece", "%s: %s: %s" % (what, src, e)); return
            if sc["ascii"]:
                try: ET.parse(od + "/" + src)
                except ET.ParseError as e: o.bad("piece", "%s: %s is not XML: %s" % (what, src, e)); return
            if ext is not None and p["extent"] != ext: o.bad("extent", "%s: %s covers %s but the parallel header says %s" % (what, src, p["extent"], ext)); return
            if p["whole"] != p["extent"] : o.bad("extent", "%s: %s covers %s of its whole extent %s" % (what, src, p["extent"], p["whole"])); return
            heads.append(p)
            e = p["extent"]
            if sorted(p["arrays"]) != sorted(ref): o.bad("fields", "%s: %s holds fields %s instead of %s" % (what, src, sorted(p["arrays"]), sorted(ref))); return
            lo = [e[2 * q] for q in range(dim)]; hi = [e[2 * q + 1] for q in range(dim)]
            if any(not (0 <= a < b <= G[q]) for q, (a, b) in enumerate(zip(lo, hi))) or (dim == 2 and e[5] - e[4] > 1): o.bad("extent", "%s: %s has extent %s in a domain of %s" % (what, src, e, G)); return
            sl = tuple(slice(lo[q], hi[q]) for q in reversed(range(dim)))
            for v in ref:
                a = p["arrays"][v]
                want = ref[v][sl]
                if a.size != want.size: o.bad("value", "%s: %s %s has %d values for extent %s" % (what, src, v, a.size, e)); return
                if seen[v][sl].any(): o.bad("extent", "%s: %s overlaps another piece" % (what, src)); return
                seen[v][sl] = True
                ctx.add("m.values_compared", int(a.size))
                if not bits(o, "value", "%s: %s %s" % (what, src, v), a.reshape(want.shape), want, sc["ascii"]): return
        if not all(s.all() for s in seen.values()): o.bad("extent", what + ": the pieces do not cover the domain"); return
        if ph:
            w = ph["whole"]
            zs = set(tuple(e[4:6]) for s, e in pieces)
            if w[:4] != [0, G[0], 0, G[1]] or (dim == 3 and w[4:] != [0, G[2]]) or (dim == 2 and zs != {tuple(w[4:])}): o.bad("extent", "%s: parallel header whole extent %s, pieces %s, domain %s" % (what, w, [e for s, e in pieces][:3], G)); return
        for x in heads:
            if not all(close(x["origin"][q], org[q]) and close(x["spacing"][q], sp[q]) for q in range(dim)): o.bad("geometry", "%s: origin %s spacing %s instead of %s %s" % (what, x["origin"], x["spacing"], org[:dim], sp[:dim])); return

def sdm(sc, ctx, o, what0, opt):
    L, G, dim = sc["layout"], sc["grid"], sc["dim"]; N = L[0] * L[1] * L[2]; i = sc["ini"]; v = "mpisdm" if sc["par"] else "sersdm"; pre, sub = sc["prefix"], sc["dir"].rstrip("/")
    S = {}
    for name, asc, kn in (("ascii", "true", sc["knobs"] if sc["ascii"] else None), ("raw", "false", None if sc["ascii"] else sc["knobs"])):
        d = ctx.mkdir(name); od = d + "/" + sub; os.makedirs(od, exist_ok=True)
        res = ctx.run(v, gen.make_ini(sc, L, dict(output=dict(opt, outputVtkAscii=asc))), N, kn, d=d)
        if not res.ok: o.bad("run-failed", "%s (%s): %s" % (what0, name, res.why())); return
        names = os.listdir(od)
        S[name] = vtk.sdm_states(od, pre)
        if not S[name] or any(x is None for x in S[name].values()): o.bad("piece", "%s: %s output not readable: %s" % (what0, name, sorted(names)[:5])); return
        vtu = sorted(f for f in names if f.endswith((".vtu", ".pvtu"))); ex = []
        for k in S[name]: ex += ["%s_time%07d_mpi%05d.vtu" % (pre, k, q) for q in range(N)] + ["%s_time%07d.pvtu" % (pre, k)] if sc["par"] else ["%s_%07d.vtu" % (pre, k)]
        if sorted(ex) != vtu: o.bad("files", "%s: VTK files missing %s, unexpected %s" % (what0, sorted(set(ex) - set(vtu))[:4], sorted(set(vtu) - set(ex))[:4])); return
        if sc["par"]:
            for k in S[name]:
                f = "%s_time%07d.pvtu" % (pre, k)
                try: t = ET.parse(od + "/" + f)
                except ET.ParseError as e: o.bad("header", "%s: %s: %s" % (what0, f, e)); return
                srcs = sorted(p.get("Source") for p in t.iter("Piece")); w = sorted("%s_time%07d_mpi%05d.vtu" % (pre, k, q) for q in range(N))
                if srcs != w: o.bad("header", "%s: %s names %s" % (what0, f, srcs)); return
                lst = sorted(p.get("Name") for c in t.iter("PCellData") for p in c.iter("PDataArray"))
                have = sorted(x for x in S[name][k] if x[0] != "@")
                if lst != have: o.bad("header", "%s: %s lists fields %s, pieces hold %s" % (what0, f, lst, have)); return
    A, R = S["ascii"], S["raw"]
    if sorted(A) != sorted(R): o.bad("files", "%s: indices %s in ascii, %s raw" % (what0, sorted(A), sorted(R))); return
    cells = int(np.prod([G[q] for q in range(dim)])) * sc["order"] ** dim
    lo = np.array([i["mesh"][a + "min"] for a in "xyz"][:dim]); hi = np.array([i["mesh"][a + "max"] for a in "xyz"][:dim])
    for k in sorted(R):
        r, a = R[k], A[k]
        if len(r["@lo"]) != cells: o.bad("extent", "%s output %d: %d sub-cells instead of %d" % (what0, k, len(r["@lo"]), cells)); return
        b0, b1 = r["@lo"][:, :dim], r["@hi"][:, :dim]
        vol = np.prod(b1 - b0, axis=1).sum()
        if abs(vol - np.prod(hi - lo)) > 1e-5 * np.prod(hi - lo) or np.abs(b0.min(0) - lo).max() > 1e-5 * (hi - lo).max() or np.abs(b1.max(0) - hi).max() > 1e-5 * (hi - lo).max(): o.bad("extent", "%s output %d: the sub-cells cover %s to %s, volume %g of %g" % (what0, k, b0.min(0), b1.max(0), vol, np.prod(hi - lo))); return
        if len(np.unique(np.round(r["@centre"] / 1e-5 / (hi - lo).max()), axis=0)) != cells: o.bad("extent", "%s output %d: sub-cells coincide" % (what0, k)); return
        for v in r:
            if v[0] == "@": continue
            if v not in a: o.bad("fields", "%s output %d: %s missing in ascii" % (what0, k, v)); return
            ctx.add("m.values_compared", int(r[v].size))
            if not bits(o, "value", "%s output %d: ascii %s against raw" % (what0, k, v), a[v], r[v], True): return
shrink = c01.shrink
