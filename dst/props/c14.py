"""C14: outputs follow the requested schedule."""
import os, re
import numpy as np
from dst import gen, oracle, h5, vtk
ID = "C14"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=2200, thorough=40000)
RULE = ("seed -> hydro, MHD or spectral-difference problem or restart from a checkpoint with a random index and time, tEnd, nStepmax, nOutput (negative, zero, positive), output directory and formats, decomposition and schedule. A companion run that saves every step gives "
        "the time and state of every step; a reference model of the schedule says which indices must exist with which time and state, and what the XDMF index must list. Non-trivial: at least one output between the first and the last; "
        "distinct by solver, problem, nOutput, number of steps and outputs, decomposition.")
ASSUME = ["runs in which a step time lies within 1e-11 tEnd of a multiple of tEnd/nOutput are not judged (either decision is allowed)", "the XDMF index stamps each step with its output index, as the code documents; it must list every index from 0 to the last one and name files that a reader finds from the index's own directory"]
f32 = lambda x: float(np.float32(x))

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.25 else 2
    kw = dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else {}
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.35 else None, steps=r.randint(0, 9), restart_p=0.5, maxcells=400 if dim == 2 else 1400, **kw)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.2
    if sc["restart"]: sc["restart"].update(index=r.choice([0, 1, 3, 12]), time=r.choice([0.0, 0.1, 0.37]))
    sc["nOutput"] = r.choice([-1, -5, 0, 1, 2, 3, 5, 10, 100, 1000])
    sc["frac"] = r.choice([r.uniform(0.02, 1.0), r.uniform(1, 8), r.uniform(1, 8), None])
    sc["vtk"] = r.random() < 0.3; sc["dir"] = r.choice(["./", "./", "data", "data/"])
    sc["prefix"] = r.choice(["out", "out", "run_2"])
    sc["ghost"] = r.random() < 0.2
    sc["knobs"] = gen.knobs(r, n)
    if sc["restart"] and r.random() < 0.3: sc["ini"]["run"]["restart_reset_totaltime"] = "true"     # the run starts again at time zero
    return sc

def model(T, idx0, nOut, tEnd, start_idx, eps=1e-11):
    """[(index, step)] expected, or None when round-off decides"""
    if nOut == 0: return []
    out = [(idx0, 0)]; c = idx0 + 1
    I = tEnd / nOut
    for s in range(len(T) - 1):
        if nOut < 0: out.append((c, s)); c += 1; continue
        x = T[s] - (c - 1) * I - I
        if abs(x) < eps * max(tEnd, 1e-30): return None
        if abs(T[s] - tEnd) < max(1e-9, eps * tEnd): return None
        if x > 0 and s > 0: out.append((c, s)); c += 1
    out.append((c, len(T) - 1))
    return out

def states(res, sdm=False):
    """states of a run that saves every step, from its outputs"""
    H = vtk.sdm_states(res.dir) if sdm else res.h5s(); ks = sorted(H)
    if not ks or any(H[k] is None for k in ks): return None
    if len(ks) > 2: return ks[0], [H[ks[0]]] + [H[k] for k in ks[2:]]
    return ks[0], [H[ks[0]]]

def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; sdm = sc["fam"] == "sdm"; v = ("mpi" if sc["par"] else "ser") + ("sdm" if sdm else "")
    if sdm: i["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false"); sc["vtk"] = True
    rs = sc["restart"]; kw = dict(index=rs["index"], time=rs["time"]) if rs else {}
    def put(d): oracle.put_restart(sc, d, L, sc["par"], **kw)
    over = {}
    t0 = rs["time"] if rs and not i["run"].get("restart_reset_totaltime") else 0.0
    if sc["frac"]:
        d = ctx.mkdir("probe"); put(d)
        p = ctx.run(v, gen.make_ini(sc, L, dict(run=dict(nStepmax=1))), n, None, d=d)
        st = states(p, sdm)
        if not p.ok or not st or len(st[1]) < 2: o.bad("run-failed", "probe: " + p.why()); return
        dt = st[1][1]["@total time"] - st[1][0]["@total time"]
        if not dt > 0 or not np.isfinite(dt): ctx.add("m.no_step"); return
        over = dict(run=dict(tEnd=float("%.7g" % (t0 + sc["frac"] * dt))))
    d = ctx.mkdir("every"); put(d)
    inie = gen.make_ini(sc, L, over)
    e = ctx.run(v, inie, n, None, d=d)
    st = states(e, sdm)
    if not e.ok or not st: o.bad("run-failed", "companion: " + e.why()); return
    idx0, S = st; T = [x["@total time"] for x in S]; tEnd = f32(inie["run"]["tEnd"])
    # the companion itself follows the model for nOutput=-1
    want = model(T, rs["index"] if rs else 0, sc["nOutput"], tEnd, idx0, 1e-4 if sdm else 1e-11)
    if want is None: ctx.add("m.ambiguous"); return
    d = ctx.mkdir("run"); put(d)
    sub = sc["dir"].rstrip("/")
    if sub != ".": os.makedirs(d + "/" + sub, exist_ok=True)
    over2 = dict(over); ro = dict(over.get("run", {})); ro["nOutput"] = sc["nOutput"]
    ini = gen.make_ini(sc, L, dict(run=ro, output=dict(outputDir=sc["dir"], outputPrefix=sc["prefix"], vtk_enabled="true" if sc["vtk"] else "false")))
    res = ctx.run(v, ini, n, sc["knobs"], d=d)
    what = "%s%dD nOutput=%d tEnd=%r steps=%d start index %d" % (sc["fam"], sc["dim"], sc["nOutput"], tEnd, len(T) - 1, idx0)
    if not res.ok: o.bad("run-failed", what + ": " + res.why()); return
    od = d + "/" + sub; pre = sc["prefix"]
    got = vtk.sdm_states(od, pre) if sdm else {}
    for f in os.listdir(od):
        if sdm: break
        m = re.fullmatch(re.escape(pre) + r"_(\d{7,})\.h5", f)
        if m: got[int(m.group(1))] = h5.read(od + "/" + f)
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not rs else "random", sc["nOutput"], len(T), len(want), tuple(L)); o.nontrivial = len(want) > 2
    if sorted(got) != [k for k, _ in want]: o.bad("schedule", "%s: outputs %s exist, the schedule requires %s (step times %s)" % (what, sorted(got), [k for k, _ in want], T)); return
    last = None
    for k, s in want:
        x = got[k]
        if x is None: o.bad("unreadable", "%s: output %d is unreadable" % (what, k)); return
        if abs(x["@total time"] - T[s]) > 1e-12 * max(abs(T[s]), 1e-300): o.bad("time", "%s: output %d carries time %.17g, step %d is at %.17g" % (what, k, x["@total time"], s, T[s])); return
        if last is not None and x["@total time"] < last: o.bad("order", "%s: time decreases at output %d" % (what, k)); return
        last = x["@total time"]
        if not sdm and x.get("@time step") != k: o.bad("index", "%s: output %d records index %s" % (what, k, x.get("@time step"))); return
    ref = {k: dict(S[s], **{"@time step": k}) for k, s in want}
    if all(np.isfinite(x[q]).all() for x in S for q in x if q[0] != "@"): oracle.compare_h5(o, "content", ref, got, 1e-10, what, **(dict(attrs=(), trtol=1e-5) if sdm else {}))
    ctx.add("m.outputs_judged", len(want))
    if o.violations: return
    if sc["vtk"]:
        for k, s in want:
            x = "u" if sdm else "i"; names = [pre + "_%07d.vt%s" % (k, x)] if not sc["par"] else [pre + "_time%07d.pvt%s" % (k, x)]
            for q in names:
                if not os.path.exists(od + "/" + q): o.bad("vtk-missing", "%s: %s does not exist (files %s)" % (what, q, sorted(os.listdir(od))[:12])); return
    if sdm: return
    # XDMF index
    xs = [p for p in (od, d) if os.path.exists(p + "/" + pre + ".xmf")]
    if not xs: o.bad("xdmf-missing", "%s: no %s.xmf" % (what, pre)); return
    txt = open(xs[0] + "/" + pre + ".xmf").read()
    if "</Xdmf>" not in txt: o.bad("xdmf-truncated", "%s: index not closed" % what); return
    grids = re.findall(r'<Grid Name="([^"]*)" GridType="Uniform">(.*?)</Grid>', txt, re.S)
    lastidx = want[-1][0] if want else -1
    names = [g for g, _ in grids]
    if not want and rs: ctx.add("m.no_output_restart"); return     # the index of a run that saves nothing lists what the earlier run left
    if names != [pre + "_%07d" % k for k in range(lastidx + 1)]: o.bad("xdmf-list", "%s: index lists %s, last output is %d" % (what, names, lastidx)); return
    for k, s in want:
        g = grids[k][1]
        if float(re.search(r'Time Value="([^"]*)"', g).group(1)) not in (float(k), T[s]): o.bad("xdmf-time", "%s: index entry %d has time %s" % (what, k, re.search(r'Time Value="([^"]*)"', g).group(1))); return
        seen = {}
        for dm, ref_ in re.findall(r'Dimensions="([^"]*)"\s*Format="HDF">\s*(\S+)\s*<', g):
            f, _, var = ref_.partition(":/")
            p = os.path.normpath(os.path.join(xs[0], f))
            if os.path.normpath(od + "/" + pre + "_%07d.h5" % k) != p: o.bad("xdmf-file", "%s: index entry %d in %s names %s, which is not the output (%s)" % (what, k, xs[0][len(d):] or ".", f, sc["dir"])); return
            seen[var] = [int(q) for q in dm.split()]
        vs = sorted(q for q in got[k] if q[0] != "@")
        if sorted(seen) != vs: o.bad("xdmf-vars", "%s: index entry %d lists %s, the file holds %s" % (what, k, sorted(seen), vs)); return
        for q in vs:
            if tuple(seen[q]) != got[k][q].shape: o.bad("xdmf-dims", "%s: index gives %s the size %s, the file holds %s" % (what, q, seen[q], got[k][q].shape)); return
def shrink(sc):
    import json
    from dst.props import c01
    yield from c01.shrink(sc)
    for k, v in (("vtk", False), ("dir", "./"), ("prefix", "out")):
        if sc[k] != v: n = json.loads(json.dumps(sc)); n[k] = v; yield n
