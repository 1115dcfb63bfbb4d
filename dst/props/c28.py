"""C28: looking at a run does not change it: how often, where and how its state is saved or logged, and how long it is asked to go on."""
import glob, json, os, re
import numpy as np
from dst import gen, oracle, vtk, h5
ID = "C28"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=2200, thorough=40000)
RULE = ("seed -> hydro, MHD or spectral-difference run from a problem or a checkpoint, on any decomposition. The reference saves every step with the default options on a calm machine. The subject is asked for another number of outputs (none, few, many), other formats, ghost layers, "
        "stacked pieces, compression, directories, prefixes and log intervals, and (second subject) for fewer steps and a later end time, under an adversarial schedule with slow and interrupted disk calls. Every state it saves has to be bit for bit the reference's state of the same step, the last one that of the last step, and the printed final "
        "time the same. Non-trivial: at least two steps and a changing state; distinct by solver, problem, options, decomposition.")
ASSUME = ["runs whose states are not finite are compared as far as they go", "the schedule itself (which steps are saved) is C14", "ASCII outputs are compared to printed precision"]
f32 = lambda x: float(np.float32(x))
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.3 else 2
    kw = dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else {}
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.35 else None, steps=r.randint(1, 7 if fam != "sdm" else 4), restart_p=0.4, maxcells=400 if dim == 2 else 1400, **kw)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.25
    if sc["restart"]: sc["restart"].update(index=r.choice([0, 2]), time=r.choice([0.0, 0.1, 0.37]))
    sc["frac"] = r.choice([None, None, r.uniform(0.05, 6)])
    m = r.choice(["plain", "ghost", "all", "stack", "stackghost", "vtk"]) if sc["par"] else r.choice(["plain", "ghost", "vtk"])
    sc["mode"] = m if fam != "sdm" else "vtk"
    if sc["restart"] and m not in ("plain", "stack"): sc["mode"] = "plain"     # the reader of checkpoints follows the same options
    sc["nOutput"] = r.choice([-1, -3, 0, 1, 1, 2, 3, 7, 50]); sc["nlog"] = r.choice([1, 1, 2, 10, 1000])
    sc["opt"] = dict(outputDir=r.choice(["./", "data", "data/"]), outputPrefix=r.choice(["out", "run_2"]), outputVtkAscii=r.choice(["true", "false"]), hdf5_verbose=r.choice(["true", "false"]))
    if r.random() < 0.4 or sc["mode"] == "vtk": sc["opt"]["vtk_enabled"] = "true"
    if sc["mode"] == "vtk": sc["opt"]["hdf5_enabled"] = "false"
    if fam == "sdm" and r.random() < 0.3: sc["opt"]["outputDateAndTime"] = "true"
    if not sc["par"]: sc["opt"]["outputHdf5CompressionLevel"] = r.choice([0, 1, 9])
    sc["less"] = r.random(); sc["longer"] = r.random() < 0.5
    sc["knobs"] = gen.knobs(r, n, disk=r.random() < 0.5); sc["knobs2"] = gen.knobs(r, n, disk=r.random() < 0.5)
    return sc

def interior(A, mode, dim, g, n, L):
    """undo the placement of an output file's layout"""
    w = [slice(g, -g)] * dim
    if mode in ("plain", "vtk"): return A
    if mode == "ghost": return {v: a[tuple(w)] if v[0] != "@" else a for v, a in A.items()}
    out = {}
    for v, a in A.items():
        if v[0] == "@": out[v] = a; continue
        e = 0 if mode == "stack" else g
        m = [n[d] + 2 * e for d in range(dim)]
        B = np.full(tuple(L[d] * n[d] for d in reversed(range(dim))), np.nan); k = 0
        for cx in range(L[0]):
            for cy in range(L[1]):
                for cz in range(L[2]):
                    c = (cx, cy, cz)
                    if mode == "all": part = a[tuple(slice(c[d] * m[d], (c[d] + 1) * m[d]) for d in reversed(range(dim)))]
                    else: part = a[k * m[dim - 1]:(k + 1) * m[dim - 1]]
                    k += 1
                    if e: part = part[tuple(w)]
                    sl = tuple(slice(c[d] * n[d], (c[d] + 1) * n[d]) for d in reversed(range(dim)))
                    if part.shape != B[sl].shape: return None
                    B[sl] = part
        out[v] = B
    return out

def images(od, pre, par, dim, G):
    """{index: fields} of a directory with image files"""
    S = {}
    for f in sorted(glob.glob(od + "/" + pre + "_*.vti")):
        t = re.fullmatch(re.escape(pre) + (r"_time(\d+)_mpi\d+\.vti" if par else r"_(\d+)\.vti"), os.path.basename(f))
        if not t: continue
        k = int(t.group(1))
        try: p = vtk.read_vti(f)
        except (ValueError, OSError, AttributeError, KeyError, IndexError): S[k] = None; continue
        if S.get(k, {}) is None: continue
        e = p["extent"]; sl = tuple(slice(e[2 * q], e[2 * q + 1]) for q in reversed(range(dim)))
        X = S.setdefault(k, {})
        for v, a in p["arrays"].items():
            B = X.setdefault(v, np.full(tuple(G[q] for q in reversed(range(dim))), np.nan))
            if B[sl].size != a.size: S[k] = None; break
            B[sl] = a.reshape(B[sl].shape)
    return S

def final(res, n): return re.findall(r"final time is (\S+)", res.alltext(n))
def eq(a, b, asc):
    if a.shape != b.shape: return False
    with np.errstate(invalid='ignore', over='ignore'):
      if asc: return bool(((np.abs(a - b) <= 6e-6 * np.abs(b) + 1e-300) | (a == b) | (np.isnan(a) & np.isnan(b)) | ~np.isfinite(b)).all())
    return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
def state_eq(a, b, asc): return all(v in a and eq(a[v], b[v], asc) for v in b if v[0] != "@")

def run(sc, ctx, o):
    L, G, dim, fam = sc["layout"], sc["grid"], sc["dim"], sc["fam"]; N = L[0] * L[1] * L[2]; i = sc["ini"]; n = [G[d] // L[d] for d in range(3)]; sdm = fam == "sdm"
    v = ("mpi" if sc["par"] else "ser") + ("sdm" if sdm else ""); rs = sc["restart"]; g = gen.GW[fam]
    kw = dict(index=rs["index"], time=rs["time"]) if rs else {}
    def put(d): oracle.put_restart(sc, d, L, sc["par"], **kw)
    base = dict(output=dict(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false")) if sdm else {}
    t0 = rs["time"] if rs else 0.0
    K = i["run"]["nStepmax"]; what = "%s%dD %s nOutput=%d %s on %s" % (fam, dim, i["hydro"]["problem"] if not rs else "random", sc["nOutput"], sc["mode"], L)
    over = {}
    def every(name, ro):
        d = ctx.mkdir(name); put(d)
        e = ctx.run(v, gen.make_ini(sc, L, dict(base, run=ro)), N, None, d=d)
        if not e.ok: o.bad("run-failed", "reference: " + e.why()); return None, None
        H = vtk.sdm_states(d) if sdm else e.h5s(); ks = sorted(H)
        if not ks or any(H[k] is None for k in ks): o.bad("output", "reference: unreadable output"); return None, None
        return e, [H[ks[0]]] + [H[k] for k in ks[2:]]
    e, S = every("every", {})
    if not S: return
    if sc["frac"] and not sdm and len(S) > 1:
        T = [x["@total time"] for x in S]
        if not (np.isfinite(T).all() and T[1] > T[0]): ctx.add("m.no_step"); return
        over = dict(tEnd=float("%.7g" % (t0 + sc["frac"] * (T[1] - T[0]))))
        e, S = every("every2", over)
        if not S: return
    T = [x["@total time"] for x in S]; F = final(e, N)
    o.key = (fam, dim, sc["order"], sc["mode"], i["hydro"]["problem"] if not rs else "random", sc["nOutput"], len(S), tuple(sc["opt"].values()), tuple(L))
    o.nontrivial = len(S) > 2 and not state_eq(S[0], S[-1], False)
    def judge(name, res, d, opt, mode, S, F, asc):
        if not res.ok: o.bad("run-failed", "%s (%s): %s" % (what, name, res.why())); return False
        if final(res, N) != F: o.bad("final-time", "%s: printed final time %s with the reference's output options, %s with %s" % (what, F, final(res, N), name)); return False
        od = d + "/" + opt.get("outputDir", "./").rstrip("/"); pre = opt.get("outputPrefix", "out")
        if sdm: X = vtk.sdm_states(od, pre)
        elif mode == "vtk": X = images(od, pre, sc["par"], dim, G)
        else: X = {int(f[-10:-3]): h5.read(f) for f in glob.glob(od + "/" + pre + "_???????.h5")}
        if res_no == 0:
            if X: o.bad("outputs", "%s: a run with nOutput=0 saved %s" % (what, sorted(X))); return False
            return True
        if not X or any(x is None for x in X.values()): o.bad("output", "%s (%s): missing or unreadable outputs %s" % (what, name, sorted(X))); return False
        last = -1
        for k in sorted(X):
            x = interior(X[k], mode, dim, g, n, L) if not sdm else X[k]
            if x is None: o.bad("output", "%s (%s): output %d has the wrong shape" % (what, name, k)); return False
            lo = max(last, 0)
            if k == max(X): cand = [len(S) - 1]
            elif sdm or mode == "vtk": cand = range(lo, len(S))
            else:
                cand = [s for s in range(lo, len(S)) if S[s]["@total time"] == x["@total time"]]
                if not cand: o.bad("time", "%s (%s): output %d is at time %.17g; the steps are at %s" % (what, name, k, x["@total time"], [s["@total time"] for s in S])); return False
            if not sdm and mode != "vtk" and k == max(X) and x["@total time"] != S[-1]["@total time"]: o.bad("time", "%s (%s): last output at time %.17g instead of %.17g" % (what, name, x["@total time"], S[-1]["@total time"])); return False
            hit = [s for s in cand if state_eq(x, S[s], asc)]
            if not hit:
                s = min(cand, key=lambda s: max(oracle.same(x[q], S[s][q], 0) for q in S[s] if q[0] != "@" and q in x) if any(q in x for q in S[s] if q[0] != "@") else 1)
                q = [q for q in S[s] if q[0] != "@" and (q not in x or not eq(x[q], S[s][q], asc))][0]
                o.bad("state", "%s (%s): output %d differs from the state of step %d: %s %s" % (what, name, k, s, q, oracle.where(S[s][q], x[q]) if q in x else "missing")); return False
            last = hit[0]
        ctx.add("m.states_compared", len(X)); return True
    # another way of looking
    d = ctx.mkdir("look"); put(d); os.makedirs(d + "/" + sc["opt"]["outputDir"].rstrip("/"), exist_ok=True)
    m = sc["mode"]; opt = dict(sc["opt"])
    if m in ("ghost", "stackghost"): opt["ghostIncluded"] = "true"
    if m == "all": opt["allghostIncluded"] = "true"
    if m in ("stack", "stackghost"): opt["reassembleInFile"] = "false"
    if sdm: opt.update(vtk_enabled="true", hdf5_enabled="false")
    res_no = sc["nOutput"]
    res = ctx.run(v, gen.make_ini(sc, L, dict(output=opt, run=dict(over, nOutput=sc["nOutput"], nlog=sc["nlog"]))), N, sc["knobs"], d=d)
    asc = m == "vtk" and opt["outputVtkAscii"] == "true"
    if not judge("look", res, d, opt, m, S, F, asc): return
    # the same run asked for fewer steps and a later end
    k = int(sc["less"] * len(S))
    if i["hydro"]["problem"] == "isentropic_vortex": return
    end = dict(over)
    tE = f32(over.get("tEnd", i["run"]["tEnd"]))
    if sc["longer"]:
        end["tEnd"] = 200.0
        if abs(T[-1] - tE) < 1e-9 and k == len(S) - 1: k -= 1      # the last step of the reference was cut short to meet its end
    elif abs(T[-1] - tE) < 1e-9 and k == len(S) - 1: pass
    if k < 0: return
    d = ctx.mkdir("short"); put(d); res_no = -1
    res = ctx.run(v, gen.make_ini(sc, L, dict(base, run=dict(end, nStepmax=k))), N, sc["knobs2"], d=d)
    F2 = ["%f" % T[k]] if not sdm else final(res, N)
    judge("%d steps%s" % (k, ", later end" if sc["longer"] else ""), res, d, {}, "plain", S[:k + 1], F2, False)

def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
    for k in list(sc["opt"]):
        if k not in ("outputDir", "outputPrefix", "outputVtkAscii", "hdf5_enabled") and not (k == "vtk_enabled" and sc["mode"] == "vtk"):
            m = json.loads(json.dumps(sc)); del m["opt"][k]; yield m
    if sc["fam"] != "sdm" and sc["mode"] not in ("plain", "vtk"): m = json.loads(json.dumps(sc)); m["mode"] = "plain"; yield m
