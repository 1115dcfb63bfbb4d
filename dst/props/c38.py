"""C38: the parameter files that come with the code run soundly."""
import os, json, random, re
import numpy as np
from dst import gen, oracle, sim, vtk
from dst.props import c21, c29
ID = "C38"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=3000, thorough=30000); LIMIT = dict(quick=240, thorough=3000)
RULE = ("seed -> a parameter file of settings/ (every solver but MOOD; or a generated one, respelled), read from the tree as text; only sizes, decomposition, number of steps, output interval and formats are replaced, everything else (spelling of keys, comments, problem and scheme parameters, boundaries) stays as shipped, or is respelled: other order, case, comments, separators, spelling of booleans and numbers; decomposition, adversarial schedule and dirty memory. "
        "The job has to succeed, start from the state the file describes (independent model), save strictly increasing times that never pass the end, stay finite with positive density, be the run of one rank, keep mass (and on closed or periodic boxes what the boundaries keep) and a divergence-free field. "
        "Non-trivial: the state changes; distinct by file, decomposition, grid and number of steps.")
ASSUME = ["spectral-difference orders above those in the simulated image are replaced by the highest available (2D 3, 3D 2)", "tolerances as in C01, C02, C21, C09 and C29", "mesh sizes are reduced, so shocks are under-resolved: only finiteness and positive density are judged, and only while the densities stay within a factor 1000 of the start"]
SKIP = ("mood",)
yes = lambda v: str(v).strip().lower() in ("true", "yes", "on", "1")

def top():
    return os.path.join(os.environ.get("PPK_REPO", "/repo"), "settings")
def parse(txt):
    out, sec = {}, None
    for l in txt.splitlines():
        s = l.strip()
        if not s or s[0] in "#;": continue
        if s[0] == "[" and "]" in s: sec = s[1:s.index("]")].strip(); out.setdefault(sec, {}); continue
        if "=" in s and sec is not None:
            k, v = s.split("=", 1)
            for c in (" ;", "\t;", " #", "\t#"): v = v.split(c)[0]
            out[sec][k.strip()] = v.strip()
    return out
def edit(txt, over):
    """replace values in the text, keep all the rest as it is"""
    todo = {s.lower(): {k.lower(): (k, v) for k, v in kv.items()} for s, kv in over.items()}; done = set(); out = []; sec = None; where = {}
    for l in txt.splitlines():
        s = l.strip()
        if s[:1] == "[" and "]" in s: sec = s[1:s.index("]")].strip().lower(); out.append(l); where[sec] = len(out); continue
        if sec in todo and "=" in s and s[0] not in "#;":
            k = s.split("=", 1)[0].strip()
            if k.lower() in todo[sec]: out.append("%s=%s" % (k, todo[sec][k.lower()][1])); done.add((sec, k.lower())); continue
        out.append(l)
    for s, kv in todo.items():
        add = ["%s=%s" % (k, v) for q, (k, v) in kv.items() if (s, q) not in done]
        if not add: continue
        if s in where: out[where[s]:where[s]] = add; where = {q: p + (len(add) if p >= where[s] and q != s else 0) for q, p in where.items()}
        else: out += ["", "[%s]" % s] + add
    return "\n".join(out) + "\n"
def respell(txt, seed):
    """the same parameters in another order and spelling"""
    r = random.Random(seed); P = parse(txt); secs = list(P); r.shuffle(secs); out = []; T = {}
    case = lambda w: r.choice([w, w.lower(), w.upper(), "".join(r.choice([c.lower(), c.upper()]) for c in w)])
    for s in secs:
        out.append(r.choice(["", "", "; nx=3", "# [run]"])); out.append("[%s]" % case(s)); kv = list(P[s].items()); r.shuffle(kv)
        for k, v in kv:
            if v.lower() in ("yes", "true", "on"): v = r.choice(["yes", "true", "on", "1"])
            elif v.lower() in ("no", "false", "off"): v = r.choice(["no", "false", "off", "0"])
            elif re.fullmatch(r"-?[0-9]+\.[0-9]+", v) and r.random() < 0.5:
                q = "%se%d" % ("%d.%s" % (int(v.split(".")[0].lstrip("-")) , v.split(".")[1]), 0); v = r.choice(["-" + q if v[0] == "-" else q, v + "00"])
            out.append(case(k) + r.choice(["=", " = ", "= ", "\t="]) + v + r.choice(["", "", " ", " ; " + k + "=9"]))
            if r.random() < 0.1: out.append(r.choice(["", "#" + k + "=7", ";", "  ; " + k, "\t# " + k + "=8"]))
    return r.choice(["\n"] * 5 + ["\r\n"]).join(out) + r.choice(["", "\n", "\n\n"])
def files():
    return sorted(f for f in os.listdir(top()) if f.endswith(".ini"))
def gen_scenario(r, i, tier):
    if r.random() < 0.3:                       # a generated file, respelled
        fam = r.choice(["hydro", "mhd", "sdm"]); dim = 3 if r.random() < 0.25 else 2
        sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.4 else None, steps=r.randint(0, 3), restart_p=0, maxcells=300 if dim == 2 else 900, **(dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else {}))
        N = sc["layout"][0] * sc["layout"][1] * sc["layout"][2]; ini = sc["ini"]
        for s, k in (("KH", "perturbation_sine"), ("KH", "perturbation_sine_robertson"), ("gravity", "static"), ("sdm", "limiter_enabled"), ("sdm", "positivity_enabled"), ("sdm", "rescale_dt_enabled"), ("isentropic_vortex", "use_tEnd"), ("run", "restart_enabled"), ("run", "restart_upscale_enabled"), ("output", "outputVtkAscii"), ("output", "ghost_included")):
            if s in ("run", "output") or s in ini and r.random() < 0.5: ini[s].setdefault(k, "false")
        if fam == "sdm": ini["output"].update(vtk_enabled="true", hdf5_enabled="false")
        else: ini["output"].update(vtk_enabled=r.choice(["true", "false"]), hdf5_enabled="true")
        sc.update(file="", every=True, steps=ini["run"]["nStepmax"], par=N > 1 or r.random() < 0.2, knobs=gen.knobs(r, N), ref="ser", respell=r.getrandbits(30) + 1)
        return sc
    for _ in range(60):
        f = r.choice(files()); P = parse(open(os.path.join(top(), f), errors="replace").read())
        name = next((v for k, v in P.get("run", {}).items() if k.lower() == "solver_name"), "")
        if "mood" not in name.lower() and name: break
    fam = "sdm" if "SDM" in name else "mhd" if "MHD" in name else "hydro"; dim = 3 if "3D" in name else 2
    order = None
    if fam == "sdm": order = min(int(name[-1]), 3 if dim == 2 else 2)
    L = r.choice(gen.layouts(dim, 6)) if r.random() < 0.7 else (1, 1, 1); gw = gen.GW[fam]
    while True:
        n = [r.randint(2, 6) for _ in range(dim)] if fam == "sdm" else [r.randint(gw, (12 if dim == 2 else 7)) for _ in range(dim)]
        if dim == 2: n.append(1)
        G = [n[d] * L[d] for d in range(3)]
        if G[0] * G[1] * G[2] <= ({2: 250, 3: 250} if fam == "sdm" else {2: 1200, 3: 2500})[dim]: break
    N = L[0] * L[1] * L[2]
    return dict(file=f, fam=fam, dim=dim, order=order, layout=list(L), grid=G, steps=r.choice([0, 1, 2, 3, 5, 8, 20]) if fam != "sdm" else r.choice([0, 1, 2, 3, 5]), every=r.random() < 0.7, par=N > 1 or r.random() < 0.2, knobs=gen.knobs(r, N), respell=r.getrandbits(30) if r.random() < 0.6 else 0, ref=r.choice(["ser", "mpi"]), ini=None, restart=None)
def thin(m): return float(m.get("ymax", 1)) - float(m.get("ymin", 0)) < 0.01 * (float(m.get("xmax", 1)) - float(m.get("xmin", 0)))   # output positions are single precision
def ini_of(sc):
    """the parameters of the file, in the spelling the models use"""
    P = parse(open(os.path.join(top(), sc["file"]), errors="replace").read()); canon = {}
    keys = {"tend": "tEnd", "nstepmax": "nStepmax", "noutput": "nOutput", "ma": "Ma", "r": "R", "use_tend": "use_tEnd", "g": "G", "m": "M"}
    keys.update({("b%s_%s" % (d, s)): "B%s_%s" % (d, s) for d in "xyz" for s in ("inner", "outer")})
    secs = {q.lower(): q for q in ("KH", "Gresho", "FieldLoop", "OrszagTang", "OTHER")}
    for s, kv in P.items():
        for k, v in kv.items():
            k = keys.get(k.lower(), k.lower() if not k.lower().startswith("implementationv") else k)
            canon.setdefault(secs.get(s.lower(), s.lower()), {})[k] = "true" if v.lower() in ("yes", "true", "on") else "false" if v.lower() in ("no", "false", "off") else v
    h = canon["hydro"]
    if h.get("problem", "").lower() in ("fieldloop", "field loop"): h["problem"] = "field_loop"
    m = canon["mesh"]
    for d in "xyz": m.setdefault(d + "min", 0.0); m.setdefault(d + "max", 1.0)
    if thin(m): m["ymax"] = float(m["ymin"]) + 1
    h.setdefault("gamma0", 1.4)
    return canon
def text(sc, L, nOutput):
    if not sc["file"]: return sim.ini_text(gen.make_ini(sc, L))
    t = open(os.path.join(top(), sc["file"]), errors="replace").read(); n = [sc["grid"][d] // L[d] for d in range(3)]
    over = dict(run=dict(nStepmax=sc["steps"], nOutput=nOutput, nlog=1), mesh=dict(nx=n[0], ny=n[1], nz=n[2]), mpi=dict(mx=L[0], my=L[1], mz=L[2]), output=dict(outputDir="./", outputPrefix="out"))
    m = sc["ini"]["mesh"]; P = parse(t)["mesh"]
    if thin(P): over["mesh"]["ymax"] = m["ymax"]
    if sc["fam"] == "sdm": over["output"].update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false"); over["run"]["solver_name"] = gen.solver_name("sdm", sc["dim"], sc["order"])
    else: over["output"].update(hdf5_enabled="true", vtk_enabled="false")
    return edit(t, over)
def run(sc, ctx, o):
    if sc["file"] and not os.path.exists(os.path.join(top(), sc["file"])): ctx.add("m.no_file"); return
    L, dim, fam = sc["layout"], sc["dim"], sc["fam"]; N = L[0] * L[1] * L[2]; sdm = "sdm" if fam == "sdm" else ""; ini = ini_of(sc) if sc["file"] else sc["ini"]; sc = dict(sc, ini=ini)
    what = "%s with %d steps on %s cells, %s ranks" % ("settings/" + sc["file"] if sc["file"] else "%s%dD %s, respelled," % (fam, dim, ini["hydro"]["problem"]), sc["steps"], sc["grid"], L)
    nout = -1 if sc["every"] else 1
    a = ctx.run(sc["ref"] + sdm, None, 1, None, d=ctx.mkdir("ref"), raw_ini=text(sc, [1, 1, 1], nout))
    b = ctx.run(("mpi" if sc["par"] else "ser") + sdm, None, N, sc["knobs"], d=ctx.mkdir("run"), raw_ini=respell(text(sc, L, nout), sc["respell"]) if sc["respell"] else text(sc, L, nout))
    o.key = (sc["file"] or ini["hydro"]["problem"], tuple(L), tuple(sc["grid"]), sc["steps"])
    for x, w in ((a, "one rank"), (b, "the job")):
        if not x.ok: o.bad("run-failed", "%s: %s: %s" % (what, w, x.why())); return
    A, B = [vtk.sdm_states(x.dir) if sdm else x.h5s() for x in (a, b)]
    ks = sorted(A)
    if not ks or any(A[k] is None for k in ks) or sorted(B) != ks or any(B[k] is None for k in ks): o.bad("output", "%s: outputs %s and %s, some unreadable" % (what, ks, sorted(B))); return
    if sc["every"] and len(ks) < 2 or not sc["every"] and sc["steps"] and len(ks) < 2: o.bad("output", "%s: outputs %s" % (what, ks)); return
    W = [set(f.rsplit(".", 1)[-1] for f in os.listdir(x.dir)) & {"vti", "vtu", "h5", "xmf"} for x in (a, b)]
    if W[0] != W[1]: o.bad("formats", "%s: writes %s, one rank with the plain file writes %s" % (what, sorted(W[1]), sorted(W[0]))); return
    # the start
    R, fuzzy = c29.reference(sc) if sc["file"] else (None, None)
    if R is not None:
        T = R.pop("@tol", {}); rnd = R.pop("@rand", None); S = {k: q for k, q in A[0].items() if k[0] != "@"}
        if sdm: S = {k: q.reshape(R["rho"].shape) if q.size == R["rho"].size else q for k, q in S.items()}
        if set(S) != set(R): o.bad("fields", "%s: saved %s instead of %s" % (what, sorted(S), sorted(R))); return
        mom = float(np.sqrt(np.nanmax(np.abs(S["rho"])) * np.nanmax(np.abs(S["energy"]))))
        for k in R:
            if rnd and (k == "energy" or k.startswith("rho_v")): continue
            if S[k].shape != R[k].shape: o.bad("shape", "%s: %s has shape %s" % (what, k, S[k].shape)); return
            d = np.abs(S[k] - R[k]); s_ = np.maximum(np.abs(R[k]), 0.05 * (max(mom, np.abs(R[k]).max()) if k.startswith("rho_v") else np.abs(R[k]).max()))
            ok = (d <= 2e-11 * s_ + T.get(k, 0) + 1e-14) | fuzzy
            if not ok.all(): q = tuple(np.argwhere(~ok)[0]); o.bad("start", "%s: %s at %s is %.17g, the file gives %.17g" % (what, k, q[::-1], S[k][q], R[k][q])); return
        ctx.add("m.starts_compared")
    # finite, positive
    allk = ks; keep = []; blown = False
    for k in ks:
        q = A[k]; F = all(np.isfinite(q[v]).all() for v in q if v[0] != "@")
        if sdm and not (F and np.abs(q["rho"]).max() < 1e3 * np.abs(A[0]["rho"]).max() and np.abs(q["energy"]).max() < 1e3 * np.abs(A[0]["energy"]).max()): ctx.add("m.blown_up"); blown = True; break
        if not sc["file"] and (not F or q["rho"].min() <= 0 or q["energy"].min() <= 0): ctx.add("m.left_domain"); blown = True; break
        if not F: o.bad("not-finite", "%s: output %d holds values that are not finite" % (what, k)); return
        if not sdm and q["rho"].min() <= 0: o.bad("density", "%s: density %.3g in output %d" % (what, q["rho"].min(), k)); return
        keep.append(k)
    ks = keep
    if not ks: return
    # times
    T = [A[k]["@total time"] for k in ks]
    if sc["every"]: T = [T[0]] + T[2:]
    tE = float(np.float32(ini["run"]["tEnd"])); ns = len(T) - 1
    if any(y < x or y == x and sc["steps"] and not blown for x, y in zip(T, T[1:])): o.bad("times", "%s: times %s" % (what, T)); return
    if T[-1] > tE * (1 + 1e-6 if sdm else 1 + 1e-12): o.bad("past-end", "%s: reaches %.17g, the end is %.17g" % (what, T[-1], tE)); return
    if sc["every"] and ns > sc["steps"]: o.bad("steps", "%s: %d steps" % (what, ns)); return
    oracle_ok = oracle.compare_h5(o, "decomposition", {k: A[k] for k in ks}, {k: B[k] for k in ks}, 1e-10, what, **(dict(attrs=()) if sdm else {}))
    if not oracle_ok: return
    o.nontrivial = len(ks) > 1 and any(A[ks[0]][v].tobytes() != A[ks[-1]][v].tobytes() for v in A[ks[0]] if v[0] != "@")
    ctx.add("m.outputs_compared", len(ks)); ctx.add("m.file." + (sc["file"] or "generated"))
    # what a periodic box keeps
    m = ini["mesh"]; per = all(str(m.get("boundary_type_" + f)) == "3" for f in gen.FACES[:2 * dim])
    if per and sc["file"] and "gravity" not in ini and ini["hydro"]["problem"] not in ("wedge", "jet"):
        if sdm: I = {k: c21.integrals(B[k], sc) for k in ks}
        else: I = {k: {v: (B[k][v].sum(), np.abs(B[k][v]).sum()) for v in B[k] if v[0] != "@"} for k in ks}
        I0 = I[ks[0]]; mom = np.sqrt(I0["rho"][1] * I0["energy"][1])
        for k in ks[1:]:
            for v in I[k]:
                e = abs(I[k][v][0] - I0[v][0]) / max(mom if v[:5] == "rho_v" else I0[v][1], I[k][v][1], 1e-300)
                if e > 1e-11: o.bad("not-conserved", "%s: the sum of %s changes by %.3g of its scale at output %d" % (what, v, e, k)); return
        ctx.add("m.conservation_checked", len(ks) - 1)
def shrink(sc):
    if sc["respell"]: yield dict(sc, respell=0)
    for q in (1, 0, 2):
        if q < sc["steps"]: n = json.loads(json.dumps(sc)); n["steps"] = q; yield n
    if sc["layout"] != [1, 1, 1] and sc["par"]:
        for d in range(3):
            if sc["layout"][d] > 1: n = json.loads(json.dumps(sc)); n["grid"][d] //= n["layout"][d]; n["layout"][d] = 1; yield n
