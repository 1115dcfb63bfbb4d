"""C15: the time loop stops exactly where it was told to."""
import re
import numpy as np
from dst import gen, oracle, vtk
ID = "C15"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "sersdm", "mpisdm"]
CASES = dict(quick=2200, thorough=40000)
RULE = ("seed -> solver (hydro, MHD, spectral difference), problem or restart state with a start time, tEnd (possibly already reached, or below the start), nStepmax (possibly 0), decomposition, schedule and clock jumps. A run that saves every step and a run with "
        "another output request are checked against the stopping rule: strictly increasing times, never past tEnd, stop at tEnd or after nStepmax steps, final output and printed final time equal to it on every rank. Non-trivial: at least one step; "
        "distinct by solver, problem, stop reason, number of steps and decomposition.")
ASSUME = ["tEnd is the single-precision value the parameter reader delivers", "the end time is met to 1e-12 relative"]
f32 = lambda x: float(np.float32(x))
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.25 else 2
    kw = dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else {}
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.35 else None, steps=r.choice([0, 1, 2, 5, 9, 30]), restart_p=0.4, maxcells=300 if dim == 2 else 1200, **kw)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.2
    if sc["restart"]: sc["restart"].update(index=r.choice([0, 2]), time=r.choice([0.0, 0.1, 3.0]))
    elif r.random() < 0.2: sc["ini"]["run"]["tCurrent"] = 0.25
    sc["frac"] = r.choice([None, -0.5, 0.0, r.uniform(0.02, 1.0), r.uniform(1, 10), r.uniform(1, 10)])
    sc["nOutput"] = r.choice([0, 1, 3, 20])
    sc["knobs"] = gen.knobs(r, n)
    if sc["restart"] and r.random() < 0.3: sc["ini"]["run"]["restart_reset_totaltime"] = "true"     # the run starts again at time zero
    return sc
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; sdm = sc["fam"] == "sdm"; v = ("mpi" if sc["par"] else "ser") + ("sdm" if sdm else "")
    rs = sc["restart"]
    def put(d):
        if rs: oracle.put_restart(sc, d, L, sc["par"], index=rs["index"], time=rs["time"])
    t0 = rs["time"] if rs and not i["run"].get("restart_reset_totaltime") else float(i["run"].get("tCurrent", 0.0))
    nmax = i["run"]["nStepmax"]
    run_ = {}
    if sdm: i["output"].update(vtk_enabled="true", hdf5_enabled="false")
    if sc["frac"] is not None:
        if sdm: dt = 0.02
        else:
            d = ctx.mkdir("probe"); put(d)
            p = ctx.run(v, gen.make_ini(sc, L, dict(run=dict(nStepmax=1))), n, None, d=d)
            H = p.h5s(); ks = sorted(H)
            if not p.ok or not ks or H[ks[-1]] is None: o.bad("run-failed", "probe: " + p.why()); return
            dt = H[ks[-1]]["@total time"] - t0
            if not (dt > 0 and np.isfinite(dt)): ctx.add("m.no_step"); return
        run_["tEnd"] = float("%.7g" % (t0 + sc["frac"] * dt))
    tEnd = f32(run_.get("tEnd", i["run"]["tEnd"]))
    out = []
    for nm, no, k in (("a", -1, sc["knobs"]), ("b", sc["nOutput"], None)):
        d = ctx.mkdir(nm); put(d)
        out.append(ctx.run(v, gen.make_ini(sc, L, dict(run=dict(run_, nOutput=no))), n, k, d=d))
    a, b = out
    what = "%s%dD %s t0=%r tEnd=%r nStepmax=%d %s" % (sc["fam"], sc["dim"], i["hydro"]["problem"] if not rs else "random", t0, tEnd, nmax, L)
    for x in out:
        if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    steps = [len(re.findall(r"^time\s+step=", x.alltext(n), re.M)) for x in out]
    if sc["fam"] == "mhd" and sc.get("_dbl", True): pass
    fin = [re.findall(r"final time is (\S+)", x.alltext(n)) for x in out]
    for x, fl in zip(out, fin):
        if len(fl) != 1: o.bad("final-line", "%s: rank 0 prints %d final-time lines" % (what, len(fl))); return
    if fin[0] != fin[1]: o.bad("final-time", "%s: final time printed %s with every step saved, %s with nOutput=%d" % (what, fin[0][0], fin[1][0], sc["nOutput"])); return
    if sdm:
        if float(fin[0][0]) > max(tEnd, t0) + 1e-6: o.bad("past-end", "%s: final time %s" % (what, fin[0][0])); return
        ns = steps[0]
        if ns > nmax: o.bad("steps", "%s: %d steps" % (what, ns)); return
        T = []
        for x, no in zip(out, (-1, sc["nOutput"])):
            if no == 0: continue
            V = vtk.sdm_states(x.dir)
            if not V or any(y is None for y in V.values()): o.bad("output", what + ": unreadable outputs"); return
            tl = [V[k]["@total time"] for k in sorted(V)]
            if abs(tl[-1] - float(fin[0][0])) > 1e-5 * max(1, abs(tl[-1])): o.bad("final-output", "%s: last output with nOutput=%d is at %r, the run ends at %s" % (what, no, tl[-1], fin[0][0])); return
            if no < 0: T = [tl[0]] + tl[2:]
            if any(b < a for a, b in zip(tl, tl[1:])): o.bad("not-increasing", "%s: output times %s" % (what, tl)); return
        if len(T) - 1 != ns and ns: o.bad("steps", "%s: %d steps logged, %d states saved" % (what, ns, len(T))); return
        if ns < nmax and abs(float(fin[0][0]) - max(tEnd, t0)) > 1e-6: o.bad("early", "%s: stopped at %s after %d steps" % (what, fin[0][0], ns)); return
        o.key = (sc["fam"], sc["dim"], sc["order"], i["hydro"]["problem"], ns, ns < nmax); o.nontrivial = ns > 0; return
    H = a.h5s(); ks = sorted(H)
    if not ks or any(H[k] is None for k in ks): o.bad("output", what + ": unreadable outputs"); return
    T = [H[ks[0]]["@total time"]] + [H[k]["@total time"] for k in ks[2:]]
    ns = len(T) - 1
    if T[0] != t0: o.bad("start", "%s: starts at %r" % (what, T[0])); return
    for x, y in zip(T, T[1:]):
        if not y > x: o.bad("not-increasing", "%s: time goes from %.17g to %.17g" % (what, x, y)); return
    tol = 1e-12 * max(1.0, abs(tEnd))
    if ns and T[-1] > tEnd + tol: o.bad("past-end", "%s: reaches %.17g" % (what, T[-1])); return
    if ns > nmax: o.bad("steps", "%s: %d steps" % (what, ns)); return
    atend = T[-1] >= tEnd - tol
    if ns < nmax and not atend: o.bad("early", "%s: stopped at %.17g after %d steps" % (what, T[-1], ns)); return
    if any(t >= tEnd - 1e-15 * abs(tEnd) for t in T[:-1]): o.bad("late", "%s: continued after reaching the end: %s" % (what, T[-3:])); return
    if abs(float(fin[0][0]) - T[-1]) > 1e-6 + 1e-6 * abs(T[-1]): o.bad("printed", "%s: prints final time %s, last output is at %.17g" % (what, fin[0][0], T[-1])); return
    if sc["nOutput"]:
        HB = b.h5s(); kb = sorted(HB)
        if not kb or HB[kb[-1]] is None or abs(HB[kb[-1]]["@total time"] - T[-1]) > 1e-12 * max(abs(T[-1]), 1e-300): o.bad("final-output", "%s: last output with nOutput=%d is at %r, the run ends at %.17g" % (what, sc["nOutput"], HB[kb[-1]] and HB[kb[-1]]["@total time"] if kb else None, T[-1])); return
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not rs else "random", ns, atend, tuple(L)); o.nontrivial = ns > 0
    ctx.add("m.steps_judged", ns)
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
