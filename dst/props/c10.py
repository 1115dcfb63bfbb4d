"""C10: an interrupted run resumes to the same result."""
import os, json
import numpy as np
from dst import gen, oracle, h5
from dst.props import c01
ID = "C10"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=1400, thorough=25000)
RULE = ("seed -> hydro or MHD problem (gravity included) or random start checkpoint, end time, output interval, decomposition and schedule plan. The uninterrupted run is recorded; then the job is killed at a sampled event or disk operation (torn writes included), restarted from the newest "
        "checkpoint a reader can load, on the same or another decomposition, serial or parallel, with another schedule plan, possibly killed again once or twice, and finally left alone. Every output from the first restart on must have the index, time and content of the uninterrupted run. "
        "Non-trivial: a crash hit a run that had completed a checkpoint and had not finished; distinct by solver, problem, crash place, decompositions.")
ASSUME = ["nOutput > 0 and the run ends at tEnd (the step count restarts with the job)", "a run whose density or total energy becomes non-positive has left the scheme's domain and is not judged","tolerance 1e-9 of each field's scale, 1e-12 on times; bit equality when the decomposition does not change is counted", "process-crash model: completed writes survive",
          "when the newest checkpoint already holds the final state the restarted job saves it once more under the next index"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.3 else 2
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.3 else None, restart_p=0.3, maxcells=300 if dim == 2 else 1000)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.3
    if sc["restart"]: sc["restart"].update(index=r.choice([0, 3]), time=r.choice([0.0, 0.3]))
    sc["nsteps"] = r.uniform(1.5, 9); sc["nOutput"] = r.choice([1, 2, 3, 4, 6, 12]); sc["knobs"] = gen.knobs(r, n, disk=r.random() < 0.4)
    jobs = []
    for q in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        cr = dict(kind="event", u=r.random()) if k < 0.4 else dict(kind="disk", op=r.choice(["write", "write", "write", "openw", "rename", "rename", "close", "truncate"]), u=r.random(), frac=r.choice([0, 0.3, 1.0, r.random()]))
        G = sc["grid"]; g = gen.GW[fam]
        Ls = [x for x in gen.layouts(dim, 6) + [(1, 1, 1)] if all(G[d] % x[d] == 0 and G[d] // x[d] >= (g if d < dim else 1) for d in range(3))]
        Ln = list(L) if r.random() < 0.5 else list(r.choice(Ls))
        nn = Ln[0] * Ln[1] * Ln[2]
        jobs.append(dict(crash=cr, layout=Ln, par=(nn > 1 or r.random() < 0.3) if Ln != list(L) else sc["par"], knobs=gen.knobs(r, nn, disk=r.random() < 0.4)))
    sc["jobs"] = jobs
    return sc

def point(cr, probe):
    c = probe.res["counters"]
    if cr["kind"] == "event": return dict(kind="crash_event", nth=1 + int(cr["u"] * max(1, probe.res["events"] - 1)))
    tot = int(c.get("disk." + cr["op"], 0))
    return dict(kind="disk_crash", op=cr["op"], nth=1 + int(cr["u"] * max(0, tot - 1)), frac=cr["frac"])

def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; rs = sc["restart"]; kw = dict(index=rs["index"], time=rs["time"]) if rs else {}
    t0 = rs["time"] if rs else 0.0; vv = lambda p: "mpi" if p else "ser"
    d = ctx.mkdir("probe"); oracle.put_restart(sc, d, L, sc["par"], **kw)
    p = ctx.run(vv(sc["par"]), gen.make_ini(sc, L, dict(run=dict(nStepmax=1, nOutput=1))), n, None, d=d)
    H = p.h5s()
    if not p.ok or len(H) < 2 or None in H.values(): o.bad("run-failed", "probe: " + p.why()); return
    dt = H[max(H)]["@total time"] - H[min(H)]["@total time"]
    if not dt > 0 or not np.isfinite(dt): ctx.add("m.no_step"); return
    base = dict(tEnd=float("%.7g" % (t0 + sc["nsteps"] * dt)), nStepmax=60, nOutput=sc["nOutput"])
    d = ctx.mkdir("ref"); oracle.put_restart(sc, d, L, sc["par"], **kw)
    ref = ctx.run(vv(sc["par"]), gen.make_ini(sc, L, dict(run=base)), n, sc["knobs"], d=d)
    R = ref.h5s()
    if not ref.ok or not R or None in R.values(): o.bad("run-failed", "uninterrupted run: " + ref.why()); return
    if not all(np.isfinite(R[k][v]).all() for k in R for v in R[k] if v[0] != "@"): ctx.add("m.not_finite"); return
    last = max(R)
    if any(R[k][v].min() <= 0 for k in R for v in ("rho", "energy")): ctx.add("m.unphysical"); return      # blown up: round-off is amplified without bound
    if abs(R[last]["@total time"] - np.float32(base["tEnd"])) > 1e-9: ctx.add("m.step_limit"); return      # ended by nStepmax, which counts per job
    # the interrupted history, all in one directory
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, sc["par"], **kw)
    cur = dict(layout=L, par=sc["par"], knobs=sc["knobs"]); start = None; hist = []; first = None; probe = ref; same = True; fin = False
    for q, job in enumerate(sc["jobs"]):
        f = point(job["crash"], probe)
        ov = dict(run=dict(base, **({} if start is None else dict(restart_enabled="true", restart_filename="out_%07d.h5" % start))))
        N = cur["layout"][0] * cur["layout"][1] * cur["layout"][2]; fin = fin or (start is not None and start >= last)
        x = ctx.run(vv(cur["par"]), gen.make_ini(sc, cur["layout"], ov), N, cur["knobs"], faults=[f], d=d)
        done = sorted(k for k, c in x.h5s().items() if c is not None)
        hist.append("%s of %s -> %s, checkpoints %s" % (f, cur["layout"], x.how, done))
        if x.ok: ctx.add("m.crash_not_reached"); start = start if start is not None else None; break
        if x.how != "crash": o.bad("run-failed", "%s: %s" % (hist, x.why())); return
        ctx.add("m.crashes")
        if start is not None and not [k for k in done if k >= start]: o.bad("lost", "%s: the checkpoint %d the run started from is gone" % (hist, start)); return
        if done:
            if max(done) < last: o.nontrivial = True
            start = max(done)
            if first is None: first = start
            ctx.add("m.restarts")
        cur = job; same = same and cur["layout"] == L and cur["par"] == sc["par"]
        N = cur["layout"][0] * cur["layout"][1] * cur["layout"][2]
    what = "%s%dD %s nOutput=%d tEnd=%r; %s; then %s %s" % (sc["fam"], sc["dim"], i["hydro"]["problem"] if not rs else "random", sc["nOutput"], base["tEnd"], hist, "parallel" if cur["par"] else "serial", cur["layout"])
    o.key = (sc["fam"], sc["dim"], i["hydro"]["problem"] if not rs else "random", i["OTHER"]["implementationVersion"], tuple(L), tuple(cur["layout"]), sc["jobs"][0]["crash"]["kind"], sc["jobs"][0]["crash"].get("op"), len(hist))
    if not (hist and hist[-1].find("-> exit") >= 0):
        ov = dict(run=dict(base, **({} if start is None else dict(restart_enabled="true", restart_filename="out_%07d.h5" % start))))
        N = cur["layout"][0] * cur["layout"][1] * cur["layout"][2]
        fin = fin or (start is not None and start >= last)
        x = ctx.run(vv(cur["par"]), gen.make_ini(sc, cur["layout"], ov), N, cur["knobs"], d=d)
        if not x.ok: o.bad("restart-failed", "%s: restart from %s: %s" % (what, start, x.why())); return
    X = x.h5s()
    if fin:
        # a job that starts from the final state saves it once more under the next index
        for k in [k for k in X if k > last]:
            e = X.pop(k)
            if e is None or last not in X or X[last] is None or any(e[v].tobytes() != X[last][v].tobytes() for v in e if v[0] != "@") or e["@total time"] != X[last]["@total time"] or e["@time step"] != k: o.bad("resume", what + ": the job restarted from the final state wrote output %d with other content" % k); return
    if oracle.compare_h5(o, "resume", R, X, 1e-9, what, trtol=1e-11): ctx.add("m.outputs_compared", len(R)); ctx.add("m.bit_identical", int(all(R[k][v].tobytes() == X[k][v].tobytes() for k in R for v in R[k] if v[0] != "@")))

def shrink(sc):
    if len(sc["jobs"]) > 1:
        for q in range(len(sc["jobs"])):
            s = json.loads(json.dumps(sc)); del s["jobs"][q]; yield s
    from dst import sim
    for q, j in enumerate(sc["jobs"]):
        if j["layout"] != sc["layout"]:
            s = json.loads(json.dumps(sc)); s["jobs"][q].update(layout=sc["layout"], par=sc["par"]); yield s
        if any(j["knobs"].get(k) != sim.CALM.get(k) for k in j["knobs"] if k != "seed"):
            s = json.loads(json.dumps(sc)); s["jobs"][q]["knobs"] = dict(seed=1); yield s
    if sc["nOutput"] > 1:
        s = json.loads(json.dumps(sc)); s["nOutput"] = 1; yield s
