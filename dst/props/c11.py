"""C11: a crash never damages a completed checkpoint."""
import os, json, shutil
import numpy as np
from dst import gen, oracle, h5
from dst.props import c10
ID = "C11"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=1800, thorough=30000)
RULE = ("seed -> hydro or MHD problem or random start checkpoint, ghost and compression options, decomposition. A first job leaves completed checkpoints in a directory (sometimes it is killed itself). A second job runs in the same directory: restarted from one of them (it saves again under the index it "
        "starts from) or started afresh with another end time or problem strength (it overwrites them all). It is executed undisturbed in a copy of the directory, then killed at a sampled event or disk operation (torn writes included) or hit by disk errors. Every checkpoint name must then hold the complete "
        "content it had before or the complete content the undisturbed job gives it; a checkpoint that existed must still exist. Non-trivial: the second job was cut short after it touched a file; distinct by solver, ghost option, start mode, fault kind and operation, decomposition.")
ASSUME = ["checkpoints are the HDF5 outputs (VTK files are not read back by the application)", "process-crash model: every completed write call survives, also out of order with respect to other ranks; loss of the page cache (power failure) is outside the model because the application never asks for durability (no fsync in HDF5 or in the code)"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.3 else 2
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.35 else None, restart_p=0.3, steps=r.randint(1, 4), maxcells=300 if dim == 2 else 1000)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.3
    sc["opt"] = dict(ghostIncluded=r.choice(["false", "false", "true"]), outputHdf5CompressionLevel=0 if sc["par"] else r.choice([0, 1, 6]), vtk_enabled=r.choice(["false", "false", "true"]))
    if sc["restart"]: sc["opt"]["ghostIncluded"] = "false"
    sc["knobs1"] = gen.knobs(r, n); sc["knobs"] = gen.knobs(r, n, disk=r.random() < 0.4)
    sc["crash1"] = dict(kind="disk", op=r.choice(["write", "rename", "close"]), u=r.random(), frac=r.random()) if r.random() < 0.25 else None
    sc["mode"] = r.choice(["restart", "restart", "fresh"]); sc["pick"] = r.random()
    sc["steps2"] = r.randint(0, 4); sc["cfl2"] = r.choice([0.2, 0.4, 0.6])
    k = r.random()
    if k < 0.25: f = dict(kind="event", u=r.random())
    elif k < 0.8: f = dict(kind="disk", op=r.choice(["write", "write", "write", "openw", "rename", "close", "truncate"]), u=r.random(), frac=r.choice([0, 0.3, 1.0, r.random()]))
    else: f = dict(kind="err", op=r.choice(["write", "openw", "rename", "close"]), u=r.random(), arg=r.choice([5, 28, 122]), persist=r.random() < 0.3)
    sc["fault"] = f
    return sc

def fault(f, probe):
    if f["kind"] != "err": return c10.point(f, probe)
    tot = int(probe.res["counters"].get("disk." + f["op"], 0)); nth = 1 + int(f["u"] * max(0, tot - 1))
    return dict(kind="disk_err", op=f["op"], nth=-nth if f["persist"] else nth, arg=f["arg"])

def equal(a, b):
    if a is None or b is None or sorted(a) != sorted(b): return False
    return all((a[v] == b[v]) if v[0] == "@" else a[v].tobytes() == b[v].tobytes() for v in a)

def files(d): return {f: h5.read(d + "/" + f) for f in sorted(os.listdir(d)) if f.endswith(".h5")}

def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; v = "mpi" if sc["par"] else "ser"
    o.key = (sc["fam"], sc["dim"], sc["opt"]["ghostIncluded"], sc["opt"]["outputHdf5CompressionLevel"] > 0, sc["mode"], sc["fault"]["kind"], sc["fault"].get("op"), tuple(L))
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, sc["par"])
    ini1 = gen.make_ini(sc, L, dict(output=sc["opt"]))
    a = ctx.run(v, ini1, n, sc["knobs1"], d=d)
    if not a.ok: o.bad("run-failed", "first job: " + a.why()); return
    if sc["crash1"]:
        d = ctx.mkdir("crashed"); oracle.put_restart(sc, d, L, sc["par"])
        x = ctx.run(v, ini1, n, sc["knobs1"], faults=[c10.point(sc["crash1"], a)], d=d)
        if x.how not in ("crash", "exit"): o.bad("run-failed", "first job with a crash: " + x.why()); return
    old = files(d)
    broken = [f for f in old if old[f] is None]
    if broken: o.bad("damaged", "after the first job (%s) %s can not be read" % (sc["crash1"], broken)); return
    ks = sorted(int(f[4:-3]) for f in old if f.startswith("out_"))
    ro = dict(nStepmax=sc["steps2"]); hy = {}
    if sc["mode"] == "restart" and ks: start = ks[min(len(ks) - 1, int(sc["pick"] * len(ks)))]; ro.update(restart_enabled="true", restart_filename="out_%07d.h5" % start)
    else: start = None; hy = dict(cfl=sc["cfl2"])
    ini2 = gen.make_ini(sc, L, dict(run=ro, hydro=hy, output=sc["opt"]))
    d2 = d + "_copy"; shutil.copytree(d, d2)
    b = ctx.run(v, ini2, n, sc["knobs"], d=d2)
    if not b.ok: o.bad("run-failed", "second job (start %s): %s" % (start, b.why())); return
    new = files(d2)
    if any(x is None for x in new.values()): o.bad("damaged", "second job: unreadable %s" % [f for f in new if new[f] is None]); return
    f = fault(sc["fault"], b)
    x = ctx.run(v, ini2, n, sc["knobs"], faults=[f], d=d)
    if x.how not in ("crash", "exit", "abort") and x.status == 0: o.bad("run-failed", "second job with %s: %s" % (f, x.why())); return
    if x.violations: o.bad("run-failed", "second job with %s: %s" % (f, x.why())); return
    got = files(d)
    what = "%s%dD on %s%s, second job %s, %s (%s)" % (sc["fam"], sc["dim"], L, "" if sc["par"] else " serial", "restarted from %d" % start if start is not None else "started afresh", f, x.how)
    o.nontrivial = x.how != "exit" and x.res["counters"].get("disk.openw", 0) > 2
    ctx.add("m.files_judged", len(got)); ctx.add("m.cut_short", int(x.how != "exit"))
    ctx.add("m.kept_old", sum(equal(got.get(q), old[q]) for q in old)); ctx.add("m.has_new", sum(q in new and equal(got[q], new[q]) and not (q in old and equal(got[q], old[q])) for q in got if got[q]))
    for q in old:
        if q not in got: o.bad("lost", "%s: %s existed before and is gone" % (what, q)); return
    for q in got:
        if got[q] is None: o.bad("damaged", "%s: %s can not be read" % (what, q)); return
        if q in old and equal(got[q], old[q]): continue
        if q in new and equal(got[q], new[q]): continue
        if q in new and x.how == "exit":
            # the job went on after a transient error with another schedule
            if oracle.compare_h5(o, "damaged", {0: new[q]}, {0: got[q]}, 1e-10, "%s: %s" % (what, q)): continue
            return
        o.bad("damaged", "%s: %s holds neither its old nor its new content" % (what, q)); return

def shrink(sc):
    if sc["crash1"]: s = json.loads(json.dumps(sc)); s["crash1"] = None; yield s
    if sc["steps2"] > 0: s = json.loads(json.dumps(sc)); s["steps2"] = 0; yield s
    if sc["opt"]["vtk_enabled"] == "true": s = json.loads(json.dumps(sc)); s["opt"]["vtk_enabled"] = "false"; yield s
    from dst import sim
    if any(sc["knobs1"].get(k) != sim.CALM.get(k) for k in sc["knobs1"] if k != "seed"): s = json.loads(json.dumps(sc)); s["knobs1"] = dict(seed=1); yield s
