"""C16: a bad restart file is never silently accepted."""
import os, json
import numpy as np
from dst import gen, oracle, h5
from dst.props import c12, c01
ID = "C16"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> hydro or MHD restart, serial or parallel, with or without ghosts or up-scaling, schedule plan; the checkpoint is made by the application's own layout and then spoiled: missing, not named, with HDF5 disabled, a directory, empty, not HDF5, cut at a sampled length, overwritten block, a dataset or attribute removed, other grid, transposed or ghosted "
        "extents, other dimension, or read faults (open, read, transient or persistent, on one rank or all) and benign short or interrupted reads. The job must end with a reported failure on every rank and non-zero status, or produce exactly the outputs of the run that reads the intact checkpoint. "
        "Non-trivial: the spoiled file differs from a valid one or a fault fired; distinct by solver, kind of damage, place, serial/parallel, decomposition.")
ASSUME = ["changes of the stored numbers themselves (no checksum in the format) can not be noticed and are not generated", "the run's own sizes, not the nx/mx attributes, define the expected grid (the code reads any decomposition)"]
KINDS = ["missing", "directory", "empty", "text", "truncate", "truncate", "truncate", "block", "nodataset", "nodataset", "noattr", "grid", "grid", "transpose", "ghosted", "dim", "openr", "read", "read", "read", "benign", "oddup", "badname", "badname", "noname", "nohdf5"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd"]); dim = 3 if r.random() < 0.35 else 2
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.35 else None, restart_p=1.0, steps=r.randint(0, 2), maxcells=300 if dim == 2 else 1000)
    if not sc["restart"]: sc["restart"] = dict(seed=r.getrandbits(40), amp=0.2)
    sc["restart"].update(index=r.choice([0, 4]), time=r.choice([0.0, 0.5]))
    L = sc["layout"]; n = L[0] * L[1] * L[2]; sc["par"] = n > 1 or r.random() < 0.3
    sc["mode"] = r.choice(["plain", "plain", "plain", "ghost", "all"]) if sc["par"] else r.choice(["plain", "plain", "ghost"])
    sc["kind"] = r.choice(KINDS); sc["u"] = r.random(); sc["v"] = r.random(); sc["persist"] = r.random() < 0.5; sc["err"] = r.choice([5, 13, 24, 4])
    sc["own"] = r.random() < 0.5
    sc["knobs"] = gen.knobs(r, n, disk=sc["kind"] == "benign" or r.random() < 0.3)
    if sc["kind"] == "benign": sc["knobs"].update(short_p=0.3, eintr_p=0.2)
    return sc

def run(sc, ctx, o):
    dim, fam, L, G, mode, par = sc["dim"], sc["fam"], sc["layout"], sc["grid"], sc["mode"], sc["par"]; rs = sc["restart"]; kind = sc["kind"]
    g = gen.GW[fam]; n = [G[d] // L[d] for d in range(3)]; N = L[0] * L[1] * L[2]; v = "mpi" if par else "ser"; i = sc["ini"]
    if kind == "oddup" and all(x % 2 == 0 for x in n[:dim]) and not (fam == "mhd" and mode == "plain"): kind = "truncate"
    opt = dict(ghostIncluded="true" if mode == "ghost" else "false", allghostIncluded="true" if mode == "all" else "false")
    over = dict(output=opt)
    m = i["mesh"]; h = [(m[a + "max"] - m[a + "min"]) / G[q] for q, a in enumerate("xyz")]
    F0 = gen.fields(fam, dim, G, rs["seed"], rs["amp"], i["hydro"]["gamma0"], ext=h)
    at = {"time step": rs["index"], "nx": n[0], "ny": n[1], "nz": n[2]}
    if par: at.update(mx=L[0], my=L[1], mz=L[2])
    good = c12.place(F0, mode, par, dim, g, n, L, m)
    # the intact run; its first output is a checkpoint written by the application itself
    d = ctx.mkdir("good"); h5.write(d + "/restart.h5", good, at, rs["time"])
    a = ctx.run(v, gen.make_ini(sc, L, over), N, None, d=d)
    if not a.ok: o.bad("run-failed", "intact checkpoint: " + a.why()); return
    ref = a.h5s()
    d2 = ctx.mkdir("bad"); p = d2 + "/restart.h5"
    if sc["own"]:
        data = open(d + "/out_%07d.h5" % rs["index"], "rb").read()
    else: data = open(d + "/restart.h5", "rb").read()
    faults = []; must = True; name = "restart.h5"
    if kind == "missing": pass
    elif kind == "badname": name = ["restart", "restart.hdf", "restart.vti", "restart.h5.bak"][int(sc["u"] * 4)]; open(d2 + "/" + name, "wb").write(data)
    elif kind == "noname": name = ["", "./", ".h5", "missing/restart.h5"][int(sc["u"] * 4)]; open(p, "wb").write(data)
    elif kind == "nohdf5": open(p, "wb").write(data); over["output"] = dict(opt, hdf5_enabled="false", vtk_enabled="true")
    elif kind == "directory": os.mkdir(p)
    elif kind == "empty": open(p, "wb").close()
    elif kind == "text": open(p, "w").write("# vtk DataFile Version 3.0\n" * 40)
    elif kind == "truncate": open(p, "wb").write(data[:int(sc["u"] * (len(data) - 1))])
    elif kind == "block": b = 8 + int(sc["u"] * 80); open(p, "wb").write((b"\0" * 8 + data[8:]) if sc["v"] < 0.3 else data[:b] + b"\xff" * min(32, 96 - b) + data[b + min(32, 96 - b):])
    elif kind in ("nodataset", "noattr", "grid", "transpose", "ghosted", "dim"):
        F, A, T = dict(good), dict(at), rs["time"]
        if kind == "nodataset": q = sorted(F)[int(sc["u"] * len(F))]; del F[q]
        elif kind == "noattr":
            if sc["u"] < 0.5: del A["time step"]
            else: T = None
        elif kind == "grid":
            ax = int(sc["u"] * dim); k = [-1, 1, 2][int(sc["v"] * 3)]
            one = sc["u"] * 7 % 1 < 0.5; q0 = sorted(F)[int(sc["v"] * len(F))]
            for q in F:
                if one and q != q0: continue     # only one dataset has another size
                idx = np.arange(F[q].shape[ax] + k) % F[q].shape[ax]; F[q] = np.take(F[q], idx, axis=ax)
        elif kind == "transpose":
            F = {q: np.ascontiguousarray(np.swapaxes(x, 0, dim - 1)) for q, x in F.items()}
            if next(iter(F.values())).shape == next(iter(good.values())).shape: ctx.add("m.square"); return
        elif kind == "ghosted":
            m2 = "plain" if mode != "plain" else "ghost"
            F = c12.place(F0, m2, par, dim, g, n, L, m)
        elif kind == "dim":
            F = {q: (x[0] if dim == 3 else np.stack([x, x])) for q, x in F.items()}
        h5.write(p, F, A, T, drop=("total time",) if T is None else ())
    elif kind == "oddup":
        over["run"] = dict(restart_upscale="true"); h5.write(p, {q: x[tuple(slice(0, max(1, s // 2)) for s in x.shape)] for q, x in good.items()}, at, rs["time"])
    else:
        open(p, "wb").write(data); must = False
    if kind == "openr": faults = [dict(kind="disk_err", op="openr", path="restart.h5", nth=-1 if sc["persist"] else 1 + int(sc["u"] * N), arg=sc["err"])]
    elif kind == "read":
        tot = max(1, int(a.res["counters"].get("disk.read", 1)))
        nth = 1 + int(sc["u"] * min(tot, 40 * N)); faults = [dict(kind="disk_err", op="read", path="restart.h5", nth=-nth if sc["persist"] else nth, arg=5)]
    over.setdefault("run", {})["restart_filename"] = name
    x = ctx.run(v, gen.make_ini(sc, L, over), N, sc["knobs"], faults=faults, d=d2)
    fired = bool(faults) and any(q.startswith("fault.disk_err") for q in x.res["counters"])
    o.nontrivial = must or fired or kind == "benign"
    o.key = (fam, dim, mode, par, kind, int(sc["u"] * 6), tuple(L))
    what = "%s%dD %s %s on %s, checkpoint %s%s" % (fam, dim, mode, "mpi" if par else "serial", L, kind, " " + str(faults) if faults else "")
    ctx.add("m.kind." + kind); ctx.add("m.refused", int(x.status != 0))
    if x.violations or x.how in ("signal", "deadlock", "violation"): o.bad("not-refused-cleanly", "%s: %s" % (what, x.why())); return
    if x.status != 0:
        if kind == "benign": o.bad("refused-intact", "%s: an intact checkpoint is refused: %s" % (what, x.why())); return
        if not x.alltext(N).strip(): o.bad("silent", what + ": nothing is reported")
        bad = list(x.h5s()) + [k for k in os.listdir(d2) if ".vt" in k and k.startswith("out")]
        if bad: o.bad("accepted", "%s: outputs %s were written before the failure" % (what, bad))
        return
    got = x.h5s()
    if must and kind not in ("truncate", "block"): o.bad("accepted", "%s: the run ends with status 0" % what); return
    ctx.add("m.accepted_same")
    oracle.compare_h5(o, "accepted", ref, got, 1e-10, what)
shrink = c01.shrink
