"""C17: a failed output is never reported as success."""
import os, json, re
import numpy as np
from dst import gen, oracle, h5
from dst.props import c01
ID = "C17"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=3000, thorough=50000)
RULE = ("seed -> solver (finite volume or spectral difference), output formats (HDF5 with options, VTK ASCII or raw, XDMF index), decomposition, schedule plan, and one output failure: error on a sampled open, write, close, rename or truncate (I/O error, disk full, quota, too many files, no permission; transient or lasting, on one file type or any), "
        "a disk that fills up after a sampled number of bytes, or an output directory that does not exist. The job must end on every rank with a reported failure and non-zero status, or leave exactly the files, with the contents, of the undisturbed run. "
        "Non-trivial: the fault fired; distinct by solver, formats, failed operation and file type, error, serial/parallel, decomposition.")
ASSUME = ["the undisturbed run uses the same schedule plan", "creation date and timing report are not compared"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "mhd", "hydro", "mhd", "sdm"]); dim = 3 if r.random() < 0.3 else 2
    kw = dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else dict(restart_p=0.0)
    sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.35 else None, steps=r.randint(0, 3), maxcells=300 if dim == 2 else 1000, **kw)
    L = sc["layout"]; n = L[0] * L[1] * L[2]; sc["par"] = n > 1 or r.random() < 0.3
    f = r.choice(["h5", "vtk", "both", "both"])
    if f == "vtk": sc["restart"] = None
    sc["opt"] = dict(hdf5_enabled="true" if f != "vtk" and fam != "sdm" else "false", vtk_enabled="true" if f != "h5" or fam == "sdm" else "false", outputVtkAscii=r.choice(["true", "false"]), ghostIncluded=r.choice(["false", "false", "true"]) if not sc["restart"] else "false",
                     outputHdf5CompressionLevel=0 if sc["par"] else r.choice([0, 0, 5]), outputDir=r.choice(["./", "data"]), reassembleInFile=r.choice(["true", "true", "false"]))
    sc["knobs"] = gen.knobs(r, n, disk=r.random() < 0.3)
    k = r.random()
    if k < 0.08: sc["fault"] = dict(kind="nodir")
    elif k < 0.25: sc["fault"] = dict(kind="full", u=r.random())
    else: sc["fault"] = dict(kind="err", op=r.choice(["write", "write", "write", "openw", "openw", "close", "close"] + (["rename", "truncate"] if sc["opt"]["hdf5_enabled"] == "true" else [])), path=r.choice([""] + ([".h5", "out_0", ".xmf"] if sc["opt"]["hdf5_enabled"] == "true" else []) + ([".vt", ".pvt"] if sc["opt"]["vtk_enabled"] == "true" else [])), u=r.random(), arg=r.choice([5, 28, 122, 24, 13]), persist=r.random() < 0.4)
    return sc

def contents(d):
    out = {}
    for root, _, fs in os.walk(d):
        if root == d + "/log" or root.startswith(d + "/log/"): continue
        for f in fs:
            p = os.path.join(root, f); q = os.path.relpath(p, d)
            if q in ("run.ini", "restart.h5"): continue
            out[q] = h5.read(p) if f.endswith(".h5") else open(p, "rb").read()
    return out

def same(a, b, path):
    if isinstance(a, bytes): return a == b
    if a is None or b is None or sorted(a) != sorted(b): return False
    return all((a[v] == b[v]) if v[0] == "@" else np.array_equal(a[v], b[v], equal_nan=True) for v in a)

def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; i = sc["ini"]; opt = sc["opt"]; sub = opt["outputDir"].rstrip("/"); F = sc["fault"]
    v = ("mpi" if sc["par"] else "ser") + ("sdm" if sc["fam"] == "sdm" else "")
    fmts = "+".join(q for q, e in (("hdf5", opt["hdf5_enabled"]), ("vtk " + ("ascii" if opt["outputVtkAscii"] == "true" else "raw"), opt["vtk_enabled"])) if e == "true")
    ini = gen.make_ini(sc, L, dict(output=opt))
    d = ctx.mkdir("ref"); oracle.put_restart(sc, d, L, sc["par"])
    if sub != ".": os.makedirs(d + "/" + sub)
    a = ctx.run(v, ini, n, sc["knobs"], d=d)
    if not a.ok: o.bad("run-failed", "undisturbed: " + a.why()); return
    A = contents(d); cnt = a.res["counters"]; faults = []; knobs = dict(sc["knobs"]); must = False
    d = ctx.mkdir("run"); oracle.put_restart(sc, d, L, sc["par"])
    if F["kind"] == "nodir":
        if sub == ".": ctx.add("m.no_fault"); return
        must = True
    elif sub != ".": os.makedirs(d + "/" + sub)
    if F["kind"] == "full": knobs["enospc"] = int(F["u"] * sum(os.path.getsize(os.path.join(a.dir, q)) for q in A))
    if F["kind"] == "err":
        tot = int(cnt.get("disk.%s" % F["op"], 0))
        if F["path"]:
            # scale to the files of this type
            nf = sum(F["path"] in q for q in A); nall = max(1, len(A)); tot = max(1, int(tot * nf / nall)) if nf else 0
        if not tot: ctx.add("m.no_fault"); return
        nth = 1 + int(F["u"] * (tot - 1)); faults = [dict(kind="disk_err", op=F["op"], nth=-nth if F["persist"] else nth, arg=F["arg"], **({"path": F["path"]} if F["path"] else {}))]
    x = ctx.run(v, ini, n, knobs, faults=faults, d=d)
    fired = must or any(q.startswith(("fault.disk_err", "fault.enospc")) for q in x.res["counters"])
    o.key = (sc["fam"], sc["dim"], fmts, F["kind"], F.get("op"), F.get("path"), F.get("persist"), F.get("arg"), sc["par"], tuple(L)); o.nontrivial = fired
    what = "%s%dD %s %s on %s, %s" % (sc["fam"], sc["dim"], fmts, "mpi" if sc["par"] else "serial", L, faults or F["kind"])
    ctx.add("m.fired", int(fired)); ctx.add("m.refused", int(x.status != 0))
    if x.violations or x.how in ("signal", "deadlock", "violation"): o.bad("not-ended-cleanly", "%s: %s" % (what, x.why())); return
    if x.status != 0:
        if not fired: o.bad("failed-without-fault", "%s: %s" % (what, x.why())); return
        if not "".join(x.err(q) for q in range(n)).strip(): o.bad("silent", what + ": status %d but nothing is reported" % x.status)
        return
    if must and A: o.bad("unnoticed", what + ": status 0 although the output directory does not exist"); return
    X = contents(d)
    if sorted(X) != sorted(A): o.bad("unnoticed", "%s: status 0 but files missing %s, unexpected %s" % (what, sorted(set(A) - set(X))[:4], sorted(set(X) - set(A))[:4])); return
    for q in A:
        if not same(A[q], X[q], q): o.bad("unnoticed", "%s: status 0 but %s is not complete and correct%s" % (what, q, " (%d of %d bytes)" % (len(X[q]), len(A[q])) if isinstance(A[q], bytes) else "")); return
    ctx.add("m.harmless", int(fired))
shrink = c01.shrink
