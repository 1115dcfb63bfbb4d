"""C23: a failure on one rank ends the whole job."""
import json, os
from dst import gen, oracle
from dst.props import c01, c17, c19
ID = "C23"; LEVEL = "exploration"; VARIANTS = ["mpi", "mpisdm", "ser", "sersdm", "drv"]
CASES = dict(quick=3600, thorough=60000)
RULE = ("seed -> one job and one failure. Whole application (finite volume, spectral difference; one to eight ranks): a rank is killed inside a sampled MPI call, an allocation of at least 64 B to 16 kB fails on one rank, an MPI call returns an error, one rank's own output piece can not be written, or the configuration is unusable (unknown solver, process grid that does not match the number of ranks, no or "
        "missing or unreadable parameter file, a restart of another size). Driver: random programs of communicator operations in which sampled ranks report a failure while the others poll or enter a collective operation, with polling enabled or disabled, and programs in which an MPI call fails and returns its error code. "
        "The job must end with non-zero status and no rank waiting, a fault that did not fire must leave a successful job, and polling must tell every rank of a failure exactly when some rank of that communicator reported one. Non-trivial: the failure fired, or a rank reported; distinct by job, failure, operation, rank count.")
ASSUME = ["the MPI runtime ends the remaining processes when one dies or aborts (the simulator's MPI does what Open MPI documents)", "an error of an MPI call aborts the job by MPI's default handler unless the program asked for error codes"]
OPS = ["MPI_Sendrecv", "MPI_Allreduce", "MPI_Bcast", "MPI_Barrier", "MPI_Comm_rank", "MPI_Comm_size", "MPI_Cart_create", "MPI_Reduce", "MPI_Init", "MPI_Finalize", "MPI_Waitall", "MPI_Isend", "MPI_Irecv", "MPI_Gather", "*", "*", "*"]
ERR = {"bcast": ["MPI_Bcast"], "allreduce": ["MPI_Allreduce"], "gather": ["MPI_Gather"], "allgather": ["MPI_Allgather"], "gatherv": ["MPI_Gatherv"], "allgatherv": ["MPI_Allgatherv"], "alltoall": ["MPI_Alltoall"], "alltoallv": ["MPI_Alltoallv"], "barrier": ["MPI_Barrier"], "ring": ["MPI_Sendrecv"], "chain": ["MPI_Send", "MPI_Recv"],
       "p2p0": ["MPI_Isend", "MPI_Irecv"], "p2p1": ["MPI_Issend", "MPI_Irecv"], "p2p2": ["MPI_Ibsend", "MPI_Irecv"], "p2p3": ["MPI_Irsend", "MPI_Irecv"], "p2p4": ["MPI_Send", "MPI_Irecv"]}

def gen_scenario(r, i, tier):
    k = r.random()
    if k < 0.25:
        n = r.choice([1, 2, 3, 4, 6, 8]); ops = ["comm world"]
        for _ in range(r.randint(0, 2)):
            c = r.choice(["dup", "split", "split", "self"])
            if c == "split": c += " " + " ".join(str(r.randint(0, 1)) for _ in range(n)) + " " + " ".join(str(r.randint(0, 4)) for _ in range(n))
            ops.append("comm " + c)
        nc = len(ops)
        for q in range(r.randint(2, 14)):
            p = r.choice([0.0, 0.1, 0.4])
            ops.append(r.choice(["poll %d " % r.randrange(nc), "poll %d " % r.randrange(nc), "guard %d %d " % (r.randrange(nc), r.randint(0, 7))]) + " ".join(str(int(r.random() < p)) for _ in range(n)) if r.random() < 0.85 else "polling %d" % r.randint(0, 1))
        return dict(kind="poll", ranks=n, layout=[n, 1, 1], grid=[n, 1, 1], dim=2, ini={}, fam="-", restart=None, ops=ops, knobs=gen.knobs(r, n))
    if k < 0.40:
        n = r.choice([2, 3, 4, 6]); T = lambda: r.randint(0, 3); mk = dict(
            bcast=lambda c: "bcast %d %d %d %d" % (c, T(), r.choice([1, 50]), r.randint(0, 7)), allreduce=lambda c: "allreduce %d %d 4 %d" % (c, r.randint(0, 2), r.randint(0, 2)), gather=lambda c: "gather %d %d 3 %d" % (c, T(), r.randint(0, 7)), allgather=lambda c: "allgather %d %d 3" % (c, T()),
            gatherv=lambda c: "gatherv %d %d 2 1 0 %d" % (c, T(), r.randint(0, 7)), allgatherv=lambda c: "allgatherv %d %d 2 1 1" % (c, T()), alltoall=lambda c: "alltoall %d %d 2" % (c, T()), alltoallv=lambda c: "alltoallv %d %d 2 1" % (c, T()), barrier=lambda c: "barrier %d" % c, ring=lambda c: "ring %d %d 5 1 3 0" % (c, T()),
            chain=lambda c: "chain %d %d 5 2" % (c, T()), **{"p2p%d" % m: (lambda m: lambda c: "p2p %d %d 3 0" % (c, m) + "".join(" %d %d %d 5 %d" % (j, j + 1, T(), j % 2) for j in range(3)))(m) for m in range(5)})
        ops = ["comm world"] + (["comm cart2 %d 1 1 1" % n] if r.random() < 0.4 else []); nc = len(ops); ops.append("errors_return"); names = []
        for q in range(r.randint(2, 8)): f = r.choice(sorted(mk)); names.append(f); ops.append(mk[f](r.randrange(nc)))
        op = r.choice(ERR[r.choice(names)])
        return dict(kind="code", ranks=n, layout=[n, 1, 1], grid=[n, 1, 1], dim=2, ini={}, fam="-", restart=None, ops=ops, op=op, u=r.random(), knobs=gen.knobs(r, n))
    fam = r.choice(["hydro", "mhd", "hydro", "mhd", "sdm"]); dim = 3 if r.random() < 0.35 else 2
    kw = dict(order=r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else {}
    sc = gen.scenario(r, fam, dim, maxr=8, layout=(1, 1, 1) if r.random() < 0.12 else None, steps=r.randint(0, 3), maxcells=300 if dim == 2 else 1200, **kw)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = n > 1 or r.random() < 0.5
    v = r.random(); sc["opt"] = dict(hdf5_enabled="true" if fam != "sdm" and v < 0.7 else "false", vtk_enabled="true" if fam == "sdm" or v > 0.4 else "false", outputVtkAscii=r.choice(["true", "false"]))
    if sc["opt"]["hdf5_enabled"] == "false": sc["restart"] = None
    sc["kind"] = r.choice(["alloc", "alloc", "alloc", "rank_exit", "mpi_error", "mpi_error", "piece", "config", "config"]) if sc["par"] else r.choice(["alloc", "alloc", "piece", "config"])
    sc["op"] = r.choice(OPS); sc["u"] = r.random(); sc["v"] = r.random(); sc["min"] = r.choice([64, 512, 2048, 16384]); sc["rank"] = r.randrange(n)
    sc["cfg"] = r.choice(["solver", "solver", "ranks-", "ranks+", "grid", "noarg", "missing", "nosection", "restart"])
    sc["knobs"] = gen.knobs(r, n)
    return sc

def run(sc, ctx, o):
    {"poll": polls, "code": codes}.get(sc["kind"], app)(sc, ctx, o)

def prog(sc, ctx, faults=()):
    d = ctx.mkdir(); open(d + "/ops.txt", "w").write("\n".join(sc["ops"]) + "\n")
    return ctx.run("drv", None, sc["ranks"], sc["knobs"], d=d, entry="app_ops", args=["ops.txt"], faults=faults)

def polls(sc, ctx, o):
    n = sc["ranks"]; sc = dict(sc, ops=c19.clean(sc["ops"], n))
    x = prog(sc, ctx); rep = [l for l in sc["ops"] if l.startswith("poll ") and "1" in l.split()[2:] or l.startswith("guard") and "1" in l.split()[3:]]
    o.key = ("poll", n, len(rep), "polling 0" in sc["ops"], sc["knobs"].get("sched"), sum(l.startswith("comm") for l in sc["ops"])); o.nontrivial = n > 1 and bool(rep)
    what = "%d ranks, %d operations, %d with a reported failure" % (n, len(sc["ops"]), len(rep))
    if not x.ok: o.bad("polling", what + ": " + x.why()); return
    t = c19.judge(sc, o, x, what)
    if t is not None: ctx.add("m.polls", sum(l.startswith("poll ") for l in sc["ops"])); ctx.add("m.guards", sum(l.startswith("guard") for l in sc["ops"])); ctx.add("m.reports", len(rep))

def codes(sc, ctx, o):
    n = sc["ranks"]
    a = prog(sc, ctx, [dict(kind="mpi_error", op=sc["op"], nth=1 << 40)])
    if not a.ok: o.bad("run-failed", "no fault: " + a.why()); return
    seen = a.res["faults"][0]["seen"]
    o.key = ("code", n, sc["op"], seen > 1); 
    if not seen: return
    # calls made before error codes were asked for are not sampled
    f = [dict(kind="mpi_error", op=sc["op"], nth=1 + int(sc["u"] * seen))]
    x = prog(sc, ctx, f); fired = x.res["faults"] and x.res["faults"][0]["fired"]
    what = "%d ranks, error code from call %d of %s" % (n, f[0]["nth"], sc["op"]); o.nontrivial = bool(fired)
    judge(o, ctx, x, fired, what, "code")

def judge(o, ctx, x, fired, what, kind, ref=None):
    if not fired:
        if not x.ok: o.bad("failed-without-fault", what + ": " + x.why())
        return
    ctx.add("m.fired." + kind); ctx.add("m.how." + x.how)
    if kind == "config" and x.how == "mpi-error" and all(q[0] == "mpi-usage" for q in x.violations): return   # a process grid that does not fit: MPI refuses it and aborts
    if x.violations or x.how in ("deadlock", "violation"): o.bad("others-wait", what + ": " + x.why()); return
    if x.status == 0:
        if kind == "alloc" and ref is not None:
            X = c17.contents(x.dir)
            if sorted(X) == sorted(ref) and all(c17.same(ref[q], X[q], q) for q in X): ctx.add("m.alloc_survived"); return
            k = [q for q in sorted(set(ref) | set(X)) if q not in X or q not in ref or not c17.same(ref[q], X[q], q)]
            o.bad("success", what + ": the job ends with status 0 but %s differ(s) from the undisturbed run" % k[:3]); return
        o.bad("success", what + ": the job ends with status 0"); return

def app(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]; kind = sc["kind"]; v = ("mpi" if sc["par"] else "ser") + ("sdm" if sc["fam"] == "sdm" else ""); ini = gen.make_ini(sc, L, dict(output=sc["opt"]))
    what = "%s%dD on %s (%s)" % (sc["fam"], sc["dim"], L, v); o.key = (sc["fam"], sc["dim"], kind, sc["op"] if kind in ("rank_exit", "mpi_error") else sc["cfg"] if kind == "config" else sc["min"], n, sc["par"])
    def go(faults=(), ini=ini, n=n, **kw):
        d = ctx.mkdir(); 
        oracle.put_restart(sc, d, L, sc["par"])
        return ctx.run(v, ini, n, sc["knobs"], faults=faults, d=d, **kw)
    if kind == "config":
        c = sc["cfg"]; i2 = json.loads(json.dumps(ini)); kw = {}; m = n
        if c == "solver": i2["run"]["solver_name"] = ["Unknown", "", "Hydro_Muscl_4D", "Hydro_muscl_2d", "Hydro_SDM_2D_degree9", "MHD_Muscl", "Hydro_Mood_2D_degree2"][int(sc["u"] * 7)]
        elif c in ("ranks-", "ranks+"):
            if v.startswith("ser"): return
            m = n - 1 if c == "ranks-" else n + 1 + int(sc["u"] * 3)
            if m < 1: m = n + 1
        elif c == "grid":
            if v.startswith("ser"): return
            i2["mpi"][["mx", "my", "mz"][int(sc["u"] * 3)]] = [0, -1, L[0] * 5 + 7][int(sc["v"] * 3)]
            if i2["mpi"]["mx"] * i2["mpi"]["my"] * (i2["mpi"]["mz"] if sc["dim"] == 3 else 1) == n and min(i2["mpi"][q] for q in ("mx", "my")) > 0 and sc["dim"] == 2: return   # mz plays no part in two dimensions
        elif c == "noarg": kw = dict(args=[])
        elif c == "missing": kw = dict(args=["nothere.ini"])
        elif c == "nosection": i2 = {k: q for k, q in i2.items() if k != "run"}
        elif c == "restart":
            if sc["fam"] == "sdm": return
            i2["run"].update(restart_enabled="true", restart_filename="other.h5")
        x = go(ini=i2, n=m, **kw); o.nontrivial = True
        judge(o, ctx, x, True, what + ", unusable configuration: %s %s" % (c, i2.get("run", {}).get("solver_name", "") if c == "solver" else i2.get("mpi") if c == "grid" else m), "config")
        return
    if kind == "piece":
        f = dict(kind="disk_err", op=["openw", "write", "close"][int(sc["u"] * 3)], nth=-1, arg=[5, 28, 13][int(sc["v"] * 3)], path=".vt" if sc["opt"]["vtk_enabled"] == "true" else ".h5", rank=sc["rank"])
    else: f = dict(kind=kind, op="" if kind == "alloc" else sc["op"], nth=1 << 40, rank=sc["rank"], arg=sc["min"])
    if not f["op"]: del f["op"]
    if kind != "piece":
        a = go([f])
        if not a.ok: o.bad("run-failed", what + " without fault: " + a.why()); return
        seen = a.res["faults"][0]["seen"]; ref = c17.contents(a.dir)
        if not seen: ctx.add("m.no_such_call"); return
        f["nth"] = 1 + int(sc["u"] * seen)
    x = go([f]); fired = bool(x.res["faults"] and x.res["faults"][0]["fired"]); o.nontrivial = fired
    if kind == "piece" and not fired: return
    judge(o, ctx, x, fired, what + ", %s" % f, kind, ref if kind == "alloc" else None)

def shrink(sc):
    if sc["kind"] in ("poll", "code"): yield from c19.shrink(sc)
    else: yield from c01.shrink(sc)
