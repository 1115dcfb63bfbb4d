"""C04: every parallel run communicates soundly and terminates."""
from dst import gen, oracle
ID = "C04"; LEVEL = "exploration"; VARIANTS = ["mpi", "mpisdm"]
CASES = dict(quick=2800, thorough=50000)
RULE = ("seed -> solver family (hydro, MHD, spectral difference), problem, decomposition (including ranks that are their own or each other's neighbour on both sides), output options, and an adversarial MPI: rendezvous or eager sends, "
        "delays, stalls, late completion, reordering, minimal or strict collective synchronisation, rank renumbering. Every MPI and parallel-HDF5 call is checked while the run proceeds (deadlock, truncation, type or argument mismatch, "
        "collective order, buffers reused while in flight, requests or messages left at finalise). Non-trivial: more than one rank and at least one step; distinct by family, options, decomposition and boundary types.")
ASSUME = ["progress bound: 2 million scheduling events per run and 100 s of CPU time"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.4 else 2
    kw = dict(maxr=8 if tier == "quick" else 12, steps=r.randint(1, 3))
    if fam == "sdm": sc = gen.scenario(r, fam, dim, order=r.choice([1, 2, 3]) if dim == 2 else 2, **kw)
    else: sc = gen.scenario(r, fam, dim, **kw)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    o = sc["ini"]["output"]
    o["vtk_enabled"] = r.choice(["true", "false"]); o["outputVtkAscii"] = r.choice(["true", "false"])
    if fam == "sdm": o["hdf5_enabled"] = "false"; o["vtk_enabled"] = "true"
    else:
        o["hdf5_enabled"] = r.choice(["true", "true", "false"]); o["ghostIncluded"] = r.choice(["true", "false"]); o["reassembleInFile"] = r.choice(["true", "true", "false"]); o["hdf5_verbose"] = r.choice(["true", "false"])
        if o["hdf5_enabled"] == "false": sc["restart"] = None
        if sc["restart"]: o["ghostIncluded"] = "false"
    sc["ini"]["run"]["nOutput"] = r.choice([-1, 0, 2])
    k = gen.knobs(r, n)
    k["loose_coll"] = int(r.random() < 0.8); k["eager"] = r.choice([0, 0, 0, 64, 4096, 1 << 30])
    sc["knobs"] = k
    return sc

def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    d = ctx.mkdir("run")
    oracle.put_restart(sc, d, L)
    res = ctx.run("mpisdm" if sc["fam"] == "sdm" else "mpi", gen.make_ini(sc, L), n, sc["knobs"], d=d)
    i = sc["ini"]
    o.key = (sc["fam"], sc["dim"], sc["order"], tuple(L), i["hydro"]["problem"], tuple(sorted(i["output"].items())), tuple(sorted((k, v) for k, v in i["mesh"].items() if "bound" in k)))
    o.nontrivial = True
    what = "%s %dD %s ranks %s" % (sc["fam"], sc["dim"], i["hydro"]["problem"], L)
    for k, m in res.violations[:3]: o.bad(k, "%s: %s" % (what, m))
    if not res.violations and not res.ok: o.bad("not-finished", "%s: %s" % (what, res.why()))
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
