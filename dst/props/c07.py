"""C07: results depend only on the parameters."""
from dst import gen, oracle
ID = "C07"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "sersdm"]
CASES = dict(quick=2400, thorough=40000)
RULE = ("seed -> problem, options and decomposition; the same job is executed twice under two independent worlds (heap contents, start date, forward and backward clock jumps, rank speeds, message timing, short disk transfers) and every output "
        "file must be bit-identical in its physical content. Non-trivial: the field changes during the run; distinct by family, problem, options and decomposition.")
ASSUME = ["rank numbering and reduction order are kept the same between the two worlds (floating-point sums are order dependent); C01/C02 vary them"]
def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.4 else 2
    if fam == "sdm": sc = gen.scenario(r, fam, dim, maxr=4, order=r.choice([1, 2, 3]) if dim == 2 else 2, layout=(1, 1, 1), rand=True); sc["layout"] = [1, 1, 1]
    else: sc = gen.scenario(r, fam, dim, maxr=6, layout=(1, 1, 1) if r.random() < 0.35 else None, rand=True)
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    sc["par"] = fam != "sdm" and (n > 1 or r.random() < 0.3)
    o = sc["ini"]["output"]
    if fam == "sdm": o.update(vtk_enabled="true", hdf5_enabled="false", outputVtkAscii="false")
    else: o["vtk_enabled"] = r.choice(["true", "false"])
    th = r.choice([1, 1, 2, 5]) if sc["ini"]["OTHER"]["implementationVersion"] == 0 else 1   # the other versions sum with atomics, in the order the threads come
    a, b = gen.knobs(r, n, th, disk=r.random() < 0.3), gen.knobs(r, n, th, disk=r.random() < 0.3)
    b["garbage"] = r.choice(["ff", "snan", "rand"])
    for k in ("reorder", "redorder"): a[k] = b[k] = 0
    sc["knobs"] = b; sc["knobs0"] = a
    return sc
def run(sc, ctx, o):
    L = sc["layout"]; n = L[0] * L[1] * L[2]
    v = "sersdm" if sc["fam"] == "sdm" else "mpi" if sc["par"] else "ser"
    R = []
    for nm, k in (("a", sc["knobs0"]), ("b", sc["knobs"])):
        d = ctx.mkdir(nm); oracle.put_restart(sc, d, L, sc["par"])
        R.append(ctx.run(v, gen.make_ini(sc, L), n, k, d=d))
    a, b = R
    i = sc["ini"]
    o.key = (sc["fam"], sc["dim"], sc["order"], i["hydro"]["problem"] if not sc["restart"] else "random", i["hydro"]["riemann"], i["OTHER"]["implementationVersion"], tuple(L), sc["par"])
    if a.ok != b.ok or not a.ok:
        if a.ok != b.ok or any(x.how in ("signal", "abort") for x in R): o.bad("outcome", "first world: %s; second world: %s" % (a.why(), b.why()))
        else: o.bad("run-failed", a.why())
        return
    if a.files() != b.files(): o.bad("files", "different files: %s versus %s" % (a.files(), b.files())); return
    ch = 0
    ra, rb = a.h5s(), b.h5s()
    oracle.compare_h5(o, "nondeterminism", ra, rb, 0.0, "two executions of %s" % (o.key,), trtol=0)
    for f in a.files():
        if f.endswith((".vti", ".pvti", ".vtu", ".pvtu", ".xmf", ".xmd")):
            x, y = open(a.dir + "/" + f, "rb").read(), open(b.dir + "/" + f, "rb").read()
            ctx.add("m.text_outputs_compared")
            if x != y:
                p = next((q for q in range(min(len(x), len(y))) if x[q] != y[q]), min(len(x), len(y)))
                o.bad("nondeterminism", "%s differs at byte %d of two executions with the same parameters: %r versus %r" % (f, p, x[max(0, p - 40):p + 40], y[max(0, p - 40):p + 40])); break
    ks = sorted(ra); o.nontrivial = (len(ks) > 2 and ra[ks[0]]["rho"].tobytes() != ra[ks[-1]]["rho"].tobytes()) if ks else sc["fam"] == "sdm"
def shrink(sc):
    from dst.props import c01
    yield from c01.shrink(sc)
