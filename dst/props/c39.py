"""C39: what a run holds on to does not grow with its length."""
import re
from dst import gen, oracle
ID = "C39"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "mpisdm", "sersdm"]
CASES = dict(quick=1500, thorough=30000); LIMIT = dict(quick=240, thorough=3000)
RULE = ("seed -> hydro, MHD or spectral-difference run of 12 to 30 steps with an output after every step, in HDF5, VTK or both, with format options, decomposition, restart, schedule, late messages, interrupted and partial disk operations. The simulator owns every allocation, file descriptor, HDF5 handle and "
        "MPI handle; each time a rank opens an output it records what that rank holds. At the same point of each output the least amount held in the second half of the run must not exceed that of the first half by more than 128 bytes per output (memory) or a third of a handle per output. Non-trivial: at least 12 outputs; distinct by solver, formats, decomposition and options.")
ASSUME = ["memory the HDF5 library itself caches is not counted (its open objects are)", "a growth of up to 128 bytes per output is tolerated (a list of the outputs written)"]

def gen_scenario(r, i, tier):
    fam = r.choice(["hydro", "hydro", "mhd", "mhd", "sdm"]); dim = 3 if r.random() < 0.35 else 2
    par = r.random() < 0.6
    sc = gen.scenario(r, fam, dim, maxr=4, layout=None if par else (1, 1, 1), order=(r.choice([1, 2, 3]) if dim == 2 else 2) if fam == "sdm" else None, restart_p=0.3, maxcells=200 if dim == 2 else 500)
    ini = sc["ini"]; n = r.randint(12, 16 if dim == 3 else 30)
    ini["run"].update(nStepmax=n, nOutput=-1, nlog=r.choice([1, 1, 5, 1000])); ini["hydro"]["cfl"] = 0.2
    h5, vtk = (False, True) if fam == "sdm" else r.choice([(True, True), (True, False), (False, True), (True, True)])
    ini["output"].update(hdf5_enabled="true" if h5 else "false", vtk_enabled="true" if vtk else "false", outputVtkAscii=r.choice(["true", "false"]))
    if sc["restart"]: ini["output"]["hdf5_enabled"] = "true"
    elif h5: ini["output"].update({r.choice(["ghostIncluded", "allghostIncluded", "x"]): "true", "reassembleInFile": r.choice(["true", "true", "false"])}); ini["output"].pop("x", None)
    if h5 and not par: ini["output"]["outputHdf5CompressionLevel"] = r.choice([0, 5])
    L = sc["layout"]; N = L[0] * L[1] * L[2]
    sc["par"] = par; sc["knobs"] = gen.knobs(r, N, r.choice([1, 1, 2]), disk=r.random() < 0.4)
    return sc
WHAT = ("bytes of memory", "memory blocks", "open files", "open HDF5 objects", "MPI handles")
def run(sc, ctx, o):
    L, fam, dim = sc["layout"], sc["fam"], sc["dim"]; N = L[0] * L[1] * L[2]; ini = sc["ini"]; out = ini["output"]
    o.key = (fam, dim, sc["order"], sc["par"], tuple(L), bool(sc["restart"]), tuple(sorted((k, str(v)) for k, v in out.items())), ini["hydro"]["problem"])
    v = ("mpi" if sc["par"] else "ser") + ("sdm" if fam == "sdm" else "")
    d = ctx.mkdir("run")
    if sc["restart"]: oracle.put_restart(sc, d, L if sc["par"] else [1, 1, 1], sc["par"])
    R = ctx.run(v, gen.make_ini(sc, L), N, dict(sc["knobs"], memtrack=1), d=d, cpu=200)
    what = "%s%dD on %s" % (fam, dim, L)
    if not R.ok:
        ctx.add("m.unjudged"); return                      # other properties judge runs that end
    S = {}
    for r, path, *h in R.res.get("mem", []):
        S.setdefault((r, re.sub(r"\d+", "#", re.sub(r"\d{7}", "", path, 1))), []).append((path, h))
    for (r, p), s in sorted(S.items()):
        if len(s) < 8: continue
        n = len({x[0] for x in s})
        s = s[len(s) // 10:]
        a = s[:len(s) // 2]; b = s[len(s) // 2:]
        dn = n * 0.45
        ctx.add("m.series"); ctx.add("m.samples", len(s)); o.nontrivial = o.nontrivial or n >= 12
        for q in range(5):
            lo, hi = min(x[1][q] for x in a), min(x[1][q] for x in b)
            if q == 1: continue
            if hi - lo > (128 * dn if q == 0 else max(2, dn / 3)):
                o.bad(("memory", "", "files", "hdf5", "mpi")[q], "%s: rank %d holds %d %s at %s but %d at %s: growing with the number of outputs or steps" % (what, r, lo, WHAT[q], a[0][0], hi, b[-1][0])); return
