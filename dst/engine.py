"""Seeded search, gating, minimisation, replay, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback
from . import sim
VERIF = sim.VERIF

class Outcome:
    def __init__(self):
        self.violations = []   # (kind, key, message)
        self.key = None        # what makes the case distinct
        self.nontrivial = False
        self.stats = {}
        self.fp = ""
    def bad(self, kind, msg, key=None): self.violations.append((kind, key or kind, msg))

PROP = None; ROOT = None

def evaluate(sc, tag):
    """run one scenario in a private scratch directory"""
    d = os.path.join(ROOT, tag)
    shutil.rmtree(d, ignore_errors=True)
    ctx = sim.Ctx(d)
    o = Outcome()
    try:
        PROP.run(sc, ctx, o)
        o.error = None
    except Exception:
        o.error = traceback.format_exc()
    o.stats = ctx.stats; o.runs = ctx.runs
    ctx.fp.update(repr([(k, kk) for k, kk, m in o.violations]).encode())
    o.fp = ctx.fp.hexdigest()
    shutil.rmtree(d, ignore_errors=True)
    return o

def _work(a):
    i, sc, tag = a
    t = time.time()
    o = evaluate(sc, tag)
    return i, dict(violations=o.violations, key=o.key, nontrivial=o.nontrivial, stats=o.stats, fp=o.fp, error=o.error, runs=o.runs, t=time.time() - t)

def scenario_of(prop, seed, i, tier):
    r = random.Random("%s/%d/%d" % (prop.ID, seed, i))
    sc = prop.gen_scenario(r, i, tier)
    sc["_case"] = i
    return sc

def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding:"):
                kv = dict(x.split("=", 1) for x in l.split()[1:3])
                out.append((kv["property"], kv["key"], l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ""))
    except OSError: pass
    return out

def _one(q, sc, tag):
    q.put(_work((0, sc, tag))[1])

def fresh(sc, tag):
    """evaluate in a fresh process"""
    q = mp.Queue(); p = mp.Process(target=_one, args=(q, sc, tag)); p.start()
    try: r = q.get(timeout=800)
    finally: p.join()
    return r

def shrinks(sc):
    """generic simplifications of a scenario: simulator knobs back to calm, fewer faults, shorter run"""
    out = []
    k = sc.get("knobs")
    if isinstance(k, dict):
        for kk, v in sorted(k.items()):
            if kk in ("seed",): continue
            c = sim.CALM.get(kk)
            if v != c and kk != "sched_limit":
                n = json.loads(json.dumps(sc)); n["knobs"][kk] = c; out.append(n)
        lim = k.get("sched_limit", -1)
        for c in ([0, 16, 128] if lim < 0 else [lim // 2, lim - max(1, lim // 8)] if lim > 0 else []):
            n = json.loads(json.dumps(sc)); n["knobs"]["sched_limit"] = c; out.append(n)
        if k.get("omp") == "preempt":
            ol = k.get("omp_limit", -1)
            for c in ([1, 8, 64] if ol < 0 else [ol // 2, ol - 1] if ol > 1 else []):
                n = json.loads(json.dumps(sc)); n["knobs"]["omp_limit"] = c; out.append(n)
    if sc.get("faults") and len(sc["faults"]) > 1:
        for i in range(len(sc["faults"])):
            n = json.loads(json.dumps(sc)); del n["faults"][i]; out.append(n)
    try:
        st = sc["ini"]["run"]["nStepmax"]
        for c in (1, st // 2, st - 1):
            if 0 < c < st:
                n = json.loads(json.dumps(sc)); n["ini"]["run"]["nStepmax"] = c; out.append(n)
    except (KeyError, TypeError): pass
    if sc.get("restart") and isinstance(sc["restart"], dict) and "seed" in sc["restart"] and not sc.get("need_restart"):
        n = json.loads(json.dumps(sc)); n["restart"] = None; out.append(n)
    return out

def minimise(prop, sc, kinds, budget):
    t0 = time.time(); tried = 0
    cur = sc
    progress = True
    with mp.Pool(8) as pool:
        while progress and time.time() - t0 < budget:
            progress = False
            cands = list(prop.shrink(cur)) if hasattr(prop, "shrink") else []
            cands += shrinks(cur)
            for s in range(0, len(cands), 8):
                if time.time() - t0 > budget: break
                part = cands[s:s + 8]
                tried += len(part)
                rs = pool.map(_work, [(j, c, "min%d" % j) for j, c in enumerate(part)], 1)
                hit = [j for j, r in rs if not r["error"] and set(k for k, _, _ in r["violations"]) & kinds]
                if hit: cur = part[min(hit)]; progress = True; break
    return cur, tried

def load(pid):
    return importlib.import_module("dst.props." + pid.lower())

def main(pid, tier, seed, replay=None):
    global PROP, ROOT
    t0 = time.time()
    prop = PROP = load(pid)
    sim.prepare(prop.VARIANTS)
    ROOT = tempfile.mkdtemp(prefix="ppk-%s-" % pid.lower(), dir=sim.scratch_root())
    try:
        return _main(prop, pid, tier, seed, replay, t0)
    finally:
        shutil.rmtree(ROOT, ignore_errors=True)

def _main(prop, pid, tier, seed, replay, t0):
    if replay:
        rp = json.load(open(replay))
        r = fresh(rp["scenario"], "replay")
        if r["error"]: print(r["error"]); return 2
        want = set(rp["kinds"])
        got = set(k for k, _, _ in r["violations"])
        print("replay of %s: kinds %s, fingerprint %s" % (replay, sorted(got), "identical" if r["fp"] == rp["fingerprint"] else "different"))
        for k, kk, m in r["violations"][:6]: print("  %s: %s" % (k, m))
        if got & want: print("VIOLATION property=%s replay=%s" % (pid, replay)); return 1
        return 0
    known = {k: d for p, k, d in known_findings() if p == pid}
    N = prop.CASES[tier]
    limit = prop.LIMIT[tier] if hasattr(prop, "LIMIT") else (240 if tier == "quick" else 3000)
    tb = time.time()
    stats = {}; keys = set(); nontriv = set(); samples = []; evals = 0; firstbad = []; knownhit = {}; errors = []; interle = set(); slow = 0
    # a few cases are evaluated twice to show that one seed is one execution
    dup = set(range(0, N, max(1, N // 4)))
    jobs = ((i, scenario_of(prop, seed, i, tier), "c%d" % i) for i in range(N))
    fps = {}
    workers = int(os.environ.get("PPK_WORKERS", "8"))
    with mp.Pool(workers) as pool:
        it = pool.imap(_work, jobs, 1)
        for i in range(N):
            if time.time() - tb > limit: break
            try: _, r = it.next(timeout=600)
            except StopIteration: break
            evals += 1; slow = max(slow, r["t"])
            if r["error"]: errors.append((i, r["error"])); break
            for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
            interle.update(r["runs"])
            if r["key"] is not None: keys.add(str(r["key"]))
            if r["nontrivial"]: nontriv.add(str(r["key"]))
            fps[i] = r["fp"]
            new = [v for v in r["violations"] if v[1] not in known]
            for v in r["violations"]:
                if v[1] in known: knownhit.setdefault(v[1], v[2])
            if len(samples) < 3 and r["nontrivial"]: samples.append(scenario_of(prop, seed, i, tier))
            if new: firstbad.append((i, new, r["fp"])); break
        pool.terminate()
    if errors:
        print("HARNESS ERROR in case %d:\n%s" % errors[0]); return 2
    code = 0; replay_path = None; mintried = 0
    # determinism probe
    dets = dict(checked=0, mismatches=0)
    if not firstbad:
        with mp.Pool(workers) as pool:
            todo = [i for i in sorted(dup) if i in fps]
            for i, r in pool.imap_unordered(_work, [(i, scenario_of(prop, seed, i, tier), "d%d" % i) for i in todo], 1):
                dets["checked"] += 1
                if r["error"] or r["fp"] != fps[i]: dets["mismatches"] += 1
        if dets["mismatches"]: print("WARNING: %d of %d repeated cases gave a different trace" % (dets["mismatches"], dets["checked"]))
    for key, d in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if firstbad:
        i, new, fp = firstbad[0]
        sc = scenario_of(prop, seed, i, tier)
        # gate: the same seed, twice, in fresh processes
        a, b = fresh(sc, "g1"), fresh(sc, "g2")
        ks = set(k for k, _, _ in new)
        same = [not x["error"] and ks & set(k for k, _, _ in x["violations"]) for x in (a, b)]
        if not all(same):
            print("HARNESS ERROR: case %d reported %s but it does not reproduce" % (i, sorted(ks))); return 2
        exact = a["fp"] == b["fp"] == fp
        small, mintried = minimise(prop, sc, ks, min(60, limit))
        f = fresh(small, "fin")
        if f["error"] or not ks & set(k for k, _, _ in f["violations"]): small, f = sc, a
        msgs = [v for v in f["violations"] if v[0] in ks]
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        replay_path = os.path.join(VERIF, "out", "%s-seed%d-case%d.json" % (pid, seed, i))
        json.dump(dict(property=pid, seed=seed, case=i, kinds=sorted(ks), messages=[list(v) for v in msgs[:10]], fingerprint=f["fp"], exact_reproduction=exact, scenario=small, original=sc,
                       how="python3-vt check.py %s --replay %s" % (pid, replay_path)), open(replay_path, "w"), indent=1)
        for k, kk, m in msgs[:6]: print("  %s: %s" % (k, m))
        print("  reproduced twice in fresh processes (%s trace), minimised with %d trials" % ("identical" if exact else "equivalent", mintried))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        code = 1
    wall = time.time() - t0; simwall = max(1e-9, time.time() - tb)
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=prop.RULE, samples=samples or [scenario_of(prop, seed, 0, tier)],
               simulated_runs=int(stats.get("runs", 0)), runs_per_hour=int(stats.get("runs", 0) / simwall * 3600), seeds_per_hour=int(evals / simwall * 3600),
               simulated_time_s=round(stats.get("simtime", 0), 3), faults_injected=faults, distinct_interleavings=len(interle), interleaving_measure="hash of the complete event and scheduling trace of a run",
               scheduling_decisions=int(stats.get("decisions", 0)), events=int(stats.get("events", 0)), preemptions=int(stats.get("preempts", 0)), kernel_accesses_checked=int(stats.get("accesses", 0)), messages=int(stats.get("mpi.messages", 0)), collectives=int(stats.get("mpi.collectives", 0)),
               determinism_probe=dets, minimisation_trials=mintried, measures={k[2:]: v for k, v in stats.items() if k.startswith("m.")},
               real_components=getattr(prop, "REAL", "whole application from src/main.cpp down, Kokkos 3.7 OpenMP back end, serial HDF5 library, libstdc++ streams"),
               stubbed_components=getattr(prop, "STUB", "MPI library, libgomp, parallel HDF5 driver, clocks, disk calls, heap contents (all simulated)"))
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.LEVEL, coverage=cov, assumptions=getattr(prop, "ASSUME", []), wall_s=round(wall, 2), violations=1 if code else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed %d: %d cases (%d distinct non-trivial), %d simulated runs, %.1fs (build %.1fs, slowest case %.1fs), faults %s" % (pid, tier, seed, evals, len(nontriv), stats.get("runs", 0), wall, tb - t0, slow, {k: int(v) for k, v in faults.items()}))
    return code
