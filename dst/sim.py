"""Running one simulated job: configuration, launch, result."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as B
from . import h5

PPSIM = None
APPS = {}
MAXR = 12

def prepare(variants, maxranks=MAXR):
    """build and make one image copy per rank (separate globals per rank)"""
    global PPSIM
    PPSIM, so = B.build(variants, verbose=True)
    for v, p in so.items():
        pre = p[:-3]
        with open(os.path.dirname(p) + "/.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            n = maxranks if v.startswith("mpi") or v == "drv" else 1
            for r in range(n):
                q = "%s.%d.so" % (pre, r)
                if not os.path.exists(q):
                    shutil.copyfile(p, q + ".tmp"); os.rename(q + ".tmp", q)
        APPS[v] = pre

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            s = os.statvfs(d)
            if os.access(d, os.W_OK) and s.f_bavail * s.f_frsize > (2 << 30): return d
        except OSError: pass
    return tempfile.gettempdir()

def ini_text(ini):
    out = []
    for s, kv in ini.items():
        out.append("[%s]" % s)
        for k, v in kv.items(): out.append("%s=%s" % (k, repr(v) if isinstance(v, float) else v))
        out.append("")
    return "\n".join(out) + "\n"

class Result:
    def __init__(self, d, res):
        self.dir, self.res = d, res
        self.status, self.how, self.msg = res["status"], res["how"], res["msg"]
        self.violations = [tuple(v) for v in res["violations"]]
        self.hash = res["hash"]
    @property
    def ok(self): return self.status == 0 and self.how == "exit"
    def out(self, r=0): return self._f("rank%d.out" % r)
    def err(self, r=0): return self._f("rank%d.err" % r)
    def alltext(self, n): return "".join(self.out(r) + self.err(r) for r in range(n))
    def _f(self, n):
        try: return open(os.path.join(self.dir, "log", n), errors="replace").read()
        except OSError: return ""
    def files(self): return sorted(f for f in os.listdir(self.dir) if os.path.isfile(os.path.join(self.dir, f)))
    def h5s(self, prefix="out"):
        """{index: content or None}"""
        r = {}
        for f in glob.glob(os.path.join(self.dir, prefix + "_*.h5")):
            t = f[len(os.path.join(self.dir, prefix)) + 1:-3]
            if t.isdigit(): r[int(t)] = h5.read(f)
        return r
    def why(self):
        v = "; ".join("%s: %s" % x for x in self.violations[:3])
        return "status %d (%s%s)%s" % (self.status, self.how, " " + self.msg[:300] if self.msg else "", " [" + v[:600] + "]" if v else "")

# a knob set = everything the simulator decides
CALM = dict(seed=1, threads=1, sched="rr", sched_limit=-1, omp="serial", omp_mean=50, eager=1 << 30, delay=0, reorder=0, late_send=0, late_recv=0, poison_recv=1,
            redorder=0, loose_coll=1, stall_p=0, garbage="none", clock0=1.7e9, tick=1e-6, jump_p=0, jump_max=0, short_p=0, eintr_p=0, race=0, max_events=2000000)

class Ctx:
    """One scenario evaluation: owns a scratch directory, accumulates statistics and fingerprints."""
    def __init__(self, root):
        self.root = root; self.n = 0; self.fp = hashlib.sha256(); self.stats = {}; self.runs = []
        os.makedirs(root, exist_ok=True)
    def add(self, k, v=1): self.stats[k] = self.stats.get(k, 0) + v
    def mkdir(self, name=None):
        self.n += 1
        d = os.path.join(self.root, name or "r%02d" % self.n)
        os.makedirs(d, exist_ok=True)
        return d
    def run(self, variant, ini, ranks=1, knobs=None, faults=(), d=None, args=None, entry=None, ini_name="run.ini", raw_ini=None, cpu=100):
        k = dict(CALM); k.update(knobs or {})
        d = d or self.mkdir()
        log = os.path.join(d, "log"); os.makedirs(log, exist_ok=True)
        if ini is not None or raw_ini is not None:
            with open(os.path.join(d, ini_name), "w" if raw_ini is None or isinstance(raw_ini, str) else "wb") as f: f.write(ini_text(ini) if raw_ini is None else raw_ini)
        lines = ["app " + APPS[variant], "ranks %d" % ranks, "scratch " + d + "/", "logdir " + log, "result " + log + "/res.json", "cpu_limit %d" % cpu]
        if entry: lines.append("entry " + entry)
        for a in ([ini_name] if args is None else args): lines.append("arg " + str(a))
        for kk, v in k.items(): lines.append("%s %s" % (kk, repr(v) if isinstance(v, float) else v))
        for f in faults: lines.append("fault " + f["kind"] + "".join(" %s=%s" % (a, b) for a, b in f.items() if a != "kind"))
        cfg = os.path.join(log, "run.cfg")
        open(cfg, "w").write("\n".join(lines) + "\n")
        try: os.unlink(log + "/res.json")
        except OSError: pass
        try:
            p = subprocess.run([PPSIM, cfg], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=cpu * 4 + 60)
            rc, host = p.returncode, p.stdout.decode(errors="replace")[-500:]
        except subprocess.TimeoutExpired: rc, host = -1, "host timeout"
        try: res = json.load(open(log + "/res.json"))
        except (OSError, ValueError):
            if rc == 2: raise RuntimeError("simulator start failure: " + host)
            res = dict(status=139, how="signal", msg="image died (%s) %s" % (rc, host), hash="dead", events=0, decisions=0, switches=0, simtime=0, regions=0, preempts=0, accesses=0, atomics=0, races=0,
                       rank_exit=[], rank_events=[], counters={}, faults=[], marks=0, violations=[])
        self.fp.update(res["hash"].encode() + b"%d" % res["status"])
        self.add("runs"); self.add("simtime", res["simtime"])
        for c in ("events", "decisions", "switches", "regions", "preempts", "accesses", "atomics"): self.add(c, res[c])
        for c, v in res["counters"].items():
            if c.startswith(("fault.", "mpi.", "hdf5.", "clock.")): self.add(c, v)
        self.runs.append(res["hash"])
        return Result(d, res)
