"""coverage.py N ID...: which source lines of /repo the first N cases of the checks never execute (build in /tmp/ppkcovbuild, not used by any check)"""
import os, sys, subprocess, glob, re, collections, shutil
os.environ["PPK_COV"] = "1"; os.environ["PPK_BUILD"] = "/tmp/ppkcovbuild"; os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import engine, sim
import multiprocessing as mp
N = int(sys.argv[1]); ids = sys.argv[2:]
shutil.rmtree("/tmp/ppkcov", ignore_errors=True); os.makedirs("/tmp/ppkcov")
engine.ROOT = "/dev/shm/explore%d" % os.getpid()
hits = collections.defaultdict(set); maps = {}
def collect():
    for f in glob.glob("/tmp/ppkcov/*.cov"):
        v = os.path.basename(f).rsplit(".", 2)[0]
        for l in open(f): hits[v].add(int(l, 16))
        os.unlink(f)
for pid in ids:
    p = engine.load(pid); engine.PROP = p; sim.prepare(p.VARIANTS)
    for v in p.VARIANTS: maps[os.path.basename(os.path.dirname(sim.APPS[v]))] = sim.APPS[v] + ".so"
    with mp.Pool(8) as pool:
        for i, r in pool.imap_unordered(engine._work, [(i, engine.scenario_of(p, 1, i, "quick"), "a%d" % i) for i in range(min(N, p.CASES["quick"]))], 1):
            if r["error"]: print("ERROR", pid, i, r["error"])
    collect(); print("#", pid, {v: len(h) for v, h in hits.items()}, file=sys.stderr)
line_hit, line_all = set(), set()
for v, so in maps.items():
    pts = set()
    # every instrumented address: the return address of the calls
    prev = False
    pr = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", so], stdout=subprocess.PIPE, text=True)
    for l in pr.stdout:
        m = re.match(r"\s*([0-9a-f]+):\s*(\S+)\s*(.*)", l)
        if not m: continue
        if prev: pts.add(int(m.group(1), 16)); prev = False
        if m.group(2).startswith("call") and "__sanitizer_cov_trace_pc" in m.group(3): prev = True
    a = sorted(pts)
    out = subprocess.run(["addr2line", "-e", so], input="\n".join("%x" % x for x in a), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for x, l in zip(a, out):
        l = l.split(" ")[0]
        if "/repo/src/" not in l: continue
        l = l[l.index("/repo/src/") + 10:]
        line_all.add(l)
        if x in hits[v]: line_hit.add(l)
miss = collections.defaultdict(list); tot = collections.Counter()
for l in line_all:
    f, n = l.rsplit(":", 1); tot[f] += 1
    if l not in line_hit and n.isdigit(): miss[f].append(int(n))
for f in sorted(miss): print("%s %d/%d blocks' lines missed: %s" % (f, len(miss[f]), tot[f], " ".join(map(str, sorted(miss[f])))))
