"""C18: every rank runs with the parameter file the user gave."""
import os, json
import numpy as np
from dst import gen, oracle, h5, sim
ID = "C18"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser", "drv", "drvs"]
CASES = dict(quick=4400, thorough=80000)
RULE = ("seed -> parameter file (sections, keys, comments, spacing, case, continuation lines, duplicates, line ends, line lengths up to 20000, sizes from empty to 200 kB, many at or next to the usual buffer sizes, with or without final newline), number of ranks, schedule plan, chunking of the reads; sometimes the file is missing, a directory, or its open or a read fails. "
        "Every rank's map (real broadcast and parser) and typed look-ups are compared with the serial build's and with an independent model of the format; one case in eight runs the whole application on a decorated but equivalent file and compares its outputs with those of the plain file. With a failure injected every rank must "
        "end with a reported error. Non-trivial: more than one rank and at least one key, or a fault; distinct by size class, features, ranks, fault.")
ASSUME = ["the driver calls the same function as main (broadcast_parameters) and prints the map of every rank", "section and continued key names are cut at 49 characters, as the parser documents by its limits"]
WS = b" \t\v\f\r"

def model(data):
    vals = {}; section = b""; prev = b""
    lines = data.split(b"\n")
    if lines[-1] == b"": lines.pop()
    low = lambda b: bytes(c + 32 if 65 <= c <= 90 else c for c in b)
    def find(s, c):
        ws = False
        for i in range(len(s)):
            ch = s[i:i + 1]
            if ch == c or (ws and ch == b";"): return i
            ws = ch in (b" ", b"\t", b"\v", b"\f", b"\r")
        return len(s)
    for l in lines:
        l = l.split(b"\0")[0].rstrip(WS); s = l.lstrip(WS)
        if prev and s and len(s) < len(l) and s[:1] not in (b";", b"#"): vals[low(section + b"." + prev)] = s
        elif s[:1] in (b";", b"#"): pass
        elif s[:1] == b"[":
            e = find(s[1:], b"]")
            if s[1 + e:2 + e] == b"]": section = s[1:1 + e][:49]; prev = b""
        elif s:
            e = find(s, b"=")
            if s[e:e + 1] == b"=":
                name = s[:e].rstrip(WS); v = s[e + 1:].lstrip(WS); v = v[:find(v, b"\0")].rstrip(WS)
                prev = name[:49]; vals[low(section + b"." + name)] = v
    return vals

def text(r):
    n = r.choice([0, 1, 3, 10, 60, 400]); out = []; eol = r.choice(["\n", "\n", "\n", "\r\n"])
    word = lambda k=8: "".join(r.choice("abcdefghXYZ_019.") for _ in range(r.randint(1, k)))
    vals = lambda: r.choice([lambda: str(r.randint(-10**6, 10**6)), lambda: "%.6g" % r.uniform(-1e3, 1e3), lambda: r.choice(["true", "false", "yes", "no", "on", "off", "1", "0"]), lambda: word(30), lambda: "", lambda: "a=b;c", lambda: "x ; comment", lambda: word(3) + " " + word(5), lambda: "0x1F",
                             lambda: "1e-3", lambda: word(5) * r.randint(20, 4000 if r.random() < 0.2 else 60), lambda: "caf\u00e9"])()
    for _ in range(n):
        k = r.random()
        if k < 0.14: out.append("[" + (word(6) if r.random() < 0.9 else word(5) * 20) + "]" + r.choice(["", "", " ; c", "  "]))
        elif k < 0.22: out.append(r.choice(["; ", "# ", "  ;", "\t# ", " ; ", ""]) + word(40) if r.random() < 0.5 else "")
        elif k < 0.27: out.append("   " + word(12))
        elif k < 0.30: out.append(word(10))
        else: out.append(r.choice(["", "", "", ""]) + (word(7) if r.random() < 0.95 else word(6) * 12) + r.choice(["=", " = ", "\t=", "= "]) + vals() + r.choice(["", "", " ", " ;c"]))
    s = eol.join(out) + (eol if r.random() < 0.8 else "")
    if r.random() < 0.1: s = "; " + "p" * r.choice([4094, 8190, 20000, 150000]) + "\n" + s
    if r.random() < 0.2:                       # sizes around the usual buffer sizes
        k = r.choice([64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072]) + r.choice([-2, -1, -1, 0, 0, 0, 1, 1, 2]) - len(s.encode())
        if k > 8: s = "; " + "p" * (k - 3) + "\n" + s if r.random() < 0.6 else s + ("" if s.endswith("\n") or not s else "\n") + "last=" + "v" * (k - 5 - (0 if s.endswith("\n") or not s else 1))
    return s

def gen_scenario(r, i, tier):
    if r.random() < 0.12:
        fam = r.choice(["hydro", "mhd"]); sc = gen.scenario(r, fam, 2, maxr=6, layout=(1, 1, 1) if r.random() < 0.3 else None, steps=r.randint(0, 2), restart_p=0.0, maxcells=200)
        L = sc["layout"]; n = L[0] * L[1] * L[2]; sc.update(kind="app", par=n > 1 or r.random() < 0.3, deco=r.getrandbits(40), ranks=n)
    else:
        n = r.choice([1, 2, 2, 3, 5, 8]); sc = dict(kind="map", text=text(r), ranks=n, par=True, layout=[n, 1, 1], grid=[n, 1, 1], dim=2, ini={}, fam="-", restart=None)
    k = r.random()
    sc["fault"] = None if k < 0.72 else r.choice(["missing", "dir", "openr", "read", "read", "read"])
    sc["u"] = r.random(); sc["persist"] = r.random() < 0.5; sc["err"] = r.choice([5, 13, 24])
    sc["knobs"] = gen.knobs(r, n, disk=True)
    if r.random() < 0.5: sc["knobs"]["short_p"] = r.choice([0.3, 0.9])
    return sc

def parse(out):
    """printed map: None if not printed"""
    a = out.find("BEGIN\n"); b = out.find("\nERROR ", a); e = out.find("\nEND\n", a)
    if a < 0 or b < 0 or e < 0: return None
    return out[a + 6:b], out[b + 7:e], [l for l in out[e + 5:].split("\n") if l.startswith("Q ")]
esc = lambda b: "".join(chr(c) if 32 <= c <= 126 and c != 92 else "\\x%02x" % c for c in b)

def run(sc, ctx, o):
    (app if sc["kind"] == "app" else pmap)(sc, ctx, o)

def inject(sc, d, probe, name):
    p = os.path.join(d, name); f = sc["fault"]
    if f == "missing": return []
    if f == "dir": os.mkdir(p); return []
    if f == "openr": return [dict(kind="disk_err", op="openr", path=name, nth=-1, arg=sc["err"])]
    tot = max(1, int(probe))
    nth = 1 + int(sc["u"] * tot); return [dict(kind="disk_err", op="read", path=name, nth=-nth if sc["persist"] else nth, arg=5)]

def judge_failure(sc, o, ctx, x, what):
    fired = sc["fault"] in ("missing", "dir") or any(q.startswith("fault.disk_err") for q in x.res["counters"])
    if not fired: return False
    ctx.add("m.fault." + sc["fault"])
    if x.violations or x.how in ("signal", "deadlock", "violation"): o.bad("not-ended-cleanly", "%s: %s" % (what, x.why())); return True
    if x.status == 0: o.bad("accepted", "%s: the job ends with status 0" % what); return True
    if not "".join(x.err(q) for q in range(sc["ranks"])).strip(): o.bad("silent", what + ": nothing is reported")
    return True

def pmap(sc, ctx, o):
    data = sc["text"].encode(); n = sc["ranks"]; want = model(data)
    q = [(k.split(b".")[0].decode("latin1") or "-", b".".join(k.split(b".")[1:]).decode("latin1")) for k in sorted(want)]
    q = [(s, k) for s, k in q if k and not any(c.isspace() for c in s + k) and s.isascii() and k.isascii()][:40] + [("zz", "absent")]
    qt = "".join("%s %s %s %s\n" % (s, k, kind, dflt) for s, k in q for kind, dflt in (("s", "dflt"), ("i", "7"), ("f", "2.5"), ("b", "1")))
    size = len(data)
    o.key = (n, size // 64 if size < 512 else 8 + size.bit_length(), len(want), sc["fault"], "\r" in sc["text"]); o.nontrivial = (n > 1 and bool(want)) or bool(sc["fault"])
    what = "file of %d bytes (%d keys) on %d ranks" % (size, len(want), n)
    d = ctx.mkdir("ser"); open(d + "/q.txt", "w").write(qt)
    s = ctx.run("drvs", None, 1, None, d=d, entry="app_ini", args=["p.ini", "q.txt"], raw_ini=data, ini_name="p.ini")
    if not s.ok: o.bad("run-failed", what + ": serial build: " + s.why()); return
    S = parse(s.out(0))
    if S is None: o.bad("run-failed", what + ": serial build printed nothing"); return
    exp = "".join("%s = %s\\x0a" % (esc(k), esc(v)) for k, v in sorted(want.items()))
    if S[0] != exp: o.bad("serial-map", "%s: the serial build reads %s, the file says %s" % (what, *diff(S[0], exp))); return
    d = ctx.mkdir("mpi"); open(d + "/q.txt", "w").write(qt)
    if sc["fault"]:
        f = inject(sc, d, s.res["counters"].get("disk.read", 2) + 1, "p.ini")
        x = ctx.run("drv", None, n, sc["knobs"], d=d, entry="app_ini", args=["p.ini", "q.txt"], raw_ini=None if sc["fault"] in ("missing", "dir") else data, ini_name="p.ini", faults=f)
        if judge_failure(sc, o, ctx, x, "%s, %s %s" % (what, sc["fault"], f)):
            # the serial build too
            if o.violations: return
            d = ctx.mkdir("serf"); open(d + "/q.txt", "w").write(qt); f = inject(sc, d, s.res["counters"].get("disk.read", 2) + 1, "p.ini")
            y = ctx.run("drvs", None, 1, dict(sc["knobs"]), d=d, entry="app_ini", args=["p.ini", "q.txt"], raw_ini=None if sc["fault"] in ("missing", "dir") else data, ini_name="p.ini", faults=f)
            sc1 = dict(sc, ranks=1); judge_failure(sc1, o, ctx, y, "serial, %s, %s %s" % (what, sc["fault"], f)); return
    else: x = ctx.run("drv", None, n, sc["knobs"], d=d, entry="app_ini", args=["p.ini", "q.txt"], raw_ini=data, ini_name="p.ini")
    if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    for r in range(n):
        P = parse(x.out(r))
        if P is None: o.bad("map", "%s: rank %d printed no parameters" % (what, r)); return
        if P[0] != S[0]: o.bad("map", "%s: rank %d has %s, the serial build %s" % (what, r, *diff(P[0], S[0]))); return
        if P[2] != S[2]: k = [a != b for a, b in zip(P[2], S[2])].index(True); o.bad("lookup", "%s: rank %d look-up %s gives %s instead of %s" % (what, r, qt.split("\n")[k], P[2][k], S[2][k])); return
    ctx.add("m.keys_compared", len(want) * n); ctx.add("m.ranks_judged", n)

def diff(a, b):
    A, B = a.split("\\x0a"), b.split("\\x0a")
    for p, q in zip(A + [""] * len(B), B + [""] * len(A)):
        if p != q: return repr(p[:120]), repr(q[:120])
    return "", ""

def app(sc, ctx, o):
    import random
    L = sc["layout"]; n = sc["ranks"]; v = "mpi" if sc["par"] else "ser"; ini = gen.make_ini(sc, L)
    r = random.Random(sc["deco"]); out = []
    for s, kv in ini.items():
        out.append("[%s]" % s + r.choice(["", " ; x"]))
        for k, w in kv.items():
            if r.random() < 0.2: out.append(r.choice(["; ", "# "]) + "c" * r.choice([10, 300, 5000]))
            if r.random() < 0.1: out.append("%s=%s" % (k, "wrong"))
            if r.random() < 0.2: out.append("")
            kk = k.upper() if r.random() < 0.3 else k
            out.append(kk + r.choice(["=", " = ", "\t= "]) + (repr(w) if isinstance(w, float) else str(w)) + r.choice(["", " ", " ; c"]))
    raw = "\n".join(out) + r.choice(["", "\n", "\n\n"])
    o.key = ("app", sc["fam"], tuple(L), sc["fault"], sc["par"]); o.nontrivial = True
    what = "application, %s2D on %s, file of %d bytes" % (sc["fam"], L, len(raw))
    a = ctx.run(v, ini, n, None, d=ctx.mkdir("plain"))
    if not a.ok: o.bad("run-failed", "plain file: " + a.why()); return
    d = ctx.mkdir("deco"); f = inject(sc, d, a.res["counters"].get("disk.read", 2), "run.ini") if sc["fault"] else []
    skip = sc["fault"] in ("missing", "dir")
    x = ctx.run(v, None, n, sc["knobs"], d=d, raw_ini=None if skip else raw, faults=f)
    if sc["fault"] and judge_failure(sc, o, ctx, x, "%s, %s %s" % (what, sc["fault"], f)):
        if not o.violations and x.h5s(): o.bad("accepted", what + ": outputs were written although the parameter file can not be read")
        return
    if not x.ok: o.bad("run-failed", what + ": " + x.why()); return
    A, X = a.h5s(), x.h5s()
    fin = all(c is not None and all(np.isfinite(c[q]).all() for q in c if q[0] != "@") for c in A.values())
    if fin and oracle.compare_h5(o, "parameters", A, X, 1e-12, what): ctx.add("m.app_runs_compared")

def shrink(sc):
    c = lambda **k: json.loads(json.dumps(dict(sc, **k)))
    if sc["kind"] != "map": return
    if sc["ranks"] > 1: yield c(ranks=sc["ranks"] - 1)
    ls = sc["text"].split("\n"); m = len(ls)
    if m > 1: yield c(text="\n".join(ls[:m // 2])); yield c(text="\n".join(ls[m // 2:]))
    if m < 40:
        for q in range(m): yield c(text="\n".join(ls[:q] + ls[q + 1:]))
