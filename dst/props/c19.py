"""C19: the communicator wrappers deliver what MPI defines."""
import json
import numpy as np
from dst import gen
ID = "C19"; LEVEL = "exploration"; VARIANTS = ["drv"]
CASES = dict(quick=5000, thorough=100000)
RULE = ("seed -> random program of communicator operations (world, self, duplicated, split and 2D/3D cartesian communicators with and without periodicity and rank renumbering; blocking and the four non-blocking send modes, sendrecv, broadcast, gather(v), all-gather(v), all-to-all(v), all-reduce, barrier, cartesian ranks, coordinates, shifts and neighbours; all element types, counts from zero, "
        "tags, roots, gaps and permuted displacements) run by the real wrapper classes on one to nine ranks, under random scheduling, message delay, reordering between channels, eager or rendezvous sends, late copies of send buffers and late delivery to receive buffers, and stalled ranks. Every buffer of every rank, gaps and the slots behind it included, is compared with a direct "
        "model of the MPI operation. Non-trivial: more than one rank and three data operations; distinct by rank count, set of operations and communicators, schedule kind.")
ASSUME = ["programs are correct MPI programs (matching calls, posted receives for ready sends, no overlapping receive buffers)", "floating-point reductions are compared with a relative tolerance (1e-5 single, 1e-12 double) since MPI leaves the order open"]
TN = ["INT", "FLOAT", "DOUBLE", "CHAR"]

def val(t, v): return [v * 1001, v * 0.25, v * 0.25 + 1e9, v][t]
def raw(rank, op, i, small=0):
    v = (rank * 37 + op * 11 + i * 13 + 5) % 120
    return 1 + v % small if small else v
class Buf:
    def __init__(s, t, n): s.t = t; s.n = n; s.x = [val(t, -7)] * (n + 3)
    def put(s, at, vs):
        for k, v in enumerate(vs): s.x[at + k] = v
def data(t, rank, op, frm, cnt, small=0): return [val(t, raw(rank, op, i, small)) for i in range(frm, frm + cnt)]

def gen_scenario(r, i, tier):
    n = r.choice([1, 2, 2, 3, 4, 5, 6, 8, 9])
    ops = []; comms = []
    def mkcomm():
        k = r.choice(["world", "world2", "self", "dup", "split", "split", "cart2", "cart2", "cart3", "cart3"])
        if k == "split": k += " " + " ".join(str(r.randint(0, 2)) for _ in range(n)) + " " + " ".join(str(r.randint(0, 4)) for _ in range(n))
        elif k.startswith("cart"):
            d = int(k[4]); L = r.choice([(a, b, n // (a * b)) for a in range(1, n + 1) for b in range(1, n + 1) if n % (a * b) == 0 and (d == 3 or a * b == n)])
            k += " " + " ".join(map(str, L[:d])) + " %d %d" % (r.randint(0, 1), r.randint(0, 1))
        comms.append(k); ops.append("comm " + k)
    for _ in range(r.randint(1, 3)): mkcomm()
    T = lambda: r.randint(0, 3)
    M = lambda: r.choice([0, 1, 1, 2, 3, 7, 20, 64, 300, 1100])
    for q in range(r.choice([3, 5, 8, 14, 25])):
        if r.random() < 0.08: mkcomm(); continue
        c = r.randrange(len(comms)); rt = lambda: r.randint(0, 8)
        k = r.choice(["barrier", "bcast", "bcast", "allreduce", "allreduce", "gather", "allgather", "gatherv", "allgatherv", "alltoall", "alltoallv", "ring", "ring", "chain", "p2p", "p2p", "p2p", "poll", "guard", "badtype", "polling"])
        if k == "barrier": s = "barrier %d" % c
        elif k == "bcast": s = "bcast %d %d %d %d" % (c, T(), M(), rt())
        elif k == "allreduce": s = "allreduce %d %d %d %d" % (c, r.randint(0, 2), M(), r.randint(0, 3))
        elif k == "gather": s = "gather %d %d %d %d" % (c, T(), M(), rt())
        elif k == "allgather": s = "allgather %d %d %d" % (c, T(), M())
        elif k == "gatherv": s = "gatherv %d %d %d %d %d %d" % (c, T(), r.choice([0, 1, 5, 50]), r.randint(0, 3), r.randint(0, 1), rt())
        elif k == "allgatherv": s = "allgatherv %d %d %d %d %d" % (c, T(), r.choice([0, 1, 5, 50]), r.randint(0, 3), r.randint(0, 1))
        elif k == "alltoall": s = "alltoall %d %d %d" % (c, T(), r.choice([0, 1, 2, 5, 40]))
        elif k == "alltoallv": s = "alltoallv %d %d %d %d" % (c, T(), r.choice([0, 1, 5, 40]), r.randint(0, 3))
        elif k == "ring":
            a = r.randint(0, 1); s = "ring %d %d %d %d %d %d" % (c, T(), r.choice([0, 1, 5, 50, 600]), r.randint(-4, 4), 1000 + q if a else r.randint(0, 9), a)   # wildcard receives have tags of their own
        elif k == "chain": s = "chain %d %d %d %d" % (c, T(), M(), r.randint(0, 9))
        elif k == "p2p":
            nm = r.randint(1, 10); s = "p2p %d %d %d %d" % (c, r.randint(0, 4), nm, r.randint(0, 1)) + "".join(" %d %d %d %d %d" % (rt(), rt(), T(), r.choice([0, 1, 3, 20, 200, 1500]), r.randint(0, 3)) for _ in range(nm))
        elif k == "poll": s = "poll %d " % c + " ".join(str(int(r.random() < 0.2)) for _ in range(9))
        elif k == "guard": s = "guard %d %d " % (c, r.randint(0, 7)) + " ".join(str(int(r.random() < 0.15)) for _ in range(9))
        elif k == "badtype": s = "badtype %d %d %d" % (c, r.randint(0, 1), r.randint(-2, 11))
        else: s = "polling %d" % r.randint(0, 1)
        ops.append(s)
    return dict(ranks=n, layout=[n, 1, 1], grid=[n, 1, 1], dim=2, ini={}, fam="-", restart=None, ops=ops, knobs=gen.knobs(r, n))

PROC_NULL = -2
def cart_rank(co, dims, per):
    x = 0
    for c, d in zip(co, dims):
        if not 0 <= c < d:
            if not per: return PROC_NULL
            c %= d
        x = x * d + c
    return x
def cart_coords(r, dims):
    co = []
    for d in reversed(dims): co.append(r % d); r //= d
    return co[::-1]

def expect(line, op, me, n, polling=True):
    """expected values of one rank (rank me of a communicator of n) : list of (tag, Buf or text)"""
    w = line.split(); k = w[0]; a = list(map(int, w[2:]))
    g = lambda i: a[i] if i < len(a) else 0
    if k == "barrier": return [("R", "")]
    if k == "bcast": t, m, root = a[0], a[1], a[2] % n; b = Buf(t, m); b.put(0, data(t, root, op, 0, m)); return [("R", b)]
    if k == "allreduce":
        t, m, o = a; b = Buf(t, m); small = 3 if o == 3 else 0
        for i in range(m):
            vs = [val(t, raw(r, op, i, small)) for r in range(n)]
            if o == 0: x = sum(vs)
            elif o == 1: x = min(vs)
            elif o == 2: x = max(vs)
            else:
                x = 1
                for v in vs: x = x * v
            if t == 0: x = (int(x) + 2**31) % 2**32 - 2**31
            b.x[i] = x
        return [("R", b)]
    if k in ("gather", "allgather"):
        t, m = a[0], a[1]; root = a[2] % n if k == "gather" else -1
        b = Buf(t, m * n if root < 0 or root == me else 0)
        if b.n:
            for r in range(n): b.put(r * m, data(t, r, op, 0, m))
        return [("R", b)]
    if k in ("gatherv", "allgatherv"):
        t, base, gap, rev = a[:4]; root = a[4] % n if k == "gatherv" else -1
        cnt = [0] * n; dis = [0] * n; at = 0
        for q in range(n):
            r = n - 1 - q if rev else q; cnt[r] = base + (r * 7) % 4; dis[r] = at; at += cnt[r] + gap
        b = Buf(t, at if root < 0 or root == me else 0)
        if root < 0 or root == me:
            for r in range(n): b.put(dis[r], data(t, r, op, 0, cnt[r]))
        return [("R", b)]
    if k == "alltoall":
        t, m = a; b = Buf(t, m * n)
        for r in range(n): b.put(r * m, data(t, r, op, me * m, m))
        return [("R", b)]
    if k == "alltoallv":
        t, base, gap = a; c = lambda s, d: base + (s * 3 + d * 5) % 4
        tot = 0; pos = {}
        for q in range(n - 1, -1, -1): pos[q] = tot; tot += c(q, me) + gap
        b = Buf(t, tot)
        for q in range(n):
            sd = sum(c(q, x) + gap for x in range(me)); b.put(pos[q], data(t, q, op, sd, c(q, me)))
        return [("R", b)]
    if k == "ring":
        t, base, disp = a[:3]; src = (me - disp) % n; b = Buf(t, base + src % 5); b.put(0, data(t, src, op, 0, base + src % 5)); return [("R", b)]
    if k == "chain":
        t, m = a[:2]; b = Buf(t, m)
        if me > 0: b.put(0, data(t, me - 1, op, 0, m))
        return [("R", b)]
    if k == "p2p":
        mode, nm = a[:2]; out = []
        for i in range(nm):
            s, d, t, m, tag = a[3 + 5 * i:8 + 5 * i]
            if d % n == me: b = Buf(t, m); b.put(0, data(t, s % n, op * 7 + i, 0, m)); out.append(("M %d" % i, b))
        return out
    if k == "poll": f = [g(i) for i in range(n)]; return [("R", "reported" if f[me] else str(int(any(f) and polling)))]
    if k == "guard": f = [g(1 + i) for i in range(n)]; return [("R", "reported" if f[me] else "exception" if any(f) else "passed")]
    if k == "badtype": ok = 1 <= a[1] <= 4 if a[0] == 0 else 5 <= a[1] <= 8; return [("R", "accepted" if ok else "exception")]
    raise ValueError(line)

def judge(sc, o, x, what):
    n = sc["ranks"]; T = [x.out(r).split("\n") for r in range(n)]; total = 0
    cur = [0] * n
    def nxt(r):
        v = T[r][cur[r]] if cur[r] < len(T[r]) else "<nothing>"; cur[r] += 1; return v
    for r in range(n):
        while cur[r] < len(T[r]) and not T[r][cur[r]].startswith("SESSION"): cur[r] += 1
        got = nxt(r); want = "SESSION %d %d 1 0 argc 2" % (r, n)
        if got != want: o.bad("session", "%s: rank %d: %s instead of %s" % (what, r, got, want)); return None
    comms = []   # per communicator: per world rank (rank, size)
    polling = True
    for op, line in enumerate(sc["ops"]):
        w = line.split()
        if w[0] == "polling": polling = w[1] == "1"; continue
        if w[0] == "errors_return": continue
        if w[0] == "comm":
            kind = w[1]; a = list(map(int, w[2:])); got = []
            for r in range(n):
                s = nxt(r); p = s.split()
                if len(p) != 7 or p[0] != "COMM" or p[1] != str(len(comms)) or p[2] != kind or p[6] != str(r): o.bad("communicator", "%s: rank %d: %s for '%s'" % (what, r, s, line)); return None
                got.append((int(p[3]), int(p[4])))
            if kind in ("world", "world2", "dup"): want = [(r, n) for r in range(n)]
            elif kind == "self": want = [(0, 1)] * n
            elif kind == "split":
                col, key = a[:n], a[n:]; want = []
                for r in range(n):
                    mem = sorted([q for q in range(n) if col[q] == col[r]], key=lambda q: (key[q], q)); want.append((mem.index(r), len(mem)))
            else:
                d = int(kind[4]); re = a[d + 1]
                want = [(r, n) for r in range(n)] if not re else None
                if re and (sorted(g[0] for g in got) != list(range(n)) or any(g[1] != n for g in got)): o.bad("communicator", "%s: ranks and sizes %s of '%s'" % (what, got, line)); return None
            if want is not None and got != want: o.bad("communicator", "%s: ranks and sizes %s instead of %s for '%s'" % (what, got, want, line)); return None
            comms.append(got)
            if kind.startswith("cart"):
                d = int(kind[4]); dims = a[:d]; per = a[d]
                for r in range(n):
                    me = got[r][0]; co = cart_coords(me, dims); exp = ["CART %d dim %d coords %s" % (op, d, " ".join(map(str, co)))]
                    for q in range(n): exp.append("COORDS %d %d %s rank %d" % (op, q, " ".join(map(str, cart_coords(q, dims))), q))
                    mv = lambda dr, k: cart_rank([c + (k if j == dr else 0) for j, c in enumerate(co)], dims, per)
                    for dr in range(d):
                        for disp in range(-2, 3): exp.append("SHIFT %d %d %d %d %d" % (op, dr, disp, mv(dr, -disp), mv(dr, disp)))
                    if per: exp.append("NEIGH %d " % op + " ".join("%d %d" % (mv(j, -1), mv(j, 1)) for j in range(d)))
                    for e in exp:
                        g = nxt(r)
                        if g != e: o.bad("cartesian", "%s: rank %d (%d in the cartesian communicator): %s instead of %s for '%s'" % (what, r, me, g, e, line)); return None
            continue
        for r in range(n):
            me, cn = comms[int(w[1])][r]
            for tag, b in expect(line, op, me, cn, polling):
                g = nxt(r); pre = "%s %d" % (tag, op)
                if g != pre and not g.startswith(pre + " "): o.bad("operation", "%s: rank %d: '%s' where the result of '%s' is due" % (what, r, g[:100], line[:100])); return None
                rest = g[len(pre):].strip()
                if isinstance(b, str):
                    if rest != b: o.bad("result", "%s: rank %d: '%s' instead of '%s' for '%s'" % (what, r, rest, b, line[:100])); return None
                    continue
                v = np.array([float(q) for q in rest.split()]); e = np.array(b.x, float)
                tol = 0.0
                if w[0] == "allreduce" and b.t in (1, 2) and int(w[4]) in (0, 3): tol = 1e-5 if b.t == 1 else 1e-12
                if v.shape != e.shape or (np.abs(v - e) > tol * np.abs(e)).any():
                    j = int(np.argmax(np.abs(v - e) > tol * np.abs(e))) if v.shape == e.shape else -1
                    o.bad("data", "%s: rank %d (%d of %d): element %d (%s) of '%s' is %r instead of %r" % (what, r, me, cn, j, TN[b.t], line[:100], v[j] if len(v) else None, e[j])); return None
                total += len(e)
    for r in range(n):
        if nxt(r) != "DONE": o.bad("operation", "%s: rank %d does not end its program" % (what, r)); return None
    return total

def clean(ops, n):
    """drop guards that would leave ranks alone in a collective (polling disabled), fix sizes for n ranks"""
    out = []; pol = True
    for l in ops:
        w = l.split()
        if w[0] == "polling": pol = w[1] == "1"
        if w[0] == "guard" and not pol: l = "guard %s %s" % (w[1], w[2])
        out.append(l)
    return out

def run(sc, ctx, o):
    n = sc["ranks"]; sc = dict(sc, ops=clean(sc["ops"], n)); d = ctx.mkdir("a")
    open(d + "/ops.txt", "w").write("\n".join(sc["ops"]) + "\n")
    kinds = sorted({l.split()[0] for l in sc["ops"]} - {"comm"}); cs = sorted({l.split()[1] for l in sc["ops"] if l.startswith("comm ")})
    o.key = (n, tuple(kinds), tuple(cs), sc["knobs"].get("sched"), sc["knobs"].get("eager")); o.nontrivial = n > 1 and sum(not l.startswith(("comm", "poll")) for l in sc["ops"]) >= 3
    x = ctx.run("drv", None, n, sc["knobs"], d=d, entry="app_ops", args=["ops.txt"])
    what = "%d ranks, %d operations" % (n, len(sc["ops"]))
    if not x.ok: o.bad("run-failed", what + ": " + x.why() + " " + x.alltext(n)[-300:]); return
    t = judge(sc, o, x, what)
    if t is not None:
        ctx.add("m.values_compared", t); ctx.add("m.programs")
        for l in sc["ops"]: ctx.add("m.op." + l.split()[0])

def shrink(sc):
    c = lambda **k: json.loads(json.dumps(dict(sc, **k)))
    ops = sc["ops"]; body = [i for i, l in enumerate(ops) if not l.startswith("comm")]
    m = len(body)
    drop = lambda s: c(ops=[("polling 1" if i in s else l) for i, l in enumerate(ops)])
    live = [i for i in body if ops[i] != "polling 1"]
    if len(live) > 3: yield drop(set(live[:len(live) // 2])); yield drop(set(live[len(live) // 2:]))
    for i in live: yield drop({i})
