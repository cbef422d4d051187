"""Randomness: every draw comes from the configured source, is in range and covers the structure uniformly."""
import ctypes as C
import os, subprocess, sys
import model as M, pbc, families, zoo, char3, c05

RULE = ("an evaluation is one comparison of drawn elements under instrumented sources (replay, dependence, range) or one goodness-of-fit decision over a sample "
        "of draws; distinct counts (structure or bound, situation) signatures")
ASSUMPTIONS = ["random elements of GT of type I are pairings of two random points and those of G1 exclude x = 0, so only range and coverage are judged there",
               "a goodness-of-fit decision alarms above 7 standard deviations of the chi-square statistic",
               "a file source is read from its start for every draw; what an exhausted or missing file leaves is not specified beyond memory safety"]
CB = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p, C.c_void_p)
RINGS = ("naive", "fast", "faster", "mont", "fp", "composite", "tiny", "quad", "fi", "polymod", "tower", "gf3m", "gf32m", "gf33m", "gf36m")
GROUPS = ("curve", "curvebig", "curveext", "curvetwist") + tuple(f + "." + g for f in ("A", "1", "D", "G", "E", "F", "I") for g in ("G1", "G2", "GT", "Zr"))
SMALL = ("A.G1", "A.GT", "A.Zr", "a.G1", "a.GT", "D.G1", "D.G2", "D.GT", "D.Zr", "G.G1", "G.GT", "curve", "gf3m5", "gf32m5", "1.G1", "1.GT", "I.G1")


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for nm in families.SHIPPED:
        for g in ("G1", "G2", "GT", "Zr"):
            out.append(("script", dict(kind="=" + nm + "." + g, i=0, n=(2 if nm[0] == "g" and g != "G1" else 4) * (1 if k == 1 else 4))))
    for kind in RINGS:
        for i in range(4 * k): out.append(("script", dict(kind=kind, i=i, n=12)))
    for kind in GROUPS:
        for i in range(2 * k): out.append(("script", dict(kind=kind, i=i, n=4)))
    for kind in SMALL:
        for i in range(3 * k): out.append(("uniform", dict(kind=kind, i=i)))
    for i in range(12 * k): out.append(("uniformfield", dict(i=i)))
    for i in range(8 * k): out.append(("bounds", dict(i=i, n=60)))
    for i in range(6 * k): out.append(("det", dict(i=i, n=40)))
    for i in range(8 * k): out.append(("file", dict(i=i, n=40)))
    for i in range(3 * k): out.append(("signs", dict(i=i, n=50)))
    out.append(("default", {}))
    return out


class Source:
    """records every call and answers from a script: extreme values, then uniform ones"""
    def __init__(self, L):
        self.L, self.calls, self.script, self.pos = L, [], None, 0
        self.cb = CB(self.fun)
        self.bad = 0

    def start(self, rng=None, script=None, extreme=0.0):
        self.calls, self.pos, self.script, self.rng, self.extreme, self.bad = [], 0, script, rng, extreme, 0
        self.L.random_function(self.cb, None)

    def fun(self, z, lim, d):
        n = self.L.zget(lim)
        if n <= 0:
            self.bad += 1
            self.L.zset(z, 0)
            return
        if self.script is not None:
            if self.pos < len(self.script): v = self.script[self.pos][1]
            else: v = 12345678987654321 * (self.pos + 7) % n
            if v >= n: v %= n
        elif self.rng.random() < self.extreme: v = self.rng.choice((0, n - 1, 1 % n, n // 2))
        else: v = self.rng.randrange(n)
        self.pos += 1
        self.calls.append((n, v))
        if len(self.calls) > 5000: self.bad += 1
        self.L.zset(z, v)


def valid(mon, S, v, tag):
    mon.check(S.wf(v), tag + ": random element is not a valid element", repr(v))
    if S.mult: mon.check(S.m.pow(v, S.order) == S.m.one and v != S.m.zero, tag + ": random element outside the group of order r", repr(v))
    elif S.pts and S.order and S.P is not None and (S.P.symmetric or S.name.endswith("G1")): mon.check(S.m.mul(S.order, v) is None, tag + ": random point outside the subgroup", repr(v))


def u_script(mon, L, rng, kind, i, n):
    S = zoo.build(L, rng, kind)
    H, tag = S.H, kind
    src = Source(L)
    e, f = H.new(), H.new()
    first = {}
    for j in range(n):
        ext = rng.choice((0, 0, .3))
        if kind.split(".")[0] in ("1", "I", "=a1", "=i") or S.pts: ext = 0
        src.start(rng, extreme=ext)
        mon.case(tag, "draw", j, getattr(S, "text", "")[:1500])
        S.load(e) if j % 2 and not (S.P is not None and S.P.fam == "i") else None
        src.start(rng, extreme=ext)
        L.random(e)
        calls, bad = list(src.calls), src.bad
        v = H.get(e)
        mon.check(not bad, tag + ": the source was asked for a number below a non-positive bound (or asked endlessly)", repr(calls[:4]))
        mon.check(calls or S.order == 1 or S.m.card == 1, tag + ": no randomness was drawn from the configured source", "")
        valid(mon, S, v, tag)
        # the same answers give the same element, whatever the element held and whatever other sources did meanwhile
        L.random_det(rng.getrandbits(30))
        for t in range(rng.randrange(4)): L.mpz_random(L._pool[0], L.Z(rng.getrandbits(70) + 1))
        k = rng.randrange(3)
        if k == 0: L.set0(f)
        elif k == 1: L.random(f)
        else: L.neg(f, e)
        src.start(script=calls)
        L.random(f)
        mon.eq(src.calls, calls, tag + ": the same answers led to different questions", k)
        mon.eq(H.get(f), v, tag + ": the element is not decided by the configured source alone", k)
        # a ring with d coordinates of c values is drawn from numbers whose bounds multiply to its size, answers mapped one to one
        size = 1
        for b, _ in calls: size *= b
        card = S.m.card if not S.group else None
        if card and size == card:
            key = tuple(x for _, x in calls)
            other = {kk: vv for kk, vv in first.items()}
            for kk, vv in other.items():
                mon.check((kk == key) == (vv == v), tag + ": different answers of the source give the same element", "%r %r" % (kk, key))
            first[key] = v
            mon.stat("one-to-one draws")
        # perturbing one answer changes a field element
        if card and size == card and calls:
            t = rng.randrange(len(calls))
            if calls[t][0] > 1:
                c2 = list(calls)
                c2[t] = (calls[t][0], (calls[t][1] + 1 + rng.randrange(calls[t][0] - 1)) % calls[t][0])
                src.start(script=c2)
                L.random(f)
                mon.check(H.get(f) != v, tag + ": an answer of the source has no influence", repr((calls[t], c2[t])), t)
        # a source that answers 0 as often as the field has coordinates, and once more: 0 is not in the group
        if S.mult and j < 2 and not (S.P is not None and S.P.fam == "i"):
            zs = len(S.m.flat(v))
            for z in (zs, 2 * zs):
                mon.case(tag, "draw after zeros", z, getattr(S, "text", "")[:1500])
                src.start(script=[(0, 0)] * z + [(0, rng.randrange(1, 1 << 60)) for _ in range(3 * zs)])
                L.random(f)
                mon.check(not src.bad, tag + ": the source was asked for a number below a non-positive bound (or asked endlessly)", repr(src.calls[:4]))
                valid(mon, S, H.get(f), tag)
                mon.stat("draws of a group element after zero answers")
        if S.group and j == 0 and S.order and S.order > 1 << 60 or S.group and j == 0 and kind in ("curvebig", "curvetwist"):
            src.start(rng)
            L.random(f)
            mon.check(H.get(f) != v, tag + ": two draws gave the same element", "")
        mon.stat("replayed draws")
    L.random_monitored(rng.getrandbits(31), 0)
    S.close()


def fit(mon, tag, counts, cells, total, *sig):
    """chi-square against the uniform distribution on cells values"""
    if cells < 2: return
    exp = total / cells
    x = sum((c - exp) ** 2 / exp for c in counts.values()) + (cells - len(counts)) * exp
    df = cells - 1
    # Wilson-Hilferty
    z = ((x / df) ** (1 / 3) - (1 - 2 / (9 * df))) / (2 / (9 * df)) ** .5
    mon.check(z < 7, tag + ": draws are not uniform", lambda: "cells %d draws %d z %.1f %s" % (cells, total, z, sorted(counts.items(), key=lambda t: -t[1])[:4]), *sig)
    mon.stat("draws tested for uniformity", total)


def use_source(L, rng, j):
    if j == 0: L.random_monitored(rng.getrandbits(31), 0)
    elif j == 1: L.random_det(rng.getrandbits(31))
    else: L.random_file(URANDOM)


URANDOM = b"/dev/urandom"


def full(mon, L, S):
    """tiny groups: the random generator of the object may by chance generate less than the group"""
    if not S.pts or S.P is None: return True
    src = Source(L)
    e = S.H.new()
    src.start(script=[(0, 1)] * 50)
    L.random(e)
    L.random_monitored(S.rng.getrandbits(31), 0)
    g = S.H.get(e)
    t = g
    for _ in range(S.order - 1):
        if t is None: break
        t = S.m.add(t, g)
    else: return True
    S.degenerate = mon.stats["tiny groups set aside"] = mon.stats.get("tiny groups set aside", 0) + 1
    mon.check(S.degenerate < 40, S.name + ": draws never generate the group", "")
    return S.degenerate >= 40


def u_uniform(mon, L, rng, kind, i):
    tag = kind
    closer = None
    if kind[:2] == "gf" and kind[-1] == "5":
        fs = char3.tower(L, 5, char3.SMALL[5])
        H = fs[0 if kind == "gf3m5" else 1]
        cells, get = H.m.card, H.get
        closer = lambda: [x.close() for x in reversed(fs)]
        new = H.new
    else:
        while True:
            S = zoo.build(L, rng, kind)
            cells = S.order if S.group else S.m.card
            if cells and cells < (400 if S.mult else 3000) and full(mon, L, S): break
            if kind[0] in "1I": break
            S.close()
        H, get, new, closer = S.H, S.H.get, S.H.new, S.close
        if kind[0] in "1I": cells = None
    e = new()
    if cells is None:                                   # large groups: only spread
        use_source(L, rng, i % 3)
        seen = set()
        for _ in range(40):
            L.random(e)
            seen.add(repr(get(e)))
        mon.check(len(seen) >= 10, tag + ": random elements hardly vary", len(seen))
        L.random_monitored(rng.getrandbits(31), 0)
        closer()
        return
    n = min(max(12 * cells, 400), 120000)
    use_source(L, rng, i % 3)
    if i % 3 == 2: n = min(n, 6000)
    mon.case(tag, "uniform", cells, n, getattr(S, "text", "")[:600] if kind[:2] != "gf" else "")
    cnt = {}
    reps = {}
    for _ in range(n):
        L.random(e)
        v = get(e)
        cnt[v] = cnt.get(v, 0) + 1
    if kind == "curve":                                # multiples of the chosen generator: the group it generates
        v = next(iter(cnt))
        cells = len(cnt)
        mon.check(S.order % cells == 0 or n < 30 * cells, tag + ": values drawn do not form a group", "%d of %d" % (cells, S.order))
    if n >= 12 * cells: mon.check(len(cnt) <= cells, tag + ": more values than the group has", len(cnt))
    fit(mon, tag, cnt, cells, n, i % 3)
    L.random_monitored(rng.getrandbits(31), 0)
    closer()


def u_uniformfield(mon, L, rng, i):
    p = rng.choice((2, 3, 5, 7, 13, 31, 61, 127, 131, 251, 257, 509, 1021))
    c = i % 4
    base = None
    if c == 0: F = pbc.fp(L, p, rng.choice(("naive", "fp")))
    elif c == 1:
        base = pbc.fp(L, rng.choice((3, 5, 7, 11, 19, 31, 43)))
        F = pbc.quadratic(L, base)
    elif c == 2:
        base = pbc.fp(L, rng.choice((3, 5, 7, 11)))
        F = pbc.polymod(L, base, c05.irred(rng, base.m, rng.choice((2, 3))))
    else:
        F = pbc.fp(L, (1 << rng.choice((66, 80, 127))) + rng.getrandbits(60) * 2 + 1, rng.choice(("fast", "faster", "mont", "naive")))
    use_source(L, rng, rng.randrange(3) if i % 5 == 0 else rng.randrange(2))
    e = F.new()
    card = F.m.card
    cells = card if card < 3000 else 97
    n = max(12 * cells, 2000)
    mon.case("uniformfield", F.name, F.m.char, n)
    cnt = {}
    for _ in range(n):
        L.random(e)
        v = F.get(e)
        if card >= 3000: v = v * 97 // card
        cnt[v] = cnt.get(v, 0) + 1
    fit(mon, F.name, cnt, cells, n, c)
    L.random_monitored(1, 0)
    F.close()
    if base: base.close()


def u_bounds(mon, L, rng, i, n):
    """pbc_mpz_random and pbc_mpz_randomb: range, bound handed on, uniformity"""
    src = Source(L)
    z = L.z_new()
    for j in range(n):
        bits = rng.choice((1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 512, 1000))
        lim = rng.choice((1, 2, 1 << bits, (1 << bits) - 1 or 1, (1 << bits) + 1, rng.getrandbits(bits) + 1))
        src.start(rng, extreme=.4)
        mon.case("bounds", lim, bits)
        L.zset(z, rng.getrandbits(80))
        l = L.Z(lim)
        L.mpz_random(z, l)
        mon.check(L.zget(l) == lim, "mpz_random changed its bound")
        mon.eq([x for x, _ in src.calls], [lim], "mpz_random: bound handed to the source", bits)
        mon.eq(L.zget(z), src.calls[-1][1] if src.calls else None, "mpz_random: answer of the source", bits)
        src.start(rng, extreme=.4)
        L.mpz_randomb(z, bits)
        mon.eq([x for x, _ in src.calls], [1 << bits], "mpz_randomb: bound handed to the source", bits)
        mon.eq(L.zget(z), src.calls[-1][1] if src.calls else None, "mpz_randomb: answer of the source", bits)
        for s in range(2):
            use_source(L, rng, s + 1)
            L.mpz_random(z, L.Z(lim))
            mon.check(0 <= L.zget(z) < lim, "random number not below its bound", "%d %d" % (L.zget(z), lim), bits, s)
            L.mpz_randomb(z, bits)
            mon.check(0 <= L.zget(z) < 1 << bits, "random bits exceed their length", "", bits, s)
    # goodness of fit, both sources
    for s in range(2):
        use_source(L, rng, s + 1)
        lim = rng.choice((2, 3, 5, 6, 7, 8, 100, 127, 128, 129, 255, 256, 257, 300))
        t = 3000 if s else 6000
        mon.case("bounds fit", lim, s)
        cnt = {}
        l = L.z_new()
        L.zset(l, lim)
        for _ in range(t):
            L.mpz_random(z, l)
            v = L.zget(z)
            cnt[v] = cnt.get(v, 0) + 1
        L.z_free(l)
        fit(mon, "mpz_random", cnt, lim, t, s)
        b = rng.choice((1, 2, 3, 4, 5, 6, 7, 8))
        cnt = {}
        for _ in range(t):
            L.mpz_randomb(z, b)
            v = L.zget(z)
            cnt[v] = cnt.get(v, 0) + 1
        fit(mon, "mpz_randomb", cnt, 1 << b, t, s)
        # every bit of a long random number is balanced
        b = rng.choice((64, 65, 160, 509))
        bal = [0] * b
        tt = 400
        for _ in range(tt):
            L.mpz_randomb(z, b)
            v = L.zget(z)
            for q in range(b): bal[q] += v >> q & 1
        worst = max(abs(x - tt / 2) for x in bal) / (tt / 4) ** .5
        mon.check(worst < 7, "mpz_randomb: a bit is biased", "z %.1f" % worst, s, b)
    L.random_monitored(1, 0)
    L.z_free(z)


def seq(L, H, e, n, z):
    out = []
    for j in range(n):
        L.random(e)
        out.append(H.get(e))
        L.mpz_randomb(z, 67)
        out.append(L.zget(z))
    return out


def u_det(mon, L, rng, i, n):
    """the deterministic generator: same seed, same sequence; switching away and back restarts it only by seeding"""
    z = L.z_new()
    kinds = ("fp", "quad", "polymod", "curvebig", "gf3m", "D.G1", "F.G2", "E.GT", "A.Zr")
    S = zoo.build(L, rng, kinds[i % len(kinds)])
    H = S.H
    e = H.new()
    for j in range(3):
        seed = rng.choice((0, 1, 2, 42, 2**31 - 1, 2**32 - 1, rng.getrandbits(32)))
        m = rng.randrange(2, 8)
        mon.case("det", S.name, seed)
        L.random_det(seed)
        a = seq(L, H, e, m, z)
        use_source(L, rng, 2)
        for _ in range(rng.randrange(5)): L.random(e)
        L.random_det(seed)
        b = seq(L, H, e, m, z)
        mon.eq(b, a, "the deterministic source does not repeat for the same seed", S.name, seed)
        L.random_det(seed ^ 1 << rng.randrange(32))
        c = seq(L, H, e, m, z)
        mon.check(a != c, "different seeds give the same sequence", seed, S.name)
        mon.check(len(set(a[1::2])) == m, "the deterministic source repeats itself", "", S.name)
        # a user function in between does not disturb the generator's own state
        L.random_det(seed)
        d = seq(L, H, e, m // 2, z)
        src = Source(L)
        src.start(rng)
        L.random(e)
        L.mpz_random(z, L.Z(100))
        mon.check(src.calls, "the configured function was not asked", "")
        mon.eq(d, a[:2 * (m // 2)], "the deterministic source does not repeat for the same seed (prefix)", S.name)
    # two structures built under one seed are drawn identically
    p = M.rand_prime(rng, rng.choice((30, 64, 130)))
    r = []
    for _ in range(2):
        L.random_det(7 + i)
        B = pbc.fp(L, p)
        Q = pbc.quadratic(L, B)
        q = Q.new()
        L.random(q)
        r.append((Q.nqr, Q.get(q)))
        Q.close()
        B.close()
    mon.eq(r[0], r[1], "structures built under the same seed differ", p.bit_length())
    L.random_monitored(1, 0)
    L.z_free(z)
    S.close()


def ref_file(data, lim):
    n = lim.bit_length()
    k = (n + 7) // 8
    pos = 0
    while pos + k <= len(data):
        v = int.from_bytes(data[pos:pos + k], "big")
        v &= (1 << n) - 1
        if v < lim: return v
        pos += k
    return None


def u_file(mon, L, rng, i, n):
    """a file source is consumed as bytes: big-endian candidates of the bound's bit length, the first one below it"""
    d = mon.ctx["scratch"]
    path = os.path.join(d, "rnd%d-%d" % (os.getpid(), i))
    pb = C.create_string_buffer(path.encode())
    z = L.z_new()
    for j in range(n):
        bits = rng.choice((1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 65, 160, 161))
        lim = rng.choice((1 << bits, (1 << bits) - 1 or 1, (1 << bits - 1) + 1, rng.getrandbits(bits) + 1))
        ln = rng.choice((0, 1, 2, (lim.bit_length() + 7) // 8, 40, 400, 400, 400))
        data = bytes(rng.getrandbits(8) for _ in range(ln))
        c = rng.randrange(6)
        if c == 0: data = b"\xff" * ln
        if c == 1: data = b"\0" * ln
        with open(path, "wb") as f: f.write(data)
        mon.case("file", lim, data.hex())
        L.random_file(pb)
        old = rng.getrandbits(40)
        for rep in range(2):
            L.zset(z, old)
            L.mpz_random(z, L.Z(lim))
            v, exp = L.zget(z), ref_file(data, lim)
            if exp is None:
                mon.check(v in (old, 0) or 0 <= v < lim, "exhausted file left an unrelated value", "%d" % v, bits)
                mon.stat("exhausted files")
            else: mon.eq(v, exp, "file source", bits, c, rep)
    # fields drawn from a file: same bytes, same element
    for j in range(6):
        B = pbc.fp(L, M.rand_prime(rng, rng.choice((8, 64, 65, 160))), "fp")
        L.random_monitored(j, 0)
        e = B.new()
        data = bytes(rng.getrandbits(8) for _ in range(3000))
        with open(path, "wb") as f: f.write(data)
        L.random_file(pb)
        L.random(e)
        v = B.get(e)
        mon.case("file element", B.m.p, data.hex()[:200])
        mon.eq(v, ref_file(data, B.m.p), "field element from a file", B.m.p.bit_length())
        B.close()
    os.unlink(path)
    L.random_file(pb)                                   # missing: a warning, no crash
    L.zset(z, 5)
    L.mpz_random(z, L.Z(1 << 70))
    mon.check(L.zget(z) in (0, 5), "missing file produced a number", L.zget(z))
    L.random_monitored(1, 0)
    L.z_free(z)


def u_signs(mon, L, rng, i, n):
    """points found by solving for y: both roots are used"""
    fam = ("1", "I", "1")[i % 3]
    P = families.Pairing(L, families.small_text(rng, fam), fam)
    e = P.G1.new()
    src = Source(L)
    src.start(rng)
    L.random(e)
    calls = src.calls
    # the coordinates stay fixed by replaying the answers; only the last, one-bit answer varies
    mon.case("signs", P.text[:800] if hasattr(P, "text") else "")
    got = {}
    for b in (0, 1):
        c2 = [c for c in calls]
        idx = [t for t, c in enumerate(calls) if c[0] == 2]
        for t in idx: c2[t] = (2, b)
        src.start(script=c2)
        L.random(e)
        got[b] = P.G1.get(e)
    L.random_monitored(rng.getrandbits(31), 0)
    # distribution of the sign of y relative to x: among repeated draws both signs occur
    pos = neg = 0
    g = P.G1.get(e)
    cnt = [0, 0]
    for _ in range(n):
        L.random(e)
        v = P.G1.get(e)
        if v is None: continue
        if fam == "1":
            # before the cofactor the point has y = sqrt(rhs) of the library's choosing; recover by the pairing of signs: compare with its negative
            p = P.G1.m.F.p
            cnt[v[1] > p - v[1]] += 1
        else: cnt[0] += 1
    if fam == "1": mon.check(min(cnt) >= 3, "random points lean to one sign", repr(cnt))
    mon.check(got[0] != got[1] and (got[0] is None or P.G1.m.neg(got[0]) == got[1]), "the other square root is never used", repr(calls[-2:]), fam)
    P.close()


def u_default(mon, L, rng):
    """nothing configured: draws differ between processes and are in range"""
    code = ("import ctypes,sys\nd=ctypes.CDLL(%r)\nf=d.x_z_new;f.restype=ctypes.c_void_p\n"
            "z=f();l=f()\nd.x_z_set(ctypes.c_void_p(l),bytes(16)+b'\\x01',17,0)\n"
            "o=[]\nfor i in range(4):\n d.x_mpz_random(ctypes.c_void_p(z),ctypes.c_void_p(l));b=ctypes.create_string_buffer(64);k=d.x_z_get(ctypes.c_void_p(z),b);o.append(b.raw[:k].hex())\n"
            "print(*o)\n") % L.dll._name
    r = []
    for _ in range(3):
        p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        mon.case("default source", code)
        mon.check(p.returncode == 0, "drawing from the default source failed", p.stderr.decode()[-800:])
        r += p.stdout.decode().split()
    mon.check(len(set(r)) == 12 and all(len(x) <= 32 for x in r), "the default source repeats or exceeds its bound", repr(r))
