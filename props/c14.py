"""Comparison, zero, one and sign tests."""
import model as M, pbc, families, zoo, mz

RULE = ("an evaluation is one answer of cmp, is0, is1 or sgn compared with the answer the tracked reference values give; operands reach their values through "
        "different computation histories; distinct counts (structure, relation of the operands, history, value class) signatures")
ASSUMPTIONS = ["sgn is offered by prime fields, quadratic and quotient extensions, polynomials, integers and curves; only its algebraic contract is required "
               "(zero exactly at values equal to their negative, opposite at x and -x, a function of the value)",
               "G2 of types D, F and G is a quotient group: elements are coset representatives, and equality means equality of cosets"]
NOSGN = ("gf3m", "gf32m", "gf33m", "gf36m", "I.G1", "I.G2", "I.GT", "=i.G1", "=i.G2", "=i.GT")
KNOWN = "G2 as a quotient group: identity test on a representative other than O"


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for kind in zoo.SHIPPED:
        if kind.endswith("G2") and kind[1] in "aei": continue
        out.append(("struct", dict(kind=kind, i=0, n=(2 if kind[1] in "fg" else 4 if kind.endswith("G2") else 10) * k)))
    for kind in zoo.RINGS + zoo.CURVES:
        for i in range(6 * k): out.append(("struct", dict(kind=kind, i=i, n=50)))
    for kind in zoo.PAIRED:
        for i in range(2 * k): out.append(("struct", dict(kind=kind, i=i, n=24)))
    for i in range(4 * k): out.append(("all", dict(i=i)))
    for i in range(4 * k): out.append(("twins", dict(i=i, n=40)))
    for i in range(4 * k): out.append(("lists", dict(i=i, n=150)))
    for i in range(2 * k): out.append(("singular", dict(i=i)))
    for i in range(4 * k): out.append(("decoded", dict(i=i, n=60)))
    return out


def quotient(S):
    return S.P is not None and S.pts and not S.P.symmetric and S.name.endswith("G2")


def coset0(S, v):
    """memoised: the reference multiplication by the cofactor is slow"""
    if not hasattr(S, "memo"): S.memo = {}
    if v not in S.memo: S.memo[v] = S.P.coset0(v)
    return S.memo[v]


def one(S): return S.zero if S.group else S.m.one


def same(S, u, v):
    if u == v: return True
    return quotient(S) and coset0(S, S.sub(u, v))


def tests(mon, L, S, e, v, how):
    tag, cl = S.name, S.cl(v)
    if quotient(S) and v is not None and coset0(S, v):
        mon.stat("identity cosets not represented by O")
        mon.check(L.is0(e) and L.is1(e), KNOWN, lambda: "cmp with the identity says equal; is0 and is1 say no", S.name)
    else:
        mon.eq(bool(L.is0(e)), v == S.zero, tag + ": is0", how, cl)
        mon.eq(bool(L.is1(e)), v == one(S), tag + ": is1", how, cl)


def sign(mon, L, S, e, v, how, t):
    tag = S.name
    n = S.neg(v)
    s = L.sgn(e)
    mon.eq(L.sign(e), s, tag + ": element_sign and element_sgn differ", how)
    L.neg(t, e)
    r = L.sgn(t)
    if v == n: mon.eq(s, 0, tag + ": sign of a value equal to its negative", how, S.cl(v))
    else:
        mon.check((s > 0 and r < 0) or (s < 0 and r > 0), tag + ": signs of x and -x", lambda: "%r has %d, its negative %d" % (v, s, r), how, s > 0)
    return (s > 0) - (s < 0)


def compare(mon, L, S, a, va, b, vb, how):
    eq = same(S, va, vb)
    for x, y in ((a, b), (b, a)):
        mon.eq(not L.cmp(x, y), eq, S.name + ": cmp", how, eq, S.cl(va), S.cl(vb))
    mon.stat("equal pairs" if eq else "unequal pairs")


def judge(mon, L, rng, S, a, va, b, c, k):
    """several partners for the value va held by a"""
    H, tag = S.H, S.name
    sgn = S.name not in NOSGN and not S.mult and tag != "composite" or tag == "composite"
    ctx = getattr(S, "text", "")[:400]
    mon.case(tag, "value", va, ctx)
    tests(mon, L, S, a, va, "load")
    compare(mon, L, S, a, va, a, va, "self")
    s0 = sign(mon, L, S, a, va, "load", c) if sgn else 0
    # the same value by another history
    S.load(b)
    S.route(b, a, va, k)
    mon.case(tag, "value", va, "history", k, ctx)
    if H.get(b) == va:
        compare(mon, L, S, a, va, b, va, ("route", k))
        tests(mon, L, S, b, va, ("route", k))
        if sgn: mon.eq(sign(mon, L, S, b, va, ("route", k), c), s0, tag + ": sign depends on the history", k)
    # related values
    rel = rng.randrange(7)
    S.load(b)
    if rel == 0: L.neg(b, a); vb = S.neg(va) if not (S.mult and va == S.m.zero) else None
    elif rel == 1: L.sub(b, a, a); vb = S.zero
    elif rel == 2: L.set1(b); vb = one(S)
    elif rel == 3: L.set0(b); vb = S.zero
    elif rel == 4: vb = S.load(b)
    elif rel == 5:
        L.double(b, a) if not S.mult else L.square(b, a)
        vb = S.add(va, va)
    else:
        if not S.group:
            L.set1(c)
            L.add(b, a, c)
            vb = S.m.add(va, S.m.one)
        else:
            w = S.load(c)
            L.add(b, a, c)
            vb = S.add(va, w)
    mon.case(tag, "relation", rel, "of", va, "partner", vb, ctx)
    tests(mon, L, S, b, vb, ("rel", rel))
    compare(mon, L, S, a, va, b, vb, ("rel", rel))
    if sgn: sign(mon, L, S, b, vb, ("rel", rel), c)
    # differing in one coordinate only
    if S.settable and not S.group and S.m.depth and not isinstance(S.m, M.PolyRing) and S.name[:2] != "gf":
        fl = list(S.m.flat(va))
        i = rng.randrange(len(fl))
        fl[i] = (fl[i] + rng.choice((1, S.m.char - 1, rng.randrange(S.m.char)))) % S.m.char
        vb = S.m.unflat(iter(fl))
        H.set(b, vb)
        mon.case(tag, "one coordinate", va, vb)
        compare(mon, L, S, a, va, b, vb, "coordinate")
        tests(mon, L, S, b, vb, "coordinate")


def u_twins(mon, L, rng, i, n):
    """pairs of values whose stored forms (plain, or scaled by a power of two as wide as the modulus) differ in one machine word or one bit only"""
    for rep in ("naive", "fast", "faster", "mont", "fp"):
        p = M.rand_prime(rng, rng.choice((65, 80, 127, 128, 129, 160, 192, 250, 256, 320, 512)))
        w = (p.bit_length() + 63) // 64
        f = pbc.fp(L, p, rep)
        inv = pow(1 << 64 * w, -1, p)
        a, b = f.new(), f.new()
        for _ in range(n):
            scale = rng.choice((1, inv))
            s = rng.choice((rng.randrange(p), rng.randrange(p), (1 << 64 * w) % p, 1, p - 1, p >> 1))
            j = rng.randrange(w)
            how = rng.randrange(3)
            if how == 0: r = s ^ (rng.getrandbits(64) << 64 * j)
            elif how == 1: r = s ^ (1 << rng.randrange(64 * j, 64 * j + 64))
            else: r = (s >> 64 * j & (1 << 64) - 1) << 64 * j            # only that word kept
            if not 0 <= r < p or r == s: continue
            u, v = s * scale % p, r * scale % p
            mon.case(rep, p, u, v)
            f.set(a, u)
            f.set(b, v)
            for x, y in ((a, b), (b, a)): mon.eq(not L.cmp(x, y), u == v, "twins: cmp", rep, w, j, how, scale == 1)
            for x, z in ((a, u), (b, v)):
                mon.eq(bool(L.is0(x)), z == 0, "twins: is0", rep, w, j)
                mon.eq(bool(L.is1(x)), z == 1, "twins: is1", rep, w, j)
            L.sub(a, a, b)
            mon.eq(bool(L.is0(a)), u == v, "twins: difference is zero", rep, w, j)
        f.close()


def u_struct(mon, L, rng, kind, i, n):
    S = zoo.build(L, rng, kind)
    H = S.H
    a, b, c = H.new(), H.new(), H.new()
    for j in range(n):
        va = S.load(a)
        judge(mon, L, rng, S, a, va, b, c, j % S.ROUTES)
    for v in ("zero", "one"):                      # special values over stale content
        for k in range(0, S.ROUTES, 3 if kind[0] == "=" else 1):
            S.load(a)
            if v == "zero": L.set0(a); va = S.zero
            else: L.set1(a); va = one(S)
            judge(mon, L, rng, S, a, va, b, c, k)
    if S.order and quotient(S):                    # multiples of the order
        for j in range(3):
            va = S.load(a)
            z = S.order * rng.randrange(1, 5)
            L.mul_mpz(b, a, L.Z(z))
            vb = S.m.mul(z, va)
            mon.case(S.name, "order times", va, S.text[:400])
            mon.eq(H.get(b), vb, S.name + ": multiple", "order")
            L.set0(c)
            compare(mon, L, S, b, vb, c, None, "order")
            tests(mon, L, S, b, vb, "order")
            L.add(c, a, b)
            compare(mon, L, S, a, va, c, S.m.add(va, vb), "other representative")
    S.close()


def u_all(mon, L, rng, i):
    """every pair of elements of tiny structures"""
    kind = ("tiny", "quad", "polymod", "curve")[i % 4]
    while True:
        S = zoo.build(L, rng, kind) if kind in ("tiny", "curve") else None
        if S is None:
            B = pbc.fp(L, rng.choice((3, 5)))
            H = pbc.quadratic(L, B) if kind == "quad" else pbc.polymod(L, B, __import__("c05").irred(rng, B.m, 2))
            S = zoo.Struct(L, rng, kind, H, extra=[B])
        m = S.m
        if kind == "curve":
            F = m.F
            if F.p > 40:
                S.close()
                continue
            vals = [None] + [(x, y) for x in range(F.p) for y in range(F.p) if m.on((x, y))]
        elif kind == "tiny":
            if m.p > 40:
                S.close()
                continue
            vals = list(range(m.p))
        else: vals = [(x, y) for x in range(m.base.p) for y in range(m.base.p)]
        break
    es = []
    for v in vals:
        e = S.H.new()
        S.load(e)
        if v is None: L.set0(e)
        else: S.H.set(e, v)
        es.append(e)
    for e, v in zip(es, vals):
        mon.case("all pairs", kind, v)
        tests(mon, L, S, e, v, "all")
        for f, w in zip(es, vals): mon.eq(not L.cmp(e, f), v == w, "all pairs " + kind + ": cmp", S.cl(v), S.cl(w))
    S.close()


def u_lists(mon, L, rng, i, n):
    """nested integer lists: equal exactly when they denote the same polynomial"""
    fm = L.field_multiz()
    def vary(v):
        if isinstance(v, int): return rng.choice((v, v, v + 1, [v], [v, 0], [[v]], [v, [0]]))
        c = rng.randrange(4)
        if c == 0: return v + [0]
        if c == 1: return v + [[0, 0]]
        w = list(v)
        k = rng.randrange(len(w))
        w[k] = vary(w[k])
        return w
    for j in range(n):
        u = mz.sample(rng)
        v = vary(u) if rng.random() < .6 else mz.sample(rng, 2, 2)
        a, b = mz.build(L, fm, u), mz.build(L, fm, v)
        mon.case("lists", u, v)
        eq = full(u) == full(v)
        for x, y in ((a, b), (b, a)): mon.eq(not L.cmp(x, y), eq, "lists: cmp", eq)
        mon.eq(bool(L.is0(a)), full(u) == {}, "lists: is0", full(u) == {})
        mon.eq(bool(L.is1(a)), full(u) == {(): 1}, "lists: is1", full(u) == {(): 1})
        L.el_free(a)
        L.el_free(b)
    L.field_free(fm)


def full(v, pre=()):
    """{exponent vector without trailing zeroes: coefficient}"""
    if isinstance(v, int):
        k = list(pre)
        while k and k[-1] == 0: k.pop()
        return {tuple(k): v} if v else {}
    out = {}
    for i, x in enumerate(v): out.update(full(x, pre + (i,)))
    return out


def u_singular(mon, L, rng, i):
    p = M.rand_prime(rng, rng.choice((5, 8, 66, 130)), 4, 3) if i % 2 else M.rand_prime(rng, rng.choice((5, 8, 66, 130)))
    P = L.pairing_singular(L.Z(p))
    g = L.pairing_G1(P)
    es = [L.el_new(g) for _ in range(4)]
    for j in range(40):
        a, b, c, d = es
        L.random(a)
        L.random(b)
        mon.case("singular", p, j)
        L.set(c, a)
        mon.check(not L.cmp(a, c) and not L.cmp(a, a), "singular: copy compares unequal")
        L.add(c, a, b)
        L.neg(d, b)
        L.add(c, c, d)
        mon.check(not L.cmp(a, c), "singular: (a + b) - b compares unequal to a")
        L.neg(d, a)
        L.add(c, a, d)
        mon.check(L.is0(c) and L.is1(c), "singular: a - a is not zero")
        L.set0(d)
        mon.check(L.is0(d) and not L.cmp(c, d) and not L.cmp(d, c), "singular: zeros differ")
        if not L.is0(a): mon.check(L.cmp(a, d) and L.cmp(d, a), "singular: nonzero equals zero")
    for e in es: L.el_free(e)
    L.pairing_free(P)


def u_decoded(mon, L, rng, i, n):
    """elements read from hostile bytes answer like any other"""
    kind = rng.choice(("naive", "fast", "faster", "mont", "fp", "composite", "tiny", "quad", "fi", "polymod", "tower", "curve", "curvebig", "curveext"))
    S = zoo.build(L, rng, kind)
    H = S.H
    a, b, c = H.new(), H.new(), H.new()
    ln = L.len(a)
    for j in range(n):
        d = rng.choice((b"\xff" * ln, b"\0" * ln, bytes(rng.getrandbits(8) for _ in range(ln)), S.m.char.to_bytes(ln, "big") if not S.group and S.m.depth == 0 and S.m.char.bit_length() <= 8 * ln else b"\x80" + b"\0" * (ln - 1)))
        S.load(a)
        buf = L.raw(ln, 0)
        L.raw_put(buf, d, ln)
        L.from_bytes(a, buf)
        L.raw_free(buf)
        va = H.get(a)
        judge(mon, L, rng, S, a, va, b, c, j % S.ROUTES)
    S.close()
