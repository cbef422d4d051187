"""Square test and square roots."""
import model as M, pbc
from machine import vclass
import c05

RULE = ("an evaluation is one square test compared with the model (Euler's criterion over the model field), or one root squared and "
        "compared; distinct counts (field, value class, aliasing) signatures")
ASSUMPTIONS = ["fields of odd characteristic; the square root is only required of squares (the manual: undefined otherwise)"]


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for p in (3, 5, 7, 11, 13, 17, 41, 97, 193, 257, 769):
        out.append(("all", dict(p=p, shape="")))
    for p in (3, 5, 7, 11, 13, 17):
        out.append(("all", dict(p=p, shape="q")))
        if p % 4 == 3: out.append(("all", dict(p=p, shape="fi")))
        if p < 8:
            for s in ("p2", "p3"): out.append(("all", dict(p=p, shape=s)))
    for b in pbc.BACKENDS:
        for s in (1, 2, 3, 5, 17, 40):        # 2-adic valuation of p - 1
            out.append(("fp", dict(p=hex(val_prime(rng, 80 + 13 * s % 60, s)), backend=b, n=60 * k)))
    for p in (2**64 - 59, 2**127 - 1, 2**128 - 159, 2**130 - 5, 2**224 - 2**96 + 1):
        out.append(("fp", dict(p=hex(p), backend="fp", n=40 * k)))
    for shape in ("q", "fi", "p2", "p3", "p4", "p6", "p5", "q.q", "p3.q", "q.p3", "q.p2"):
        for bits in (5, 40, 66, 130):
            res = (4, 3) if "fi" in shape else (1, 0)
            out.append(("ext", dict(p=hex(M.rand_prime(rng, bits, *res)), shape=shape, n=(24 if bits > 50 and shape not in ("q", "fi") else 50) * k)))
    for i in range(12 * k):
        out.append(("curve", dict(i=i)))
    return out


def u_curve(mon, L, rng, i):
    """groups of points: an element is a square (a double) exactly when some point doubles to it"""
    from c08 import all_points
    while True:
        p = M.rand_prime(rng, rng.choice((4, 5, 6, 7)))
        a, b = rng.randrange(p), rng.randrange(p)
        if p < 5 or (4 * a ** 3 + 27 * b * b) % p == 0: continue
        C = M.Curve(M.Fp(p), a, b)
        pts = all_points(C, p)
        n = len(pts)
        if n % 2 != i % 2 or n < 3: continue
        def order(P):
            k, Q = 1, P
            while Q is not None: k, Q = k + 1, C.add(Q, P)
            return k
        if any(order(P) == n for P in pts): break       # the test is defined by the order of a cyclic group
    B = pbc.fp(L, p)
    G = pbc.CurveH(L, L.field_curve_ab(B.new(a), B.new(b), L.Z(n), None), C, "curve")
    e = G.new()
    dbl = {C.add(P, P) for P in pts}
    for P in pts:
        mon.case("curve squares", p, a, b, n, P)
        G.set(e, P)
        mon.eq(bool(L.is_sqr(e)), P in dbl, "curve: square test", n % 2, P is None, P in dbl)
        mon.eq(G.get(e), P, "curve: square test changed its argument")
    G.close()
    B.close()


def val_prime(rng, bits, s):
    while True:
        t = rng.getrandbits(bits - s) | 1 | 1 << (bits - s - 1)
        p = (t << s) + 1
        if M.is_prime(p): return p


def judge(mon, L, F, tag, v, alias, e, o, key):
    m = F.m
    F.set(e, v)
    sq = m.is_sqr(v)
    mon.case(tag, key, v, "alias" if alias else "")
    mon.eq(bool(L.is_sqr(e)), sq, tag + ": square test", key, vclass(m, v), sq)
    mon.eq(F.get(e), v, tag + ": square test changed its argument")
    if sq:
        d = e if alias else o
        L.sqrt(d, e)
        r = F.get(d)
        mon.eq(m.sqr(r), v, tag + ": root squared", key, vclass(m, v), alias, m.depth and all(x == m.base.zero for x in v[1:]))
        if not alias: mon.eq(F.get(e), v, tag + ": sqrt changed its argument")
        mon.stat("roots checked")
    else:
        mon.stat("non-squares checked")


def build(L, rng, p, shape):
    fs = [pbc.fp(L, p)]
    for s in [x for x in shape.split(".") if x]:
        B = fs[-1]
        if s == "q":
            c05.setnqr(L, rng, B, rng.choice((0, 2)))
            fs.append(pbc.quadratic(L, B))
        elif s == "fi": fs.append(pbc.fi(L, B))
        else: fs.append(pbc.polymod(L, B, c05.irred(rng, B.m, int(s[1:]))))
    return fs


def close(fs):
    for f in reversed(fs): f.close()


def values(m):
    if m.depth == 0: return range(m.p)
    import itertools
    return itertools.product(values(m.base), repeat=m.n)


def u_all(mon, L, rng, p, shape):
    fs = build(L, rng, p, shape)
    F = fs[-1]
    e, o = F.new(), F.new()
    for v in values(F.m):
        judge(mon, L, F, "all elements " + (shape or "Fp"), v, False, e, o, (p, shape))
        judge(mon, L, F, "all elements " + (shape or "Fp"), v, True, e, o, (p, shape))
    close(fs)


def workload(mon, L, rng, F, tag, n, key):
    m = F.m
    e, o = F.new(), F.new()
    for i in range(n):
        v = m.sample(rng)
        if i % 3 == 0: v = m.sqr(v)
        if i % 7 == 0: F.set(o, m.sample(rng))
        judge(mon, L, F, tag, v, i % 2 == 0, e, o, key)


def u_fp(mon, L, rng, p, backend, n):
    p = int(p, 16)
    F = pbc.fp(L, p, backend)
    if n % 2: c05.setnqr(L, rng, F, 2)
    workload(mon, L, rng, F, "Fp " + backend, n, p)
    F.close()


def u_ext(mon, L, rng, p, shape, n):
    p = int(p, 16)
    fs = build(L, rng, p, shape)
    workload(mon, L, rng, fs[-1], "extension " + shape, n, p)
    close(fs)
