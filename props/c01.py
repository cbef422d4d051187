"""Bilinearity, non-degeneracy, order and identity of every pairing family."""
import model as M, pbc, families
from families import Pairing
from machine import longs

RULE = ("an evaluation is one law of the pairing decided on values the library computed, with the right-hand side evaluated in the model of GT; "
        "distinct counts (parameters, method, law, situation of arguments and scalars) signatures")
ASSUMPTIONS = ["GT is judged by quotient-ring arithmetic over Python integers", "hashing into fields below 2^40 is left out (its search may cycle there)"]
METHODS = {"a": ("miller", "miller-affine", "shipsey-stange"), "a1": ("miller", "miller-affine", "shipsey-stange"), "d": ("miller", "miller-affine"),
           "e": ("miller", "miller-affine", "shipsey-stange"), "g": ("miller", "miller-affine", "shipsey-stange"), "f": (), "i": ()}
DEFAULT = {"d": "miller-affine", "g": "miller-affine", "e": "miller"}


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for n in families.SHIPPED:
        out.append(("shipped", dict(name=n, n=2 if k == 1 and n != 'g149' else 1 if k == 1 else 12)))
    for fam, cnt, n in (("a", 16, 30), ("A", 10, 8), ("1", 5, 4), ("D", 16, 14), ("G", 5, 6), ("E", 6, 4), ("F", 6, 5), ("I", 10, 12)):
        for i in range(cnt * k):
            out.append(("small", dict(fam=fam, i=i, n=n)))
    for x in (-2, 1, -1):
        out.append(("tinyf", dict(x=x, n=12 * k)))
    for m, t in ((97, 12), (199, 164), (235, 26)):
        if m == 235 and k == 1: continue
        out.append(("typei", dict(m=m, t=t, n=1 if k == 1 else 10)))
    for i in range(2 * k):
        out.append(("generated", dict(fam="d", i=i, n=2)))
    return out


def scalar(rng, r):
    c = rng.randrange(10)
    if c == 0: return rng.choice((0, 1, -1, 2, -2, 3))
    if c == 1: return r * rng.choice((1, 2, -1)) + rng.choice((0, 1, -1))
    if c == 2: return -rng.randrange(r)
    if c == 3: return rng.getrandbits(r.bit_length() * 2)
    if c == 4: return (r + rng.choice((1, -1))) // 2
    return rng.randrange(r)


def draw(L, rng, P, G, e, hashed):
    """an element of the group by a random route; True if it came from hashing"""
    c = rng.randrange(7)
    if c == 0 and P.q >> 40 and P.fam != "i":
        d = rng.randbytes(rng.randrange(1, 50))
        L.from_hash(e, d, len(d))
        return True
    L.random(e)
    if c == 1: L.neg(e, e)
    if c == 2: L.mul_mpz(e, e, L.Z(rng.choice((2, 3, P.r - 1, P.r - 2))))
    return False


def judge(mon, L, rng, P, n, method):
    K, r, h = P.K, P.r, P.h
    G1, G2, GT = P.G1, P.G2, P.GT
    p1, p2, t1 = G1.new(), G1.new(), G1.new()
    q1, q2, t2 = G2.new(), G2.new(), G2.new()
    e = GT.new()
    T = P.fam + (" " + method if method else "")
    def pair(a, b):
        if rng.random() < .2: L.random(e)
        (L.pairing_apply(e, a, b, h) if rng.random() < .7 else L.element_pairing(e, a, b))
        return GT.get(e)
    desc = lambda: (P.text if len(P.text) < 1500 else P.key)
    for i in range(n):
        hs = draw(L, rng, P, G1, p1, 0) | draw(L, rng, P, G2, q1, 0)
        draw(L, rng, P, G1, p2, 0)
        draw(L, rng, P, G2, q2, 0)
        v1, w1 = G1.get(p1), G2.get(q1)
        mon.case(T, desc(), "P=%r Q=%r" % (v1, w1))
        base = pair(p1, q1)
        mon.check(K.pow(base, r) == K.one, T + ": value whose order does not divide r", repr(base), P.key)
        deg = v1 is None or P.coset0(w1)
        if deg:
            mon.eq(base, K.one, T + ": pairing with the identity", P.key, "coset")
        elif M.is_prime(r) and not (P.fam == "e" and hs):
            if P.fam != "e" or r > 1 << 30:
                mon.check(base != K.one, T + ": degenerate on non-identity arguments", (v1, w1), P.key)
        elif P.fam == "a1" and r > 1 << 60:
            mon.check(base != K.one, T + ": degenerate on non-identity arguments", (v1, w1), P.key)
        a, b = scalar(rng, r), scalar(rng, r)
        L.mul_mpz(t1, p1, L.Z(a))
        L.pow_mpz(t2, q1, L.Z(b))
        mon.case(T, desc(), "P=%r Q=%r a=%d b=%d" % (v1, w1, a, b))
        mon.eq(pair(t1, t2), K.pow(base, a * b % r), T + ": e(aP,bQ) = e(P,Q)^(ab)", P.key, a % r == 0, b % r == 0, a < 0, b < 0)
        w2, v2 = G2.get(q2), G1.get(p2)
        mon.case(T, desc(), "P1=%r P2=%r Q1=%r Q2=%r" % (v1, v2, w1, w2))
        L.add(t1, p1, p2)
        mon.eq(pair(t1, q1), K.mul(base, pair(p2, q1)), T + ": multiplicative in the first argument", P.key)
        L.add(t2, q1, q2)
        mon.eq(pair(p1, t2), K.mul(base, pair(p1, q2)), T + ": multiplicative in the second argument", P.key)
        L.neg(t1, p1)
        inv = K.inv(base)
        mon.eq(pair(t1, q1), inv, T + ": e(-P,Q)", P.key)
        L.neg(t2, q1)
        mon.eq(pair(p1, t2), inv, T + ": e(P,-Q)", P.key)
        L.set0(t1)
        L.set0(t2)
        mon.eq([pair(t1, q1), pair(p1, t2), pair(t1, t2)], [K.one] * 3, T + ": pairing with the identity", P.key)
        if P.symmetric:
            if not (P.fam == "e" and hs):
                L.set(t1, q1)
                L.set(t2, p1)
                mon.eq(pair(t1, t2), base, T + ": symmetry", P.key)
            L.double(t1, p1)
            if P.fam != "e" or not hs:
                self_ = pair(p1, p1)
                mon.eq(pair(t1, p1), K.sqr(self_), T + ": pairing of a point with its double", P.key)
                mon.eq(pair(p1, t1), K.sqr(self_), T + ": pairing of a point with its double", P.key, 2)
                L.neg(t1, p1)
                mon.eq(pair(p1, t1), K.inv(self_), T + ": pairing of a point with its negative", P.key)
            mon.eq(bool(L.is_symmetric(h)), True, T + ": symmetric predicate")
        else:
            mon.eq(bool(L.is_symmetric(h)), False, T + ": symmetric predicate")
        mon.eq((G1.get(p1), G2.get(q1)), (v1, w1), T + ": inputs changed")
    # random and hashed values of GT lie in the group of order r
    for i in range(2):
        L.random(e)
        mon.check(K.pow(GT.get(e), r) == K.one, T + ": random element of GT outside the group", P.key, P.key)
    P.free_els()


def methods(mon, L, rng, P, n):
    judge(mon, L, rng, P, n, "")
    for m in METHODS[P.fam]:
        L.option(P.h, b"method", m.encode())
        judge(mon, L, rng, P, n, m)
    if P.fam in DEFAULT: L.option(P.h, b"method", DEFAULT[P.fam].encode())


def u_shipped(mon, L, rng, name, n):
    if name == "i":
        P = Pairing(L, families.shipped_text(name), name, "heavy")
        judge(mon, L, rng, P, n, "")
        P.close()
        return
    families.with_shipped(L, name, lambda P: methods(mon, L, rng, P, n))


def u_small(mon, L, rng, fam, i, n):
    P = families.small(L, rng, fam)
    P.key = "%s%d" % (fam, i)
    methods(mon, L, rng, P, n)
    P.close()


def u_tinyf(mon, L, rng, x, n):
    P = Pairing(L, families.f_text(rng, x), "bn%d" % x)
    judge(mon, L, rng, P, n, "")
    P.close()


def u_typei(mon, L, rng, m, t, n):
    import char3
    # the table's group order comes with the generator
    bits = {97: 150, 199: 206, 235: 259}[m]
    pr = L.param_i(bits)
    text = L.capture(lambda f: L.param_out(f, pr))[1].decode()
    L.param_free(pr)
    P = Pairing(L, text, "i%d" % m)
    judge(mon, L, rng, P, n, "")
    P.close()


def u_generated(mon, L, rng, fam, i, n):
    P = Pairing(L, families.cm_text(L, rng, fam), fam + "gen")
    methods(mon, L, rng, P, n)
    P.close()
