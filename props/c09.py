"""Every exponentiation route equals repeated application of the group operation."""
import model as M, pbc, families, char3
from families import Pairing
from machine import longs

RULE = ("an evaluation compares the result of one exponentiation route with the model's power of the recorded base; "
        "distinct counts (structure, route, base class, exponent sign and size bucket, bit pattern, aliasing) signatures")
ASSUMPTIONS = ["the reference power is square-and-multiply on Python integers", "negative exponents are used on invertible bases only"]
EDGE = (2, 3, 4, 5, 6, 9, 10, 46, 47, 48, 49, 156, 157, 158, 473, 474, 475, 63, 64, 65, 127, 128, 129)
BIG = (1323, 1324, 1325, 1326, 3528, 3529, 3530, 9064, 9065, 9066, 9200)


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for b in ("naive", "fast", "faster", "mont", "fp"):
        for i in range(6 * k): out.append(("ring", dict(kind=b, i=i, n=120)))
    for kind in ("tiny", "quad", "fi", "poly", "tower", "gf3m", "gf32m", "gf33m", "gf36m"):
        for i in range(4 * k): out.append(("ring", dict(kind=kind, i=i, n=40 if kind[:2] == "gf" or kind == "tower" else 80)))
    for i in range(24 * k): out.append(("curve", dict(i=i, n=110)))
    for fam, cnt, n in (("a", 8, 60), ("A", 4, 26), ("1", 3, 26), ("D", 8, 40), ("G", 2, 16), ("E", 3, 26), ("F", 2, 12), ("I", 4, 26)):
        for i in range(cnt * k): out.append(("pairing", dict(fam=fam, i=i, n=n)))
    for nm in families.SHIPPED:
        out.append(("shipped", dict(name=nm, n={"g149": 5, "f": 5, "i": 3, "a1": 6, "e": 6}.get(nm, 8) * k)))
    return out


class Adapter:
    """multiplicative view of a structure; order = number that annihilates every unit"""
    def __init__(self, H, order, additive):
        self.H, self.m, self.order, self.add = H, H.m, order, additive
        self.one = None if additive else H.m.one

    def pow(self, v, n):
        if self.add:
            return self.m.mul(n, v)
        if n < 0: return self.m.pow(self.m.inv(v), -n)
        return self.m.pow(v, n)

    def op(self, a, b): return self.m.add(a, b) if self.add else self.m.mul(a, b)

    def invertible(self, v):
        if self.add: return True
        if v == self.m.zero: return False
        try:
            self.m.inv(v)
            return True
        except (ZeroDivisionError, ValueError):
            return False

    def cl(self, v):
        if v == self.one: return 1
        if not self.add and v == self.m.zero: return 0
        if self.op(v, v) == self.one: return 2
        return 3


def exponent(rng, order, cap, heavy):
    c = rng.randrange(13)
    if c == 0: return 0
    if c == 1: return rng.choice((1, 2, 3, 4, 5, 7, 8, 15, 16, 17))
    if c == 2: return max(0, order * rng.choice((1, 1, 2, 3)) + rng.choice((-2, -1, 0, 1, 2)))
    pool = [b for b in EDGE if b <= cap]
    if not heavy and rng.random() < .15: pool = list(BIG)
    b = rng.choice(pool)
    if c == 3: return (1 << b) - 1
    if c == 4: return 1 << (b - 1)
    if c == 5: return (1 << (b - 1)) + (1 << rng.randrange(b))
    if c == 6:                                  # long runs
        v, bit = 0, 1
        while v.bit_length() < b:
            n = rng.randrange(1, 12)
            v = v << n | ((1 << n) - 1) * bit
            bit ^= 1
        return v
    if c == 7: return int("10" * (b // 2 + 1), 2)
    if c == 8: return rng.getrandbits(b) << rng.randrange(1, 40)
    return rng.getrandbits(b) | 1 << (b - 1)


def bucket(e): return (e > 0) - (e < 0), min(abs(e).bit_length(), 600) // 24, bin(abs(e)).count("1") == abs(e).bit_length(), e % 2


def drive(mon, L, rng, A, n, tag, sample, zr, heavy=False, cap=700):
    H = A.H
    H.nomul = tag[:2] == "gf"          # integer multiples are not offered there
    R = [H.new() for _ in range(5)]
    V = [A.one if A.add else A.m.zero] * 5
    def load(i):
        v = sample(R[i])
        V[i] = v
    for i in range(5): load(i)
    tables = []
    zn = zr.new()
    zn2, zn3 = zr.new(), zr.new()
    zfld = L.field_z()
    zi = L.el_new(zfld)
    for _ in range(n):
        d, a, b, c = (rng.randrange(5) for _ in range(4))
        if rng.random() < .3: d = a
        if rng.random() < .2: b = a
        if rng.random() < .1: d = b
        e = exponent(rng, A.order, cap, heavy)
        f, g = exponent(rng, A.order, cap, heavy), exponent(rng, A.order, cap, heavy)
        if rng.random() < .06: e, f, g = rng.choice(((0, 0, 0), (e, e, e), (0, f, 0), (0, 0, g), (e, 0, 0), (1, 1, 1), (0, 0, 1)))
        sgn = rng.random() < .3
        if sgn and A.invertible(V[a]): e = -e
        if rng.random() < .25 and A.invertible(V[b]): f = -f
        if rng.random() < .25 and A.invertible(V[c]): g = -g
        route = rng.choice(("pow_mpz", "pow_mpz", "pow_mpz", "mul_mpz", "mul_si", "pow_zn", "mul_zn", "pow2_mpz", "pow2_mpz", "pow3_mpz", "pow2_zn", "pow3_zn", "pp_new",
                            "pp", "pp", "pp", "pp_zn", "load", "pow_z"))
        va, vb, vc = V[a], V[b], V[c]
        mon.case(tag, route, "d=%d a=%d b=%d c=%d" % (d, a, b, c), "e=%d f=%d g=%d" % (e, f, g), va, vb, vc)
        sig = (A.cl(va), bucket(e), d == a, d == b, a == b)
        exp = None
        if route[:4] == "mul_" and H.nomul: continue
        if route == "load":
            load(rng.randrange(5))
            continue
        if route == "pow_mpz":
            z = L.Z(e)
            L.pow_mpz(R[d], R[a], z)
            mon.eq(L.zget(z), e, tag + ": exponent changed")
            exp = A.pow(va, e)
        elif route == "mul_mpz":
            L.mul_mpz(R[d], R[a], L.Z(e))
            exp = A.pow(va, e) if A.add or A.H.mult else A.m.muli(va, e)
        elif route == "mul_si":
            s = longs(rng)
            mon.case(tag, route, s, va)
            if A.cl(va) == 0 and s < 0: s = -s if s > -2**63 else 5
            L.mul_si(R[d], R[a], s)
            exp = A.pow(va, s) if A.add or A.H.mult else A.m.muli(va, s)
        elif route in ("pow_zn", "mul_zn"):
            x = abs(e) % zr.m.p
            zr.set(zn, x)
            getattr(L, route)(R[d], R[a], zn)
            mon.eq(zr.get(zn), x, tag + ": exponent changed")
            exp = A.pow(va, x) if A.add or A.H.mult or route == "pow_zn" else A.m.muli(va, x)
        elif route == "pow_z":
            L.set_mpz(zi, L.Z(e))
            L.pow_zn(R[d], R[a], zi)
            exp = A.pow(va, e)
        elif route == "pow2_mpz":
            ze = L.Z(e)
            L.pow2_mpz(R[d], R[a], ze, R[b], ze if e == f else L.Z(f))
            exp = A.op(A.pow(va, e), A.pow(vb, f))
            sig += (bucket(f), A.cl(vb))
        elif route == "pow3_mpz":
            ze = L.Z(e)
            L.pow3_mpz(R[d], R[a], ze, R[b], ze if e == f else L.Z(f), R[c], ze if e == g else L.Z(g))
            exp = A.op(A.op(A.pow(va, e), A.pow(vb, f)), A.pow(vc, g))
            sig += (bucket(f)[:2], bucket(g)[:2])
        elif route in ("pow2_zn", "pow3_zn"):
            p = zr.m.p
            x, y, w = abs(e) % p, abs(f) % p, abs(g) % p
            zr.set(zn, x), zr.set(zn2, y), zr.set(zn3, w)
            if route == "pow2_zn":
                L.pow2_zn(R[d], R[a], zn, R[b], zn2)
                exp = A.op(A.pow(va, x), A.pow(vb, y))
            else:
                L.pow3_zn(R[d], R[a], zn, R[b], zn2, R[c], zn3)
                exp = A.op(A.op(A.pow(va, x), A.pow(vb, y)), A.pow(vc, w))
        elif route == "pp_new":
            tables.append((L.pp_new(R[a]), va))
            if len(tables) > 3:
                L.pp_free(tables.pop(rng.randrange(4))[0])
            if rng.random() < .5: load(a)
            mon.ok(tag, "table", A.cl(va))
            continue
        elif route in ("pp", "pp_zn"):
            if not tables: continue
            t, va = rng.choice(tables)
            e = abs(e)
            if sgn and A.invertible(va): e = -e
            mon.case(tag, route, "e=%d" % e, "table of %r" % (va,), "dest was %r" % (V[d],))
            sig = (A.cl(va), bucket(e), e == A.order, abs(e) > A.order)
            if route == "pp":
                z = L.Z(e)
                L.pp_pow(R[d], z, t)
                mon.eq(L.zget(z), e, tag + ": exponent changed")
            else:
                e = abs(e) % zr.m.p
                zr.set(zn, e)
                L.pp_pow_zn(R[d], zn, t)
            exp = A.pow(va, e)
        ok = mon.eq(H.get(R[d]), exp, "%s: %s" % (tag, route), *sig)
        V[d] = exp
        if not ok: load(d)
        for j in {a, b, c} - {d}:
            mon.eq(H.get(R[j]), V[j], tag + ": operand of %s changed" % route)
    for t, _ in tables: L.pp_free(t)
    L.el_free(zi)
    L.field_free(zfld)


def u_ring(mon, L, rng, kind, i, n):
    H, extra = None, []
    if kind in ("naive", "fast", "faster", "mont", "fp"):
        bits = rng.choice((66, 80, 128, 160, 200, 256, 300, 512)) if kind != "naive" else rng.choice((2, 3, 5, 8, 33, 64, 100, 250))
        H = pbc.fp(L, M.rand_prime(rng, bits), kind)
    elif kind == "tiny":
        H = pbc.fp(L, rng.choice((2, 3, 5, 7, 11, 13, 17, 31, 127, 251)), "fp")
    elif kind in ("quad", "fi"):
        while True:
            p = M.rand_prime(rng, rng.choice((3, 5, 8, 66, 130)))
            if p > 2 and (kind == "quad" or p % 4 == 3): break
        B = pbc.fp(L, p)
        extra = [B]
        H = (pbc.quadratic if kind == "quad" else pbc.fi)(L, B)
    elif kind in ("poly", "tower"):
        p = M.rand_prime(rng, rng.choice((3, 5, 8, 70)))
        B = pbc.fp(L, p)
        extra = [B]
        d = rng.choice((2, 3, 4, 5, 6))
        if kind == "tower":
            if p == 2: p, B = 5, pbc.fp(L, 5)
            B2 = pbc.quadratic(L, B)
            extra = [B2, B]
            d = rng.choice((2, 3))
            B = B2
        while True:
            low = [B.m.uniform(rng) for _ in range(d)]
            if M.poly_irred(B.m, low + [B.m.one]): break
        H = pbc.polymod(L, B, low)
    else:
        m = rng.choice(list(char3.SMALL))
        f, f2, f3, f6 = char3.tower(L, m, char3.SMALL[m])
        H = {"gf3m": f, "gf32m": f2, "gf33m": f3, "gf36m": f6}[kind]
        extra = [x for x in (f6, f3, f2, f) if x is not H]
    H.mult = False
    zr = pbc.fp(L, M.rand_prime(rng, rng.choice((5, 30, 70, 160))))
    def sample(e):
        v = H.m.sample(rng)
        H.set(e, v)
        return v
    drive(mon, L, rng, Adapter(H, H.m.card - 1, False), n, kind, sample, zr, H.m.width > 8 or H.m.card.bit_length() > 600)
    if kind in ("gf3m", "gf32m", "gf33m", "gf36m"):
        for x in [f6, f3, f2, f]: x.close()
    else:
        H.close()
        for x in extra: x.close()
    zr.close()


def u_curve(mon, L, rng, i, n):
    p = M.rand_prime(rng, rng.choice((4, 5, 6, 7, 8, 9)))
    while p < 5: p = M.rand_prime(rng, 5)
    F = pbc.fp(L, p)
    while True:
        a, b = rng.randrange(p), rng.randrange(p)
        if (4 * a**3 + 27 * b * b) % p: break
    o = families.count(M.Curve(F.m, a, b), p)
    H = pbc.curve_ab(L, F, a, b, o)
    H.mult = True
    zr = pbc.fp(L, M.rand_prime(rng, rng.choice((5, 30, 70))))
    def sample(e):
        v = None if rng.random() < .1 else H.m.random(rng)
        H.set(e, v)
        return v
    drive(mon, L, rng, Adapter(H, o, True), n, "curve", sample, zr)
    H.close()
    F.close()
    zr.close()


def groups(mon, L, rng, P, n, cap, heavy):
    for name, H in (("G1", P.G1), ("G2", P.G2), ("GT", P.GT)):
        if name == "G2" and P.symmetric: continue
        H.mult = True
        A = Adapter(H, P.r, name != "GT")
        def sample(e, H=H, name=name):
            if rng.random() < .1: L.set1(e)
            else: L.random(e)
            return H.get(e)
        drive(mon, L, rng, A, n, "%s %s" % (P.fam, name), sample, P.Zr, heavy, cap)
    P.Zr.mult = False
    def zs(e):
        v = P.Zr.m.sample(rng)
        P.Zr.set(e, v)
        return v
    if M.is_prime(P.r): drive(mon, L, rng, Adapter(P.Zr, P.r - 1, False), n, "Zr", zs, P.Zr, False, cap)
    P.free_els()


def u_pairing(mon, L, rng, fam, i, n):
    P = families.small(L, rng, fam)
    groups(mon, L, rng, P, n, 200 if fam in "FGI" else 500, fam in "FGID1AE")
    P.close()


def u_shipped(mon, L, rng, name, n):
    P = Pairing(L, families.shipped_text(name), name)
    groups(mon, L, rng, P, n, 180 if name in ("f", "g149", "i") else 700, True)
    P.close()
