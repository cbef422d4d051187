"""Every route to a pairing value agrees: plain, element form, precomputed tables, products, every
method, other live pairing objects, and the Diffie-Hellman predicate."""
import ctypes as C
import model as M, pbc, families
from families import Pairing
from c01 import METHODS, DEFAULT

RULE = ("an evaluation compares one value delivered by a route (plain, element, table, product of n, predicate, under some method) with the value "
        "fixed beforehand by the plain route and the exponents of the arguments; distinct counts (parameters, route, method, argument classes) signatures")
ASSUMPTIONS = ["tables of types A and A1 are released before the method option changes (they belong to the method that built them)",
               "the plain route itself is judged by C01 and C03"]


def units(tier, rng):
    k = 1 if tier == "quick" else 8
    out = []
    for n in families.SHIPPED:
        out.append(("shipped", dict(name=n, n={"i": 4, "g149": 8, "e": 14, "f": 8, "a1": 12}.get(n, 16) * k)))
    for fam, cnt, n in (("a", 14, 250), ("A", 12, 80), ("1", 6, 60), ("D", 18, 140), ("G", 6, 60), ("E", 6, 60), ("F", 5, 24), ("I", 10, 120)):
        for i in range(cnt * k):
            out.append(("small", dict(fam=fam, i=i, n=n)))
    for fam in "dg":
        for i in range(4 * k): out.append(("ones", dict(fam=fam, i=i, n=60)))
    return out


class Side:
    """one live pairing object with a pool of known multiples of its base points"""
    def __init__(self, mon, L, rng, P, seed, ex, like=None):
        self.mon, self.L, self.rng, self.P = mon, L, rng, P
        self.p0, self.q0 = P.G1.new(), P.G2.new()
        if like is None or P.fam == "i":
            L.random_monitored(seed, 0)
            for _ in range(60):
                L.random(self.p0)
                L.random(self.q0)
                self.v0, self.w0 = P.G1.get(self.p0), P.G2.get(self.q0)
                if self.v0 is not None and not P.coset0(self.w0): break
            else:
                self.v0 = None               # a tiny group whose random generator came out as the identity
                return
        else:
            self.v0, self.w0 = like.v0, like.w0
            P.G1.set(self.p0, self.v0)
            P.G2.set(self.q0, self.w0)
        self.out, self.out2 = P.GT.new(), P.GT.new()
        L.pairing_apply(self.out, self.p0, self.q0, P.h)
        self.base = P.GT.get(self.out)
        self.ex = ex
        self.A = [P.G1.new() for _ in ex]
        self.B = [P.G2.new() for _ in ex]
        for x, a, b in zip(ex, self.A, self.B):
            if not x:                        # O, with coordinates left over from a real point
                L.set(a, self.p0)
                L.set(b, self.q0)
                if rng.random() < .5:
                    L.set0(a)
                    L.set0(b)
                    continue
            L.mul_mpz(a, self.p0, L.Z(x))
            L.mul_mpz(b, self.q0, L.Z(x))
        self.tables = []
        self.method = ""

    def val(self, e): return self.P.K.pow(self.base, e % self.P.r)

    def cl(self, x):
        x %= self.P.r
        return 0 if x == 0 else 1 if x == 1 else -1 if x == self.P.r - 1 else 2

    def drop_tables(self):
        for t, x in self.tables: self.L.ppp_free(t)
        self.tables = []

    def step(self):
        mon, L, rng, P = self.mon, self.L, self.rng, self.P
        T = P.fam + " " + (self.method or "default")
        n = len(self.ex)
        i, j = rng.randrange(n), rng.randrange(n)
        xi, xj = self.ex[i], self.ex[j]
        sig = (P.key, T, self.cl(xi), self.cl(xj), i == j)
        desc = P.text if len(P.text) < 1200 else P.key
        case = lambda what: mon.case(desc, T, what, "P=%r Q=%r" % (self.v0, self.w0))
        if rng.random() < .15: L.random(self.out)
        c = rng.randrange(12)
        if c < 2:
            case("pairing_apply %d %d" % (xi, xj))
            L.pairing_apply(self.out, self.A[i], self.B[j], P.h)
            mon.eq(P.GT.get(self.out), self.val(xi * xj), T + ": plain route", *sig)
        elif c < 3:
            case("element_pairing %d %d" % (xi, xj))
            L.element_pairing(self.out, self.A[i], self.B[j])
            mon.eq(P.GT.get(self.out), self.val(xi * xj), T + ": element route", *sig)
        elif c < 4:
            t = P.G1.new()
            L.set(t, self.p0)
            L.set(t, self.A[i])
            case("table for %d" % xi)
            tab = L.ppp_new(t, P.h)
            how = rng.randrange(4)       # the table outlives and ignores its input
            if how == 0: L.random(t)
            elif how == 1: L.set0(t)
            if how < 3:
                P.G1.els.remove(t)
                L.el_free(t)
            self.tables.append((tab, xi))
            if len(self.tables) > 4:
                tab, _ = self.tables.pop(rng.randrange(len(self.tables)))
                L.ppp_free(tab)
            mon.ok("table built", *sig)
        elif c < 7 and self.tables:
            tab, x = rng.choice(self.tables)
            case("table of %d applied to %d" % (x, xj))
            L.ppp_apply(self.out, self.B[j], tab)
            mon.eq(P.GT.get(self.out), self.val(x * xj), T + ": table route", P.key, T, self.cl(x), self.cl(xj))
        elif c < 9:
            m = rng.choice((0, 1, 1, 2, 2, 3, 4, 6))
            ii = [rng.randrange(n) for _ in range(m)]
            jj = [rng.randrange(n) for _ in range(m)]
            if m > 1 and rng.random() < .3: ii[1], jj[1] = ii[0], jj[0]
            arr = lambda l: (C.c_void_p * max(1, m))(*l)
            case("product %r %r" % ([self.ex[a] for a in ii], [self.ex[b] for b in jj]))
            L.prod_pairing(self.out, arr([self.A[a] for a in ii]), arr([self.B[b] for b in jj]), m)
            mon.eq(P.GT.get(self.out), self.val(sum(self.ex[a] * self.ex[b] for a, b in zip(ii, jj))), T + ": product route", P.key, T, m,
                   any(self.cl(self.ex[a]) == 0 for a in ii), any(self.cl(self.ex[b]) == 0 for b in jj), len(set(ii)) < m)
        elif c < 11:
            k = rng.choice((0, 1, -1, 2, 3, 5))
            a, cc = rng.randrange(n), rng.randrange(n)
            b, d = rng.randrange(n), rng.randrange(n)
            t, s = P.G1.new(), P.G2.new()
            L.set(t, self.p0)
            L.set(s, self.q0)
            xb, xd = self.ex[b], self.ex[d]
            L.set(t, self.A[b])
            L.set(s, self.B[d])
            if rng.random() < .6:
                xb, xd = k * self.ex[a], rng.choice((k, -k)) * self.ex[cc]
                L.mul_mpz(t, self.A[a], L.Z(k))
                L.mul_mpz(s, self.B[cc], L.Z(xd // self.ex[cc]) if self.ex[cc] else L.Z(k))
                if not self.ex[cc]: xd = 0
            xa, xc = self.ex[a], self.ex[cc]
            case("coddh a=%d b=%d c=%d d=%d" % (xa, xb, xc, xd))
            u, v = xa * xd % P.r, xb * xc % P.r
            exp = self.val(u) == self.val(v) or self.val(u + v) == P.K.one
            mon.eq(bool(L.coddh(self.A[a], t, self.B[cc], s, P.h)), exp, T + ": Diffie-Hellman predicate", P.key, T, self.cl(xa), self.cl(xb), self.cl(xc), self.cl(xd), exp)
            for G, e in ((P.G1, t), (P.G2, s)):
                G.els.remove(e)
                L.el_free(e)
        elif P.fam in METHODS and METHODS[P.fam]:
            if P.fam in ("a", "a1"): self.drop_tables()
            self.method = rng.choice(METHODS[P.fam])
            L.option(P.h, b"method", self.method.encode())
        if P.fam in ("a", "a1", "e") and rng.random() < .05:
            t = P.G1.new()
            L.phi(t, self.A[i], P.h)
            mon.eq(P.G1.get(t), P.G1.get(self.A[i]), T + ": isomorphism of a symmetric pairing is the identity", *sig)

    def finish(self):
        P, mon = self.P, self.mon
        for x, a, b in zip(self.ex, self.A, self.B):
            v, w = P.G1.get(a), P.G2.get(b)
            mon.eq((v, w), (P.G1.m.mul(x, self.v0), P.G2.m.mul(x, self.w0)), P.fam + ": arguments changed", P.key)
        self.drop_tables()
        if P.fam in DEFAULT: self.L.option(P.h, b"method", DEFAULT[P.fam].encode())


def session(mon, L, rng, text, key, n):
    seed = rng.getrandbits(31)
    ex = [0, 1, -1, 2, rng.randrange(2, 60), rng.randrange(2, 1 << 16)]
    for tries in range(40):
        P = Pairing(L, text, key)
        sides = [Side(mon, L, rng, P, seed, ex)]
        if sides[0].v0 is not None: break
        seed += 1
        P.close()
    else:
        raise RuntimeError("no usable base points: " + text)
    sides.append(Side(mon, L, rng, Pairing(L, text, key), seed, ex, sides[0]))
    mon.eq(sides[0].base, sides[1].base, "two pairing objects of the same parameters disagree", key)
    gone = rng.randrange(n // 2, n + 1)
    for i in range(n):
        if i == gone:                    # one object goes away, the other lives on
            s = sides.pop(rng.randrange(2))
            s.finish()
            s.P.close()
        rng.choice(sides).step()
    for s in sides:
        s.finish()
        s.P.close()
    L.random_monitored(seed, 0)


def u_shipped(mon, L, rng, name, n):
    session(mon, L, rng, families.shipped_text(name), name, n)


def u_small(mon, L, rng, fam, i, n):
    session(mon, L, rng, families.small_text(rng, fam), "%s%d" % (fam, i), n)


def u_ones(mon, L, rng, fam, i, n):
    """group orders of ones only: the longest tables"""
    k = 10 if fam == "g" else rng.choice((6, 2))
    r = (31, 127)[i % 2] if k != 10 else 31
    t = families.dg_text(rng, k, fam, 30, 900 if k == 10 else 400, 7, only=(31, 127) if k != 10 else (31, 11))
    session(mon, L, rng, t, "%sones" % fam, n)
