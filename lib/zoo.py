"""One structure of every kind the library offers, each paired with its model, a sampler of values and
several computation histories that lead to the same value."""
import ctypes as C
import model as M, pbc, families, char3
import c05

RINGS = ("naive", "fast", "faster", "mont", "fp", "composite", "tiny", "quad", "fi", "polymod", "tower", "poly", "polytower", "gf3m", "gf32m", "gf33m", "gf36m", "z", "multiz")
CURVES = ("curve", "curvebig", "curveext", "curvetwist")
FAMS = ("A", "a", "1", "D", "G", "E", "F", "I")
PAIRED = tuple(f + "." + g for f in FAMS for g in ("G1", "G2", "GT", "Zr"))
SHIPPED = tuple("=" + n + "." + g for n in families.SHIPPED for g in ("G1", "G2", "GT", "Zr"))
BITS = (66, 70, 72, 80, 96, 127, 128, 129, 159, 160, 192, 250, 256, 257, 512)


class IntsM(M.Field):
    """The integers."""
    zero, one, char, depth, card = 0, 1, 0, 0, 1 << 12
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def neg(self, a): return -a
    def mul(self, a, b): return a * b
    def fromint(self, n): return n
    def muli(self, a, n): return a * n
    def pow(self, a, n): return a ** n
    def inv(self, a):
        if a in (1, -1): return a
        raise ZeroDivisionError
    def flat(self, a): return [a]
    def sample(self, rng):
        c = rng.randrange(8)
        if c == 0: return rng.choice((0, 1, -1, 2, -2, 127, 128, -127, -128, 255, 256, -255, -256))
        if c == 1: return rng.choice((1, -1)) * ((1 << rng.choice((7, 8, 15, 16, 31, 32, 63, 64, 127, 128))) + rng.randrange(-1, 2))
        return rng.choice((1, -1)) * rng.getrandbits(rng.choice((3, 7, 8, 9, 16, 31, 32, 33, 62, 63, 64, 65, 120, 200)))


class ZH(pbc.FieldH):
    def get(self, e): return self.L.leaf(e)


class Struct:
    """name; H: handle with get/set/new; group: additive group without ring multiplication"""
    def __init__(self, L, rng, name, H, group=False, extra=(), closer=None, sample=None, settable=True,
                 bytes=True, fixed=True, pts=False, mult=False, order=None):
        self.L, self.rng, self.name, self.H, self.group, self.extra, self.closer = L, rng, name, H, group, list(extra), closer
        self._sample, self.settable, self.bytes, self.fixed, self.pts, self.mult, self.order = sample, settable, bytes, fixed, pts, mult, order
        self.m = H.m
        self.zero = None if group and not mult else (H.m.one if mult else H.m.zero)
        self.P = None

    def sample(self):
        if self._sample: return self._sample()
        return self.m.sample(self.rng)

    def add(self, a, b): return self.m.mul(a, b) if self.mult else self.m.add(a, b)
    def neg(self, a): return self.m.inv(a) if self.mult else self.m.neg(a)
    def sub(self, a, b): return self.add(a, self.neg(b))
    def mulz(self, a, n):
        if self.mult: return self.m.pow(a, n)
        if self.group: return self.m.mul(n, a)
        return self.m.muli(a, n)

    def load(self, e, v=None):
        """put v (or a sampled value) into e; returns the value"""
        L, rng = self.L, self.rng
        if self.settable:
            if v is None and self.group and rng.random() < .1: v = self.zero
            elif v is None: v = self.sample()
            if v is None: L.set0(e)
            else: self.H.set(e, v)
            return v
        if rng.random() < .12: L.set0(e)
        else: L.random(e)
        return self.H.get(e)

    ROUTES = 7

    def route(self, e, src, v, k):
        """bring the value v (held by src) into e by history k; e's previous content is whatever it was"""
        L, rng = self.L, self.rng
        t = L.el_new_same(src)
        if k == 0:
            L.set(e, src)
        elif k == 1:                    # (v + s) - s
            s = L.el_new_same(src)
            self.load(s)
            L.add(e, src, s)
            L.sub(e, e, s)
            L.el_free(s)
        elif k == 2:
            L.neg(t, src)
            L.neg(e, t)
        elif k == 3:                    # through O / zero content
            self.load(e)
            L.sub(e, e, e)
            L.add(e, e, src)
        elif k == 4:                    # difference of sums, fresh destination
            self.load(t)
            L.sub(e, src, t)
            L.add(e, t, e)
        elif k == 5 and not self.group and self.m.char not in (0, 2) and self.name[:2] != "gf" and self.char_odd():
            L.double(t, src)
            L.halve(e, t)
        elif k == 6 and not self.group:
            L.set1(t)
            L.mul(e, src, t)
        else:
            L.set(t, src)
            L.set(e, t)
        L.el_free(t)

    def char_odd(self): return self.m.char % 2 == 1

    def wf(self, v):
        if self.pts: return self.m.on(v)
        if self.name in ("z", "multiz"): return True
        if self.name[:2] == "gf" or self.name.startswith("I.GT") or self.name.startswith("=i.GT"): return True   # checked when read
        return all(0 <= x < self.m.char for x in self.m.flat(v))

    def cl(self, v):
        if v == self.zero: return 0
        if self.mult and v == self.m.zero: return 4
        if not self.group and v == self.m.one: return 1
        if self.group and self.neg(v) == v: return 2
        return 3

    def close(self):
        if self.closer: self.closer()
        else:
            self.H.close()
            for x in self.extra: x.close()


def fieldof(L, rng, bits=None):
    p = M.rand_prime(rng, bits or rng.choice((3, 4, 5, 8, 9, 16, 33, 64, 65, 80, 128, 160)))
    return pbc.fp(L, p if p > 2 else 5)


def build(L, rng, kind):
    if kind in ("naive", "fast", "faster", "mont", "fp"):
        bits = rng.choice(BITS) if kind not in ("naive", "fp") else rng.choice(BITS + (2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65))
        p = M.rand_prime(rng, bits)
        if rng.random() < .2 and bits > 66: p = M.prev_prime(1 << bits)
        return Struct(L, rng, kind, pbc.fp(L, p, kind))
    if kind == "composite":
        n = rng.getrandbits(rng.choice((70, 128, 200))) | 1 << 69
        if rng.random() < .5: n |= 1
        return Struct(L, rng, kind, pbc.fp(L, n, "naive"))
    if kind == "tiny":
        return Struct(L, rng, kind, pbc.fp(L, rng.choice((2, 3, 5, 7, 13, 127, 131, 251, 257)), "fp"))
    if kind in ("quad", "fi"):
        while True:
            B = fieldof(L, rng)
            if kind == "quad" or B.m.p % 4 == 3: break
            B.close()
        return Struct(L, rng, kind, (pbc.quadratic if kind == "quad" else pbc.fi)(L, B), extra=[B])
    if kind in ("polymod", "tower"):
        B = fieldof(L, rng)
        ex = [B]
        if kind == "tower":
            Q = pbc.quadratic(L, B)
            ex = [Q, B]
            B = Q
        n = rng.choice((1, 2, 3, 4, 5, 6, 7) if kind == "polymod" else (2, 3))
        return Struct(L, rng, kind, pbc.polymod(L, B, c05.irred(rng, B.m, n)), extra=ex)
    if kind in ("poly", "polytower"):
        B = fieldof(L, rng)
        ex = [B]
        if kind == "polytower":
            Q = pbc.quadratic(L, B)
            ex = [Q, B]
            B = Q
        H = pbc.PolyH(L, B)
        return Struct(L, rng, kind, H, extra=ex, fixed=False)
    if kind[:2] == "gf":
        m = rng.choice(list(char3.SMALL)) if rng.random() < .7 else 97
        t = char3.SMALL.get(m, 12)
        fs = char3.tower(L, m, t)
        H = fs[("gf3m", "gf32m", "gf33m", "gf36m").index(kind)]
        def closer():
            for x in reversed(fs): x.close()
        return Struct(L, rng, kind, H, closer=closer, bytes=kind == "gf3m")
    if kind in ("z", "multiz"):
        H = ZH(L, (L.field_z if kind == "z" else L.field_multiz)(), IntsM(), kind)
        return Struct(L, rng, kind, H, fixed=False)
    if kind in CURVES:
        if kind == "curve": B = fieldof(L, rng, rng.choice((3, 4, 5, 6, 7, 8, 9)))
        elif kind == "curveext":
            B0 = fieldof(L, rng, rng.choice((3, 5, 8, 40)))
            B = rng.choice((pbc.quadratic, lambda L, b: pbc.polymod(L, b, c05.irred(rng, b.m, 3))))(L, B0)
        else: B = fieldof(L, rng, rng.choice((16, 33, 64, 66, 80, 128, 160)))
        ex = [B] + ([B0] if kind == "curveext" else [])
        m = B.m
        if m.char < 5:
            for x in ex: x.close()
            return build(L, rng, kind)
        while True:
            a, b = m.sample(rng), m.sample(rng)
            d = m.add(m.muli(m.mul(a, m.sqr(a)), 4), m.muli(m.sqr(b), 27))
            if d != m.zero: break
        order = families.count(M.Curve(m, a, b), m.p) if kind == "curve" else m.card + 1
        H = pbc.curve_ab(L, B, a, b, order)
        if kind == "curvetwist":
            nq = m.unflat(iter(L.flatlist(L.field_nqr(B.h), m.depth)))
            L.field_twist(H.h)
            n2 = m.sqr(nq)
            H.m = M.Curve(m, m.mul(a, n2), m.mul(b, m.mul(n2, nq)))
        return Struct(L, rng, kind, H, group=True, extra=ex, sample=lambda: H.m.random(rng), pts=True, order=order if kind == "curve" else None)
    fam, g = kind.split(".")
    text = families.shipped_text(fam[1:]) if fam[0] == "=" else families.small_text(rng, fam)
    P = families.Pairing(L, text, fam)
    H = getattr(P, g)
    if g == "Zr":
        S = Struct(L, rng, kind, H)
    elif g == "GT":
        S = Struct(L, rng, kind, H, group=True, mult=True, settable=False, bytes=P.fam != "i", order=P.r)
    else:
        S = Struct(L, rng, kind, H, group=True, settable=False, bytes=P.fam != "i", pts=True, order=P.r)
    S.closer = P.close
    S.P = P
    S.text = text
    return S


def nontrivial(kinds, drop=()):
    return [k for k in kinds if k not in drop]
