"""Elliptic-curve groups."""
import ctypes
import model as M, pbc, families
from machine import Group

RULE = ("an evaluation is one comparison of a resulting, untouched or generated point with the chord-and-tangent model; "
        "distinct counts (curve kind, operation, aliasing, operand class) signatures")
ASSUMPTIONS = ["affine chord-and-tangent addition over Python integers is the reference",
               "curves are nonsingular with at least one finite point; batch calls have n >= 1 and outputs equal to or disjoint from inputs"]


def units(tier, rng):
    k = 1 if tier == "quick" else 8
    out = []
    for p in (5, 7, 11, 13):
        for part in range({5: 1, 7: 1, 11: 3, 13: 4}[p]):
            out.append(("exhaust", dict(p=p, part=part, parts={5: 1, 7: 1, 11: 3, 13: 4}[p])))
    for p in (17, 19, 23, 29, 31, 37, 41, 43, 101, 251):
        out.append(("small", dict(p=p, curves=6 * k, steps=250)))
    for b in pbc.BACKENDS:
        for bits in (66, 128, 161, 256):
            out.append(("big", dict(p=hex(M.rand_prime(rng, bits)), backend=b, kind=rng.choice(("any", "two", "a0", "b0")), steps=250 * k)))
    for kind in ("two", "a0", "b0", "any"):
        out.append(("big", dict(p=hex(2**128 - 159), backend="mont", kind=kind, steps=400 * k)))
        out.append(("big", dict(p=hex(M.rand_prime(rng, 64)), backend="fp", kind=kind, steps=400 * k)))
    for shape in ("q", "fi", "p3", "p5", "p2"):
        for bits in (4, 5, 70, 130):
            out.append(("ext", dict(p=hex(M.rand_prime(rng, bits, 4, 3)), shape=shape, steps=(250 if bits < 60 else 130) * k)))
    for p in (7, 11, 23, 67, 0, 1):
        for i in range(2):
            out.append(("make", dict(p=hex(p if p > 1 else M.rand_prime(rng, 70 + 60 * p)), i=i)))
    for p in (5, 7, 13, 31):
        out.append(("singular", dict(p=hex(p), steps=800 * k)))
    for bits in (40, 66, 150):
        out.append(("singular", dict(p=hex(M.rand_prime(rng, bits)), steps=300 * k)))
    for n in families.SHIPPED:
        if not n.startswith("i"):
            out.append(("pairing", dict(name=n, steps=60 * k)))
    for f in "ADFGE1":
        for i in range(2 * k):
            out.append(("generated", dict(fam=f, i=i, steps=150)))
    return out


def coeffs(rng, F, kind="any"):
    while True:
        a = F.zero if kind == "a0" else F.uniform(rng)
        b = F.zero if kind == "b0" else F.uniform(rng)
        if kind == "two":                         # force a point of order two
            x = F.uniform(rng)
            b = F.neg(F.mul(x, F.add(F.sqr(x), a)))
        d = F.add(F.muli(F.mul(F.sqr(a), a), 4), F.muli(F.sqr(b), 27))
        if d != F.zero:
            return a, b


def all_points(C, p):
    sq = {}
    for y in range(p):
        sq.setdefault(y * y % p, []).append(y)
    return [None] + [(x, y) for x in range(p) for y in sq.get(C.rhs(x), ())]


def u_exhaust(mon, L, rng, p, part, parts):
    F = M.Fp(p)
    B = pbc.fp(L, p)
    ncurve = 0
    for a in range(p):
        if a % parts != part: continue
        for b in range(p):
            if (4 * a**3 + 27 * b * b) % p == 0: continue
            C = M.Curve(F, a, b)
            pts = all_points(C, p)
            if len(pts) < 2: continue
            ncurve += 1
            G = pbc.curve_ab(L, B, a, b, len(pts), 1)
            tag = "exhaustive"
            els = [G.new(P) for P in pts]
            N = [G.new() for _ in range(len(pts))]
            idx = {P: i for i, P in enumerate(pts)}
            out = G.new()
            tab = {}
            n = len(pts)
            for i in range(n):
                mon.case("p=%d a=%d b=%d" % (p, a, b), pts[i])
                mon.eq(G.get(els[i]), pts[i], tag + ": point does not read back")
                L.neg(out, els[i])
                mon.eq(G.get(out), C.neg(pts[i]), tag + ": negative", pts[i] == C.neg(pts[i]))
                row = []
                for j in range(n):
                    e = C.add(pts[i], pts[j])
                    row.append(e)
                    mon.case("p=%d a=%d b=%d" % (p, a, b), "add", pts[i], pts[j])
                    L.add(out, els[i], els[j])
                    mon.eq(G.get(out), e, tag + ": sum", p, i == j, e is None, i == 0, j == 0)
                # the whole row as one batch
                mon.case("p=%d a=%d b=%d" % (p, a, b), "multi_add row", pts[i])
                arr = lambda l: (ctypes.c_void_p * n)(*l)
                for o in N: L.set(o, els[rng.randrange(n)])
                perm = list(range(n))
                rng.shuffle(perm)
                L.multi_add(arr(N), arr([els[i]] * n), arr([els[j] for j in perm]), n)
                mon.eq([G.get(o) for o in N], [row[j] for j in perm], tag + ": batch of sums", p, n)
            for o in N: L.set(o, els[rng.randrange(n)])
            mon.case("p=%d a=%d b=%d" % (p, a, b), "multi_double all")
            L.multi_double(arr(N), arr(els), n)
            mon.eq([G.get(o) for o in N], [C.add(P, P) for P in pts], tag + ": batch of doubles", p, n)
            for _ in range(6):
                L.random(out)
                mon.check(G.get(out) in idx, tag + ": random point", repr(G.get(out)))
            k = rng.randrange(n)
            for s in (0, 1, n, n - 1, -1, n + 1, rng.randrange(5 * n)):
                L.mul_mpz(out, els[k], L.Z(s))
                mon.eq(G.get(out), C.mul(s, pts[k]), tag + ": multiple", s == 0, s == n)
            if n % 2 == 0:
                pass
            G.close()
    mon.stat("curves enumerated completely", ncurve)
    B.close()


def u_small(mon, L, rng, p, curves, steps):
    F = M.Fp(p)
    B = pbc.fp(L, p)
    for c in range(curves):
        kind = ("any", "two", "a0", "b0")[c % 4]
        a, b = coeffs(rng, F, kind)
        C = M.Curve(F, a, b)
        pts = all_points(C, p)
        if len(pts) < 2: continue
        two = [P for P in pts if P is None or P[1] == 0]
        G = pbc.curve_ab(L, B, a, b, len(pts), None)
        if c % 2: L.curve_solvefory(G.h)
        Group(mon, L, G, rng, "small curve", sample=lambda: rng.choice(two if rng.random() < .3 else pts), order=len(pts)).run(steps)
        G.close()
    B.close()


def run_curve(mon, L, rng, B, a, b, tag, steps, maxbits=40):
    G = pbc.curve_ab(L, B, a, b, B.m.card, None)
    C = G.m
    two = []
    def smp():
        if two and rng.random() < .3: return rng.choice(two)
        if rng.random() < .1: return None
        return C.random(rng)
    # rational points of order two, when the construction put one there
    if B.m.depth == 0:
        R = [P for P in roots2(B.m, a, b, rng)]
        two += R
    mon.stat("curves with known order-two points", 1 if two else 0)
    Group(mon, L, G, rng, tag, sample=smp, maxbits=maxbits).run(steps)
    G.close()


def roots2(F, a, b, rng):
    """roots of x^3+ax+b over Fp (equal-degree splitting)"""
    f = [b, a, F.zero, F.one]
    x = [F.zero, F.one]
    g = M.poly_gcd(F, f, M.poly_sub(F, M.poly_powmod(F, x, F.p, f), x))
    def split(g):
        g = [F.mul(F.inv(g[-1]), c) for c in g]
        if len(g) == 1: return []
        if len(g) == 2: return [F.neg(g[0])]
        while True:
            h = M.poly_sub(F, M.poly_powmod(F, [F.uniform(rng), F.one], (F.p - 1) // 2, g), [F.one])
            d = M.poly_gcd(F, g, h) if h else g
            if 1 < len(d) < len(g):
                return split(d) + split(M.poly_divmod(F, g, d)[0])
    return [(r, F.zero) for r in split(g)]


def u_big(mon, L, rng, p, backend, kind, steps):
    p = int(p, 16)
    B = pbc.fp(L, p, backend)
    a, b = coeffs(rng, B.m, kind)
    run_curve(mon, L, rng, B, a, b, "curve over " + backend, steps, 40 if steps < 300 else 140)
    B.close()


def mkext(L, rng, p, shape):
    B = pbc.fp(L, p)
    if shape == "q": E = pbc.quadratic(L, B)
    elif shape == "fi": E = pbc.fi(L, B)
    else:
        n = int(shape[1:])
        while True:
            low = [B.m.uniform(rng) for _ in range(n)]
            if M.poly_irred(B.m, low + [1]): break
        E = pbc.polymod(L, B, low)
    return B, E


def u_ext(mon, L, rng, p, shape, steps):
    B, E = mkext(L, rng, int(p, 16), shape)
    a, b = coeffs(rng, E.m, rng.choice(("any", "two", "b0")))
    if rng.random() < .3: b = E.m.emb(b[0]); a = E.m.emb(a[0])
    F = E.m
    if F.add(F.muli(F.mul(F.sqr(a), a), 4), F.muli(F.sqr(b), 27)) == F.zero: a, b = coeffs(rng, F)
    run_curve(mon, L, rng, E, a, b, "curve over " + shape, steps)
    E.close()
    B.close()


def coords(mon, L, rng, B, G):
    """points given by one or two coordinates, and their coordinates read back"""
    F, C = B.m, G.m
    e, x = G.new(), B.new()
    for i in range(12):
        if F.card < 100 and len(all_points(C, F.card)) < 2: return
        v = C.random(rng)
        if rng.random() < .3: L.set0(e)
        elif rng.random() < .5: L.random(e)
        B.set(x, v[0])
        mon.case("from x", v)
        L.curve_from_x(e, x)
        g = G.get(e)
        mon.check(g in (v, C.neg(v)), "point from its x-coordinate", (g, v), F.card)
        mon.eq(bool(L.is0(e)), False, "point from its x-coordinate is the identity")
        mon.eq(B.get(x), v[0], "point from its x-coordinate: argument changed")
        mon.eq((B.get(L.element_x(e)), B.get(L.element_y(e))), g, "coordinates of a point")
        mon.eq((B.get(L.curve_x(e)), B.get(L.curve_y(e))), g, "coordinates of a point")
        if F.card < 1 << 60:
            if rng.random() < .3: L.set0(e)
            L.curve_set_si(e, v[0] - (F.card if rng.random() < .4 else 0), v[1] - (F.card if rng.random() < .4 else 0))
            mon.eq(G.get(e), v, "point from two integers", v[1] == 0)
            mon.eq(bool(L.is0(e)), False, "point from two integers is the identity")


def u_make(mon, L, rng, p, i):
    """Curves by j-invariant, by b alone, and twists."""
    p = int(p, 16)
    B = pbc.fp(L, p)
    F = B.m
    rd = lambda h: (B.get(L.curve_a(h)), B.get(L.curve_b(h)))
    for t in range(6):
        j = F.uniform(rng)
        if j in (0, 1728 % p): continue
        e = B.new(j)
        G = pbc.CurveH(L, L.field_curve_j(e, L.Z(p), None), None.__class__ and M.Curve(F, 0, 0), "j")
        a, b = rd(G.h)
        mon.case("curve_j", p, j, a, b)
        # j-invariant of y^2 = x^3 + ax + b is 1728 * 4a^3 / (4a^3 + 27b^2)
        n4 = F.muli(F.pow(a, 3), 4)
        den = F.add(n4, F.muli(F.sqr(b), 27))
        mon.check(den != 0 and F.muli(n4, 1728) == F.mul(j, den), "curve from j-invariant has another j", (p, j, a, b), p)
        G.m = M.Curve(F, a, b)
        Group(mon, L, G, rng, "curve_j", sample=lambda: G.m.random(rng)).run(40)
        coords(mon, L, rng, B, G)
        G.free_els()
        L.field_twist(G.h)
        nq = B.get(L.field_nqr(B.h))
        mon.check(not F.is_sqr(nq), "nonresidue is a square", (p, nq))
        a2, b2 = rd(G.h)
        mon.eq((a2, b2), (F.mul(a, F.sqr(nq)), F.mul(b, F.mul(nq, F.sqr(nq)))), "twist coefficients", p)
        G.m = M.Curve(F, a2, b2)
        has = p > 100 or len(all_points(G.m, p)) > 1
        if has:
            Group(mon, L, G, rng, "twist", sample=lambda: G.m.random(rng)).run(40)
        if p < 100:
            n1, n2 = len(all_points(M.Curve(F, a, b), p)), len(all_points(G.m, p))
            mon.eq(n1 + n2, 2 * p + 2, "twist order", p)
        G.close()
        b = F.uniform(rng)
        if b == 0 or p < 7: continue
        e = B.new(b)
        if len(all_points(M.Curve(F, 0, b), p)) < 2 if p < 100 else False: continue
        G = pbc.CurveH(L, L.field_curve_b(e, L.Z(p), None), M.Curve(F, 0, b), "b")
        mon.eq(rd(G.h), (0, b), "curve_b coefficients")
        Group(mon, L, G, rng, "curve_b", sample=lambda: G.m.random(rng)).run(40)
        G.close()
    B.close()


class Node:
    """nonsingular points of y^2 = x^3 + x^2"""
    def __init__(self, F): self.F = F
    def rhs(self, x): return self.F.mul(self.F.sqr(x), self.F.add(x, 1))
    def on(self, P): return P is None or (self.F.sqr(P[1]) == self.rhs(P[0]) and P != (0, 0))
    def neg(self, P): return None if P is None else (P[0], self.F.neg(P[1]))
    mul = M.Curve.mul

    def add(self, P, Q):
        F = self.F
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == 0: return None
            l = F.div(F.add(F.muli(F.sqr(P[0]), 3), F.muli(P[0], 2)), F.muli(P[1], 2))
        else:
            l = F.div(F.sub(Q[1], P[1]), F.sub(Q[0], P[0]))
        x = F.sub(F.sub(F.sub(F.sqr(l), 1), P[0]), Q[0])
        return (x, F.sub(F.mul(l, F.sub(P[0], x)), P[1]))


class NodeH(pbc.FieldH):
    def get(self, e):
        r, s = self.L.capture(lambda f: self.L.out_str(f, 10, e))
        if s == b"O": return None
        return tuple(int(x) for x in s.split())


def u_singular(mon, L, rng, p, steps):
    p = int(p, 16)
    B = pbc.fp(L, p)
    C = Node(B.m)
    G = NodeH(L, L.field_curve_singular(B.h), C, "singular")
    for mode in (0, 1):
        L.random_monitored(rng.getrandbits(31), mode)
        # scalars are bounded so that walks through the identity of the whole group stay cheap
        Group(mon, L, G, rng, "singular", sample=None, order=p - 1 if p < 1000 else None,
              ops=[o for o in Group.OPS if not o.startswith("multi") and o != "load"] + ["random"] * 3).run(steps // 2)
    G.close()
    B.close()


def u_pairing(mon, L, rng, name, steps):
    families.with_shipped(L, name, lambda P: grp(mon, L, rng, P, steps))


def u_generated(mon, L, rng, fam, i, steps):
    P = families.small(L, rng, fam)
    grp(mon, L, rng, P, steps)
    P.close()


def grp(mon, L, rng, P, steps):
    for which in ("G1", "G2"):
        G = getattr(P, which)
        if G is P.G1 and which == "G2": continue
        C, r, cof = G.m, P.r, G.cofactor
        heavy = C.F.card.bit_length() > 400
        left = [2 if heavy else 12]
        tag = "%s %s" % (P.fam, which)
        def member(v):
            if left[0] and v is not None:
                left[0] -= 1
                if G.quotient is None:
                    mon.eq(C.mul(r, v), None, tag + ": element outside the subgroup of order r", P.key)
                elif G.full:
                    mon.eq(C.mul(G.full, v), None, tag + ": element not on the curve of the stated order", P.key)
        ops = None
        st = max(12, steps // 4) if heavy else steps
        if P.kind == "heavy": st = max(10, steps // 6)
        gm = GroupQ if G.quotient else Group
        g = gm(mon, L, G, rng, tag, sample=None if P.kind == "heavy" else (lambda: C.random(rng)), order=r, maxbits=24 if heavy else 60, check=member)
        if G.quotient: g.quotient = G.quotient
        g.run(st)
        e = G.new()
        for n in range(3 if P.q > 1 << 40 else 0):
            d = rng.randbytes(rng.randrange(1, 60))
            mon.case(tag, "from_hash", d.hex())
            L.from_hash(e, d, len(d))
            v = G.get(e)
            mon.check(C.on(v), tag + ": hashed point off the curve", repr(v))
            left[0] += 1
            member(v)
        G.free_els()


class GroupQ(Group):
    """Quotient group: elements are coset representatives, compared modulo the subgroup."""
    def audit(self):
        L, mon, V, R = self.L, self.mon, self.V, self.R
        for i in range(len(R)):
            mon.eq(self.G.get(R[i]), V[i], self.tag + ": an operand or unrelated element changed")
        i, j = self.pick(), self.pick()
        C = self.C
        d = C.mul(self.quotient, C.add(V[i], C.neg(V[j])))
        mon.case(self.tag, "cmp", V[i], V[j])
        mon.eq(L.cmp(R[i], R[j]) == 0, d is None, self.tag + ": cmp of cosets", self.cl(V[i]), self.cl(V[j]))
