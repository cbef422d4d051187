"""Characteristic-three fields and the type I point group."""
import model as M, pbc, char3
from machine import Ring, vclass

RULE = ("an evaluation is one comparison of a library result, untouched register or predicate with polynomial arithmetic over GF(3) "
        "or with the chord-and-tangent law; distinct counts (structure, m, operation, aliasing, operand class) signatures")
ASSUMPTIONS = ["schoolbook GF(3)[x] arithmetic is the reference", "the trinomial x^m+x^t+2 is irreducible (checked for the small fields)",
               "point coordinates are observed through the text form"]
OPS = ["add", "sub", "mul", "neg", "square", "double", "cubic", "set", "set0", "set1", "load", "load", "random", "pow_mpz"]

ODD = [(2, 1), (3, 2), (4, 1), (6, 5), (31, 20), (32, 14), (33, 28), (35, 2), (63, 26), (64, 10), (97, 12), (127, 8), (128, 20),
       (192, 32), (193, 12), (199, 164), (235, 26)]


def units(tier, rng):
    k = 4 if tier == "quick" else 40
    out = []
    for m, t in sorted(char3.SMALL.items()) + ODD:
        for w in range(4):
            st = int((500 if m < 40 else 160 if m < 130 else 60) * (1, .7, .4, .25)[w] * k)
            out.append(("field", dict(m=m, t=t, which=w, steps=max(st, 15))))
    for _, m, t in char3.TABLE[3:]:
        for w in range(4):
            out.append(("field", dict(m=m, t=t, which=w, steps=(16, 10, 6, 4)[w] * k)))
    for m in char3.SMALL:
        for i in range(2):
            out.append(("points", dict(m=m, t=char3.SMALL[m], steps=400 * k, i=i)))
    out.append(("points", dict(m=97, t=12, steps=60 * k, i=0)))
    out.append(("exhaust", dict(m=5, t=4)))
    return out


class Ring3(Ring):
    def valid(self, v): return True       # Gf3H.get rejects unreduced values

    def expo(self):
        c = self.rng.randrange(5)
        if c == 0: return 0
        if c == 1: return self.rng.randrange(1, 10)
        if c == 2 and self.m.card < 1 << 40: return self.m.card + self.rng.randrange(-2, 2)
        return self.rng.getrandbits(self.rng.choice((5, 8, 12, 20)))


def u_field(mon, L, rng, m, t, which, steps):
    tw = char3.tower(L, m, t)
    F = tw[which]
    ops = list(OPS)
    if m < 240:
        ops += ["invert", "div"]
    if m > 90:
        ops.remove("pow_mpz")
    r = Ring3(mon, L, F, rng, F.name, ops=ops, extra=m)
    o = L.Z(0)
    L.field_order(F.h, o)
    mon.eq(L.zget(o), F.m.card, F.name + ": field order", m)
    r.run(steps)
    if which == 0:
        e, f = F.new(), F.new()
        for _ in range(max(3, steps // 60)):
            v = F.m.sample(rng)
            # encoding is the interleaved digit masks
            F.set(e, v)
            mon.case("gf3m", m, "bytes", v)
            mon.eq(L.bytes_of(e)[0], char3.gf3_bytes(m, v), "gf3m: byte form", m)
            if m % 2 and m < 130:
                s = F.m.mul(v, v)
                F.set(e, s)
                mon.case("gf3m sqrt of", s)
                L.sqrt(f, e)
                g = F.get(f)
                mon.eq(F.m.mul(g, g), s, "gf3m: sqrt", m)
    for x in reversed(tw):
        x.close()


def setup(L, m, t):
    if m == 97:
        s = "type i m 97 t 12 n 2726865189058261010774960798134976187171462721 n2 7"
        n, n2 = 2726865189058261010774960798134976187171462721, 7
    else:
        s, n, n2 = char3.param(m, t)
    return L.pairing_new(s.encode(), len(s)), n, n2


def u_points(mon, L, rng, m, t, steps, i):
    P, n, n2 = setup(L, m, t)
    leaf = M.Gf3m(m, t)
    G = char3.PointH(L, L.pairing_G1(P), leaf)
    C = G.m
    regs = [G.new() for _ in range(5)]
    vals = [None] * 5
    for r in regs:
        mon.eq(G.get(r), None, "points: new element is not the identity")
    muls = 0
    for s in range(steps):
        op = rng.choice(("add", "add", "add", "mul", "sub", "div", "neg", "invert", "double", "square", "set", "set0", "set1", "random", "random", "mul_mpz",
                         "pow_mpz", "pow_zn", "tweak"))
        d, a, b = rng.randrange(5), rng.randrange(5), rng.randrange(5)
        if rng.random() < .3: a = d
        if rng.random() < .3: b = a
        va, vb = vals[a], vals[b]
        mon.case("points m=%d" % m, "r%d := %s r%d r%d" % (d, op, a, b), va, vb, vals[d])
        if op in ("add", "mul"):
            getattr(L, op)(regs[d], regs[a], regs[b])
            exp = C.add(va, vb)
        elif op in ("sub", "div"):
            getattr(L, op)(regs[d], regs[a], regs[b])
            exp = C.add(va, C.neg(vb))
        elif op in ("neg", "invert", "set"):
            getattr(L, op)(regs[d], regs[a])
            exp = va if op == "set" else C.neg(va)
        elif op in ("double", "square"):
            getattr(L, op)(regs[d], regs[a])
            exp = C.add(va, va)
        elif op in ("set0", "set1"):
            getattr(L, op)(regs[d])
            exp = None
        elif op == "random":
            L.random(regs[d])
            exp = G.get(regs[d])
            mon.check(C.on(exp), "points: random element off the curve", repr(exp), m)
            if m < 40 or muls < 3:
                muls += 1
                mon.eq(C.mul(n, exp), None, "points: random element outside the order-n subgroup", m)
        elif op in ("mul_mpz", "pow_mpz"):
            k = rng.choice((0, 1, 2, 3, n, n - 1, n + 1, rng.randrange(n), rng.randrange(2 * n))) if m < 40 else rng.randrange(64)
            getattr(L, op)(regs[d], regs[a], L.Z(k))
            exp = C.mul(k, va)
        elif op == "pow_zn":
            z = L.init_Zr(P)
            k = rng.choice((0, 1, 2, n - 1, rng.randrange(n))) if m < 40 else rng.randrange(64)
            L.set_mpz(z, L.Z(k))
            L.pow_zn(regs[d], regs[a], z)
            L.el_free(z)
            exp = C.mul(k, va)
        else:           # make registers equal or opposite to reach the special cases of addition
            L.set(regs[d], regs[a]) if rng.random() < .5 else L.neg(regs[d], regs[a])
            exp = G.get(regs[d])
            mon.check(exp in (va, C.neg(va)), "points: copy", repr(exp))
        mon.eq(G.get(regs[d]), exp, "points: " + op, m, d == a, a == b, d == b, va is None, vb is None, va == vb, va == C.neg(vb))
        vals[d] = exp
        if rng.random() < .3:
            j, k = rng.randrange(5), rng.randrange(5)
            mon.eq(L.cmp(regs[j], regs[k]) == 0, vals[j] == vals[k], "points: cmp", vals[j] is None, vals[k] is None)
            for q in range(5):
                mon.eq(bool(L.is0(regs[q])), vals[q] is None, "points: is0")
                mon.eq(G.get(regs[q]), vals[q], "points: an unrelated element changed")
    G.free_els()
    L.pairing_free(P)


def u_exhaust(mon, L, rng, m, t):
    """every pair of points of the order-n subgroup of the smallest curve"""
    P, n, n2 = setup(L, m, t)
    leaf = M.Gf3m(m, t)
    G = char3.PointH(L, L.pairing_G1(P), leaf)
    g = G.new()
    while L.is0(g):
        L.random(g)
    pts = [G.new() for _ in range(n)]
    vals = [None]
    for i in range(1, n):
        L.add(pts[i], pts[i - 1], g)
        vals.append(G.get(pts[i]))
        mon.eq(vals[i], G.m.mul(i, G.get(g)), "points: multiple of the generator")
    mon.eq(len(set(vals)), n, "points: generator has order n")
    e = G.new()
    for i in range(n):
        for j in range(n):
            mon.case("exhaust", i, j)
            L.add(e, pts[i], pts[j])
            mon.eq(G.get(e), vals[(i + j) % n], "points: sum in the cyclic group", i, j)
            mon.eq(L.cmp(e, pts[(i + j) % n]), 0, "points: cmp of equal points", i, j)
    G.free_els()
    L.pairing_free(P)
