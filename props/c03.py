"""Pairing values against the reduced Tate pairing computed from its definition."""
import model as M, pbc, families
from families import Pairing

RULE = ("an evaluation is one comparison of a pairing value (or of the order of a value) with Miller's algorithm with all denominators "
        "and the full final exponent; distinct counts (parameters, representation, argument situation) signatures")
ASSUMPTIONS = ["reference: Miller's algorithm with denominators over the model fields, final power (q^k-1)/r; type I: the eta_T value, by its published relation to the Tate pairing",
               "small parameter sets are made by enumeration or from the families' equations, not by the library's generators"]
BACK = ("naive", "fast", "faster", "mont")


def units(tier, rng):
    k = 1 if tier == "quick" else 12
    out = []
    for n in families.SHIPPED:
        if n == "i":
            out.append(("shipped", dict(name=n, n=1 if k == 1 else 8, tweak="mont")))
            continue
        reps = 3 if n in ("f", "g149", "a1", "e") else 4
        out.append(("shipped", dict(name=n, n=reps * (1 if k == 1 else 5), tweak="mont")))
        if n in ("a", "d159", "e", "f", "g149"):
            for t in ("naive", "fast", "faster"):
                out.append(("shipped", dict(name=n, n=1 * (1 if k == 1 else 5), tweak=t)))
    for fam, cnt, n in (("a", 14, 40), ("A", 12, 15), ("1", 4, 5), ("D", 18, 25), ("G", 6, 12), ("E", 5, 6), ("F", 8, 5), ("I", 8, 12)):
        for i in range(cnt * k):
            out.append(("small", dict(fam=fam, i=i, n=n)))
    for i in range(3 * k):
        out.append(("tinyf", dict(x=(-2, 1, -1)[i % 3], i=i, n=12)))
    for i in range(2 * k):
        out.append(("generated", dict(fam="d", i=i, n=3)))
    out.append(("generated", dict(fam="g", i=0, n=1)))
    return out


def points(L, rng, P, n):
    """pairs of (element, value) in G1 and G2 by several routes"""
    G1, G2 = P.G1, P.G2
    for i in range(n):
        a, b = G1.new(), G2.new()
        how = rng.choice(("random", "random", "hash", "mult", "same", "model"))
        if how == "hash" and P.q < 1 << 40: how = "random"     # x -> x^2+1 can cycle in a tiny field
        if how == "hash":
            d, d2 = rng.randbytes(rng.randrange(1, 40)), rng.randbytes(rng.randrange(1, 40))
            L.from_hash(a, d, len(d))
            L.from_hash(b, d2, len(d2))
        elif how == "mult":
            L.random(a)
            L.random(b)
            L.mul_mpz(a, a, L.Z(rng.choice((0, 1, 2, 3, P.r - 1, rng.randrange(P.r)))))
            L.mul_mpz(b, b, L.Z(rng.choice((1, 2, P.r - 1, rng.randrange(P.r)))))
        elif how == "same" and P.symmetric:
            L.random(a)
            L.set(b, a) if rng.random() < .5 else L.neg(b, a)
        elif how == "model" and P.kind != "heavy" and P.fam != "i":
            v = G1.m.mul(G1.n // P.r if P.fam != "e" else G1.n // P.r ** 2, G1.m.random(rng))
            if P.fam == "e": v = v if v is None or G1.m.mul(P.r, v) is None else None
            G1.set(a, v)
            w = G2.m.random(rng)
            if P.symmetric: w = G2.m.mul(G1.n // P.r if P.fam != "e" else G1.n // P.r ** 2, w)
            G2.set(b, w)
        else:
            L.random(a)
            L.random(b)
        yield how, a, b


def judge(mon, L, rng, P, n, tag):
    e = P.GT.new()
    for how, a, b in points(L, rng, P, n):
        va, vb = P.G1.get(a), P.G2.get(b)
        if P.fam == "e" and (va is None or vb is None or P.G1.m.mul(P.r, va) is not None): continue
        if rng.random() < .5: L.random(e)
        mon.case(tag, P.text, how, va, vb)
        L.pairing_apply(e, a, b, P.h)
        got = P.GT.get(e)
        exp = P.tate(va, vb)
        mon.eq(got, exp, "%s: pairing differs from the reduced Tate pairing" % P.fam, P.key, how, va is None, vb is None, va == vb)
        mon.check(P.K.pow(got, P.r) == P.K.one, "%s: value of order not dividing r" % P.fam, repr(got), P.key)
        mon.eq((P.G1.get(a), P.G2.get(b)), (va, vb), "%s: pairing changed its inputs" % P.fam, how)
        if got != P.K.one: mon.stat("non-identity values")
        mon.stat("pairings compared")
    P.free_els()


def u_shipped(mon, L, rng, name, n, tweak):
    L.tweak(tweak.encode())
    P = Pairing(L, families.shipped_text(name), name + tweak, "heavy" if name[0] in "fgi" else "normal")
    judge(mon, L, rng, P, n, name + " " + tweak)
    P.close()
    L.tweak(b"mont")


def u_small(mon, L, rng, fam, i, n):
    P = families.small(L, rng, fam)
    P.key = fam + str(i)
    judge(mon, L, rng, P, n, "small " + fam)
    P.close()


def u_tinyf(mon, L, rng, x, i, n):
    P = Pairing(L, families.f_text(rng, x), "bn%d" % x)
    judge(mon, L, rng, P, n, "tiny F")
    P.close()


def u_generated(mon, L, rng, fam, i, n):
    t = families.cm_text(L, rng, fam)
    P = Pairing(L, t, fam + "gen")
    judge(mon, L, rng, P, n, "generated " + fam)
    P.close()
