"""Polynomial rings, irreducibility and roots."""
import model as M, pbc
from machine import Ring, vclass

RULE = ("an evaluation is one comparison with schoolbook polynomial arithmetic, Rabin's test or root enumeration; distinct counts "
        "(base field, operation, aliasing, operand class, degree and factorisation pattern) signatures")
ASSUMPTIONS = ["roots and factor patterns are known by construction or by exhaustive evaluation over small fields"]


def units(tier, rng):
    k = 1 if tier == "quick" else 6
    out = []
    for p in (2, 3, 5, 7, 13, 251, 65537, 2**61 - 1, 2**64 - 59, 2**64 + 13, M.rand_prime(rng, 128), M.rand_prime(rng, 160), M.rand_prime(rng, 300)):
        out.append(("ring", dict(p=hex(p), ext=0, steps=500 * k)))
        out.append(("coeff", dict(p=hex(p), n=120 * k)))
        for i in range(2 * k):
            out.append(("irred", dict(p=hex(p), n=26 if p < 2**70 else 12, i=i)))
        if p > 2:
            for i in range(2 * k):
                out.append(("roots", dict(p=hex(p), n=16 if p < 2**70 else 8, i=i)))
    for p in (3, 7, 11, M.rand_prime(rng, 70)):
        out.append(("ring", dict(p=hex(p), ext=2, steps=250 * k)))
        out.append(("irred", dict(p=hex(p), n=8, i=99, ext=2)))
        out.append(("roots", dict(p=hex(p), n=6, i=99, ext=2)))
    return out


def fields(L, rng, p, ext):
    fs = [pbc.fp(L, int(p, 16))]
    if ext:
        fs.append(pbc.quadratic(L, fs[0]))
    return fs


def close(fs):
    for f in reversed(fs):
        f.close()


def canon(mon, L, P, e, v, tag):
    mon.eq(L.poly_degree(e), len(v) - 1, tag + ": degree", len(v))
    mon.eq(L.item_count(e), len(v), tag + ": coefficient count", len(v))
    mon.eq(bool(L.is0(e)), v == (), tag + ": is0", len(v))


def u_ring(mon, L, rng, p, ext, steps):
    fs = fields(L, rng, p, ext)
    P = pbc.PolyH(L, fs[-1])
    R = Ring(mon, L, P, rng, "poly", extra=(p, ext), ops=["add", "sub", "mul", "neg", "square", "double", "halve", "invert", "div", "set", "set0", "set1", "set_si", "set_mpz",
                                                         "mul_si", "mul_mpz", "load", "load", "load", "pow_mpz", "add", "sub"])
    R.expo = lambda: rng.randrange(4)

    def tame():  # keep degrees bounded
        for i, v in enumerate(R.vals):
            if len(v) > 40:
                R.vals[i] = R.m.sample(rng)
                P.set(R.regs[i], R.vals[i])
    for _ in range(steps):
        R.step()
        tame()
        i = R.pick()
        if rng.random() < .3:
            canon(mon, L, P, R.regs[i], R.vals[i], "poly")
    R.audit()
    P.close()
    close(fs)


def u_coeff(mon, L, rng, p, n):
    """Coefficient-level editing, constants and scaling, on one long-lived polynomial."""
    fs = fields(L, rng, p, 0)
    B = fs[0]
    P = pbc.PolyH(L, B)
    e, d, c = P.new(), P.new(), B.new()
    v = []
    for _ in range(n):
        op = rng.choice(("set", "set0", "set1", "x", "const", "const_self", "emb", "monic"))
        k = rng.randrange(10)
        cv = B.m.sample(rng)
        B.set(c, cv)
        mon.case("coeff", op, k, cv, v)
        pad = v + [0] * (k + 1 - len(v))
        tgt = e
        if op == "set":
            L.poly_set_coeff(e, c, k)
            pad[k] = cv
            v = M.poly_trim(B.m, pad)
        elif op == "set0":
            L.poly_set_coeff0(e, k)
            if k < len(v): v[k] = 0
            v = M.poly_trim(B.m, v)
        elif op == "set1":
            L.poly_set_coeff1(e, k)
            pad[k] = 1 % B.m.p
            v = M.poly_trim(B.m, pad)
        elif op == "x":
            L.poly_setx(e)
            v = [0, 1]
        elif op == "const":
            L.poly_const_mul(d, c, e)
            tgt, w = d, tuple(M.poly_trim(B.m, [x * cv % B.m.p for x in v]))
            mon.eq(P.get(d), w, "poly: multiplication by a constant", vclass(B.m, cv))
            canon(mon, L, P, d, w, "poly const_mul")
        elif op == "const_self":
            L.poly_const_mul(e, c, e)
            v = M.poly_trim(B.m, [x * cv % B.m.p for x in v])
        elif op == "emb":
            L.field_to_poly(e, c)
            v = M.poly_trim(B.m, [cv])
        else:
            k = rng.randrange(0, 9)
            L.poly_random_monic(d, k)
            w = P.get(d)
            mon.check(len(w) == k + 1 and w[-1] == 1 and all(0 <= x < B.m.p for x in w), "poly: random monic polynomial", w, k)
        mon.eq(P.get(e), tuple(v), "poly: coefficient editing (%s)" % op, k, len(v))
        mon.eq(B.get(c), cv, "poly: constant argument changed")
        canon(mon, L, P, e, tuple(v), "poly " + op)
    P.close()
    close(fs)


def mk(B, rng, n):
    while True:
        f = [B.uniform(rng) for _ in range(n)] + [B.one]
        return f


def u_irred(mon, L, rng, p, n, i, ext=0):
    fs = fields(L, rng, p, ext)
    B = fs[-1].m
    P = pbc.PolyH(L, fs[-1])
    e = P.new()
    big = B.card > 1 << 70
    for j in range(n):
        deg = rng.choice((1, 2, 2, 3, 3, 4, 4, 5, 6) if big else (0, 1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 12))
        kind = rng.randrange(4)
        if kind == 0 or deg < 2:
            f = mk(B, rng, deg)
        elif kind == 1:      # product of two halves of equal degree (no small factor)
            f = M.poly_mul(B, mk(B, rng, deg // 2), mk(B, rng, deg - deg // 2))
        elif kind == 2:      # an irreducible one
            f = None
            for _ in range(60 if not big else 12):
                f = mk(B, rng, deg)
                if M.poly_irred(B, f): break
        else:                # perfect power
            g = mk(B, rng, max(1, deg // 2))
            f = M.poly_mul(B, g, g)
        exp = M.poly_irred(B, f)
        P.set(e, tuple(f))
        mon.case("is_irred", p, f)
        got = L.poly_is_irred(e)
        mon.eq(bool(got), bool(exp), "poly: irreducibility", p, ext, deg, kind, exp)
        mon.eq(P.get(e), tuple(f), "poly: irreducibility test changed its argument")
        mon.stat("irreducible" if exp else "reducible")
    P.close()
    close(fs)


def u_roots(mon, L, rng, p, n, i, ext=0):
    fs = fields(L, rng, p, ext)
    F = fs[-1]
    B = F.m
    P = pbc.PolyH(L, F)
    e, r = P.new(), F.new()
    for j in range(n):
        k = rng.randrange(0, 6)
        roots = [B.sample(rng) for _ in range(k)]
        if k > 1 and rng.random() < .4: roots[1] = roots[0]
        f = [B.one]
        for a in roots:
            f = M.poly_mul(B, f, [B.neg(a), B.one])
        if k == 0 or rng.random() < .6:   # times a factor without roots
            while True:
                g = mk(B, rng, rng.choice((2, 2, 3)))
                if M.poly_irred(B, g): break
            f = M.poly_mul(B, f, g)
        P.set(e, tuple(f))
        F.set(r, B.sample(rng))
        mon.case("findroot", p, "f=", f, "roots", roots)
        rc = L.poly_findroot(r, e)
        mon.eq(rc == 0, k > 0, "poly: existence of a root", p, ext, k, len(f))
        mon.eq(P.get(e), tuple(f), "poly: root finding changed its argument")
        if rc == 0:
            v = F.get(r)
            mon.check(M.poly_eval(B, f, v) == B.zero, "poly: reported root is not a root", "%r" % (v,), p, k, len(f))
        mon.stat("with_root" if k else "rootless")
    P.close()
    close(fs)
