"""Extension fields and towers."""
import model as M, pbc
from machine import Ring, vclass

RULE = ("an evaluation is one comparison of a library result, untouched register or predicate with the quotient-ring model; "
        "distinct counts (construction, operation, aliasing pattern, operand class) signatures")
ASSUMPTIONS = ["schoolbook quotient-ring arithmetic over Python integers is the reference"]


def primes(rng, res=None, mod=4):
    out = []
    for b in (5, 8, 16, 31, 32, 33, 63, 64, 65, 90, 127, 128, 159, 192, 256, 512):
        out.append(M.rand_prime(rng, b, mod, res) if res is not None else M.rand_prime(rng, b))
    return out


def irred(rng, B, n):
    while True:
        low = [B.uniform(rng) if rng.random() < .7 else B.zero for _ in range(n)]
        if low[0] != B.zero or n == 1:
            if M.poly_irred(B, low + [B.one]):
                return low


def units(tier, rng):
    k = 1 if tier == "quick" else 8
    out = []
    for p in (3, 5, 7, 13, 2**128 - 159, 2**192 - 237, 2**64 - 59) + tuple(primes(rng)):
        out.append(("quad", dict(p=hex(p), backend="fp", nqr=rng.randrange(3), steps=500 * k)))
    for b in ("naive", "fast", "faster"):
        out.append(("quad", dict(p=hex(M.rand_prime(rng, 96)), backend=b, nqr=0, steps=300 * k)))
        out.append(("fi", dict(p=hex(M.rand_prime(rng, 96, 4, 3)), backend=b, steps=300 * k)))
        out.append(("polymod", dict(p=hex(M.rand_prime(rng, 96)), backend=b, n=3, irr=1, steps=200 * k)))
    for p in [3, 7, 11, 19] + primes(rng, 3):
        out.append(("fi", dict(p=hex(p), backend="fp", steps=500 * k)))
    for n in range(1, 14):
        for bits in (3, 64, 65, 160):
            out.append(("polymod", dict(p=hex(M.rand_prime(rng, bits)), backend="fp", n=n, irr=1 if n < 8 or bits < 60 else 0, steps=(260 if n < 8 else 130) * k)))
    for n in (2, 3, 4, 6, 7):
        out.append(("polymod", dict(p=hex(M.rand_prime(rng, 80)), backend="fp", n=n, irr=0, steps=200 * k)))
        out.append(("polymod", dict(p="0x2", backend="fp", n=n, irr=1, steps=300 * k)))
        out.append(("polymod", dict(p="0x3", backend="fp", n=n, irr=1, steps=300 * k)))
    for shape in ("q.q", "p3.q", "q.p6", "p5.q", "q.p3", "p2.p3", "q.q.q", "fi.p3"):
        for bits in (7, 66, 158):
            out.append(("tower", dict(p=hex(M.rand_prime(rng, bits, 12, 7 if "fi" in shape else rng.choice((1, 5, 7, 11)))), shape=shape, steps=110 * k)))
    return out


def order(mon, L, F, tag):
    z = L.Z(0)
    L.field_order(F.h, z)
    mon.eq(L.zget(z), F.m.card, tag + ": field order", F.m.card)


def setnqr(L, rng, F, kind):
    """0: the library picks; 1: smallest nonresidue chosen by the user; 2: a random one."""
    if kind == 0 or F.m.card % 2 == 0: return
    m = F.m
    while True:
        v = m.fromint(rng.randrange(2, 40)) if kind == 1 and m.depth == 0 else m.uniform(rng)
        if not m.is_sqr(v):
            break
    e = F.new(v)
    L.field_set_nqr(F.h, e)


def embed(mon, L, rng, F, base, fn, tag):
    b, e = base.new(), F.new()
    for _ in range(12):
        v = base.m.sample(rng)
        base.set(b, v)
        F.set(e, F.m.sample(rng))
        mon.case(tag, "embed", v)
        fn(e, b)
        mon.eq(F.get(e), F.m.emb(v), tag + ": embedding of a base element", vclass(base.m, v))
        mon.eq(base.get(b), v, tag + ": embedding changed its argument")


def u_quad(mon, L, rng, p, backend, nqr, steps):
    p = int(p, 16)
    B = pbc.fp(L, p, backend)
    setnqr(L, rng, B, nqr)
    F = pbc.quadratic(L, B)
    mon.check(not B.m.is_sqr(F.nqr), "quadratic: adjoined the root of a square", F.nqr, p)
    order(mon, L, F, "quadratic")
    Ring(mon, L, F, rng, "quadratic", extra=p).run(steps)
    embed(mon, L, rng, F, B, L.field_to_quadratic, "quadratic")
    F.close()
    B.close()


def u_fi(mon, L, rng, p, backend, steps):
    p = int(p, 16)
    B = pbc.fp(L, p, backend)
    F = pbc.fi(L, B)
    order(mon, L, F, "fi")
    Ring(mon, L, F, rng, "fi", extra=p).run(steps)
    embed(mon, L, rng, F, B, L.field_to_fi, "fi")
    F.close()
    B.close()


def constmul(mon, L, rng, F, B, tag):
    a, c, d = F.new(), B.new(), F.new()
    for i in range(15):
        v, k = F.m.sample(rng), B.m.sample(rng)
        F.set(a, v)
        B.set(c, k)
        dst = a if i % 3 == 0 else d
        mon.case(tag, "const_mul", k, v)
        L.polymod_const_mul(dst, c, a)
        mon.eq(F.get(dst), F.m.scal(k, v), tag + ": multiplication by a base-field constant", i % 3 == 0, vclass(B.m, k))


def u_polymod(mon, L, rng, p, backend, n, irr, steps):
    p = int(p, 16)
    B = pbc.fp(L, p, backend)
    low = irred(rng, B.m, n) if irr else [B.m.uniform(rng) for _ in range(n)]
    F = pbc.polymod(L, B, low)
    tag = "polymod degree %d" % n
    order(mon, L, F, tag)
    R = Ring(mon, L, F, rng, tag, extra=(p, tuple(low)))
    if n > 6 and p.bit_length() > 64:
        R.ops = R.ops + ["mul", "square", "add", "invert"] * 4
    R.run(steps)
    embed(mon, L, rng, F, B, L.field_to_polymod, tag)
    constmul(mon, L, rng, F, B, tag)
    F.close()
    B.close()


def u_tower(mon, L, rng, p, shape, steps):
    p = int(p, 16)
    fs = [pbc.fp(L, p)]
    for s in shape.split("."):
        B = fs[-1]
        if s == "q":
            setnqr(L, rng, B, rng.choice((0, 2)))
            fs.append(pbc.quadratic(L, B))
        elif s == "fi":
            fs.append(pbc.fi(L, B))
        else:
            fs.append(pbc.polymod(L, B, irred(rng, B.m, int(s[1:]))))
    F = fs[-1]
    order(mon, L, F, "tower " + shape)
    R = Ring(mon, L, F, rng, "tower " + shape, extra=p)
    R.ops = R.ops + ["mul", "square", "add", "sub", "invert", "mul", "neg"] * 2
    R.run(steps)
    for f in reversed(fs):
        f.close()
