"""Hashing to elements."""
import ctypes as C
import model as M, pbc, families, zoo

RULE = ("an evaluation is one hashed element compared with the reference mapping, with the same bytes hashed elsewhere (stale element, other object, other random "
        "seed, other representation), or checked for membership; inputs are exact-size buffers; distinct counts (structure, length class, situation) signatures")
ASSUMPTIONS = ["hashing is offered by prime fields, quadratic and quotient extensions, integers, Zr and the curve groups and GT (not for type I or polynomials)",
               "curves over fields below 2^40 are left out: the documented retry x -> x^2+1 can cycle there",
               "reference: input repeated with a counter byte to the byte length of the modulus, big-endian, shifted right until below the modulus; halves to the two "
               "coordinates of a quadratic extension, the whole to every coordinate of a quotient extension; points from the first x of the chain, root of positive sign, times the cofactor; GT from the field value by the final power"]
FIELDS = ("naive", "fast", "faster", "mont", "fp", "composite", "tiny", "quad", "fi", "polymod", "tower", "z", "multiz")
SMALLP = tuple(f + "." + g for f in ("A", "1", "E") for g in ("G1", "GT", "Zr")) + tuple("F." + g for g in ("G1", "G2", "GT", "Zr")) + ("D.GT", "G.GT", "D.Zr", "G.Zr")


def units(tier, rng):
    k = 1 if tier == "quick" else 12
    out = []
    for nm in families.SHIPPED:
        for g in ("G1", "G2", "GT", "Zr"):
            if nm == "i" and g != "Zr": continue
            if g == "G2" and nm[0] in "ae": continue
            out.append(("group", dict(kind="=" + nm + "." + g, i=0, n=(3 if nm[0] == "g" and g == "G2" else 5 if g == "G2" or g == "GT" else 12) * k)))
    for kind in FIELDS:
        for i in range(8 * k): out.append(("group", dict(kind=kind, i=i, n=50)))
    for kind in ("curvebig", "curvetwist", "curveext"):
        for i in range(6 * k): out.append(("group", dict(kind=kind, i=i, n=16)))
    for kind in SMALLP:
        for i in range(3 * k): out.append(("group", dict(kind=kind, i=i, n=5 if kind == "F.GT" else 14)))
    for i in range(8 * k): out.append(("backends", dict(i=i, n=40)))
    for i in range(4 * k): out.append(("integer", dict(i=i, n=200)))
    return out


def expand(limit, d):
    n = (limit.bit_length() + 7) // 8
    b, c = b"", 0
    while len(b) < n:
        b += d + bytes([c & 255])
        c += 1
    z = int.from_bytes(b[:n], "big")
    while z >= limit: z >>= 1
    return z


def ref_ring(m, d):
    if m.depth == 0: return expand(m.p, d)
    if getattr(m, "quad", False):
        k = len(d) // 2
        return (ref_ring(m.base, d[:k]), ref_ring(m.base, d[k:]))
    return tuple(ref_ring(m.base, d) for _ in range(m.n))


def cofactor(S):
    if S.P is None: return 1
    P, p = S.P, S.P.p
    if S.name.endswith("G2") and not P.symmetric: return 1
    return {"a": "h", "a1": "l", "d": "h", "g": "h", "e": "h"}.get(P.fam) and int(p[{"a": "h", "a1": "l", "d": "h", "g": "h", "e": "h"}[P.fam]]) or 1


def ref_point(L, S, e, d, rng):
    m = S.m
    F = m.F
    x = ref_ring(F, d)
    while not F.is_sqr(m.rhs(x)): x = F.add(F.sqr(x), F.one)
    y = F.sqrt(m.rhs(x), rng)
    t = L.el_new_same(L.curve_y(e))
    S.H._set(t, F, y)
    if L.sgn(t) < 0: y = F.neg(y)
    L.el_free(t)
    c = cofactor(S)
    return (x, y) if c == 1 else m.mul(c, (x, y))


def ref(L, S, e, d, rng):
    if S.name in ("z", "multiz"): return int.from_bytes(d, "little")
    if S.mult:
        v = ref_ring(S.m, d)
        return S.m.one if v == S.m.zero else S.m.pow(v, (S.m.card - 1) // S.P.r)
    return ref_point(L, S, e, d, rng) if S.pts else ref_ring(S.m, d)


def nbytes(S):
    if S.mult: return S.L.len(S.H.els[0]) if S.H.els else 20
    if S.name in ("z", "multiz"): return 20
    m = S.m.F if S.pts else S.m
    while m.depth: m = m.base
    return (m.p.bit_length() + 7) // 8


def data(rng, n):
    ln = rng.choice((0, 1, 2, 3, n - 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 20, 32, rng.randrange(3 * n + 3), rng.choice((400, 700)) if rng.random() < .2 else 5))
    c = rng.randrange(5)
    ln = max(ln, 0)
    if c == 0: return bytes(ln)
    if c == 1: return b"\xff" * ln
    if c == 2: return bytes([rng.getrandbits(8)]) * ln
    return bytes(rng.getrandbits(8) for _ in range(ln))


def hashed(mon, L, e, d, tag):
    b = L.raw(len(d), 0)
    if d: L.raw_put(b, d, len(d))
    L.from_hash(e, b, len(d))
    mon.check(C.string_at(b, len(d)) == d, tag + ": hashing changed its input")
    L.raw_free(b)


def lc(d, n): return (len(d) > n) - (len(d) < n), min(len(d), 3), len(d) % 2


def u_group(mon, L, rng, kind, i, n):
    while True:
        S = zoo.build(L, rng, kind)
        F = S.m.F if S.pts else S.m
        if not S.pts or F.card > 1 << 40: break
        S.close()
    tag, H = kind, S.H
    nb = nbytes(S)
    e, f, g = H.new(), H.new(), H.new()
    other = None
    if S.P is not None:                       # a second object with the same parameters made under another random seed
        L.random_monitored(rng.getrandbits(31), 0)
        other = families.Pairing(L, S.text, "")
        OH = getattr(other, kind.split(".")[1])
        oe = OH.new()
    for j in range(n):
        d = data(rng, nb)
        mon.case(tag, d.hex()[:600], len(d), getattr(S, "text", "")[:1500])
        S.load(e)
        hashed(mon, L, e, d, tag)
        v = H.get(e)
        sig = lc(d, nb)
        mon.eq(v, ref(L, S, e, d, rng), tag + ": hash differs from the reference mapping", sig)
        mon.check(S.wf(v), tag + ": hash is not a valid element", repr(v), sig)
        if S.mult: mon.check(S.m.pow(v, S.order) == S.m.one, tag + ": hashed value outside the group of order r", repr(v), sig)
        if S.pts and S.order and S.P is not None and (S.P.symmetric or kind.endswith("G1")):
            mon.check(S.m.mul(S.order, v) is None, tag + ": hashed point outside the subgroup", repr(v), sig)
        # the same bytes again: fresh, stale, O-holding, aliased-history elements; other random state
        L.random_monitored(rng.getrandbits(31), rng.randrange(2))
        fresh = H.new()
        hashed(mon, L, fresh, d, tag)
        mon.eq(H.get(fresh), v, tag + ": hash into a fresh element differs", sig)
        L.random_monitored(rng.getrandbits(31), 0)
        k = rng.randrange(3)
        if k == 0: L.set0(f)
        elif k == 1: L.set1(f)
        else:
            d2 = data(rng, nb)
            hashed(mon, L, f, d2, tag)
        hashed(mon, L, f, d, tag)
        mon.eq(H.get(f), v, tag + ": hash depends on what the element held", sig, k)
        mon.check(not L.cmp(e, f), tag + ": equal hashes compare unequal", "", k)
        if other:
            hashed(mon, L, oe, d, tag)
            mon.eq(OH.get(oe), v, tag + ": hash differs between objects with equal parameters", sig)
        # every bit that fits influences the result
        if d and 8 * len(d) <= 8 * nb - 24 and not S.group and kind not in ("quad", "fi", "tower"):
            q = rng.randrange(8 * len(d))
            d2 = bytes(x ^ (1 << q % 8 if t == q // 8 else 0) for t, x in enumerate(d))
            hashed(mon, L, g, d2, tag)
            mon.check(H.get(g) != v, tag + ": an input bit has no influence", "bit %d of %s" % (q, d.hex()), len(d))
        mon.stat("inputs hashed")
    if other: other.close()
    S.close()


def u_backends(mon, L, rng, i, n):
    """the same bytes give the same field value in every representation"""
    p = M.rand_prime(rng, zoo.BITS[(i * 2) % len(zoo.BITS)])
    fs = [pbc.fp(L, p, b) for b in pbc.BACKENDS]
    es = [F.new() for F in fs]
    nb = (p.bit_length() + 7) // 8
    for j in range(n):
        d = data(rng, nb)
        mon.case("backends", p, d.hex()[:600])
        r = []
        for F, e in zip(fs, es):
            F.set(e, F.m.sample(rng))
            hashed(mon, L, e, d, F.name)
            r.append(F.get(e))
        mon.check(len(set(r)) == 1, "representations hash differently", repr(r), lc(d, nb))
        mon.eq(r[0], expand(p, d), "prime field hash", lc(d, nb))
    for F in fs: F.close()


def u_integer(mon, L, rng, i, n):
    """pbc_mpz_from_hash for any limit"""
    z = L.z_new()
    for j in range(n):
        bits = rng.choice((1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 160, 161, 512, 2100))
        lim = rng.choice((1 << bits - 1, (1 << bits) - 1, 1 << bits, rng.getrandbits(bits) | 1 << bits - 1))
        nb = (lim.bit_length() + 7) // 8
        d = rng.choice((data(rng, nb), lim.to_bytes(nb, "big"), (lim - 1).to_bytes(nb, "big")))
        b = L.raw(len(d), 0)
        if d: L.raw_put(b, d, len(d))
        mon.case("integer", lim, d.hex()[:600])
        L.mpz_from_hash(z, L.Z(lim), b, len(d))
        L.raw_free(b)
        v = L.zget(z)
        mon.check(0 <= v < lim, "hash to integer not below the limit", "%d %d" % (v, lim), bits)
        mon.eq(v, expand(lim, d), "hash to integer", bits, lc(d, nb))
    L.z_free(z)
