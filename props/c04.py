"""Prime fields and integer-mod rings."""
import model as M, pbc
from machine import Ring

RULE = ("an evaluation is one comparison of a library result (or an untouched register, or a predicate) with exact integer "
        "arithmetic; distinct counts (modulus, representation, operation, aliasing pattern, operand class) signatures")
ASSUMPTIONS = ["Python integers are the reference", "GMP is trusted"]


def moduli(rng, tier):
    small = [2, 3, 5, 7, 11, 13, 17, 251, 257, 65521, 65537, 2**31 - 1, 2**32 - 5, 2**61 - 1, 2**63 - 25, 2**64 - 59]
    big = [2**64 + 13, 2**127 - 1, 2**128 - 159, 2**128 + 51, 2**192 - 237, 2**255 - 19, 2**256 - 189, 2**256 + 297, 2**521 - 1,
           M.prev_prime(2**512), M.next_prime(2**512), M.next_prime(2**1023)]
    for b in (65, 72, 80, 96, 127, 129, 149, 159, 160, 161, 191, 201, 224, 383, 512, 1024):
        big.append(M.rand_prime(rng, b))
    # Montgomery-hostile: modulus with low limb all ones / one, high limb tiny or full
    big.append(next(n for n in range((1 << 130) + (1 << 64) - 1, 1 << 140, 1 << 64) if M.is_prime(n)))
    big.append(next(n for n in range((3 << 190) + 1, 1 << 200, 1 << 64) if M.is_prime(n)))
    comp_small = [4, 6, 9, 15, 16, 255, 256, 2**32, 3**20, 2**62, 2**64 - 1]
    comp_odd = [3**60, (2**64 - 59) * (2**64 - 83), 15 * M.rand_prime(rng, 100), (2**64 + 1), 2**128 - 1, M.rand_prime(rng, 70) * M.rand_prime(rng, 90),
                M.rand_prime(rng, 40)**3, 2**192 - 1]
    comp_even = [2**64 + 2, 2**100, 2 * M.rand_prime(rng, 90), 6 * 2**128 + 6, M.rand_prime(rng, 60) * 2**60, 2**128 - 2]
    return small, big, comp_small, comp_odd, comp_even


def units(tier, rng):
    small, big, cs, co, ce = moduli(rng, tier)
    k = 1 if tier == "quick" else 8
    out = []
    for p in small:
        for b in ("naive", "fp"):
            out.append(("field", dict(p=hex(p), backend=b, steps=700 * k)))
    for p in big:
        for b in pbc.BACKENDS:
            out.append(("field", dict(p=hex(p), backend=b, steps=(900 if b in ("mont", "faster") else 450) * k)))
    for p in cs:
        for b in ("naive", "fp"):
            out.append(("ring", dict(p=hex(p), backend=b, steps=500 * k)))
    for p in co:
        for b in pbc.BACKENDS:
            out.append(("ring", dict(p=hex(p), backend=b, steps=600 * k)))
    for p in ce:
        for b in ("naive", "fast", "faster", "fp"):
            out.append(("ring", dict(p=hex(p), backend=b, steps=600 * k)))
    for b in pbc.BACKENDS:
        out.append(("tweak", dict(backend=b)))
    return out


def u_field(mon, L, rng, p, backend, steps):
    p = int(p, 16)
    F = pbc.fp(L, p, backend)
    z = L.Z(0)
    L.field_order(F.h, z)
    mon.eq(L.zget(z), p, "%s: field order" % backend)
    Ring(mon, L, F, rng, backend, extra=p).run(steps)
    small_values(mon, L, rng, F, backend)
    F.close()


def small_values(mon, L, rng, F, backend):
    e = F.new()
    for v in (0, 1, 2, 100, 2**31, 2**62):
        if v < F.m.p:
            F.set(e, v)
            mon.eq(L.to_si(e), v, backend + ": to_si", v.bit_length())


def u_ring(mon, L, rng, p, backend, steps):
    p = int(p, 16)
    F = pbc.fp(L, p, backend)
    R = Ring(mon, L, F, rng, backend + " Z/n", extra=p)
    m = F.m
    facs = [f for f in (2, 3, 5, 15, 2**64 - 59, 2**32, 2**50) if p % f == 0]
    if p in (2**64 + 1, 2**128 - 1, 2**192 - 1): facs += [f for f in (274177, 2**64 - 1, 67280421310721) if p % f == 0]
    base_sample = m.sample

    def sample(rng):  # zero divisors are the interesting values of a composite ring
        if facs and rng.random() < .4:
            f = rng.choice(facs)
            return rng.choice((f, p // f, p // f * rng.randrange(1, f if f < 10**6 else 10**6))) % p
        return base_sample(rng)
    m.sample = sample
    R.run(steps)
    F.close()


def u_tweak(mon, L, rng, backend):
    """Choosing the default representation never changes results."""
    L.tweak(backend.encode() if backend != "fp" else b"mont")
    for p in (2**64 + 13, M.rand_prime(rng, 160), 2 * M.rand_prime(rng, 120), 101):
        F = pbc.fp(L, p, "fp")
        Ring(mon, L, F, rng, "fp tweaked to %s" % backend).run(200)
        F.close()
    L.tweak(b"mont")
