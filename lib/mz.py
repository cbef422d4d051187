"""Nested integer lists: construction, reading back, and the multivariate polynomials they denote."""
import pbc


def build(L, fh, v):
    """element (from el_new) holding the nested list v"""
    e = L.el_new(fh)
    if isinstance(v, int):
        L.set_mpz(e, L.Z(v))
        return e
    x = None
    for i, c in enumerate(v):
        t = build(L, fh, c)
        if i == 0: x = L.multiz_new_list(t)
        else: L.multiz_append(x, t)
        L.libc_free(t)                  # its content now belongs to the list
    L.set(e, x)
    L.element_free(x)
    return e


def get(L, e):
    if L.multiz_is_z(e): return L.leaf(e)
    return [get(L, L.item(e, i)) for i in range(L.item_count(e))]


def sample(rng, depth=3, wide=4):
    c = rng.random()
    if depth == 0 or c < .35:
        return rng.choice((0, 0, 1, -1, rng.randrange(-9, 10), rng.getrandbits(70) * rng.choice((1, -1))))
    return [sample(rng, depth - 1, wide) for _ in range(rng.randrange(1, wide + 1))]


def norm(v):
    """canonical polynomial: int, or list with nonzero top and more than one entry"""
    if isinstance(v, int): return v
    l = [norm(x) for x in v]
    while l and l[-1] == 0: l.pop()
    if not l: return 0
    if len(l) == 1: return l[0] if isinstance(l[0], int) else l
    return l


def text(v, conv=str):
    if isinstance(v, int): return conv(v)
    return "[" + ", ".join(text(x, conv) for x in v) + "]"
