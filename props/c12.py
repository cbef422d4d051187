"""Text output and input."""
import ctypes as C
import string
import model as M, pbc, families, zoo, char3, mz

RULE = ("an evaluation is one check of printed text, a returned length, a truncated buffer, a parsed value or a parse verdict; buffers and strings are "
        "exact-size under ASan; distinct counts (structure, base, buffer size relation, kind of text, value class) signatures")
ASSUMPTIONS = ["bases accepted by both directions are 0 (decimal) and 2 to 36; the type I structures print in 10 and 16 only",
               "reading text is offered for prime fields, quadratic and quotient extensions, curves, GT, Zr and integers",
               "white space between the digits of a number is ignored, as the manual says"]
NOPARSE = ("poly", "polytower", "gf3m", "gf32m", "gf33m", "gf36m", "I.G1", "I.G2", "I.GT", "=i.G1", "=i.G2", "=i.GT")
DIG = string.digits + string.ascii_lowercase


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for kind in zoo.RINGS + zoo.CURVES:
        for i in range(6 * k): out.append(("struct", dict(kind=kind, i=i, n=24)))
    for kind in zoo.PAIRED:
        if kind.endswith("G2") and kind[0] in "Aa1EI": continue
        out.append(("struct", dict(kind=kind, i=0, n=12 * k)))
    for kind in zoo.SHIPPED:
        if kind.endswith("G2") and kind[1] in "aei": continue
        out.append(("struct", dict(kind=kind, i=0, n=(4 if kind[1] in "fgi" else 8) * k)))
    for i in range(6 * k): out.append(("lists", dict(i=i, n=60)))
    for i in range(4 * k): out.append(("integers", dict(i=i, n=300)))
    for i in range(2 * k): out.append(("singular", dict(i=i, n=30)))
    return out


def num(n, base):
    b = base or 10
    a, s = abs(n), ""
    digs = DIG.upper() if b < 0 else DIG if b <= 36 else string.digits + string.ascii_uppercase + string.ascii_lowercase
    b = abs(b)
    while True:
        a, d = divmod(a, b)
        s = digs[d] + s
        if not a: break
    return ("-" if n < 0 else "") + s


def words(m, v, base):
    ln = (m + 64) // 64
    out = ""
    for dig in (1, 2):
        for w in range(ln):
            x = sum(1 << i for i in range(64) if w * 64 + i < m and v[w * 64 + i] == dig)
            out += ("0x%x," % x) if base == 16 else "%d," % x
    return out


def fmt(S, v, base):
    def rec(m, v):
        if isinstance(m, M.Gf3m): return words(m.mdeg, v, base)
        if m.depth == 0: return num(v, base)
        if isinstance(m, M.PolyRing) or not tern(m): return "[" + ", ".join(rec(m.base, x) for x in v) + "]"
        return "".join(rec(m.base, x) for x in v)
    def tern(m): return isinstance(m, M.Ext) and (isinstance(m.base, M.Gf3m) or tern(m.base))
    if S.pts:
        if v is None: return "O"
        if isinstance(S.m, M.Curve3): return rec(S.m.F, v[0]) + rec(S.m.F, v[1])
        return "[" + rec(S.m.F, v[0]) + ", " + rec(S.m.F, v[1]) + "]"
    if S.name in ("z", "multiz"): return num(v, base)
    return rec(S.m, v)


def printed(mon, L, rng, e, base, tag, expect, sig):
    r, s = L.capture(lambda f: L.out_str(f, base, e))
    s = s.decode()
    mon.eq(s, expect, tag + ": text written to a stream", base, *sig)
    mon.eq(r, len(s), tag + ": element_out_str returns a wrong length", base, *sig)
    return s


def buffered(mon, L, rng, e, tag, text, sig):
    n = len(text)
    cuts = [i for i, c in enumerate(text) if c in "[], "]
    sizes = {0, 1, 2, n - 1, n, n + 1, n + 2, n + 20, rng.randrange(n + 1), rng.randrange(n + 1)}
    for c in rng.sample(cuts, min(3, len(cuts))): sizes |= {c, c + 1, c + 2}
    for size in sorted(x for x in sizes if x >= 0):
        rel = (size - n if abs(size - n) < 3 else size if size < 3 else 9)
        b = L.raw(size, 0xEE)
        r = L.snprint(b, size, e)
        mon.eq(r, n, tag + ": element_snprint returns a wrong length", rel, *sig)
        if size:
            got = C.string_at(b, size)
            exp = text[:size - 1].encode() + b"\0"
            mon.eq(got[:len(exp)], exp, tag + ": text written to a buffer", rel, *sig)
            mon.eq(got[len(exp):], b"\xEE" * (size - len(exp)), tag + ": bytes after the terminator", rel, *sig)
        L.raw_free(b)


def parse(L, e, text, base):
    d = text.encode("latin-1") + b"\0"
    b = L.raw(len(d), 0)
    L.raw_put(b, d, len(d))
    r = L.set_str(e, b, base)
    ok = C.string_at(b, len(d)) == d
    L.raw_free(b)
    return r, ok


# ---------------------------------------------------------------- reference reader
class Bad(Exception): pass
SP = " \t\n\r\v\f"


def ref(S, s, base):
    """(value, end of token, end including trailing blanks) or Bad"""
    b = base or 10
    def blanks(i):
        while i < len(s) and s[i] in SP: i += 1
        return i
    def integer(i):
        if base != 0 and not 2 <= base <= 36: raise Bad      # O needs no base
        i = blanks(i)
        neg = i < len(s) and s[i] == "-"
        if neg: i += 1
        v, got, end = 0, False, i
        while i < len(s):
            if s[i] in SP: i += 1; continue
            d = DIG.find(s[i].lower()) if s[i] in string.ascii_letters + string.digits else -1
            if d < 0 or d >= b: break
            v, got = v * b + d, True
            i += 1
            end = i
        if not got: raise Bad
        return (-v if neg else v), end
    def rec(m, i):
        if m.depth == 0:
            v, i = integer(i)
            return m.fromint(v), i
        i = blanks(i)
        if s[i:i + 1] != "[": raise Bad
        i += 1
        out = []
        for k in range(m.n):
            v, i = rec(m.base, i)
            out.append(v)
            i = blanks(i)
            if s[i:i + 1] != ("," if k < m.n - 1 else "]"): raise Bad
            i += 1
        return tuple(out), i
    if S.pts:
        i = blanks(0)
        if s[i:i + 1] == "O": return None, i + 1, i + 1
        if s[i:i + 1] != "[": raise Bad
        x, i = rec(S.m.F, i + 1)
        i = blanks(i)
        if s[i:i + 1] != ",": raise Bad
        y, i = rec(S.m.F, i + 1)
        i = blanks(i)
        if s[i:i + 1] != "]": raise Bad
        if not S.m.on((x, y)): raise Bad
        return (x, y), i + 1, blanks(i + 1)
    v, i = rec(S.m, 0)
    return v, i, blanks(i)


def judge(mon, L, S, f, s, base, kind):
    H, tag = S.H, S.name
    S.load(f)
    mon.case(tag, "parse base %d" % base, repr(s), kind, getattr(S, "text", "")[:300])
    r, ok = parse(L, f, s, base)
    mon.check(ok, tag + ": reading changed the text")
    try:
        v, lo, hi = ref(S, s, base)
        mon.check(lo <= r <= hi, tag + ": characters consumed", lambda: "returned %d, token ends at %d, blanks at %d of %r" % (r, lo, hi, s), kind, base)
        mon.eq(H.get(f), v, tag + ": value read from text", kind, base, S.cl(v))
        mon.stat("texts accepted")
    except Bad:
        mon.eq(r, 0, tag + ": malformed text not reported", kind)
        v = H.get(f)
        mon.check(S.wf(v), tag + ": malformed text left an ill-formed element", repr(v), kind)
        mon.stat("texts rejected")


def mutate(rng, s, neg):
    c = rng.randrange(7)
    i = rng.randrange(len(s) + 1)
    pool = "[],; Oxgz0189\t\n.+/(\xff" + ("-" if neg else "")
    if c == 0: return s[:i], "truncated"
    if c == 1: return s[:i] + s[i + 1:], "deleted"
    if c == 2: return s[:i] + rng.choice(pool) + s[i:], "inserted"
    if c == 3: return s[:i] + rng.choice(pool) + s[i + 1:], "replaced"
    if c == 4:
        j = rng.randrange(i, len(s) + 1)
        return s[:i] + s[j:], "cut"
    if c == 5: return "".join(rng.choice(pool) for _ in range(rng.randrange(8))), "noise"
    return s.replace(rng.choice("[],0123456789 "), rng.choice(("", " ", ",", "]")), 1), "substituted"


def space(rng, s):
    out = ""
    for ch in s:
        if ch in "[], " and rng.random() < .5: out += rng.choice(SP) * rng.randrange(3)
        out += ch
    return out


def u_struct(mon, L, rng, kind, i, n):
    S = zoo.build(L, rng, kind)
    H, tag = S.H, S.name
    e, f = H.new(), H.new()
    char3kind = kind in NOPARSE and "poly" not in kind
    for j in range(n):
        v = S.load(e)
        cl = S.cl(v)
        base = rng.choice((0, 10, 16)) if char3kind else rng.choice((0, 10, 16, 2, 36, 8, rng.randrange(2, 37), rng.choice((37, 62, -16, -36))))
        mon.case(tag, "print", base, v, getattr(S, "text", "")[:300])
        t = printed(mon, L, rng, e, base, tag, fmt(S, v, base), (cl,))
        buffered(mon, L, rng, e, tag, fmt(S, v, 10), (cl,))
        mon.eq(H.get(e), v, tag + ": printing changed the element", cl)
        if kind in NOPARSE: continue
        if base < 0 or base > 36: base = rng.choice((0, 10, 16)); t = fmt(S, v, base)
        S.load(f)
        mon.case(tag, "parse base %d" % base, t)
        r, ok = parse(L, f, t, base)
        mon.check(ok, tag + ": reading changed the text")
        mon.eq(r, len(t), tag + ": reading back consumes a different length", base, cl)
        mon.eq(H.get(f), v, tag + ": value not restored from text", base, cl)
        mon.check(not L.cmp(e, f), tag + ": restored element compares unequal", "", base, cl)
        tail = rng.choice(("", ";", ")", "]", ", 5", "!x", "\xff\xff"))
        judge(mon, L, S, f, t + tail, base, "followed by " + repr(tail))
        judge(mon, L, S, f, rng.choice(SP) * rng.randrange(3) + space(rng, t), base, "blanks")
        judge(mon, L, S, f, t.upper(), base, "upper case")
        for _ in range(3):
            s, kd = mutate(rng, t, S.name in ("z", "multiz"))
            if "\0" in s: continue
            judge(mon, L, S, f, s, base, kd)
        if rng.random() < .3: judge(mon, L, S, f, t, rng.choice((1, 37, 62, -10, 1000)), "bad base")
        # still an ordinary element afterwards
        w = S.load(f)
        L.add(f, f, e)
        mon.eq(H.get(f), S.add(w, v), tag + ": sum after reading text", cl)
    S.close()


def u_lists(mon, L, rng, i, n):
    fh = L.field_multiz()
    for _ in range(n):
        v = mz.sample(rng, rng.randrange(1, 5))
        e = mz.build(L, fh, v)
        base = rng.choice((0, 10, 16, 2, 36))
        mon.case("lists", v, base)
        sig = (mz_shape(v),)
        printed(mon, L, rng, e, base, "lists", mz.text(v, lambda x: num(x, base)), sig)
        buffered(mon, L, rng, e, "lists", mz.text(v), sig)
        L.el_free(e)
    L.field_free(fh)


def mz_shape(v): return 0 if isinstance(v, int) else 1 + max(mz_shape(x) for x in v)


def u_integers(mon, L, rng, i, n):
    """the integer reader itself"""
    class I: pts, name, m = False, "z", zoo.IntsM()
    z = L.z_new()
    for _ in range(n):
        base = rng.choice((0, 10, 16, 2, 36, rng.randrange(2, 37), rng.choice((1, 37, -10))))
        v = I.m.sample(rng)
        s = num(v, base if base == 0 or 2 <= base <= 36 else 10)
        kd = "exact"
        if rng.random() < .6: s, kd = mutate(rng, s, True)
        if rng.random() < .3: s = rng.choice(SP) + s
        if "\0" in s: continue
        mon.case("integer", repr(s), base)
        d = s.encode("latin-1") + b"\0"
        b = L.raw(len(d), 0)
        L.raw_put(b, d, len(d))
        L.zset(z, rng.getrandbits(100))
        r = L.mpz_set_str(z, b, base)
        L.raw_free(b)
        try:
            if base != 0 and not 2 <= base <= 36: raise Bad
            v, lo, hi = ref(I, s, base)
            mon.check(lo <= r <= hi, "integer: characters consumed", "returned %d" % r, kd)
            mon.eq(L.zget(z), v, "integer: value read", kd)
        except Bad:
            mon.eq(r, 0, "integer: malformed text not reported", kd)
    L.z_free(z)


def u_singular(mon, L, rng, i, n):
    p = M.rand_prime(rng, rng.choice((5, 8, 70)))
    B = pbc.fp(L, p if p > 3 else 7)
    h = L.field_curve_singular(B.h)
    e = L.el_new(h)
    for j in range(n):
        if j % 7 == 0: L.set0(e)
        else: L.random(e)
        r, s = L.capture(lambda f: L.out_str(f, 10, e))
        mon.case("singular", s)
        mon.eq(r, len(s), "singular: element_out_str returns a wrong length", len(s) == 1)
        buffered(mon, L, rng, e, "singular", s.decode(), (len(s) == 1,))
    L.el_free(e)
    L.field_free(h)
    B.close()
