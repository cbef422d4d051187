"""Decoding hostile bytes yields well-formed elements."""
import ctypes as C
import model as M, pbc, families, zoo
import c10

RULE = ("an evaluation judges one decode of a hostile byte string (bytes consumed, input untouched, value reduced and on the curve) or one later "
        "operation on the decoded element against the model and against a fresh element of the same value; buffers are exact-size under ASan; "
        "distinct counts (structure, encoding, kind of bytes, outcome, operation) signatures")
ASSUMPTIONS = ["the byte string has the advertised length (for self-describing encodings of integers and polynomials: the length its own header states)",
               "a decoded GT element may be any element of the field, as the library does not test subgroup membership"]
KINDS = [k for k in zoo.RINGS + zoo.CURVES if k not in c10.NOBYTES]


def units(tier, rng):
    k = 1 if tier == "quick" else 10
    out = []
    for kind in KINDS:
        for i in range(6 * k): out.append(("struct", dict(kind=kind, i=i, n=70)))
    for kind in zoo.PAIRED:
        if kind in c10.NOBYTES: continue
        for i in range((1 if kind[0] in "FG" else 2) * k): out.append(("struct", dict(kind=kind, i=i, n=30)))
    for kind in zoo.SHIPPED:
        if kind in c10.NOBYTES or kind.endswith("G2") and kind[1] in "aei": continue
        out.append(("struct", dict(kind=kind, i=0, n=(10 if kind[1] in "fg" else 16) * k)))
    return out


def leaves(m):
    """integers making up an encoding, as (characteristic) list"""
    return [m.char] * m.width


def fpbytes(rng, p, w):
    cap = 256 ** w
    c = rng.randrange(12)
    if c == 0: v = cap - 1
    elif c == 1: v = p
    elif c == 2: v = p + rng.randrange(3)
    elif c == 3: v = p * rng.randrange(1, cap // p + 1) + rng.choice((-1, 0, 1))
    elif c == 4: v = 0
    elif c == 5: v = p - 1
    elif c == 6: v = 1 << (8 * w - 1)
    elif c == 7: v = cap - 1 - rng.randrange(5)
    elif c == 8: v = cap - (1 << rng.randrange(8 * w))
    elif c == 9: v = rng.randrange(p)
    else: v = rng.randrange(cap)
    return (v % cap).to_bytes(w, "big")


def coord(rng, F):
    w = (F.char.bit_length() + 7) // 8
    return b"".join(fpbytes(rng, F.char, w) for _ in range(F.width))


def enc(F, v):
    w = (F.char.bit_length() + 7) // 8
    return b"".join(x.to_bytes(w, "big") for x in F.flat(v))


def shift(rng, F, b):
    """the same residues written as larger integers where they fit"""
    w = (F.char.bit_length() + 7) // 8
    out = b""
    for i in range(0, len(b), w):
        v = int.from_bytes(b[i:i + w], "big")
        k = (256 ** w - 1 - v) // F.char
        out += (v + F.char * rng.randrange(k + 1)).to_bytes(w, "big")
    return out


def hostile(mon, L, rng, S, e, n, enc_):
    """(bytes, description)"""
    c = rng.randrange(10)
    if c == 0: return b"\xff" * n, "ones"
    if c == 1: return b"\0" * n, "zeroes"
    if c == 2: return bytes(rng.getrandbits(8) for _ in range(n)), "random"
    if c in (3, 4):
        S.load(e)
        if enc_ == "x-only" and L.is0(e): return b"\0" * n, "zeroes"
        b = bytearray(c10.encode(mon, L, e, enc_, S.name, ()))
        if c == 3 and b: b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif b:
            for _ in range(rng.randrange(1, 4)): b[rng.randrange(len(b))] = rng.choice((0, 255, 128, rng.getrandbits(8)))
        return bytes(b), "mutated"
    if S.name == "gf3m":
        return bytes(rng.choice((0, 255, rng.getrandbits(8))) for _ in range(n)), "digits"
    F = S.m.F if S.pts else S.m
    if S.pts:
        if c == 5: x, d = coord(rng, F), "hostile x"
        else:
            S.load(e)
            v = S.H.get(e)
            if v is None: x, v, d = coord(rng, F), None, "hostile x"
            else: x, d = enc(F, v[0]), "real x"
            if v and c == 6: x, d = shift(rng, F, x), "unreduced x"
            if v and enc_ == "plain":
                y = enc(F, v[1])
                if c == 7: y, d = shift(rng, F, y), "unreduced y"
                elif c == 8: y, d = enc(F, F.neg(v[1])), "opposite"
                elif c == 9: y, d = coord(rng, F), "wrong y"
                return x + y, d
        if enc_ == "plain": return x + coord(rng, F), d
        if enc_ == "x-only": return x, d
        return x + bytes([rng.choice((0, 1, 2, 3, 127, 128, 255))]), d
    return coord(rng, F), "hostile integers"


def build_bytes(mon, L, rng, S, e, enc_):
    if S.name == "z" or S.name == "multiz":
        k = rng.choice((1, 1, 2, 3, 8, 9, 16, 40))
        body = bytes(rng.choice((0, 128, 255, rng.getrandbits(8))) for _ in range(k))
        return k.to_bytes(4, "big") + body, "self-described"
    if S.name in ("poly", "polytower"):
        k = rng.choice((0, 1, 2, 3, 5, 9, 300 if rng.random() < .1 else 4))
        B = S.m.base
        body = b"".join(coord(rng, B) for _ in range(k))
        if k and rng.random() < .5:              # leading coefficients that vanish, also as multiples of the modulus
            w = len(body) // k
            z = rng.randrange(1, k + 1)
            body = body[:len(body) - z * w] + b"".join(shift(rng, B, b"\0" * w) if rng.random() < .5 else b"\0" * w for _ in range(z))
        return bytes((k & 255, k >> 8)) + body, "self-described"
    n = getattr(L, c10.ENC[enc_][0])(e)
    b, d = hostile(mon, L, rng, S, e, n, enc_)
    if len(b) != n: b = (b + b"\xff" * n)[:n]
    return b, d


def u_struct(mon, L, rng, kind, i, n):
    S = zoo.build(L, rng, kind)
    H, tag = S.H, S.name
    e, f, g, h, t = (H.new() for _ in range(5))
    for j in range(n):
        enc_ = rng.choice(("plain", "plain", "compressed", "x-only")) if S.pts else "plain"
        b, d = build_bytes(mon, L, rng, S, f, enc_)
        if rng.random() < .5: S.load(e)
        elif rng.random() < .5: L.set0(e)
        mon.case(tag, enc_, d, b.hex(), getattr(S, "text", "")[:400])
        c10.decode(mon, L, e, b, enc_, tag, (d,))
        v = H.get(e)
        mon.check(S.wf(v), "%s: %s decoded to %s" % (tag, enc_, "a point off the curve" if S.pts else "an unreduced value"), repr(v), d)
        mon.stat("decoded %s" % ("O" if v is None else "value"))
        cl = (enc_, d, S.cl(v))
        # a fresh element of the same value
        if v is None: L.set0(g)
        elif S.settable or S.pts or S.mult: H.set(g, v)
        if not mon.eq(H.get(g), v, tag + ": reference element", *cl): continue
        mon.check(not L.cmp(e, g) and not L.cmp(g, e), tag + ": decoded element differs from an equal one", repr(v), *cl)
        if not S.mult or v != S.m.zero:
            mon.eq(bool(L.is0(e)), v == S.zero, tag + ": is0 after decoding", *cl)
            mon.eq(bool(L.is1(e)), v == (S.zero if S.group else S.m.one), tag + ": is1 after decoding", *cl)
        mon.eq(c10.encode(mon, L, e, "plain", tag, cl), c10.encode(mon, L, g, "plain", tag, cl), tag + ": decoded element encodes differently from an equal one", *cl)
        w = S.load(h)
        if S.mult and v == S.m.zero: continue
        ops = ["add", "sub", "neg", "double", "radd", "set", "self"]
        if not S.group: ops += ["mul", "square", "invert", "halve"]
        for op in rng.sample(ops, 3):
            mon.case(tag, enc_, d, b.hex(), "then", op, w)
            if op == "add": L.add(t, e, h); x = S.add(v, w)
            elif op == "radd": L.add(t, h, e); x = S.add(w, v)
            elif op == "sub": L.sub(t, h, e); x = S.sub(w, v)
            elif op == "neg": L.neg(t, e); x = S.neg(v)
            elif op == "double":
                if S.mult: L.mul(t, e, e)
                else: L.double(t, e)
                x = S.add(v, v)
            elif op == "set": L.set(t, e); x = v
            elif op == "self": L.sub(t, e, g); x = S.zero
            elif op == "mul": L.mul(t, e, h); x = S.m.mul(v, w)
            elif op == "square": L.square(t, e); x = S.m.sqr(v)
            elif op == "invert":
                try: x = S.m.inv(v)
                except (ZeroDivisionError, ValueError): continue
                L.invert(t, e)
            elif op == "halve":
                if tag[:2] == "gf" or S.m.char % 2 == 0: continue
                L.halve(t, e)
                x = S.m.mul(v, S.m.inv(S.m.fromint(2)))
            mon.eq(H.get(t), x, "%s: %s after decoding" % (tag, op), *cl)
    mon.stat("structures", 1)
    S.close()
