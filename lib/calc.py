"""Reference for the calculator's language: lexer, parser (operator precedence as the grammar declares it) and evaluator."""
import math
import model as M


class Err(Exception):
    """the calculator must report an error for this statement"""


class Skip(Exception):
    """outside what the language defines: the program must not contain it"""


# ---------------------------------------------------------------- structures
class MzS:
    name = "M"
    def zero(self): return {}


def trim(k):
    k = list(k)
    while k and k[-1] == 0: k.pop()
    return tuple(k)


def full(v, pre=()):
    if isinstance(v, int): return {trim(pre): v} if v else {}
    out = {}
    for i, x in enumerate(v): out.update(full(x, pre + (i,)))
    return out


def padd(a, b, s=1):
    o = dict(a)
    for k, c in b.items():
        o[k] = o.get(k, 0) + s * c
        if not o[k]: del o[k]
    return o


def pmul(a, b):
    o = {}
    for k, c in a.items():
        for l, d in b.items():
            n = max(len(k), len(l))
            key = trim((k[i] if i < len(k) else 0) + (l[i] if i < len(l) else 0) for i in range(n))
            o[key] = o.get(key, 0) + c * d
    return {k: c for k, c in o.items() if c}


def pcmp(a, b):
    d = padd(a, b, -1)
    if not d: return 0
    n = max(len(k) for k in d)
    top = max(d, key=lambda k: k + (0,) * (n - len(k)))
    return 1 if d[top] > 0 else -1


def isint(p): return all(k == () for k in p)
def toint(p): return p.get((), 0)


def coeffs(p):
    """coefficients in the first variable"""
    o = {}
    for k, c in p.items(): o.setdefault(k[0] if k else 0, {})[trim(k[1:])] = c
    return [o.get(i, {}) for i in range(max(o) + 1)] if o else [{}]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Ring:
    """a finite structure with a model; kind: fp, ext, poly, curve, gt"""
    def __init__(self, kind, m, order=None, base=None, prime=True, group=False):
        self.kind, self.m, self.order, self.base, self.prime, self.group = kind, m, order, base, prime, group

    def cast(self, p):
        """from a polynomial in nested lists"""
        m = self.m
        if self.kind == "curve":
            if not p: return None
            if p == {(): 1}: return None          # set1 of a group
            c = coeffs(p)
            if len(c) < 2: raise Skip()
            P = tuple(conv(m.F, x) for x in c[:2])
            if len(c) > 2: raise Skip()
            return P if m.on(P) else None
        if self.kind == "poly":
            c = [conv(m.base, x) for x in coeffs(p)]
            while c and c[-1] == m.base.zero: c.pop()
            return tuple(c)
        return conv(m, p)


def conv(m, p):
    if not isinstance(m, M.Ext):
        if not isint(p): raise Skip()
        return toint(p) % m.char
    c = coeffs(p)
    if len(c) > m.n: raise Skip()
    return tuple(conv(m.base, x) for x in c) + (m.base.zero,) * (m.n - len(c))


class Val:
    def __init__(self, S, v): self.S, self.v = S, v


class Fun:
    def __init__(self, name): self.name = name


class Def:
    def __init__(self, name, parms, body): self.name, self.parms, self.body = name, parms, body


MZ, ZZ = "M", "Z"


# ---------------------------------------------------------------- syntax
PREC = {"?": 1, "==": 2, "!=": 2, "<": 2, ">": 2, "<=": 2, ">=": 2, ":=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "neg": 6, "^": 7}
RIGHT = {"?", ":=", "^"}


def lex(s, easy=False):
    i, out = 0, []
    while i < len(s):
        c = s[i]
        if s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0: return out
            i = j + 2
        elif c == "#":
            while i < len(s) and s[i] != "\n": i += 1
        elif c in " \t\r": i += 1
        elif c == "\n":
            if easy: out.append(";")
            i += 1
        elif c.isdigit():
            j = i
            while j < len(s) and s[j].isdigit(): j += 1
            out.append(int(s[i:j]))
            i = j
        elif c.isalpha() or c == "_":
            j = i
            while j < len(s) and (s[j].isalnum() or s[j] == "_"): j += 1
            out.append("define" if s[i:j] == "define" else ("id", s[i:j]))
            i = j
        else:
            for t in (":=", "==", "!=", "<=", ">="):
                if s.startswith(t, i): break
            else: t = c
            i += len(t)
            out.append(":=" if t == "=" and easy else t)
    return out


class Short(SyntaxError):
    """the input ends before the statement does"""


class Parser:
    """on a syntax error, .i is the index of the offending token: the first that no statement has there"""
    def __init__(self, toks, i=0): self.t, self.i = toks, i
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        self.i += 1
        return self.t[self.i - 1]
    def bad(self):
        if self.i >= len(self.t): raise Short("input ends")
        raise SyntaxError("%r at %d" % (self.t[self.i], self.i))
    def want(self, x):
        if self.peek() != x: self.bad()
        self.i += 1
    def name(self):
        if not isinstance(self.peek(), tuple): self.bad()
        return self.next()[1]

    def stmt(self):
        if self.peek() == "define":
            self.next()
            name = self.name()
            self.want("(")
            ps = []
            if self.peek() != ")":
                ps.append(self.name())
                while self.peek() == ",":
                    self.next()
                    ps.append(self.name())
            self.want(")"), self.want("{")
            body = []
            while self.peek() != "}":
                if self.peek() == ";": self.next()
                else: body.append(self.stmt())
            self.want("}")
            return ("define", name, ps, body)
        e = self.expr(0)
        self.want(";")
        return e

    def expr(self, minp):
        t = self.peek()
        if isinstance(t, int): self.next(); e = ("num", t)
        elif t == "[":
            self.next()
            l = [self.expr(0)]
            while self.peek() == ",":
                self.next()
                l.append(self.expr(0))
            self.want("]")
            e = ("list", l)
        elif t == "-":
            self.next()
            e = ("neg", self.expr(PREC["neg"] + 1))
        elif isinstance(t, tuple) and self.i + 1 < len(self.t) and self.t[self.i + 1] == ":=":
            self.i += 2
            e = ("assign", t[1], self.expr(PREC[":="] + 1))
        else:
            if t == "(":
                self.next()
                e = self.expr(0)
                self.want(")")
            elif isinstance(t, tuple): self.next(); e = ("id", t[1])
            else: self.bad()
            while self.peek() == "(":
                self.next()
                a = []
                if self.peek() != ")":
                    a.append(self.expr(0))
                    while self.peek() == ",":
                        self.next()
                        a.append(self.expr(0))
                self.want(")")
                e = ("call", e, a)
            if self.peek() == "[":
                self.next()
                x = self.expr(0)
                self.want("]")
                e = ("item", e, x)
        while True:
            op = self.peek()
            if not isinstance(op, str) or op not in PREC or op == ":=": return e
            p = PREC[op]
            if p < minp: return e
            self.next()
            if op == "?":
                a = self.expr(0)
                self.want(":")
                b = self.expr(PREC["?"])
                e = ("tern", e, a, b)
            else: e = ("bin", op, e, self.expr(p if op in RIGHT else p + 1))


# ---------------------------------------------------------------- evaluation
RESERVED = {"rnd": 1, "random": 1, "ord": 1, "order": 1, "nextprime": 1, "sqrt": 1, "inv": 1, "type": 1, "pairing": 2, "zmod": 1, "poly": 1, "polymod": 1, "extend": 2, "exit": 1, "CHECK": 1}


def limit(p):
    if len(p) > 400 or any(abs(c).bit_length() > 20000 for c in p.values()): raise Skip()
    return p


class World:
    def __init__(self, tab=None):
        self.tab = dict(tab or {})
        self.out = []

    def stmt(self, t):
        """list of expected output lines: ('val', Val) | ('text', str) | ('error',) | ('field',)"""
        self.out = []
        if t[0] == "define":
            self.tab[t[1]] = Def(t[1], t[2], t[3])
            return [("define", t[1])]
        try: v = self.ev(t)
        except Err: return self.out + [("error",)]
        if v is not None and t[0] != "assign":
            self.out.append(("val", v) if isinstance(v, Val) else ("some",))
        return self.out

    def ev(self, t):
        k = t[0]
        if k == "num": return Val(MZ, full(t[1]))
        if k == "list":
            o = {}
            for i, x in enumerate(t[1]):
                v = self.ev(x)
                if not isinstance(v, Val) or v.S != MZ: raise Err()
                for kk, c in v.v.items(): o[trim((i,) + kk)] = c
            return Val(MZ, o)
        if k == "id":
            n = t[1]
            if n in RESERVED or n.startswith("init_pairing_"): return Fun(n)
            if n in ("M", "Z"): return n
            if n not in self.tab: raise Err()
            v = self.tab[n]
            if v is Skip: raise Skip()
            return v
        if k == "assign":
            n = t[1]
            try: v = self.ev(t[2])
            except Err:
                if not (n in RESERVED or n in ("M", "Z")): self.tab[n] = Skip      # what it holds now is not defined
                raise
            if n in RESERVED or n in ("M", "Z") or v is None: raise Err()
            self.tab[n] = v
            return v
        if k == "tern":
            c = self.ev(t[1])
            if not isinstance(c, Val): raise Err()
            return self.ev(t[2] if not self.is0(c) else t[3])
        if k == "neg":
            a = self.elem(t[1])
            return Val(a.S, self.sub(a.S, self.zero(a.S), a.v))
        if k == "bin": return self.bin(t[1], t[2], t[3])
        if k == "item":
            a, i = self.elems([t[1], t[2]])
            if i.S not in (MZ, ZZ): raise Skip()
            i = toint(i.v) if i.S == MZ else i.v
            if a.S == MZ:
                c = coeffs(a.v)
                if i < 0 or i > 10000: raise Err()
                if isint(a.v) or i >= len(c): raise Skip()          # depends on how the list was written
                return Val(MZ, c[i])
            if a.S == ZZ: raise Err()
            if a.S.kind == "ext":
                if not 0 <= i < a.S.m.n: raise Err()
                return Val(a.S.base, a.v[i])
            if a.S.kind == "poly":
                if not 0 <= i < len(a.v): raise Err()
                return Val(a.S.base, a.v[i])
            if a.S.kind == "fp": raise Err()
            raise Skip()
        if k == "call": return self.call(t)
        raise AssertionError(k)

    def elem(self, t):
        v = self.ev(t)
        if not isinstance(v, Val): raise Err()
        return v

    def elems(self, ts):
        """arguments left to right; the first wrong one stops"""
        out = []
        for t in ts: out.append(self.elem(t))
        return out

    def zero(self, S): return {} if S == MZ else 0 if S == ZZ else None if S.kind == "curve" else S.m.one if S.kind == "gt" else S.m.zero
    def is0(self, a): return a.v == self.zero(a.S)

    def sub(self, S, a, b):
        if S == MZ: return limit(padd(a, b, -1))
        if S == ZZ: return a - b
        if S.kind == "curve": return S.m.add(a, S.m.neg(b))
        if S.kind == "gt": return S.m.mul(a, S.m.inv(b))
        return S.m.sub(a, b)

    def bin(self, op, x, y):
        a, b = self.elems([x, y])
        S = a.S
        if op == "^":
            if b.S == MZ: n = toint(b.v)
            elif b.S == ZZ: n = b.v
            elif b.S.kind == "fp": n = b.v
            else: raise Skip()
            if b.S == MZ and not isint(b.v): raise Skip()
            return Val(S, self.pow(S, a.v, n))
        if op == "/" and self.is0(b) and not (b.S not in (MZ, ZZ) and b.S.group): raise Err()
        if b.S is not S and b.S != S: raise Err()
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if S == MZ: c = pcmp(a.v, b.v)
            elif S == ZZ: c = (a.v > b.v) - (a.v < b.v)
            else:
                c = a.v != b.v
                if op not in ("==", "!="): raise Skip()
            return Val(MZ, full(int({"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op])))
        if op == "-": return Val(S, self.sub(S, a.v, b.v))
        if S == MZ:
            if op == "+": return Val(S, limit(padd(a.v, b.v)))
            if op == "*":
                if len(a.v) * len(b.v) > 400: raise Skip()
                return Val(S, limit(pmul(a.v, b.v)))
            if not isint(b.v): raise Skip()
            d = toint(b.v)
            return Val(S, {k: tdiv(c, d) for k, c in a.v.items() if tdiv(c, d)})
        if S == ZZ:
            if abs(a.v).bit_length() + abs(b.v).bit_length() > 20000: raise Skip()
            return Val(S, a.v + b.v if op == "+" else a.v * b.v if op == "*" else tdiv(a.v, b.v))
        m = S.m
        if S.kind == "curve": return Val(S, self.sub(S, a.v, b.v) if op == "/" else m.add(a.v, b.v))
        if S.kind == "gt": return Val(S, self.sub(S, a.v, b.v) if op == "/" else m.mul(a.v, b.v))
        if op == "+": return Val(S, m.add(a.v, b.v))
        if op == "*":
            if S.kind == "poly" and len(a.v) + len(b.v) > 60: raise Skip()
            return Val(S, m.mul(a.v, b.v))
        if S.kind == "poly" or not S.prime: raise Skip()
        return Val(S, m.mul(a.v, m.inv(b.v)))

    def pow(self, S, a, n):
        if S == MZ:
            if n < 0: raise Err()
            if n > 200 or len(a) > 1 and n > 6: raise Skip()
            r = {(): 1}
            for _ in range(n): r = limit(pmul(r, a))
            return r
        if S == ZZ:
            if n < 0 and a == 0: raise Err()
            if n < 0: a, n = a if abs(a) == 1 else 0, -n
            if n > 500 or abs(a).bit_length() * n > 20000: raise Skip()
            return a ** n
        m = S.m
        if S.kind == "curve": return m.mul(n, a)
        if S.kind == "poly":
            if n < 0 or n * max(1, len(a)) > 60: raise Skip()
            r = m.one
            for _ in range(n): r = m.mul(r, a)
            return r
        if n < 0:
            if a == m.zero: raise Err()
            if not S.prime: raise Skip()
        if n < 0: a, n = m.inv(a), -n
        return m.pow(a, n)

    def call(self, t):
        f = self.ev(t[1])
        args = t[2]
        if isinstance(f, Val): raise Err()
        if f is None: raise Err()
        if isinstance(f, Def):
            if len(args) != len(f.parms): raise Err()
            for p, a in zip(f.parms, args):
                try: v = self.ev(a)
                except Err: v = Skip
                self.tab[p] = v if v is not None else Skip
            for s in f.body:
                try:
                    if s[0] == "define": self.tab[s[1]] = Def(s[1], s[2], s[3])
                    else: self.ev(s)
                except Err: self.out.append(("error",))
            return None
        if isinstance(f, Fun): return self.builtin(f.name, args)
        # a structure: cast
        if len(args) != 1: raise Err()
        a = self.elem(args[0])
        if f == MZ:
            if a.S == MZ: return a
            if a.S == ZZ: return Val(MZ, full(a.v))
            if a.S.kind == "fp": return Val(MZ, full(a.v))
            raise Skip()
        if a.S == MZ:
            if f == ZZ:
                if not isint(a.v): raise Skip()
                return Val(ZZ, toint(a.v))
            if f.kind == "gt":
                if a.v in ({}, {(): 1}): return Val(f, f.m.one)
            return Val(f, f.cast(a.v))
        if a.S is not f and a.S != f: raise Err()
        return a

    def builtin(self, n, args):
        if n.startswith("init_pairing_"): raise Skip()
        if len(args) != RESERVED[n]: raise Err()
        if n == "type":
            try: v = self.ev(args[0])
            except Err: raise Skip()
            if v is None: raise Err()
            self.out.append(("text", "element" if isinstance(v, Val) else "builtin" if isinstance(v, Fun) else "function" if isinstance(v, Def) else "field"))
            return v
        if n in ("ord", "order", "rnd", "random", "poly", "extend"):
            f = self.ev(args[0])
            if f is None or isinstance(f, (Val, Fun, Def)): raise Err()
            if n in ("ord", "order"):
                if f in (MZ, ZZ): return Val(MZ, {})
                if f.order is None: raise Skip()
                return Val(MZ, full(f.order))
            if n in ("rnd", "random"): raise Skip()
            if n == "poly":
                if f in (MZ, ZZ) or f.kind not in ("fp", "ext") or not f.prime: raise Skip()
                return Ring("poly", M.PolyRing(f.m), 0, f)
            p = self.elem(args[1])
            if p.S != MZ: raise Err()
            if f in (MZ, ZZ) or f.kind != "fp" or not f.prime: raise Skip()
            c = [conv(f.m, x) for x in coeffs(p.v)]
            while c and not c[-1]: c.pop()
            if len(c) < 2 or c[-1] != 1: raise Err()
            if not irreducible(f.m, c): raise Skip()
            return Ring("ext", M.Ext(f.m, c[:-1]), f.m.p ** (len(c) - 1), f)
        vs = self.elems(args)
        a = vs[0]
        if n == "nextprime":
            if a.S == MZ:
                if not isint(a.v) or toint(a.v) < 0: raise Skip()
                z = toint(a.v)
            elif a.S == ZZ: z = a.v
            else: raise Skip()
            if z < 0 or z.bit_length() > 130: raise Skip()
            z = nextprime(z)
            return Val(a.S, full(z) if a.S == MZ else z)
        if n == "inv":
            if a.S == MZ: raise Err()
            if a.S == ZZ:
                if a.v == 0: raise Err()
                return Val(ZZ, a.v if abs(a.v) == 1 else 0)
            if a.S.group: return Val(a.S, self.sub(a.S, self.zero(a.S), a.v))
            if self.is0(a): raise Err()
            if a.S.kind == "poly" or not a.S.prime: raise Skip()
            return Val(a.S, a.S.m.inv(a.v))
        if n == "sqrt":
            if a.S == MZ: raise Err()
            if a.S == ZZ:
                if a.v < 0 or math.isqrt(a.v) ** 2 != a.v: raise Err()
                return Val(ZZ, math.isqrt(a.v))
            if a.S.kind != "fp" or not a.S.prime or a.S.m.p == 2: raise Skip()
            if a.v == 0: return a
            if pow(a.v, (a.S.m.p - 1) // 2, a.S.m.p) != 1: raise Err()
            v = Val(a.S, None)
            v.root = a.v
            raise Skip()
        if n == "zmod":
            if a.S == MZ: z = toint(a.v)
            elif a.S == ZZ: z = a.v
            else: raise Skip()
            if z <= 1: raise Err()
            if z % 2 == 0 and z > 2: raise Skip()
            return Ring("fp", M.Fp(z), z, prime=M.is_prime(z))
        if n == "polymod":
            if a.S in (MZ, ZZ) or a.S.kind != "poly": raise Skip()
            c = list(a.v)
            if len(c) < 2 or c[-1] != a.S.m.base.one or isinstance(a.S.m.base, M.Ext) or not irreducible(a.S.m.base, c): raise Skip()
            return Ring("ext", M.Ext(a.S.m.base, c[:-1]), a.S.m.base.p ** (len(c) - 1), a.S.base)
        if n == "CHECK":
            if self.is0(a): raise Skip()
            return a
        if n == "pairing":
            if a.S in (MZ, ZZ) or a.S.kind != "curve" or vs[1].S is not a.S: raise Err()
            raise Skip()
        raise Skip()


def nextprime(z):
    z = max(z, 1) + 1
    while not M.is_prime(z): z += 1
    return z


def irreducible(m, c): return len(c) == 2 or M.poly_irred(m, list(c))


def show(v):
    """text the calculator prints for a value; lists of integers are compared by value, not by text"""
    def rec(m, x):
        if isinstance(m, (M.Ext, M.PolyRing)): return "[" + ", ".join(rec(m.base, y) for y in x) + "]"
        return str(x)
    if v.S == ZZ: return str(v.v)
    if v.S.kind == "curve": return "O" if v.v is None else "[" + rec(v.S.m.F, v.v[0]) + ", " + rec(v.S.m.F, v.v[1]) + "]"
    return rec(v.S.m, v.v)
