"""Register machine: a pool of long-lived elements with shadow values.  Random operations are
applied to randomly chosen (often aliased) registers of the real library; after each one the
destination is compared with the model, and the untouched registers are re-read at intervals.
Stale representations, clobbered operands and aliasing faults therefore all become visible."""


def vclass(m, v):
    if v is None: return "O"
    if v == m.zero: return 0
    if v == m.one: return 1
    if v == m.neg(m.one): return 2
    return 3


def ints(rng, p, big=True):
    """Integers aimed at representation boundaries."""
    c = rng.randrange(14)
    if c == 0: return 0
    if c == 1: return rng.choice((1, -1, 2, -2, 3))
    if c == 2: return p * rng.choice((1, -1, 2, 3, -5)) + rng.choice((0, 0, 1, -1))
    if c == 3: return rng.choice((1, -1)) * (1 << rng.choice((8, 16, 31, 32, 63, 64, 65, 127, 128, 192))) + rng.choice((-1, 0, 1))
    if c == 4: return rng.randrange(-200, 200)
    if c == 5: return p - rng.randrange(1, 4)
    if c == 6 and big: return rng.getrandbits(p.bit_length() * 3 + 70) * rng.choice((1, -1))
    if c == 7: return -rng.randrange(p)
    if c == 8: return (p - 1) // 2 + rng.randrange(2)
    if c == 9: return rng.getrandbits(rng.randrange(1, p.bit_length() + 2))
    if c == 10: return p * rng.getrandbits(rng.randrange(1, 70))
    return rng.randrange(p)


SI = (0, 1, -1, 2, -2, 3, 5, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**63 - 1, -2**63, -2**63 + 1)


def longs(rng):
    return rng.choice(SI) if rng.random() < .5 else rng.randrange(-2**63, 2**63) >> rng.randrange(64)


def cls(n, p):
    if n == 0: return 0
    s = 1 if n > 0 else -1
    a = abs(n)
    if a % p == 0: return s * 9
    if a < p: return s * (1 + (a.bit_length() > 63))
    return s * 3


UN = {"neg": "neg", "square": "sqr", "double": "dbl", "cubic": "cube", "set": None}
BI = {"add": "add", "sub": "sub", "mul": "mul"}


class Ring:
    def __init__(self, mon, L, F, rng, tag, nregs=5, ops=None, extra=None):
        self.mon, self.L, self.F, self.m, self.rng, self.tag = mon, L, F, F.m, rng, tag
        self.p, self.extra = F.m.char, extra
        self.regs = [F.new() for _ in range(nregs)]
        self.vals = [F.m.zero] * nregs
        for i in range(nregs):
            mon.eq(F.get(self.regs[i]), F.m.zero, tag + ": new element is not zero")
        self.ops = ops or ["add", "sub", "mul", "neg", "square", "double", "halve", "invert", "div", "set", "set0", "set1",
                           "set_si", "set_mpz", "mul_si", "mul_mpz", "pow_mpz", "load", "load", "load", "add_ui", "random"]
        self.trace = []

    def inv(self, v):
        try:
            return self.m.inv(v)
        except (ZeroDivisionError, ValueError):
            return None

    def pick(self):
        return self.rng.randrange(len(self.regs))

    def expo(self):
        r = self.rng
        c = r.randrange(9)
        card = self.m.card
        if c == 0: return 0
        if c == 1: return r.randrange(1, 20)
        if c == 2: return card - r.randrange(3)
        if c == 3: return card + r.randrange(3)
        if c == 4: return 1 << r.randrange(1, 200)
        if c == 5: return (1 << r.randrange(1, 130)) - 1
        return r.getrandbits(r.randrange(2, min(card.bit_length(), 400) + 2))

    def step(self):
        L, m, rng, R, V, mon = self.L, self.m, self.rng, self.regs, self.vals, self.mon
        op = rng.choice(self.ops)
        d, a, b = self.pick(), self.pick(), self.pick()
        if rng.random() < .3: a = d
        if rng.random() < .3: b = rng.choice((a, d))
        va, vb = V[a], V[b]
        arg = None
        sig = ()
        case = lambda x="": mon.case(self.tag, "r%d := %s r%d r%d %s" % (d, op, a, b, x), "a=%r b=%r dest=%r" % (va, vb, V[d]))
        if op in UN:
            f = UN[op]
            exp = getattr(m, f)(va) if f else va
            case()
            getattr(L, op)(R[d], R[a])
            sig = (d == a, vclass(m, va))
        elif op in BI:
            exp = getattr(m, BI[op])(va, vb)
            case()
            getattr(L, op)(R[d], R[a], R[b])
            sig = (d == a, d == b, a == b, vclass(m, va), vclass(m, vb), va == vb, m.zero == exp, vclass(m, V[d]))
        elif op == "halve":
            if self.p == 2 or self.inv(m.fromint(2)) is None: return
            exp = m.mul(va, m.inv(m.fromint(2)))
            case()
            L.halve(R[d], R[a])
            sig = (d == a, vclass(m, va), vclass(m, V[d]))
        elif op == "invert":
            exp = self.inv(va)
            if exp is None: return
            case()
            L.invert(R[d], R[a])
            sig = (d == a, vclass(m, va), vclass(m, V[d]))
        elif op == "div":
            i = self.inv(vb)
            if i is None: return
            exp = m.mul(va, i)
            case()
            L.div(R[d], R[a], R[b])
            sig = (d == a, d == b, a == b, vclass(m, va), vclass(m, vb))
        elif op in ("set0", "set1"):
            exp = m.zero if op == "set0" else m.one
            case()
            getattr(L, op)(R[d])
        elif op == "set_si":
            arg = longs(rng)
            exp = m.fromint(arg)
            case(arg)
            L.set_si(R[d], arg)
            sig = (cls(arg, self.p),)
        elif op == "set_mpz":
            arg = ints(rng, self.p)
            exp = m.fromint(arg)
            case(arg)
            z = L.Z(arg)
            L.set_mpz(R[d], z)
            mon.eq(L.zget(z), arg, self.tag + ": set_mpz changed its integer argument")
            sig = (cls(arg, self.p),)
        elif op == "mul_si":
            arg = longs(rng)
            exp = m.muli(va, arg)
            case(arg)
            L.mul_si(R[d], R[a], arg)
            sig = (cls(arg, self.p), d == a, vclass(m, va))
        elif op == "mul_mpz":
            arg = ints(rng, self.p)
            exp = m.muli(va, arg)
            case(arg)
            z = L.Z(arg)
            L.mul_mpz(R[d], R[a], z)
            mon.eq(L.zget(z), arg, self.tag + ": mul_mpz changed its integer argument")
            sig = (cls(arg, self.p), d == a, vclass(m, va))
        elif op == "add_ui":
            arg = rng.choice((0, 1, 2, 2**32, 2**63 - 1, rng.getrandbits(40)))
            exp = m.add(va, m.fromint(arg))
            case(arg)
            L.add_ui(R[d], R[a], arg)
            sig = (d == a, vclass(m, va))
        elif op == "pow_mpz":
            arg = self.expo()
            exp = m.pow(va, arg)
            case(arg)
            z = L.Z(arg)
            L.pow_mpz(R[d], R[a], z)
            mon.eq(L.zget(z), arg, self.tag + ": pow_mpz changed its integer argument")
            sig = (arg.bit_length() // 16, d == a, vclass(m, va))
        elif op == "load":
            exp = m.sample(rng)
            case()
            self.F.set(R[d], exp)
            sig = (vclass(m, exp),)
        elif op == "random":
            case()
            L.random(R[d])
            exp = None
        else:
            raise NameError(op)
        got = self.F.get(R[d])
        if exp is None:
            exp = got
            mon.check(self.valid(got), self.tag + ": random outside the field", "%r" % (got,))
        ok = mon.eq(got, exp, "%s: wrong result of %s" % (self.tag, op), self.extra, *sig)
        V[d] = exp
        if not ok:
            self.F.set(R[d], exp)
        if rng.random() < .25:
            self.audit()

    def valid(self, v):
        return all(0 <= x < self.p for x in self.m.flat(v))

    def audit(self):
        """Untouched registers hold; predicates and comparison agree with the values."""
        L, m, mon = self.L, self.m, self.mon
        for i, (r, v) in enumerate(zip(self.regs, self.vals)):
            if not mon.eq(self.F.get(r), v, self.tag + ": an operand or unrelated element changed", self.extra, vclass(m, v)):
                self.F.set(r, v)
            mon.eq(bool(L.is0(r)), v == m.zero, self.tag + ": is0", vclass(m, v))
            mon.eq(bool(L.is1(r)), v == m.one, self.tag + ": is1", vclass(m, v))
        i, j = self.pick(), self.pick()
        mon.case(self.tag, "cmp", self.vals[i], self.vals[j])
        mon.eq(L.cmp(self.regs[i], self.regs[j]) == 0, self.vals[i] == self.vals[j], self.tag + ": cmp",
               vclass(m, self.vals[i]), vclass(m, self.vals[j]))

    def run(self, steps):
        for _ in range(steps):
            self.step()
        self.audit()


class Group:
    """Register machine over an additive group with model C (add, neg, mul; None is the identity)."""
    OPS = ("add", "add", "add", "mul", "sub", "div", "neg", "invert", "double", "square", "set", "set0", "set1", "rel", "rel", "load", "load",
           "mul_mpz", "pow_mpz", "mul_si", "multi_double", "multi_add", "random")

    def __init__(self, mon, L, G, rng, tag, sample=None, nregs=6, ops=None, order=None, maxbits=40, setter=None, check=None):
        self.mon, self.L, self.G, self.C, self.rng, self.tag = mon, L, G, G.m, rng, tag
        self.sample, self.ops, self.order, self.maxbits, self.check = sample, ops or self.OPS, order, maxbits, check
        if sample is None:
            self.ops = [o for o in self.ops if o != "load"]
        self.R = [G.new() for _ in range(nregs)]
        self.V = [None] * nregs
        for r in self.R:
            mon.eq(G.get(r), None, tag + ": new element is not the identity")

    def pick(self): return self.rng.randrange(len(self.R))

    def cl(self, v): return 0 if v is None else 1 if self.C.neg(v) == v else 2

    def step(self):
        L, C, rng, R, V, mon, tag = self.L, self.C, self.rng, self.R, self.V, self.mon, self.tag
        op = rng.choice(self.ops)
        d, a, b = self.pick(), self.pick(), self.pick()
        if rng.random() < .3: a = d
        if rng.random() < .25: b = a
        if rng.random() < .15: b = d
        va, vb, k = V[a], V[b], None
        mon.case(tag, "r%d := %s r%d r%d" % (d, op, a, b), va, vb, V[d])
        if op in ("add", "mul"):
            getattr(L, op)(R[d], R[a], R[b])
            exp = C.add(va, vb)
        elif op in ("sub", "div"):
            getattr(L, op)(R[d], R[a], R[b])
            exp = C.add(va, C.neg(vb))
        elif op in ("neg", "invert"):
            getattr(L, op)(R[d], R[a])
            exp = C.neg(va)
        elif op == "set":
            L.set(R[d], R[a])
            exp = va
        elif op in ("double", "square"):
            getattr(L, op)(R[d], R[a])
            exp = C.add(va, va)
        elif op in ("set0", "set1"):
            getattr(L, op)(R[d])
            exp = None
        elif op == "rel":          # make equal / opposite operands common
            if rng.random() < .5:
                L.set(R[d], R[a])
                exp = va
            else:
                L.neg(R[d], R[a])
                exp = C.neg(va)
        elif op == "load":
            exp = self.sample()
            self.G.set(R[d], exp)
        elif op in ("mul_mpz", "pow_mpz"):
            k = self.scalar()
            z = L.Z(k)
            mon.case(tag, "r%d := %s r%d by %d" % (d, op, a, k), va)
            getattr(L, op)(R[d], R[a], z)
            mon.eq(L.zget(z), k, tag + ": scalar changed")
            exp = C.mul(k, va)
        elif op == "mul_si":
            k = rng.choice((0, 1, -1, 2, 3, -5, rng.randrange(-100, 100)))
            if self.maxbits > 70 and rng.random() < .2: k = longs(rng)
            L.mul_si(R[d], R[a], k)
            exp = C.mul(k, va)
        elif op == "random":
            L.random(R[d])
            exp = self.G.get(R[d])
            mon.check(C.on(exp), tag + ": random element is not in the group", repr(exp))
            if self.check: self.check(exp)
        elif op in ("multi_double", "multi_add"):
            import ctypes
            n = rng.randrange(1, len(R) + 1)
            A = [rng.randrange(len(R)) for _ in range(n)]
            B = [rng.randrange(len(R)) for _ in range(n)]
            inplace = rng.random() < .5
            if inplace:
                A = rng.sample(range(len(R)), n)
            arr = lambda l: (ctypes.c_void_p * n)(*l)
            outs = [self.G.new() for _ in range(n)] if not inplace else [R[i] for i in A]
            if not inplace and rng.random() < .5:      # stale outputs
                for o in outs: L.set(o, R[self.pick()])
            pa = arr([R[i] for i in A])
            po = pa if inplace else arr(outs)
            # operands must not be overwritten outputs of another lane
            if inplace: B = [b if b not in A or b == A[i] else A[i] for i, b in enumerate(B)]
            mon.case(tag, op, "inplace" if inplace else "", [V[i] for i in A], [V[i] for i in B])
            if op == "multi_double":
                L.multi_double(po, pa, n)
                e = [C.add(V[i], V[i]) for i in A]
            else:
                L.multi_add(po, pa, arr([R[i] for i in B]), n)
                e = [C.add(V[i], V[j]) for i, j in zip(A, B)]
            for i in range(n):
                mon.eq(self.G.get(outs[i]), e[i], tag + ": " + op, n, inplace, self.cl(V[A[i]]), self.cl(V[B[i]]), V[A[i]] == V[B[i]], i == 0)
            if inplace:
                for i, x in enumerate(A): V[x] = e[i]
            else:
                for o in outs:
                    self.G.els.remove(o)
                    L.el_free(o)
            self.audit()
            return
        else:
            raise NameError(op)
        mon.eq(self.G.get(R[d]), exp, tag + ": " + op, d == a, d == b, a == b, self.cl(va), self.cl(vb), va == vb, va == C.neg(vb), self.cl(V[d]),
               None if k is None else (k > 0) - (k < 0))
        V[d] = exp
        if rng.random() < .2: self.audit()

    def scalar(self):
        rng, o = self.rng, self.order
        c = rng.randrange(8)
        if c == 0: return rng.choice((0, 1, -1, 2, 3))
        if c == 1 and o and o.bit_length() <= self.maxbits: return o + rng.randrange(-2, 3)
        if c == 2: return -rng.getrandbits(rng.randrange(1, self.maxbits))
        return rng.getrandbits(rng.randrange(1, self.maxbits))

    def audit(self):
        L, mon, V, R = self.L, self.mon, self.V, self.R
        for i in range(len(R)):
            mon.eq(self.G.get(R[i]), V[i], self.tag + ": an operand or unrelated element changed")
            mon.eq(bool(L.is0(R[i])), V[i] is None, self.tag + ": is0")
            mon.eq(bool(L.is1(R[i])), V[i] is None, self.tag + ": is1")
        i, j = self.pick(), self.pick()
        mon.eq(L.cmp(R[i], R[j]) == 0, V[i] == V[j], self.tag + ": cmp", self.cl(V[i]), self.cl(V[j]))

    def run(self, n):
        for _ in range(n): self.step()
        self.audit()
