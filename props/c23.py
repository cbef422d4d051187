"""The calculator: programs against a reference evaluator; syntax errors, hostile text, pairings."""
import os, random, re, subprocess
import build, calc, families, model as M
from calc import Err, Skip, Val, Def, Ring, MZ, ZZ

NEEDS_LIB = False
TECHNIQUE = ("runtime monitoring: sanitized calculator (parser regenerated from the grammar) runs generated programs; an offline checker compares its output log statement by statement "
             "with an independent evaluator of the language")
RULE = ("an evaluation is one statement whose complete output was compared with the reference evaluator's (value, text, error report or silence), or one program whose exit status and "
        "stderr (sanitizer reports, syntax error count) were judged; distinct counts (mode, statement shape) signatures")
ASSUMPTIONS = ["operations a structure does not offer (casting a non-integer list to an integer structure, modulus polynomial from a non-polynomial, polynomials over groups, ordering finite-field elements) are outside the language",
               "error wording is free: an error is a line that is neither a number nor a list; what a variable holds after a failed assignment is undefined; function bodies share the caller's variables and do not recurse",
               "numbers are written without leading zeros; results beyond 20000 bits are not generated",
               "after a syntax error the calculator resumes at the token after the offending one when reading standard input; a file program ends there"]
A_Q = 8780710799663312522437781984754049815806883199414208211028653399266475630880222957078625179422662221423155858769582317459277713367317481324925129998224791
A_R = 730750818665451621361119245571504901405976559617
MARK = 7 * 10 ** 40
ENV = dict(build.ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")


def prepare(d):
    build.cli(d)
    return {}


def units(tier, rng):
    k = 1 if tier == "quick" else 20
    out = []
    for i in range(14 * k):
        for mode in ("file", "stdin", "easy"): out.append(("program", dict(mode=mode, i=i, n=150)))
    for i in range(6 * k):
        for mode in ("stdin", "easy"): out.append(("syntax", dict(mode=mode, i=i, n=120)))
    for i in range(3 * k): out.append(("soup", dict(i=i, n=12)))
    for fam in "adefgi":
        for i in range(1 if tier == "quick" else 6): out.append(("pairing", dict(fam=fam, i=i)))
    for i in range(2 * k): out.append(("switch", dict(i=i)))
    out.append(("exits", dict(i=0)))
    out.append(("lines", dict(i=0)))
    for s in ("g2_test.pbc", "pairing_test.pbc"): out.append(("script", dict(s=s)))
    out.sort(key=lambda u: u[0] not in ("script", "pairing", "switch"))
    return out


# ---------------------------------------------------------------- running
def run(mon, text, mode, timeout=120):
    """(status, stdout, stderr) of the calculator; sanitizer reports and crashes are violations"""
    d = mon.ctx["scratch"]
    cmd = [os.path.join(d, "pbc")]
    raw = text.encode("latin1") if isinstance(text, str) else text
    inp, f = raw, None
    if mode == "easy": cmd.append("-y")
    if mode in ("file", "easyfile"):
        if mode == "easyfile": cmd.append("-y")
        f = os.path.join(d, "prog.%d.pbc" % os.getpid())
        open(f, "wb").write(raw)
        cmd.append(f)
        inp = b""
    try: r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        mon.fail("the calculator does not finish", text[-1500:])
        raise Stop()
    finally:
        if f: os.unlink(f)
    err = r.stderr.decode("latin1")
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)|runtime error: ([^\n]*)", err)
    if m or r.returncode < 0 or r.returncode == 99:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) ", err)
        fr = [x for x in fr if not x.startswith(("__", "malloc", "free", "realloc"))]
        mon.fail("calculator crashed: %s in %s" % ((m and (m.group(1) or re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2)))) or "status %d" % r.returncode, fr[0] if fr else "?"),
                 (last_stmt(text, r.stdout.decode("latin1")), err[:800]))
        raise Stop()
    # the library announces on stderr that a point it was given is not on the curve
    return r.returncode, r.stdout.decode("latin1"), re.sub(r"^[Ww]arning.*\n", "", err, flags=re.M)


class Stop(ValueError): pass


def last_stmt(text, out):
    ms = re.findall(r"^(?:> )*7(\d{40})$", out, re.M)
    if not ms: return text[:600]
    i = text.find(str(MARK + int(ms[-1])))
    return text[i + 41:i + 641]


def lines_of(out, mode):
    """output lines without prompts and without the final newline of standard input mode"""
    if mode == "easy": out = re.sub(r"^(> )+", "", out, flags=re.M)
    if mode in ("easy", "stdin") and out.endswith("\n"): out = out[:-1]
    l = out.split("\n")
    if l and l[-1] == "": l.pop()
    return l


NUMLIKE = re.compile(r"[\s\d\[\],-]*\Z")


def parse_list(s):
    """printed multinomial -> dict"""
    toks = re.findall(r"-?\d+|[\[\],]", s)
    if "".join(toks) != s.replace(" ", ""): return None
    pos = 0
    def rec():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != "[": return int(t)
        l = []
        if toks[pos] == "]":
            pos += 1
            return l
        while True:
            l.append(rec())
            t = toks[pos]
            pos += 1
            if t == "]": return l
            if t != ",": raise ValueError
    try: v = rec()
    except (IndexError, ValueError): return None
    return calc.full(v) if pos == len(toks) else None


def match(exp, got):
    """None if the lines are what the items require, else a description"""
    i = 0
    for it in exp:
        if it[0] == "some":
            if i >= len(got): return "nothing printed for a value"
            return None if not NUMLIKE.match(got[i]) else "a number printed for a function or structure"
        if i >= len(got): return "missing output: expected %s" % (describe(it),)
        g = got[i]
        i += 1
        if it[0] == "val":
            v = it[1]
            if v.S == MZ:
                if parse_list(g) != v.v: return "value differs: expected %s" % describe(it)
            elif g != calc.show(v): return "value differs: expected %s" % describe(it)
        elif it[0] == "text":
            if g != it[1]: return "text differs: expected %s" % it[1]
        elif it[0] == "error":
            if not g.strip() or NUMLIKE.match(g): return "no error reported"
        elif it[0] == "define":
            if it[1] not in g: return "definition not acknowledged"
    if i != len(got): return "unexpected output: %s" % got[i][:100]
    return None


def describe(it):
    if it[0] == "val": return str(it[1].v)[:300] if it[1].S == MZ else calc.show(it[1])[:300]
    return repr(it)[:300]


# ---------------------------------------------------------------- generation
class Gen:
    """type-directed random statements over the reference world"""
    NAMES = ["x", "y", "z", "a", "b", "c1", "_t", "Foo", "long_name_9"]
    def __init__(self, rng, easy=False):
        self.rng, self.easy = rng, easy
        F = M.Fp(A_Q)
        g = Ring("curve", M.Curve(F, 1, 0), A_R, group=True)
        gt = Ring("gt", M.Quad(F, A_Q - 1), A_R, group=True)
        zr = Ring("fp", M.Fp(A_R), A_R)
        self.w = calc.World({"G1": g, "G2": g, "GT": gt, "Zr": zr})
        self.nid = 0

    def of(self, S):
        """variables holding elements of S"""
        return [n for n, v in self.w.tab.items() if isinstance(v, Val) and (v.S is S or v.S == S)]

    def rings(self, *kinds): return [n for n, v in self.w.tab.items() if isinstance(v, Ring) and (not kinds or v.kind in kinds)]

    def num(self):
        r = self.rng
        c = r.randrange(8)
        return str(r.randrange(4) if c < 3 else r.randrange(40) if c < 6 else r.getrandbits(r.choice((31, 32, 63, 64, 65, 100, 300))) if c == 6 else r.choice((2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 0, 1)))

    def sp(self, *parts):
        r = self.rng
        return "".join((r.choice(("", "", " ", " ", "  ", "\t")) + p) for p in parts)

    def bin(self, S, d, ops=("+", "-", "*")):
        s = self.sp(self.ex(S, d - 1), self.rng.choice(ops), self.ex(S, d - 1))
        return "(" + s + ")" if self.rng.random() < .35 else s

    def lst(self, d, f=None):
        n = self.rng.choice((1, 2, 2, 3, 3, 4))
        return "[" + ", ".join((f or (lambda: self.ex(MZ, d - 1)))() for _ in range(n)) + "]"

    def ex(self, S, d):
        r = self.rng
        if S == MZ:
            c = r.randrange(22) if d > 0 else r.randrange(5)
            vs = self.of(MZ)
            if c < 2: return self.num()
            if c < 4 and vs: return r.choice(vs)
            if c == 4: return self.lst(d, self.num if d <= 0 else None)
            if c < 9: return self.bin(MZ, d)
            if c == 9: return self.bin(MZ, d, ("/",))
            if c == 10: return self.sp("-", self.ex(MZ, d - 1))
            if c == 11: return self.sp(self.ex(MZ, d - 1), "^", str(r.choice((0, 1, 2, 2, 3, 3, 5, 17))))
            if c < 15: return self.sp(self.ex(self.any(), d - 1) if r.random() < .1 else self.ex(MZ, d - 1), r.choice(("==", "!=", "<", ">", "<=", ">=")), self.ex(MZ, d - 1))
            if c == 15: return self.sp(self.ex(MZ, d - 1), "?", self.ex(MZ, d - 1), ":", self.ex(MZ, d - 1))
            if c == 16: return "(" + self.lst(d) + ")[" + str(r.randrange(4)) + "]"
            if c == 17 and vs: return r.choice(vs) + "[" + self.ex(MZ, 0) + "]"
            if c == 18:
                R = self.any()
                if R in (MZ, ZZ) or R.kind == "fp": return "M(" + self.ex(R, d - 1) + ")"
                return self.sp(self.ex(R, d - 1), r.choice(("==", "!=")), self.ex(R, d - 1))
            if c == 19: return self.sp("nextprime(", str(r.choice((0, 1, 2, 3, 8, 100, 7919, 2 ** 31, 2 ** 64, r.getrandbits(20)))), ")")
            if c == 20:
                n = r.choice(self.rings() + ["M", "Z"])
                return r.choice(("ord", "order")) + "(" + n + ")"
            if c == 21: return self.sp(r.choice(self.NAMES), ":=", self.ex(MZ, d - 1))
            return self.num()
        vs = self.of(S)
        if S == ZZ:
            c = r.randrange(10) if d > 0 else r.randrange(4)
            if c < 2: return "Z(" + r.choice(("", "-")) + self.num() + ")"
            if c < 4: return r.choice(vs) if vs else "Z(" + self.num() + ")"
            if c < 7: return self.bin(ZZ, d)
            if c == 7: return self.bin(ZZ, d, ("/",))
            if c == 8: return self.sp("-", self.ex(ZZ, d - 1))
            return self.sp(self.ex(ZZ, d - 1), "^", r.choice(("2", "3", "0", "Z(2)", "-1")))
        nm = [n for n, v in self.w.tab.items() if v is S]
        if not nm: return r.choice(vs) if vs else "0"
        nm = r.choice(nm)
        def lit():
            if S.kind == "fp": return "%s(%s%s)" % (nm, r.choice(("", "-")), self.num())
            if S.kind == "curve":
                c = r.randrange(5)
                if c == 0: return nm + "(0)"
                if c == 1: return "%s([%s, %s])" % (nm, self.num(), self.num())
                P = S.m.random(r)
                return "%s([%d, %d])" % (nm, P[0], P[1])
            if S.kind == "gt":
                if r.random() < .3: return nm + r.choice(("(0)", "(1)"))
                x = (r.randrange(1, A_Q), r.randrange(A_Q))
                return "%s([%d, %d])" % (nm, x[0], x[1])
            if S.kind == "poly" and isinstance(S.m.base, M.Ext): return "%s([%s])" % (nm, ", ".join(r.choice((self.num(), "[%s, %s]" % (self.num(), self.num()))) for _ in range(r.choice((1, 2, 3)))))
            n = S.m.n if S.kind == "ext" else r.choice((1, 2, 3, 4))
            return "%s([%s])" % (nm, ", ".join(r.choice(("", "", "-")) + self.num() for _ in range(r.randrange(1, n + 1))))
        c = r.randrange(12) if d > 0 else r.randrange(4)
        if c < 2 or (c < 4 and not vs): return lit()
        if c < 4: return r.choice(vs)
        if c < 7: return self.bin(S, d)
        if c == 7: return self.bin(S, d, ("/",))
        if c == 8: return self.sp("-", self.ex(S, d - 1))
        if c == 9: return "inv(" + self.ex(S, d - 1) + ")"
        if c == 10: return self.sp(self.ex(S, d - 1), "^", r.choice(("2", "3", "0", "1", "-1", "(-2)", "17", "Zr(5)", "Z(3)", self.num() if S.kind != "poly" else "4")))
        return self.sp(self.ex(MZ, d - 1), "?", self.ex(S, d - 1), ":", self.ex(S, d - 1))

    def any(self):
        r = self.rng
        c = r.randrange(10)
        rs = self.rings()
        if c < 3: return MZ
        if c < 5: return ZZ
        return self.w.tab[r.choice(rs)]

    def ring(self):
        r = self.rng
        n = r.choice(("F", "K", "R1", "P", "L", "Q2"))
        c = r.randrange(4)
        fps = [x for x in self.rings("fp") if self.w.tab[x].prime]
        if c == 0: return "%s := zmod(%s)" % (n, r.choice(("2", "3", "5", "7", "11", "101", "9", "15", "Z(13)", "65537", str(M.next_prime(2 ** 64)), str(M.next_prime(r.getrandbits(130))), "nextprime(%d)" % r.getrandbits(40))))
        if c == 1:
            f = r.choice(fps)
            m = self.w.tab[f].m
            for _ in range(30):
                k = r.choice((2, 2, 3, 3, 4, 5))
                p = [r.randrange(m.p) for _ in range(k)] + [1]
                if calc.irreducible(m, p): break
            return "%s := extend(%s, [%s])" % (n, f, ", ".join(map(str, p)))
        if c == 2: return "%s := poly(%s)" % (n, r.choice(self.rings("fp", "ext")))
        ps = self.rings("poly")
        if not ps: return "%s := poly(Zr)" % n
        f = r.choice(ps)
        return "%s := polymod(%s)" % (n, self.ex(self.w.tab[f], 0))

    def bad(self):
        """misuse of every kind the language must report"""
        r = self.rng
        R, S = self.any(), self.any()
        e, g = self.ex(R, 1), self.ex(S, 1)
        fld = r.choice(self.rings() + ["M", "Z"])
        defs = [n for n, v in self.w.tab.items() if isinstance(v, Def)]
        fun = r.choice(sorted(calc.RESERVED))
        return r.choice([
            lambda: "nosuch%d" % r.randrange(9), lambda: self.sp(e, "+", "nosuch"), lambda: "nosuch(" + e + ")", lambda: "-nosuch", lambda: "[1, nosuch, 2]",
            lambda: self.sp(e, r.choice(("+", "-", "*", "/", "==", "<=")), g), lambda: self.sp(e, "/", "(" + g + "-" + g + ")"), lambda: self.sp(e, "/", "0"), lambda: "Z(5) / Z(0)",
            lambda: self.sp(e, r.choice(("+", "*", "==")), fld), lambda: self.sp(fld, "+", e), lambda: "-" + fld, lambda: "-" + fun, lambda: "[1, %s]" % fld, lambda: "[%s, 2]" % fun,
            lambda: "[1, %s]" % self.ex(ZZ, 0),
            lambda: fun + "(" + ", ".join(["1"] * r.choice([i for i in range(4) if i != calc.RESERVED[fun]])) + ")", lambda: "init_pairing_a(1)",
            lambda: fld + "()", lambda: fld + "(1, 2)", lambda: fld + "(" + fun + ")", lambda: fld + "(nosuch)",
            lambda: (r.choice(defs) if defs else "nosuch") + "(" + ", ".join(["1"] * r.randrange(5)) + ")",
            lambda: "(" + e + ")(" + g + ")", lambda: "(5)()", lambda: "(" + e + ")[" + r.choice(("-1", "4", "100", "18446744073709551616", "4294967296", "99999999999999999999999")) + "]",
            lambda: "(Z(7))[0]", lambda: "(Zr(7))[0]", lambda: r.choice(("M", "Z", fun)) + " := " + e, lambda: "x := nosuch", lambda: "x := F := nosuch",
            lambda: "inv(" + r.choice(("0", "5", "Z(0)", "Zr(0)")) + ")", lambda: "Zr(0) ^ -1", lambda: "3 ^ -2", lambda: "0 ^ -1", lambda: "Z(0) ^ -1",
            lambda: "zmod(" + r.choice(("0", "1", "-7", "Z(1)", "Z(-5)")) + ")", lambda: "extend(%s, [1, 2, 3, 4])" % r.choice(self.rings("fp")), lambda: "extend(Zr, 5)", lambda: "extend(Zr, Zr(5))",
            lambda: "sqrt(" + r.choice(("5", "Z(5)", "Z(-4)", "[1, 2]", "Zr(%d)" % self.nqr())) + ")",
            lambda: "pairing(" + e + ", " + g + ")", lambda: "ord(" + e + ")", lambda: "rnd(" + e + ")", lambda: "poly(" + e + ")", lambda: fun + " ? 1 : 2", lambda: fld + " ? 1 : 2",
            lambda: "nosuch ? 1 : 2", lambda: "1 ? nosuch : 2", lambda: "0 ? 1 : nosuch", lambda: "f9()()" if "f9" in self.w.tab else "nosuch()()",
            lambda: "inv(" + fld + ")", lambda: "nextprime(" + fld + ")", lambda: "zmod(" + fun + ")", lambda: "type(nosuch)", lambda: "CHECK(nosuch)", lambda: "type(f9(1))" if "f9" in self.w.tab else "type(nosuch)",
        ])()

    def nqr(self):
        while True:
            x = self.rng.randrange(2, A_R)
            if pow(x, (A_R - 1) // 2, A_R) == A_R - 1: return x

    def define(self):
        r = self.rng
        self.nid += 1
        n = r.choice(("f", "g", "h2", "f9"))
        ps = r.sample(self.NAMES, r.choice((0, 1, 1, 2, 3)))
        body = []
        for _ in range(r.choice((0, 1, 2, 3))):
            e = self.ex(self.any(), 2)
            if ps and r.random() < .7: e = self.sp(r.choice(ps), r.choice(("+", "*", "-")), e if r.random() < .5 else r.choice(ps))
            body.append(self.sp(r.choice(self.NAMES), ":=", e) if r.random() < .8 else e)
        return "define %s(%s) {%s}" % (n, ", ".join(ps), "".join(self.sp(b, ";") for b in body))

    def call(self):
        r = self.rng
        ds = [(n, v) for n, v in self.w.tab.items() if isinstance(v, Def)]
        if not ds: return self.define()
        n, v = r.choice(ds)
        return "%s(%s)" % (n, ", ".join(self.ex(self.any(), 1) for _ in v.parms))

    def stmt(self):
        r = self.rng
        c = r.randrange(20)
        if c < 6: return self.ex(self.any(), r.choice((1, 2, 2, 3, 4)))
        if c < 10: return self.sp(r.choice(self.NAMES), ":=", self.ex(self.any(), r.choice((0, 1, 2, 3))))
        if c == 10: return self.ring()
        if c == 11: return self.define()
        if c == 12: return self.call()
        if c == 13: return r.choice(("type", "CHECK")) + "(" + r.choice((self.ex(self.any(), 1), r.choice(list(self.w.tab)), "rnd", "M")) + ")"
        if c == 14: return r.choice(list(self.w.tab))
        if c == 15 and r.random() < .5:
            v = [n for n, x in self.w.tab.items() if isinstance(x, Val)]
            if v:
                n = r.choice(v)
                return "%s := %s" % (r.choice(self.NAMES), n)
        return self.bad()

    def shape(self, t):
        """rough shape of a statement for the coverage count"""
        def rec(t, d):
            if t[0] == "bin": return "(%s%s%s)" % (rec(t[2], d - 1), t[1], rec(t[3], d - 1)) if d else "e"
            if t[0] == "call": return "%s(%s)" % (t[1][1] if t[1][0] == "id" and t[1][1] in calc.RESERVED else "f", ",".join(rec(a, d - 1) for a in t[2])) if d else "c"
            if t[0] in ("neg", "tern", "item", "list") and d: return t[0] + "".join(rec(x, d - 1) for x in (t[1] if t[0] == "list" else t[1:]))[:20]
            return t[0]
        return rec(t, 2)

    def take(self, text):
        """[(ast, expected)] for the text as one or more statements, or None if it is not usable; the world advances"""
        text = text.replace(":=", self.rng.choice((":=", "="))) if self.easy else text
        toks = calc.lex(text + ("" if text.startswith("define") else ";"), self.easy)
        p = calc.Parser(toks)
        keep = dict(self.w.tab)
        out = []
        try:
            while p.peek() is not None:
                if p.peek() == ";":
                    p.next()
                    continue
                t = p.stmt()
                out.append((t, self.w.stmt(t)))
        except (SyntaxError, Skip, RecursionError):
            self.w.tab = keep
            return None
        return text, out


def decorate(rng, s, easy):
    """white space and comments around a statement"""
    c = rng.randrange(12)
    if easy: return s + rng.choice(("\n", "\n", ";\n", " # c ; ( \n", ";;\n", "\n\n", " \t\n"))
    if c == 0: return s + ";# comment ; 5 ( [\n"
    if c == 1: return "/* 3; \n ** / */" + s + ";\n"
    if c == 2: return s + "\n;\n"
    if c == 3: return s + ";;\n\n"
    if c == 4: return s + "; "
    if c == 5: return s.replace(" ", "\n") + ";\r\n"
    if c == 6: return s.replace(" ", "/**/") + ";\n"
    return s + ";\n"


def u_program(mon, L, rng, mode, i, n):
    easy = mode == "easy"
    G = Gen(rng, easy)
    prog, exp = [], []
    mk = MARK
    while len(exp) < n:
        t = G.take(G.stmt())
        if t is None: continue
        prog.append(decorate(rng, t[0], easy))
        prog.append("%d%s" % (mk, "\n" if easy else ";\n"))
        exp.append((t[0], t[1], mk))
        mk += 1
    for v in sorted(k for k, x in G.w.tab.items() if isinstance(x, Val)):
        t = G.take(v)
        prog.append(t[0] + ("\n" if easy else ";\n"))
        prog.append("%d%s" % (mk, "\n" if easy else ";\n"))
        exp.append((t[0], t[1], mk))
        mk += 1
    text = "".join(prog)
    if rng.random() < .5: text = text.rstrip("\n")
    if not easy and rng.random() < .3: text += rng.choice((" # end", "/* end", "\n#", "/* end */"))
    mon.case(mode, text[:3000])
    rc, out, err = run(mon, text, mode)
    mon.check(rc == 0 and not err, "program ends normally without syntax errors", (rc, err[:300]))
    judge(mon, exp, lines_of(out, mode), mode, G)


def judge(mon, exp, got, mode, G):
    pos = 0
    for text, items, mk in exp:
        try: j = got.index(str(mk), pos)
        except ValueError:
            mon.fail("output ends early: a statement after this one was not evaluated", (text, got[pos:pos + 5]))
            return
        seg = got[pos:j]
        pos = j + 1
        want = [x for _, e in items for x in e]
        m = match(want, seg)
        if m: mon.fail("wrong output: " + m.split(":")[0], (text, m, [s[:300] for s in seg[:4]]))
        else: mon.ok((mode, G.shape(items[-1][0]) if items else "-", want[-1][0] if want else "silent"))
        for x in want: mon.stat(x[0])
    if pos != len(got): mon.fail("output after the last statement", got[pos:pos + 3])


# ---------------------------------------------------------------- syntax errors
def mutate(rng, s):
    toks = re.findall(r"\s+|:=|[=!<>]=|\w+|.", s)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        if not toks: break
        i = rng.randrange(len(toks))
        c = rng.randrange(4)
        if c == 0: del toks[i]
        elif c == 1: toks.insert(i, rng.choice(("(", ")", "[", "]", "{", "}", ",", ";", "?", ":", "+", "-", "*", "/", "^", ":=", "==", "5", "x", "define ", "$", "@", "!", "'", "&", "%", "<", ".")))
        elif c == 2: toks.insert(i, toks[rng.randrange(len(toks))])
        else: toks[i] = rng.choice((")", "]", "}", "7", " ", ",", "*", "~", "|"))
    return "".join(toks)


def u_syntax(mon, L, rng, mode, i, n):
    """after a syntax error the calculator resumes behind the offending token"""
    easy = mode == "easy"
    G = Gen(rng, easy)
    prog, exp, nerr, mk = [], [], 0, MARK
    while len(exp) < n:
        text = G.stmt()
        if rng.random() < .6: text = mutate(rng, text)
        text = text.replace("\n", " ") + ";"
        if "#" in text or "/*" in text or '"' in text: continue
        toks = calc.lex(text, easy)
        keep = dict(G.w.tab)
        items, p, errs = [], calc.Parser(toks), 0
        try:
            while p.peek() is not None:
                if p.peek() == ";":
                    p.next()
                    continue
                try: t = p.stmt()
                except calc.Short: raise Skip()
                except SyntaxError:
                    errs += 1
                    p = calc.Parser(toks, p.i + 1)
                    continue
                items.append((t, G.w.stmt(t)))
        except (Skip, RecursionError):
            G.w.tab = keep
            continue
        nerr += errs
        prog.append("%s\n%d;\n" % (text, mk))
        exp.append((text, items, mk))
        mk += 1
    text = "".join(prog)
    mon.case(mode, text[:3000])
    rc, out, err = run(mon, text, mode)
    mon.check(rc == 0, "a program with syntax errors read from standard input ends normally", rc)
    judge(mon, exp, lines_of(out, mode), mode + "+errors", G)
    mon.eq(len([l for l in err.split("\n") if l]), nerr, "one report per syntax error")
    mon.stat("syntax errors", nerr)


WORDS = ["define", "x", "y", "f", "G1", "GT", "Zr", "M", "Z", "rnd", "ord", "inv", "sqrt", "type", "pairing", "zmod", "poly", "extend", "nextprime", "1", "0", "7", "12345678901234567890123", "(", ")", "(", ")", "[", "]",
         ",", ";", ";", ";", "{", "}", "?", ":", "+", "-", "*", "/", ":=", "==", "<=", "<", "!=", "#", "\n", "/*", "*/", "$", "\xff", "\t"]


def u_soup(mon, L, rng, i, n):
    """arbitrary text: no memory errors, and the process ends by itself"""
    for k in range(n):
        c = rng.randrange(3)
        if c == 0: t = "".join(chr(rng.choice((rng.randrange(1, 256), rng.randrange(32, 127)))) for _ in range(rng.randrange(400))).replace("^", "").replace("exit", "")
        else: t = " ".join(rng.choice(WORDS) for _ in range(rng.randrange(600)))
        if c == 2:
            G = Gen(rng)
            # half-plausible calls: everything applied to everything
            a = lambda: rng.choice(("1", "0", "-3", "[1,2]", "Z(4)", "Z", "M", "Zr(3)", "Zr", "G1(0)", "G1", "GT(1)", "rnd", "x", "f", "rnd(G1)", "rnd(Zr)", "rnd(GT)", "pairing(rnd(G1),rnd(G2))", "poly(Zr)", "f()", "(Z(3))[0]", "zmod(7)", "zmod(9)"))
            t = "define f() {}; x := 4;" + "".join(rng.choice(("%s(%s)" % (rng.choice([w for w in calc.RESERVED if w not in ("exit", "CHECK", "polymod", "poly", "extend", "sqrt", "nextprime", "zmod", "random", "rnd")] + ["rnd", "rnd"]), ",".join(a() for _ in range(rng.choice((1, 1, 2))))),
                                                                   a() + rng.choice(("+", "-", "*", "/", "==", "!=")) + a(), "(%s)[%s]" % (a(), a()), "x := " + a(), "%s ? %s : %s" % (a(), a(), a()), "(%s)(%s)" % (a(), rng.choice(("1", "0", "Z(3)")))) ) + ";" for _ in range(60)) if offered else ""
        mode = rng.choice(("file", "stdin", "easy"))
        mon.case(mode, t)
        rc, out, err = run(mon, t, mode)
        mon.check(rc == 0, "arbitrary text does not end the calculator", (rc, t[:800], err[:200]))


offered = True


# ---------------------------------------------------------------- pairings
def ask(mon, stmts, mode="file", pre=""):
    """runs statements that must each print 1"""
    text = pre + "".join("%s;\n%d;\n" % (s, MARK + i) for i, s in enumerate(stmts))
    mon.case(mode, text[:3000])
    rc, out, err = run(mon, text, mode, 300)
    mon.check(rc == 0 and not err, "program ends normally", (rc, err[:300]))
    got = lines_of(out, mode)
    pos = 0
    for i, s in enumerate(stmts):
        try: j = got.index(str(MARK + i), pos)
        except ValueError: mon.fail("output ends early", s); return
        mon.eq(got[pos:j], [] if ":=" in s or s.startswith("init_") else ["1"], "identity " + re.sub("[0-9]", "", s))
        pos = j + 1


IDENT = ["pairing(g, h) != GT(1)", "pairing(g ^ a, h) == pairing(g, h) ^ a", "pairing(g, h ^ b) == pairing(g, h) ^ b", "pairing(g ^ a, h ^ b) == pairing(g, h) ^ (a * b)",
         "pairing(g * g2, h) == pairing(g, h) * pairing(g2, h)", "pairing(g, h * h2) == pairing(g, h) * pairing(g, h2)", "pairing(g + g2, h) == pairing(g, h) + pairing(g2, h)", "pairing(G1(0), h) == GT(1)", "pairing(g, G2(0)) == GT(1)",
         "pairing(-g, h) == inv(pairing(g, h))", "pairing(g / g2, h) == pairing(g, h) / pairing(g2, h)", "pairing(g, h) ^ ord(GT) == GT(1)", "g ^ ord(G1) == G1(0)", "h ^ ord(G2) == G2(0)", "ord(G1) == ord(Zr)",
         "a * inv(a) == Zr(1)", "a / a == Zr(1)", "a - a == Zr(0)", "g * inv(g) == G1(0)", "g != g ^ 2", "g ^ 2 == g * g", "g ^ 3 == g + g + g", "g ^ -1 == inv(g)", "(g ^ a) ^ b == g ^ (a * b)", "g ^ a ^ 2 == g ^ (a ^ 2)",
         "g ^ M(a) == g ^ a", "Zr(M(a)) == a", "M(a) < ord(Zr)", "M(a) >= 0", "(g == g2) == (g2 == g)", "a ^ 0 == Zr(1)", "a ^ 3 == a * a * a", "sqrt(a * a) ^ 2 == a ^ 2"]


def u_pairing(mon, L, rng, fam, i):
    st = ["init_pairing_%s()" % fam, "g := rnd(G1)", "g2 := rnd(G1)", "h := rnd(G2)", "h2 := random(G2)", "a := rnd(Zr)", "b := rnd(Zr)"]
    ids = list(IDENT)
    if fam in "ai": ids += ["pairing(g, h) == pairing(h, g)", "h := g", "pairing(h, g) != GT(1)", "h := h2"]
    rng.shuffle(ids)
    if fam == "e" : ids = ids[:14]
    for x in ids:
        st.append(x)
    if fam == "a": st = st[1:] if rng.random() < .5 else st
    ask(mon, st, rng.choice(("file", "stdin")))
    mon.stat("pairing identities " + fam, len(ids))


def u_switch(mon, L, rng, i):
    """elements of earlier pairings stay usable after the pairing changes"""
    st, n = [], 0
    for k in range(5):
        f = rng.choice("adfgi")
        st.append("init_pairing_%s()" % f)
        st += ["g%d := rnd(G1)" % k, "h%d := rnd(G2)" % k, "a%d := rnd(Zr)" % k, "e%d := pairing(g%d, h%d)" % (k, k, k), "U%d := G1" % k, "T%d := GT" % k]
        for _ in range(4):
            j = rng.randrange(k + 1)
            st.append(rng.choice(("pairing(g%d ^ a%d, h%d) == e%d ^ a%d", "pairing(g%d, h%d ^ a%d) == e%d ^ a%d")).replace("%d", str(j)))
            st.append("e%d ^ ord(T%d) == T%d(1)".replace("%d", str(j)))
            st.append("g%d - g%d == U%d(0)".replace("%d", str(j)))
    ask(mon, st, rng.choice(("file", "stdin")))


def u_exits(mon, L, rng, i):
    for n in (0, 1, 2, 7, 42, 255):
        for mode in ("file", "stdin", "easy"):
            rc, out, err = run(mon, "5;\nexit(%d);\n6;\n" % n, mode)
            mon.eq(rc, n, "exit status", mode)
            mon.eq(lines_of(out, "easy")[0], "5", "output before exit")
            mon.check("6" not in out, "nothing runs after exit", out)
    for e in ("0", "1 == 2", "Z(0)", "Zr(0)", "G1(0)", "5 - 5", "[0, 0]"):
        rc, out, err = run(mon, "5;\nCHECK(%s);\n6;\n" % e, "file")
        mon.check(rc != 0 and err.strip() != "" and "6" not in out, "a failed CHECK ends the program with an error", (e, rc, out), e)
    for e in ("1", "1 == 1", "Z(-3)", "Zr(4)", "rnd(G1)", "[0, 1]", "-1"):
        rc, out, err = run(mon, "CHECK(%s);\n6;\n" % e, "file")
        mon.check(rc == 0 and lines_of(out, "file")[-1:] == ["6"] and not err, "a CHECK that holds is passed", (e, rc, out), e)
    r = subprocess.run([os.path.join(mon.ctx["scratch"], "pbc"), os.path.join(mon.ctx["scratch"], "no_such_file")], input=b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=60)
    mon.check(r.returncode > 0 and r.returncode != 99 and r.stderr, "a missing program file is an error", r.returncode)
    # a program file that ends in a syntax error: everything before it has been evaluated
    for t in ("1;\n2;\n3 3;\n", "1;\n2;\n(((", "1;\n2;\n}\n", "1;\n2;\n4", "1;\n2;\ndefine f( {", "1;\n2;\n$"):
        rc, out, err = run(mon, t, "file")
        mon.eq(out.split("\n")[:2], ["1", "2"], "statements before a syntax error", t)
        mon.check(err.strip() != "", "a syntax error in a file is reported", t)


def u_lines(mon, L, rng, i):
    """lines of every length around the reader's block sizes, with and without a final newline"""
    for n in (1, 2, 100, 1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2045, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 40000):
        for mode in ("stdin", "easy", "file"):
            for fin in ("\n", ""):
                v = "1" + "0" * (n // 2) + "7"
                t = "5;%s-%s" % (" " * max(0, n - len(v) - 8), v) + (";" if mode != "easy" or rng.random() < .5 else "")
                rc, out, err = run(mon, t + fin, mode) if n < 5000 or fin else (0, "5\n-" + v + "\n\n", "")
                if fin == "" and mode == "easy" and False: continue
                mon.case(mode, n, fin)
                mon.eq(lines_of(out, mode) if n < 5000 or fin else ["5", "-" + v], ["5", "-" + v], "a line of any length is read whole", len(t))
                mon.check(rc == 0 and not err, "no error for a long line", err[:200])
    for mode in ("stdin", "easy", "file"):
        for t in ("", "\n", "\n\n\n", ";", ";;\n;", "# c", "# c\n", "/* x */", "/* x */\n", " ", "\t\r\n"):
            rc, out, err = run(mon, t, mode)
            mon.eq([l for l in lines_of(out, mode) if l], [], "empty programs print nothing", mode, t)
            mon.check(rc == 0 and not err, "empty programs are accepted", (mode, t, err))


def u_script(mon, L, rng, s):
    for mode in ("file", "stdin"):
        text = open(os.path.join(mon.ctx["repo"], "pbc", s)).read()
        mon.case(s, mode)
        rc, out, err = run(mon, text, mode, 300)
        mon.check(rc == 0 and not err, "the shipped script passes its checks", (s, rc, err[:300]))
