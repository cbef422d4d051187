"""ctypes binding to the flat ABI (lib/shim.c) and typed wrappers that pair every library
field with its reference model."""
import ctypes as C
import os, re, subprocess, tempfile
import model as M

CT = {"int": C.c_int, "long": C.c_long, "unsigned": C.c_uint, "unsigned int": C.c_uint,
      "size_t": C.c_size_t, "unsigned long": C.c_ulong, "void": None, "uint64_t": C.c_uint64}


def signatures(shim, repo):
    src = subprocess.run(["gcc", "-E", "-P", "-DX=__XPORT__", "-I" + repo + "/include", "-I" + repo, shim],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    return src


def parse_sigs(text):
    """(ret, name, [arg types]) of each exported wrapper in the preprocessed shim."""
    out = {}
    for m in re.finditer(r'__attribute__\(\(visibility\("default"\)\)\)\s*([\w ]+?[\s\*]+)(x_\w+)\s*\(([^)]*(?:\([^)]*\)[^)]*)*)\)\s*\{', text):
        ret, name, args = m.group(1).strip(), m.group(2), m.group(3).strip()
        def ty(a):
            a = a.strip()
            if "*" in a or re.match(r"(const )?(\w+_ptr|\w+_cb|mpz_ptr)\b", a):
                return "p"
            a = re.sub(r"\bconst\b", "", a).strip()
            w = a.split()
            for k in (" ".join(w), " ".join(w[:-1])):
                if k in CT:
                    return k
            raise ValueError("unparsed argument %r of %s" % (a, name))
        r = "p" if "*" in ret else ret.replace("const", "").strip()
        out[name] = (r, [] if args in ("", "void") else [ty(a) for a in args.split(",")])
    return out


class Lib:
    def __init__(self, so, sigs):
        self.dll = C.CDLL(so)
        for name, (r, a) in sigs.items():
            f = getattr(self.dll, name)
            f.restype = C.c_void_p if r == "p" else CT[r]
            f.argtypes = [C.c_void_p if t == "p" else CT[t] for t in a]
            setattr(self, name[2:], f)
        self.alloc_install()
        self._pool = [self.z_new() for _ in range(96)]
        self._pi = 0
        self._buf = C.create_string_buffer(1 << 16)
        self._zo = self.z_new()
        self.random_monitored(1, 0)
        self.msg(0)

    # integers
    def Z(self, n):
        h = self._pool[self._pi]
        self._pi = (self._pi + 1) % len(self._pool)
        return self.zset(h, n)

    def zset(self, h, n):
        a = -n if n < 0 else n
        b = a.to_bytes((a.bit_length() + 7) // 8, "little")
        self.z_set(h, b, len(b), 1 if n < 0 else 0)
        return h

    def zget(self, h):
        n = self.z_size(h)
        b = C.create_string_buffer(n + 16)
        k = self.z_get(h, b)
        v = int.from_bytes(b.raw[:k], "little")
        return -v if self.z_sgn(h) < 0 else v

    def leaf(self, e):
        self.to_mpz(self._zo, e)
        return self.zget(self._zo)

    def flatlist(self, e, depth):
        n = self.flat(e, depth, self._buf, len(self._buf))
        if n >= len(self._buf):
            self._buf = C.create_string_buffer(n * 2)
            n = self.flat(e, depth, self._buf, len(self._buf))
        return [int(x, 16) for x in self._buf.value.decode().split(",")[:-1]]

    def bytes_of(self, e):
        n = self.len(e)
        b = C.create_string_buffer(n + 16)
        C.memset(b, 0xEE, n + 16)
        k = self.to_bytes(b, e)
        return b.raw[:n], n, k, b.raw[n:] == b"\xEE" * 16

    def capture(self, fn):
        """Runs fn(FILE*) on a memory stream; returns (result, bytes)."""
        p, n = C.c_void_p(), C.c_size_t()
        f = self.memfile(C.byref(p), C.byref(n))
        r = fn(f)
        self.fclose(f)
        s = C.string_at(p.value, n.value)
        self.libc_free(p.value)
        return r, s


class FieldH:
    """A library field plus its model.  get/set translate values; new() creates elements
    tracked for release."""
    def __init__(self, L, h, model, name="", own=True):
        self.L, self.h, self.m, self.name, self.own = L, h, model, name, own
        self.els, self.after = [], []

    def new(self, v=None):
        e = self.L.el_new(self.h)
        self.els.append(e)
        if v is not None:
            self.set(e, v)
        return e

    def get(self, e):
        return self.m.unflat(iter(self.L.flatlist(e, self.m.depth)))

    def set(self, e, v):
        self._set(e, self.m, v)

    def _set(self, e, m, v):
        if m.depth == 0:
            self.L.set_mpz(e, self.L.Z(v))
        else:
            for i, x in enumerate(v):
                self._set(self.L.item(e, i), m.base, x)

    def free_els(self):
        for e in self.els:
            self.L.el_free(e)
        self.els = []

    def close(self):
        self.free_els()
        if self.own:
            self.L.field_free(self.h)
        for r in self.after:
            self.L.field_free(r)
        self.after = []


BACKENDS = ("naive", "fast", "faster", "mont", "fp")


def fp(L, p, backend="fp"):
    return FieldH(L, getattr(L, "field_" + backend)(L.Z(p)), M.Fp(p), backend)


def quadratic(L, base):
    """field_init_quadratic over base: adjoins the root of base's nonresidue."""
    h = L.field_quadratic(base.h)
    nqr = base.m.unflat(iter(L.flatlist(L.field_nqr(base.h), base.m.depth)))
    f = FieldH(L, h, M.Quad(base.m, nqr), "quadratic(%s)" % base.name)
    f.nqr = nqr
    return f


def fi(L, base):
    return FieldH(L, L.field_fi(base.h), M.Quad(base.m, base.m.neg(base.m.one)), "fi(%s)" % base.name)


def polymod(L, base, low):
    """base[x]/(x^n + low)"""
    R = L.field_poly(base.h)
    p = L.el_new(R)
    t = base.new()
    for i, c in enumerate(low):
        base.set(t, c)
        L.poly_set_coeff(p, t, i)
    L.poly_set_coeff1(p, len(low))
    h = L.field_polymod(p)
    L.el_free(p)
    f = FieldH(L, h, M.Ext(base.m, low), "polymod%d(%s)" % (len(low), base.name))
    f.after.append(R)  # the polynomial ring outlives the quotient
    return f


class PolyH(FieldH):
    def __init__(self, L, base):
        FieldH.__init__(self, L, L.field_poly(base.h), M.PolyRing(base.m), "poly(%s)" % base.name)
        self.base, self.tmp = base, base.new()

    def get(self, e):
        it = iter(self.L.flatlist(e, self.m.depth))
        return tuple(self.base.m.unflat(it) for _ in range(self.L.item_count(e)))

    def set(self, e, v):
        self.L.set0(e)
        for i in range(len(v) - 1, -1, -1):
            self.base.set(self.tmp, v[i])
            self.L.poly_set_coeff(e, self.tmp, i)


class CurveH(FieldH):
    """Curve group; values are None or (x, y) over the coordinate model F."""
    def __init__(self, L, h, mc, name="curve", own=True):
        FieldH.__init__(self, L, h, mc, name, own)
        self.F = mc.F

    def get(self, e):
        L = self.L
        if L.is0(e):
            return None
        F = self.F
        g = lambda c: F.unflat(iter(L.flatlist(c, F.depth)))
        return (g(L.curve_x(e)), g(L.curve_y(e)))

    def set(self, e, v):
        L = self.L
        if v is None:
            L.set0(e)
            return
        # via the byte encoding: coordinates written through scratch coordinate elements
        n = L.len(e)
        b = C.create_string_buffer(n)
        xe, ye = L.el_new_same(L.curve_x(e)), L.el_new_same(L.curve_y(e))
        FieldH._set(self, xe, self.F, v[0])
        FieldH._set(self, ye, self.F, v[1])
        k = L.to_bytes(b, xe)
        L.to_bytes(C.addressof(b) + k, ye)
        L.from_bytes(e, b)
        L.el_free(xe)
        L.el_free(ye)


def curve_ab(L, base, a, b, order, cofac=1):
    ea, eb = L.el_new(base.h), L.el_new(base.h)
    base._set(ea, base.m, a)
    base._set(eb, base.m, b)
    h = L.field_curve_ab(ea, eb, L.Z(order), L.Z(cofac) if cofac is not None else None)
    L.el_free(ea)
    L.el_free(eb)
    return CurveH(L, h, M.Curve(base.m, a, b), "curve(%s)" % base.name)
