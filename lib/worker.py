"""Runs units of one property inside the instrumented process; one JSON line per unit."""
import hashlib, importlib, json, mmap, os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "props"))


class Mon:
    """The monitor a workload reports to."""
    MAXFAIL = 40

    def __init__(self, mm):
        self.mm = mm
        self.reset()

    def reset(self):
        self.evals, self.sigs, self.fails, self.stats, self.samples = 0, set(), {}, {}, []

    def case(self, *a):
        s = " ".join(x if isinstance(x, str) else repr(x) for x in a)
        if len(s) > 6000:
            s = s[:6000]
        b = s.encode("utf-8", "replace")
        self.mm[0:4] = len(b).to_bytes(4, "little")
        self.mm[4:4 + len(b)] = b
        self.last = s

    last = ""

    def ok(self, *sig):
        """One oracle decision; sig identifies the distinct situation it was made in."""
        self.evals += 1
        self.sigs.add(hash(sig) & 0xFFFFFFFFFFFF)
        if len(self.samples) < 2 and self.last:
            self.samples.append(self.last[:300])

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, key, detail):
        if key not in self.fails and len(self.fails) < self.MAXFAIL:
            self.fails[key] = {"detail": str(detail)[:3000], "case": self.last}

    def check(self, cond, key, detail="", *sig):
        self.ok(key, *sig)
        if not cond:
            self.fail(key, detail() if callable(detail) else detail)
        return cond

    def eq(self, got, exp, key, *sig):
        self.ok(key, *sig)
        if got != exp:
            self.fail(key, "got %r expected %r" % (got, exp))
            return False
        return True


def main():
    prop, so, sigf, curf = sys.argv[1:5]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    fd = os.open(curf, os.O_RDWR | os.O_CREAT)
    os.ftruncate(fd, 65536)
    mm = mmap.mmap(fd, 65536)
    ctx = json.load(open(sigf))
    L = None
    if so != "-":
        import pbc
        L = pbc.Lib(so, {k: tuple(v) for k, v in ctx["sigs"].items()})
    mod = importlib.import_module(prop.lower())
    mon = Mon(mm)
    for line in sys.stdin:
        job = json.loads(line)
        mon.reset()
        mon.case("unit", json.dumps(job["unit"]))
        name, args = job["unit"]
        rng = random.Random("%d/%s/%s" % (job["seed"], prop, json.dumps(job["unit"])))
        mon.tier, mon.ctx, mon.seed = job["tier"], ctx, job["seed"]
        res = {}
        try:
            if L is not None:
                L.random_monitored(rng.getrandbits(31), 0)
                L.alloc_junk(rng.choice((0xA5, 0xFF, 0x5A, 0x01, 0x00)))
            getattr(mod, "u_" + name)(mon, L, rng, **args)
        except (ValueError, ZeroDivisionError, IndexError, OverflowError, AssertionError, UnicodeDecodeError, TypeError, KeyError, AttributeError, RuntimeError, StopIteration) as e:
            # the library handed back something the oracle cannot interpret as a value of the structure
            tb = traceback.extract_tb(e.__traceback__)
            mon.fail("uninterpretable result (%s in %s)" % (type(e).__name__, tb[-1].name), traceback.format_exc())
        except Exception:
            res["error"] = traceback.format_exc()
        res.update(evals=mon.evals, sigs=sorted(mon.sigs), fails=mon.fails, stats=mon.stats, samples=mon.samples)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
