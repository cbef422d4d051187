"""The wiping configuration: what is in a block at the moment it goes back to the system."""
import os, re, subprocess
import build, families

NEEDS_LIB = False
TECHNIQUE = ("runtime monitoring: the wiping configuration, compiled with optimization, runs with the process's malloc/free/realloc and the library's allocator hooks replaced by recorders; "
             "each release is judged at the moment it reaches the system, each resize against a copy, and outputs against the ordinary build; a sanitized build runs the same histories")
RULE = ("an evaluation is one program run whose recorder saw no released block with contents, no changed resize and no sanitizer report, or one comparison of outputs with the ordinary build; "
        "distinct counts (compiler, workload); the stats give released blocks, bytes and moves the recorders judged")
ASSUMPTIONS = ["gcc and clang at -O2 (and gcc at -O1 with sanitizers) stand for the compilers users have",
               "a block counts as overwritten when it holds one constant value throughout; stack copies and registers are outside the promise",
               "GMP's temporary stack allocations are GMP's own and not observed"]
FAMS = "A1DEFGI"


def prepare(d):
    H, inc = build.HERE, ["-w", "-g", "-I" + build.REPO + "/include", "-I" + build.REPO]
    jobs = []
    for tag, cc, fl, defs in (("gcc", "gcc", ["-O2"], ["-DSAFE_CLEAN"]), ("clang", "clang", ["-O2", "-Wno-incompatible-function-pointer-types"], ["-DSAFE_CLEAN"]), ("gcc3", "gcc", ["-O3"], ["-DSAFE_CLEAN"]),
                              ("san", "gcc", ["-O1"] + build.SAN, ["-DSAFE_CLEAN", "-DNO_INTERPOSE"]), ("plain", "gcc", ["-O2"], None)):
        o = build.objs(d, "w" + tag, cc, fl + (["-DSAFE_CLEAN"] if defs else []))
        life = os.path.join(d, "life_%s.o" % tag)
        build.sh([cc, "-c"] + inc + fl + (["-Dmain=lifecycle_main"] if defs else []) + ["-o", life, os.path.join(H, "lifecycle.c")])
        x = []
        if defs:
            x = [os.path.join(d, "wipe_%s.o" % tag)]
            build.sh([cc, "-c", "-fno-builtin"] + inc + fl + defs + ["-o", x[0], os.path.join(H, "wipe.c")])
        build.sh([cc, "-o", os.path.join(d, "wipe_" + tag), life] + x + o + fl + ["-lgmp", "-lm"])
    return {}


def units(tier, rng):
    k = 1 if tier == "quick" else 15
    out = []
    for c in ("gcc", "clang", "gcc3", "san"):
        for i in range(3 * k): out.append(("helpers", dict(cc=c, i=i, n=6000)))
        for f in FAMS:
            for i in range(k): out.append(("library", dict(cc=c, fam=f, i=i, n=40 if f in "FG" else 120)))
    return out


def go(mon, exe, args, what, *sig):
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1", "PATH": "/usr/bin:/bin", "LC_ALL": "C"}
    p = subprocess.run([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=600)
    err = p.stderr.decode("latin1")
    m = re.search(r"SEEN released=(\d+) bytes=(\d+) moved=(\d+) nontrivial=(\d+) unseen=(\d+) kept=(\d+) bad=(\d+)", err)
    mon.check(p.returncode == 0 and m is not None, what + ": did not finish", lambda: "exit %d\n%s" % (p.returncode, err[:3000]), *sig)
    if m:
        g = list(map(int, m.groups()))
        for n, v in zip(("released blocks", "released bytes", "moved blocks", "released blocks with contents"), g): mon.stat(n, v)
        if not sig or sig[0] != "san": mon.check(g[0] > 0 and g[4] <= g[0], "nothing was observed", err[:500])
        mon.check(g[6] == 0, what + ": " + (re.sub(r"\d+", "#", err[err.find("BAD"):].split("\n")[0]) if "BAD" in err else "?"), lambda: err[:2000], *sig)
    return p.stdout


def u_helpers(mon, L, rng, cc, i, n):
    mon.case("helpers", cc, n)
    go(mon, os.path.join(mon.ctx["scratch"], "wipe_" + cc), ["helpers", str(rng.getrandbits(60)), str(n)], "allocation history", cc, "helpers")


def u_library(mon, L, rng, cc, fam, i, n):
    t = families.small_text(rng, fam)
    d = mon.ctx["scratch"]
    f = os.path.join(d, "wipe.%s.%s.%d.%d" % (cc, fam, i, os.getpid()))
    open(f, "w").write(t)
    s = str(rng.getrandbits(30))
    mon.case("library", cc, fam, t, s, n)
    a = [f, fam, s, str(n)]
    out = go(mon, os.path.join(d, "wipe_" + cc), ["library"] + a, "library history", cc, fam)
    ref = subprocess.run([os.path.join(d, "wipe_plain")] + a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    mon.check(ref.stdout == out and b"done" in out, "results differ from the ordinary build", lambda: "wiping %r\nplain  %r" % (out[-300:], ref.stdout[-300:]), cc, fam, "output")
    os.unlink(f)
