"""Builds what the monitors run from /repo's current working tree, in a scratch directory."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = dict(os.environ, LC_ALL="C", CCACHE_DISABLE="1")
for k in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS", "CFLAGS", "CPPFLAGS"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("latin-1")[-4000:]))
    return r.stdout.decode("latin-1")


def lib_sources():
    t = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
    out = []
    for m in re.finditer(r"^\s*libpbc_la_SOURCES\s*\+?=\s*(.*)$", t, re.M):
        for w in m.group(1).split():
            m2 = re.match(r"\$[({](\w+)[)}]$", w)
            if m2:
                m3 = re.search(r"^\s*%s\s*=\s*(.*)$" % m2.group(1), t, re.M)
                ws = m3.group(1).split() if m3 else []
            else:
                ws = [w]
            out += [x for x in ws if x.endswith(".c") and "win32" not in x]
    out = list(dict.fromkeys(out))
    have = {os.path.basename(x) for x in out}
    if "init_random.c" not in have:
        out.append("arith/init_random.c")
    return out


def compile_many(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(sh, jobs))


def scratch():
    return tempfile.mkdtemp(prefix="pbcverif.")


def objs(d, tag, cc="gcc", flags=(), extra=()):
    jobs, out = [], []
    for s in lib_sources() + list(extra):
        p = s if os.path.isabs(s) else os.path.join(REPO, s)
        o = os.path.join(d, tag + "_" + re.sub(r"\W", "_", s) + ".o")
        out.append(o)
        jobs.append([cc, "-c", "-w", "-I" + REPO + "/include", "-I" + REPO, "-o", o, p] + list(flags))
    compile_many(jobs)
    return out


def shared(d, defs=(), tag="m", link=()):
    """ASan+UBSan shared object of the library and the flat ABI."""
    fl = ["-O1", "-g", "-fPIC"] + SAN + list(defs)
    o = objs(d, tag, "gcc", fl, [os.path.join(HERE, "shim.c")])
    so = os.path.join(d, "libmon_%s.so" % tag)
    sh(["gcc", "-shared", "-o", so] + o + SAN + list(link) + ["-lgmp", "-lm"])
    return so


def static_objs(d, tag="s", cc="gcc", san=True, defs=()):
    fl = ["-O1", "-g"] + (SAN if san else []) + list(defs)
    return objs(d, tag, cc, fl)


def preload():
    a = subprocess.check_output(["gcc", "-print-file-name=libasan.so"]).decode().strip()
    u = subprocess.check_output(["gcc", "-print-file-name=libubsan.so"]).decode().strip()
    return a + " " + u


def cli(d, tag="cli"):
    """The calculator, sanitized, with its parser regenerated from the grammar."""
    P = os.path.join(REPO, "pbc")
    g = os.path.join(d, "pbcgen")
    os.makedirs(g, exist_ok=True)
    for f in ("parser.y", "parser.lex"):
        shutil.copy(os.path.join(P, f), g)
    sh(["bison", "-d", "-b", "parser", "parser.y"], cwd=g)
    sh(["flex", "-o", "lex.yy.c", "--header-file=lex.yy.h", "parser.lex"], cwd=g)
    inc = ["-I" + g, "-I" + P, "-I" + REPO + "/include", "-I" + REPO]
    o, jobs = [], []
    fl = ["-O1", "-g"] + SAN
    for s in (P + "/pbc.c", P + "/pbc_getline.c", g + "/parser.tab.c", g + "/lex.yy.c"):
        ob = os.path.join(d, tag + os.path.basename(s) + ".o")
        o.append(ob)
        if s.endswith("pbc.c"):  # its quote includes must find the regenerated headers
            s2 = os.path.join(g, "pbc.c")
            shutil.copy(s, s2)
            s = s2
        jobs.append(["gcc", "-c", "-w"] + inc + ["-o", ob, s] + fl)
    compile_many(jobs)
    exe = os.path.join(d, "pbc")
    sh(["gcc", "-o", exe] + o + objs(d, tag, "gcc", fl) + SAN + ["-lgmp", "-lm"])
    return exe
