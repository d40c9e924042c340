"""Runs the Python part of the repository (python/dune/functions, dune/python/functions) without its build folder:
the modules it generates are compiled here directly against the working tree, and the enumeration of states and
the result format are those of mc.hh."""
import fcntl, importlib.util, json, os, re, subprocess, sys, time

HARNESS = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/dune/venv"
DUNEPY = "/opt/dune/dunepy/dune-py"
COMMON = ["-std=gnu++20", "-DHAVE_CONFIG_H", "-w", "-D_GLIBCXX_ASSERTIONS", "-DDUNE_CHECK_BOUNDS"]
BASE = COMMON + ["-I" + HARNESS, "-I" + REPO, "-isystem", VENV + "/include", "-isystem", VENV + "/include/dune/python"]
LIBS = [VENV + "/lib/" + l for l in ("libdunegrid.a", "libdunegeometry.a", "libdunecommon.a")] + ["-llapack", "-lblas", "-ltbb"]
# Modules of the installed dune-grid and dune-geometry, in which nothing of this repository is, are taken as they were
# compiled when the sandbox was made, if they are there; the others are then compiled with the same configuration.
FOREIGN = re.compile(r"(hierarchicalgrid|referenceelements|yaspcoordinates)_")
PREBUILT = DUNEPY + "/python/dune/generated"


def configuration():
    """(flags, libraries) for modules"""
    try:
        lines = open(PREBUILT + "/buildScript.sh").read().split("\n")
        compile_ = [l for l in lines if " -c " in l][0].split()
        link = [l for l in lines if " -shared " in l][0].split()
        flags = [a for a in compile_ if a.startswith("-D") and "$" not in a]
        inc = [compile_[i + 1] for i, a in enumerate(compile_) if a == "-isystem" and not compile_[i + 1].startswith("/repo")]
        if not os.path.exists(DUNEPY + "/config.h"):
            raise OSError
        return (COMMON + flags + [a for a in compile_ if a.startswith("-I/opt")] + ["-I" + REPO, "-I" + HARNESS] + [x for i in inc for x in ("-isystem", i)],
                [a for a in link if a.startswith(("/", "-l", "-Wl,-rpath")) and not a.endswith(("c++", ".o"))], True)
    except (OSError, IndexError):
        return BASE + ["-isystem", "/usr/include/python3.12"], LIBS, False


MODFLAGS, MODLIBS, USEPREBUILT = configuration()


class CompileError(Exception):
    pass


def locked(path, make):
    """the file at path, made once by whichever process comes first"""
    with open(path + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(path):
            make(path + ".tmp")
            os.rename(path + ".tmp", path)
    return path


def gxx(args):
    r = subprocess.run((["ccache"] if os.environ.get("VERIF_CCACHE") else []) + ["g++"] + args, capture_output=True, text=True)
    if r.returncode:
        raise CompileError("does not compile: " + " | ".join(l[:300] for l in r.stderr.splitlines() if "error" in l)[:1500])


def module(work, name, source):
    def make(out):
        if USEPREBUILT and FOREIGN.match(name) and os.path.exists(os.path.join(PREBUILT, name + ".so")):
            os.symlink(os.path.join(PREBUILT, name + ".so"), out)
            return
        cc = os.path.join(work, name + ".cc")
        open(cc, "w").write(source)
        obj = os.path.join(work, name + ".o")
        gxx(MODFLAGS + ["-O0", "-fPIC", "-c", cc, "-o", obj])
        gxx(["-shared", obj, "-o", out] + MODLIBS)
        os.unlink(obj)
    return locked(os.path.join(work, name + ".so"), make)


def executable(work, name, source, opt="-O0"):
    """path of the program with this source"""
    def make(out):
        cc = os.path.join(work, name + ".cc")
        open(cc, "w").write(source)
        gxx(BASE + [opt, "-c", cc, "-o", out + ".o"])
        gxx([out + ".o", "-o", out] + LIBS)
        os.unlink(out + ".o")
    return locked(os.path.join(work, name), make)


def setup(work):
    os.makedirs(work, exist_ok=True)
    os.environ.update(DUNE_PY_DIR=work, DUNE_LOG_LEVEL="critical", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
                      OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1")
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, "python"))
    import dune.generator

    class Builder:
        def initialize(self):
            pass

        def load(self, moduleName, source, pythonName, extraCMake=None):
            full = "dune.generated." + moduleName
            if full not in sys.modules:
                spec = importlib.util.spec_from_file_location(full, module(work, moduleName, source))
                m = importlib.util.module_from_spec(spec)
                sys.modules[full] = m
                spec.loader.exec_module(m)
            return sys.modules[full]
    dune.generator.builder = Builder()


class Failed(Exception):
    pass


class MC:
    def __init__(self):
        a = sys.argv[1:]
        get = lambda n, d=None: a[a.index(n) + 1] if n in a else d
        self.thorough = get("--tier") == "thorough"
        self.shard = (int(a[a.index("--shard") + 1]), int(a[a.index("--shard") + 2])) if "--shard" in a else (0, 1)
        self.only, self.out, self.group = get("--only"), get("--out"), get("--group")
        k = get("--known")
        self.known = [l.rstrip("\n") for l in open(k) if l.strip()] if k else []
        self.n = self.states = self.transitions = self.checks = self.traces = 0
        self.outcomes, self.samples, self.failed, self.hits, self.key = set(), [], [], {}, ""

    def record(self, key, msg):
        for p in self.known:
            if re.search(p, key + "__" + msg):
                self.hits[p] = self.hits.get(p, 0) + 1
                return
        if len(self.failed) < 8:
            self.failed.append([key, msg[:2000]])

    def op(self, what):
        if self.out:
            with open(self.out + ".crash", "w") as f:
                f.write(self.key + "\nabnormal termination during " + what + "\n")

    def state(self, key, f):
        self.n += 1
        if self.only is not None:
            if key != self.only:
                return
        elif (self.n - 1) % self.shard[1] != self.shard[0]:
            return
        if len(self.failed) >= 8:
            return
        self.key = key
        self.op("the state")
        self.states += 1
        if len(self.samples) < 4:
            self.samples.append(key)
        before = self.checks
        try:
            f()
            self.traces += self.checks > before
        except Failed as e:
            self.record(key, str(e))
        except Exception as e:
            self.record(key, "unexpected exception: %s: %s" % (type(e).__name__, e))

    def check(self, ok, msg):
        self.checks += 1
        if not ok:
            raise Failed(msg() if callable(msg) else msg)

    def equal(self, a, b, what):
        self.check(a == b, lambda: "%s: got %s, expected %s" % (what() if callable(what) else what, a, b))

    def close(self, a, b, what, tol=1e-9):
        ok = len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))
        self.check(ok, lambda: "%s: got %s, expected %s" % (what() if callable(what) else what, list(a), list(b)))

    def finish(self):
        with open(self.out + ".part", "w") as f:
            json.dump(dict(states=self.states, enumerated=self.n, transitions=self.transitions, checks=self.checks, outcomes=len(self.outcomes), traces=self.traces,
                           failures=len(self.failed), samples=self.samples, failed=self.failed, known=list(self.hits.items())), f)
        os.rename(self.out + ".part", self.out)
        if os.path.exists(self.out + ".crash"):
            os.unlink(self.out + ".crash")
        sys.stdout.flush()
        os._exit(0)   # without the teardown of MPI


# ---- descriptions of trees: ('L',k) ('RT',k) ('N',kind,k) ('P',child,exponent,blocked,layout) ('C',children,blocked,layout); None: default

def tree(F, t):
    """the description in Python"""
    if t[0] == "L":
        return F.Lagrange(order=t[1])
    if t[0] == "RT":
        return F.RaviartThomas(order=t[1])
    if t[0] == "N":
        return F.Nedelec(kind=t[1], order=t[2])
    kw = {k: v for k, v in zip(("blocked", "layout"), t[-2:]) if v is not None}
    if t[0] == "P":
        return F.Power(tree(F, t[1]), t[2], **kw)
    if t[0] == "**":
        return tree(F, t[1]) ** t[2]
    if t[0] == "*":
        return tree(F, t[1]) * tree(F, t[2])
    return F.Composite(*[tree(F, c) for c in t[1]], **kw)


def factory(t):
    """the equivalent C++ construction"""
    ims = lambda b, l: "BF::%s%s()" % ("blocked" if b else "flat", "Interleaved" if l == "interleaved" else "Lexicographic")
    if t[0] == "L":
        return "BF::lagrange<%d>()" % t[1]
    if t[0] == "RT":
        return "BF::raviartThomas<%d>()" % t[1]
    if t[0] == "N":
        return "BF::nedelec<%d,%d>()" % (t[1], t[2])
    if t[0] == "P":
        return "BF::power<%d>(%s,%s)" % (t[2], factory(t[1]), ims(*t[3:]))
    if t[0] == "**":
        return "BF::power<%d>(%s,%s)" % (t[2], factory(t[1]), ims(False, None))
    if t[0] == "*":
        return "BF::composite(%s,%s,%s)" % (factory(t[1]), factory(t[2]), ims(False, None))
    return "BF::composite(%s,%s)" % (",".join(factory(c) for c in t[1]), ims(*t[2:]))


def show(t):
    if t[0] in ("L", "RT", "N"):
        return t[0] + "".join(str(k) for k in t[1:])
    s = lambda b, l: {None: "", False: "F", True: "B"}[b] + {None: "", "lexicographic": "L", "interleaved": "I"}[l]
    if t[0] == "P":
        return "P%d%s(%s)" % (t[2], s(*t[3:]), show(t[1]))
    if t[0] == "**":
        return "(%s**%d)" % (show(t[1]), t[2])
    if t[0] == "*":
        return "(%s*%s)" % (show(t[1]), show(t[2]))
    return "C%s(%s)" % (s(*t[2:]), ",".join(show(c) for c in t[1]))


HEADERS = "".join("#include <dune/functions/functionspacebases/%s.hh>\n" % h for h in
                  ("powerbasis", "compositebasis", "lagrangebasis", "nedelecbasis", "raviartthomasbasis", "subspacebasis", "defaultglobalbasis", "interpolate"))
