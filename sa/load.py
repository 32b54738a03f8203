"""Loads the resolved program of /repo: builds the extractor when necessary,
runs it on every translation unit of the library plus the instantiation driver,
and links the per-unit facts into one program."""
import glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MFMG_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EXTRACT = os.path.join(BUILD, "mfmg_extract")
LLVM = "/usr/lib/llvm-18"

TPL = ["/usr/lib/x86_64-linux-gnu/openmpi/include",
       "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "/usr/include/petsc", "/usr/include/trilinos",
       "/usr/include/hdf5/openmpi", "/usr/include/scotch",
       "/usr/include/suitesparse", "/usr/include/opencascade",
       "/usr/include/slepc"]


class AnalysisError(Exception):
    pass


def flags(debug=False):
    f = ["-DNDEBUG", "-I" + REPO + "/include"]
    for t in TPL:
        f += ["-isystem", t]
    f += ["-std=c++17", "-isystem", "/opt/vp/compat/include",
          "-include", "boost/container_hash/hash.hpp",
          "-include", "deal.II/base/multithread_info.h",
          "-include", "deal.II/distributed/tria_base.h",
          "-include", "deal.II/lac/vector.h", "-w",
          "-resource-dir", LLVM + "/lib/clang/18"]
    if debug:
        f.append("-DMFMG_DEBUG=1")
    return f


def build_extractor(force=False):
    src = os.path.join(VERIF, "extractor", "mfmg_extract.cc")
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "extract.sha")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if not force and os.path.exists(EXTRACT) and os.path.exists(stamp) \
            and open(stamp).read() == h:
        return
    tmp = EXTRACT + ".%d" % os.getpid()
    r = subprocess.run(
        ["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-w",
         "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
         "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
         "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so",
         "-Wl,-rpath," + LLVM + "/lib"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, EXTRACT)
    with open(stamp, "w") as f:
        f.write(h)


def units():
    us = sorted(glob.glob(REPO + "/source/common/*.cc") +
                glob.glob(REPO + "/source/dealii/*.cc"))
    return us + [os.path.join(VERIF, "driver", "driver.cc")]


_sha = {}


def sha(f):
    if f not in _sha:
        try:
            _sha[f] = hashlib.sha256(open(f, "rb").read()).hexdigest()
        except OSError:
            _sha[f] = None
    return _sha[f]


def listing():
    """names of all source files: a new file could shadow another one"""
    fs = glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/source/**/*", recursive=True)
    return hashlib.sha256("\n".join(sorted(fs)).encode()).hexdigest()


def tree_hash():
    return hashlib.sha256(json.dumps([(f, sha(f)) for f in sorted(
        glob.glob(REPO + "/include/**/*", recursive=True) +
        glob.glob(REPO + "/source/**/*", recursive=True)) if os.path.isfile(f)]).encode()).hexdigest()[:24]


def extract(debug=False):
    """-> list of parsed JSON documents, one per translation unit.
    A document is a function of the files the unit includes; it is cached by
    the hashes of these files."""
    build_extractor()
    base = os.path.join(BUILD, "facts", "debug" if debug else "release")
    us = units()
    if len(us) < 2:
        raise AnalysisError("no translation unit found under " + REPO)
    common = [REPO, listing(), sha(os.path.join(VERIF, "extractor", "mfmg_extract.cc")), flags(debug)]
    keep = int(os.environ.get("MFMG_SA_KEEP", "4"))

    def one(u):
        d = os.path.join(base, os.path.basename(u))
        os.makedirs(d, exist_ok=True)
        olds = sorted((os.path.join(d, x) for x in os.listdir(d) if x.endswith(".deps")),
                      key=lambda x: os.path.getmtime(x) if os.path.exists(x) else 0, reverse=True)
        for o in olds:
            try:
                dep = json.load(open(o))
                if dep["common"] == common and all(sha(f) == h for f, h in dep["deps"]):
                    doc = o[:-5] + ".json"
                    if os.path.exists(doc):
                        os.utime(o)
                        return doc
            except (OSError, ValueError, KeyError):
                pass
        for o in olds[keep:]:
            for x in (o, o[:-5] + ".json"):
                try:
                    os.remove(x)
                except FileNotFoundError:      # another check of the same tree was faster
                    pass
        stem = os.path.join(d, "%d-%d" % (os.getpid(), time.time_ns()))
        r = subprocess.run([EXTRACT, stem + ".tmp", REPO + "/:" + VERIF + "/", u, "--"]
                           + flags(debug), capture_output=True, text=True)
        if r.returncode:
            if os.path.exists(stem + ".tmp"):
                os.remove(stem + ".tmp")
            raise AnalysisError("cannot parse %s:\n%s" % (u, r.stderr[-3000:]))
        os.replace(stem + ".tmp", stem + ".json")
        files = json.load(open(stem + ".json"))["files"]
        deps = [(f, sha(f)) for f in sorted(set(files) | {u}) if f.startswith((REPO + "/", VERIF + "/"))]
        with open(stem + ".deps", "w") as f:
            json.dump({"common": common, "deps": deps}, f)
        return stem + ".json"
    order = sorted(us, key=lambda u: ("amge" not in u, "hierarchy" not in u, "driver" not in u))
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(order, ex.map(one, order)))
    docs = []
    for u in us:
        with open(res[u]) as f:
            docs.append(json.load(f))
    return docs


class Type:
    __slots__ = ("s", "u", "ref", "ptr", "pc", "const", "cls", "arith", "us", "w", "enum", "tc")

    def __init__(self, d):
        self.s = d["s"]
        self.u = d.get("u", d["s"])
        self.ref = d.get("r", 0)
        self.ptr = d.get("p", 0)
        self.pc = d.get("pc", 0)
        self.const = d.get("c", 0)
        self.cls = d.get("cls")
        self.arith = d.get("a")
        self.us = d.get("us", 0)
        self.w = d.get("w", 0)
        self.enum = d.get("en", 0)
        self.tc = d.get("tc", 0)

    def __repr__(self):
        return self.s

    def isint(self):
        return self.arith == "i"


class Fn:
    """One function (an instantiation, for templates)."""

    def __init__(self):
        self.body = None
        self.params = None
        self.inits = None

    def __repr__(self):
        return self.qn

    @property
    def base(self):
        """qualified name without template arguments of the enclosing class"""
        return (self.cls + "::" + self.name) if self.cls else self.qn


class Cls:
    pass


class Program:
    def __init__(self, docs):
        self.fns = []          # all Fn with a body in the repository
        self.bykey = {}
        self.classes = {}      # type string -> Cls
        self.globals = []
        self.files = set()
        self.units = []
        self.nexpr = 0
        off = 0
        for d in docs:
            if d["errors"]:
                raise AnalysisError("parse errors in " + d["main"])
            self.units.append(d["main"])
            self.files.update(f for f in d["files"] if f.startswith(REPO + "/"))
            off = self._unit(d, off)
        self.derived = {}
        for c in self.classes.values():
            for b in c.bases:
                self.derived.setdefault(b[0].s, []).append(c)

    def _unit(self, d, off):
        types = [Type(t) for t in d["types"]]
        fns = []
        for i, x in enumerate(d["fns"]):
            k = x.get("key")
            if k and k in self.bykey:
                fns.append(self.bykey[k])
                continue
            f = Fn()
            fns.append(f)
            f.qn = x["qn"]
            f.name = x["name"]
            f.cls = x.get("cls")
            f.clsT = x.get("clsT", [])
            f.ct = types[x["ct"]] if "ct" in x else None
            f.const = x.get("const", 0)
            f.static = x.get("static", 0)
            f.virtual = x.get("virtual", 0)
            f.pure = x.get("pure", 0)
            f.kind = x.get("kind", "fn")
            f.cpy = x.get("cpy", 0)
            f.mv = x.get("mv", 0)
            f.op = x.get("op")
            f.targs = x.get("targs", [])
            f.ptypes = [types[t] for t in x["params"]]
            f.ret = types[x["ret"]]
            f.repo = x.get("repo", 0)
            f.loc = x.get("loc")
            f.key = k
            f.inl = x.get("inl", 0)
            f.intern = x.get("intern", 0)
            f.templ = x.get("templ", 0)
            f.dflt = x.get("dflt", 0)
            f.acc = x.get("acc", 0)
            f.variadic = x.get("variadic", 0)
            f.noret = x.get("noret", 0)
            f._ov = x.get("overrides", [])
            f.overrides = []
            if k:
                self.bykey[k] = f
        for f in fns:
            if f._ov:
                f.overrides = [fns[j] for j in f._ov]
                f._ov = []

        def walk(n):
            if isinstance(n, dict):
                self.nexpr += 1
                for k, v in n.items():
                    if k in ("t", "ft", "ot", "rt", "base") and type(v) is int:
                        n[k] = types[v]
                    elif k == "fn" and type(v) is int:
                        n[k] = fns[v]
                    elif k == "fns":
                        n[k] = [fns[j] for j in v]
                    elif k == "id" and type(v) is int:
                        n[k] = v + off
                    elif isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(n, list):
                for v in n:
                    if isinstance(v, (dict, list)):
                        walk(v)
        for b in d["bodies"]:
            f = fns[b["fn"]]
            if f.body is not None:
                continue
            walk(b)
            f.body = b["b"]
            f.params = b["params"]
            f.inits = b.get("inits")
            f.file = b["file"]
            f.line = b["l"]
            f.main = b.get("main", 0)
            f.unit = d["main"]
            self.fns.append(f)
        for c in d["classes"]:
            ts = types[c["t"]].s
            if ts in self.classes and not c["n"].startswith("lambda@"):
                continue
            walk(c["fields"])
            walk(c.get("statics", []))
            o = Cls()
            o.name = c["n"]
            o.T = c.get("T", [])
            o.type = types[c["t"]]
            o.loc = c["loc"]
            o.lam = c.get("lambda", 0)
            o.abs = c.get("abs", 0)
            o.poly = c.get("poly", 0)
            o.bases = [(types[b["t"]], b["acc"]) for b in c["bases"]]
            o.fields = c["fields"]
            o.methods = [fns[j] for j in c["methods"]]
            o.statics = c.get("statics", [])
            self.classes[ts] = o
        for g in d["globals"]:
            walk(g["v"])
            self.globals.append(g)
        return off + 10000000

    # -- queries -----------------------------------------------------------
    def find(self, cls=None, name=None, pred=None):
        r = []
        for f in self.fns:
            if cls is not None and f.cls != cls:
                continue
            if name is not None and f.name != name:
                continue
            if pred and not pred(f):
                continue
            r.append(f)
        return r

    def all_bases(self, c):
        out = []
        todo = [c]
        while todo:
            x = todo.pop()
            for b, acc in x.bases:
                out.append(b)
                if b.s in self.classes:
                    todo.append(self.classes[b.s])
        return out

    def overrider(self, cls, fn):
        """final overrider of virtual fn in the class with type string cls"""
        seen = set()
        todo = [cls]
        while todo:
            cs = todo.pop(0)
            c = self.classes.get(cs)
            if not c or cs in seen:
                continue
            seen.add(cs)
            for m in c.methods:
                if m is fn or self._overrides(m, fn):
                    return m
            todo += [b.s for b, _ in c.bases]
        return None

    def _overrides(self, m, fn):
        for o in m.overrides:
            if o is fn or self._overrides(o, fn):
                return True
        return False


_cache = {}


def program(debug=False):
    if debug not in _cache:
        sys.setrecursionlimit(20000)
        _cache[debug] = Program(extract(debug))
    return _cache[debug]


if __name__ == "__main__":
    import time
    t = time.time()
    build_extractor()
    print("extractor", time.time() - t)
    if "--prefetch" in sys.argv:
        extract(False)
    t = time.time()
    p = program("-d" in sys.argv)
    print(len(p.fns), "functions", len(p.classes), "classes", p.nexpr, "nodes", time.time() - t)
