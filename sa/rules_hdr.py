"""C30 public headers can be included in any number of translation units."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import load
from core import *

CXX = "clang++-18"
NM = "llvm-nm-18" if shutil.which("llvm-nm-18") else load.LLVM + "/bin/llvm-nm"
STRONG = re.compile(r"^[0-9a-f-]*\s+([A-Z])\s+(\S+)$")


def headers():
    inc = os.path.join(load.REPO, "include")
    fs = sorted(glob.glob(inc + "/**/*.hpp", recursive=True) + glob.glob(inc + "/**/*.h", recursive=True))
    return [os.path.relpath(f, inc) for f in fs if "/cuda/" not in f]


def run(args, **kw):
    return subprocess.run(args, capture_output=True, text=True, timeout=600, **kw)


def rel(path):
    return os.path.relpath(path, load.REPO) if path.startswith(load.REPO + "/") else path


def first_error(err):
    for l in err.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m:
            return "%s:%s" % (rel(m.group(1)), m.group(2)), m.group(3)
    return None, err.strip().splitlines()[0] if err.strip() else "?"


def alone(d, h):
    """obligations of a header on its own (included twice)"""
    base = os.path.join(d, h.replace("/", "_"))
    src = base + ".cc"
    with open(src, "w") as f:
        f.write("#include <%s>\n#include <%s>\n" % (h, h))
    w = "include/%s:1" % h
    out = []
    r = run([CXX, *load.flags(), "-O0", "-c", "-emit-llvm", "-ferror-limit=1", src, "-o", base + ".bc"])
    nm = "the header compiles on its own, and when included twice"
    if r.returncode:
        at, msg = first_error(r.stderr)
        out.append(("bad", nm, at or w, "%s: %s" % (h, msg)))
        return out
    out.append(("ok", nm, w, h))
    nm = "the header defines nothing that only one translation unit may define"
    r = run([NM, "--defined-only", base + ".bc"])
    os.remove(base + ".bc")
    if r.returncode:
        out.append(("und", nm, w, r.stderr[:200]))
        return out
    strong = [m.group(2) for m in map(STRONG.match, r.stdout.splitlines()) if m and m.group(1) in "TDBRCGS"]
    if not strong:
        out.append(("ok", nm, w, "%d symbols" % len(r.stdout.splitlines())))
        return out
    where = locate(src, strong)
    names = run(["c++filt", *strong]).stdout.splitlines()
    for s, n in zip(strong, names):
        at = where.get(s)
        if at is not None and not at.startswith("include/"):
            continue                        # a system header's matter
        out.append(("bad", nm, at or w, "%s is neither inline, a template nor internal" % n))
    return out


def locate(src, syms):
    """mangled name -> file:line of its definition"""
    r = run([CXX, *load.flags(), "-O0", "-g", "-S", "-emit-llvm", src, "-o", "-"])
    text = r.stdout
    meta = {}
    res = {}
    want = {}
    for l in text.splitlines():
        if l.startswith("!"):
            k, _, v = l.partition(" = ")
            if "DISubprogram(" in v or "DIGlobalVariable" in v or "DIFile(" in v:
                meta[k] = v
        elif l.startswith(("define ", "@")):
            m = re.search(r'@"?([\w.$]+)"?', l)
            if m and m.group(1) in syms:
                q = re.search(r"!dbg (!\d+)", l)
                if q:
                    want[m.group(1)] = q.group(1)
    for s, k in want.items():
        v = meta.get(k, "")
        if "DIGlobalVariableExpression" in v:
            q = re.search(r"var: (!\d+)", v)
            v = meta.get(q.group(1), "") if q else ""
        f = re.search(r"file: (!\d+)", v)
        n = re.search(r"line: (\d+)", v)
        fv = meta.get(f.group(1), "") if f else ""
        m = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', fv)
        if m and n:
            p = m.group(1) if m.group(1).startswith("/") else os.path.join(m.group(2) or "", m.group(1))
            res[s] = "%s:%s" % (rel(os.path.normpath(p)), n.group(1))
    return res


def lines_of(d, order, tag):
    """header -> number of lines (directives included) it contributes to a unit including the headers in this order"""
    src = os.path.join(d, "pp_%s.cc" % tag)
    with open(src, "w") as f:
        f.write("".join("#include <%s>\n" % h for h in order))
    r = run([CXX, *load.flags(), "-E", "-dD", src])
    cur, n = None, {}
    inc = os.path.join(load.REPO, "include") + "/"
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            p = os.path.normpath(m.group(1))
            cur = p[len(inc):] if p.startswith(inc) else None
        elif cur and l.strip() and not l.startswith("#undef"):
            n[cur] = n.get(cur, 0) + 1
    return n if r.returncode == 0 else None


def c30(p, rep):
    hs = headers()
    d = tempfile.mkdtemp(prefix="mfmg_hdr_")
    try:
        with ThreadPoolExecutor(max(1, min(8, os.cpu_count() or 1))) as ex:
            one = [ex.submit(alone, d, h) for h in hs]
            cnt = [ex.submit(lines_of, d, [h], h.replace("/", "_")) for h in hs]
            fwd = ex.submit(lines_of, d, hs, "fwd")
            bwd = ex.submit(lines_of, d, hs[::-1], "bwd")
            both = []
            for tag, order in (("in alphabetical order", hs), ("in reverse order", hs[::-1])):
                src = os.path.join(d, "all%d.cc" % len(both))
                with open(src, "w") as f:
                    f.write("".join("#include <%s>\n" % h for h in order))
                both.append((tag, ex.submit(run, [CXX, *load.flags(), "-fsyntax-only", "-ferror-limit=1", src])))
            broken = False
            for o in one:
                for x in o.result():
                    broken |= x[0] == "bad"
                    rep.add(*x)
            nm = "all headers can be included together"
            for tag, r in both:
                r = r.result()
                if r.returncode:
                    at, msg = first_error(r.stderr)
                    rep.add("und" if broken else "bad", nm, at or "include", "%s: %s" % (tag, msg))
                else:
                    rep.add("ok", nm, "include", tag)
            nm = "no header hides another one"
            for h, c in zip(hs, cnt):
                c = (c.result() or {}).get(h)
                f, b = (fwd.result() or {}).get(h), (bwd.result() or {}).get(h)
                if c is None or fwd.result() is None or bwd.result() is None:
                    rep.add("und", nm, "include/%s:1" % h, "not preprocessed")
                else:
                    good = f == c and b == c
                    hidden = min(f or 0, b or 0) * 10 <= c
                    rep.add("ok" if good else "bad" if hidden else "und", nm, "include/%s:1" % h,
                            h if good else "%s contributes %s lines on its own, %s and %s with the others before it" % (
                                h, c, f or 0, b or 0))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for h in hs:
        rep.functions.add("include/" + h)
    rep.need(3 * 20, "headers")
