"""C20 what callers pass in is left as it is."""
import re

import rules_comp as RCOMP
import rules_flow as RF
import rules_time as RT
import vn
from core import *

SMART = re.compile(r"(?:std::(?:__\w+::)?(?:shared_ptr|unique_ptr|weak_ptr)|Teuchos::RCP)<(.*)>[ &]*$")
MATRIX = re.compile(r"^(?:upd_|out_)?(?:dealii::TrilinosWrappers::SparseMatrix|dealii::SparseMatrix<?|Epetra_\w*Matrix|"
                    r"boost::property_tree::|mfmg::\w*Operator\b)")
STEP = ("fld", "f", "sel", "el", "addr", "child", "upd", "itr", "deref", "get")
INPUT = re.compile(r"ptree|Operator|Matrix|Vector|property_tree")


def root(loc):
    """the variable a location starts from, and the steps from it: 'ptr' where a pointer is followed"""
    steps = []
    t = loc
    while isinstance(t, T):
        if t.op in ("ptr", "at"):
            steps.append("ptr")
        elif t.op in ("var", "sym", "new", "glob"):
            return t, steps
        elif t.op not in STEP:
            return None, steps
        t = next((x for x in t.a if isinstance(x, T)), None)
    return None, steps


def pname(t):
    n = t.a[0] if t.a and isinstance(t.a[0], str) else show(t)
    return n.lstrip("@$&")


def c20_visit(g, f, nm="what callers pass in is not modified"):
    out = []
    params = {q["n"]: str(q["t"]) for q in f.params}
    n = 0
    for x in g.writes:
        loc, val = x[0], x[1]
        if not isinstance(loc, T):
            continue
        while loc in g.inner:
            loc = g.inner[loc]
        t, steps = root(loc)
        if t is None or t.op in ("new", "glob"):
            continue
        if isinstance(val, T) and callback(val):
            continue
        w = "%s:%s" % (vn.short(x[4]) if x[4] else f.file, x[5])
        name = pname(t)
        if name == "this" or show(t) in ("this", "&this"):
            if "ptr" in steps and isinstance(val, T) and MATRIX.match(val.op):
                n += 1
                out.append(("bad", nm, w, "%s is modified: %s (%s)" % (show(loc)[:80], val.op[:80], f.qn[:80])))
            continue
        if name not in params or "#" in name:
            continue
        n += 1
        k = verdict(params[name], steps)
        out.append((k, nm, w, "%s, the parameter %s of %s, %s" % (
            show(loc)[:80], name, f.qn[:80], "is an output" if k == "ok" else "is modified")))
    out.append(("ok", nm, wfn(f), "%s: %d writes to what parameters and members refer to" % (f.qn[:80], n)))
    return out


def callback(val):
    """a value a mesh evaluator (code of the user) has written"""
    h = val.op
    return h.startswith(("out_", "upd_")) and "MeshEvaluator::" in h


def verdict(t, steps):
    t = t.strip()
    ref = t.endswith("&")
    const = t.startswith("const ") or t.endswith(" const") or t.endswith("const &")
    m = SMART.search(t)
    if "ptr" not in steps:
        return "bad" if ref and const else "ok"
    if m:
        inner = m.group(1).strip()
        if ref and not const:
            return "ok"
        if "TimerOutput" in inner:
            return "ok"
        return "bad" if INPUT.search(inner) else "und"
    if t.endswith("*"):
        return "bad" if const else "ok"
    return "bad" if const else "ok" if ref else "und"


def c20(p, rep):
    called = {c for k, (f, outs) in RT.graph(p).items() for c in outs if c != k}
    fs = [f for f in RF.roots(p) if RCOMP.opaque(f, called) or f.kind == "ctor"]

    RF.sweep(p, rep, c20_visit, fs)
    rep.need(60, "functions callers reach")
