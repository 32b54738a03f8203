"""C33 options: same key, type and default in both backends; handed on under the key and type that is read."""
import re

import rules_flow as RF
from core import *

# options both backends document, by path from the root of the configuration
SHARED = {"eigensolver.number of eigenvectors", "eigensolver.tolerance", "eigensolver.type",
          "eigensolver.max_iterations", "eigensolver.percent_overshoot", "eigensolver.is_deflated",
          "eigensolver.num_cycles", "eigensolver.num_eigenpairs_per_cycle", "eigensolver.full_ortho",
          "eigensolver.verbosity", "eigensolver.use_initial_guess", "fast_ap", "agglomeration.partitioner",
          "agglomeration.n_agglomerates", "agglomeration.nx", "agglomeration.ny", "smoother.type", "coarse.type",
          "coarse.params"}
OWN = {"smoother.degree", "smoother.smoothing_range", "smoother.max_eigenvalue"}      # matrix-free only
DIFFER = {"smoother.type", "eigensolver.type"}          # defaults have to differ
# what the Lanczos solver reads -> the user's option it stands for
HAND = {"num_eigenpairs": "number of eigenvectors", "tolerance": "tolerance", "max_iterations": "max_iterations",
        "percent_overshoot": "percent_overshoot", "is_deflated": "is_deflated", "num_cycles": "num_cycles",
        "num_eigenpairs_per_cycle": "num_eigenpairs_per_cycle"}
# keys and types Anasazi's LOBPCG manager reads -> the user's option, if there is one
LOBPCG = {"Which": ("string", None), "Block Size": ("int", None), "Maximum Iterations": ("int", "max_iterations"),
          "Full Ortho": ("bool", "full_ortho"), "Recover": ("bool", None), "Verbosity": ("int", None),
          "Init": (None, None), "Convergence Tolerance": ("double", "tolerance"),
          "Relative Convergence Tolerance": ("bool", None), "Convergence Norm": ("string", None),
          "Relative Locking Tolerance": ("bool", None), "Locking Tolerance": ("double", None),
          "Locking Norm": ("string", None), "Use Locking": ("bool", None), "Max Locked": ("int", None),
          "Locking Quorum": ("int", None), "Output Stream": (None, None), "Output Processor": ("int", None),
          "Saved Block Size": ("int", None), "Osproc": (None, None)}


def path(t):
    """(path, user's tree?) of a configuration tree"""
    while isinstance(t, T):
        if t.op == "child":
            k = t.a[1]
            if k.op != "str":
                return None
            q = path(t.a[0])
            return None if q is None else q + k.a[0] + "."
        if t.op == "at" or t.op == "sym":
            s = show(t)
            return "" if re.fullmatch(r"(at\()*(this\.)?_?params\)*", s) or t.op == "sym" or t.op == "at" else None
        return None
    return None


def typ(s):
    s = s.replace("const ", "").strip()
    return {"unsigned int": "int", "long": "int", "unsigned long": "int", "float": "double"}.get(s, s)


def local(t):
    """the tree was filled here"""
    return any(x.op == "sto" or x.op == "made" and "property_tree" in show(x) for x in subterms(t)) and \
        any(x.op == "made" and "ptree" in show(x)[:80] for x in subterms(t))


def unresolved(t):
    """reads of a tree filled here that none of the entries put there answers"""
    return [x for x in subterms(t) if x.op in ("opt", "sel") and isinstance(x.a[0], T) and
            x.a[0].op in ("made", "sto") and "property_tree" in show(x.a[0])[:200]]


def backend(f):
    n = f.qn
    if n.startswith("mfmg::DealIIMatrixFree"):
        return "matrix-free"
    if n.startswith("mfmg::DealII"):
        return "assembled"
    if re.search(r"::Hierarchy<", n):
        return "hierarchy"
    return None


def c33_visit(g, f):
    out = []
    b = backend(f)
    reads = []
    for e in g.events:
        if e.kind == "opt" and e.name.startswith("ptree.") and e.argv and e.argv[0].op == "str":
            key = e.argv[0].a[0]
            t = e.objv
            if t is None:
                continue
            if t.op in ("sto", "ite", "made"):
                handed(out, e, key)
                continue
            q = path(t)
            if q is None or b is None:
                continue
            solver = "anasazi" if any("Anasazi" in s[0] for s in e.stack) else ""
            d = show(e.argv[1]) if len(e.argv) > 2 else "none"
            if e.name == "ptree.get_optional":
                d = "*"                     # what stands in for a missing entry is decided by the caller
            ty = typ(e.argv[-1].a[0]) if len(e.argv) > 1 and e.argv[-1].op == "str" else e.name[6:]
            if e.name in ("ptree.get_child", "ptree.get_child_optional"):
                if q == "" and key in ("eigensolver", "agglomeration", "smoother", "coarse"):
                    continue
                ty, d = "tree", ""
            reads.append((q + key, solver, ty, d, e.where))
        elif e.name == "Teuchos::ParameterList::set" and any("Anasazi" in s[0] for s in e.stack):
            anasazi(out, e)
    if any("Anasazi::Factory" in e.name or "SolMgr" in e.name for e in g.events) and "Anasazi" in f.qn:
        sets = {e.argv[0].a[0]: e for e in g.events if e.name == "Teuchos::ParameterList::set" and
                e.argv and e.argv[0].op == "str"}
        other = [e for e in g.events if e.name.startswith("Teuchos::ParameterList::") and not e.name.endswith("::set")]
        for k in ("Convergence Tolerance", "Maximum Iterations", "Full Ortho"):
            if k not in sets:
                out.append(("und" if other else "bad", "options reach the eigensolver library", wfn(f),
                            "the user's option %s is not handed on as %s" % (LOBPCG[k][1], k)))
    f.__dict__.setdefault("c33_reads", reads)
    for key, solver, ty, d, w in reads:
        out.append(("read", b, key, solver, ty, d, w))
    return out


def options(t):
    """last components of the keys read from trees that come from the user"""
    return {x.a[1].a[0].split(".")[-1] for x in subterms(t) if x.op in ("opt", "optval") and x.a[1].op == "str" and
            not (x.a[0].op in ("made", "sto") and "property_tree" in show(x.a[0])[:200] and
                 not any(y.op in ("sym", "at", "child") for y in subterms(x.a[0])))}


def handed(out, e, key):
    nm = "an inner solver finds the option under the key it reads"
    r = getattr(e, "res", None)
    if r is None or key not in HAND:
        return
    need = len(e.argv) > 1 and e.argv[1].op == "required"
    bad = []
    for pc, v in value_paths(r):
        if contradictory(pc) or infeasible(assume(e.guard, pc)):
            continue
        u = unresolved(v)
        if u and need:
            bad.append("%s, which is mandatory, was not put into the tree" % key)
    if bad:
        out.append(("bad", nm, e.where, bad[0]))
        return
    if HAND[key] not in options(r):
        out.append(("bad", nm, e.where, "%s does not depend on the user's option %s: %s" % (key, HAND[key], show(r)[:120])))
    else:
        out.append(("ok", nm, e.where, "%s <- %s" % (key, HAND[key])))


def anasazi(out, e):
    nm = "options reach the eigensolver library"
    if not e.argv or e.argv[0].op != "str" or len(e.argv) < 2:
        out.append(("und", nm, e.where, "key not constant"))
        return
    k = e.argv[0].a[0]
    v = e.argv[1]
    if k not in LOBPCG:
        src = options(v)
        out.append(("bad" if src else "und", nm, e.where, "LOBPCG reads no option called %s" % k))
        return
    ty, src = LOBPCG[k]
    t = str(e.targs[0]) if e.targs else "string" if v.op == "str" else ""
    t = "string" if "basic_string" in t or "char" in t else t
    if ty and t and t != ty:
        out.append(("bad", nm, e.where, "%s is handed on as %s, LOBPCG reads %s" % (k, t, ty)))
    elif src and src not in options(v):
        out.append(("bad", nm, e.where, "%s does not depend on the user's option %s" % (k, src)))
    else:
        out.append(("ok", nm, e.where, "%s (%s) <- %s" % (k, t, src or show(v)[:40])))


def c33(p, rep):
    fs = [f for f in RF.roots(p) if
          f.kind == "ctor" and re.search(r"::Hierarchy<", f.qn) or
          any(o.base.startswith("mfmg::HierarchyHelpers::") for o in f.overrides) or
          re.search(r"^mfmg::(AnasaziSolver|Lanczos)<", f.qn) and f.name == "solve"]
    reads = []

    class Sink:
        functions = rep.functions

        def add(self, *o):
            if o[0] == "read":
                reads.append(o[1:])
            else:
                rep.add(*o)
    RF.sweep(p, Sink(), c33_visit, fs)
    by = {}
    for b, key, solver, ty, d, w in reads:
        by.setdefault((key, solver), {}).setdefault((ty, d), []).append((b, w))
    nm = "an option has the same key, type and default everywhere"
    for (key, solver), m in sorted(by.items()):
        for ty, d in sorted(m):
            if d == "*" and len(m) > 1:
                other = [x for x in sorted(m) if x[1] != "*" and x[0] == ty] or [x for x in sorted(m) if x[1] != "*"]
                if other and other[0][0] == ty:
                    m[other[0]] += m.pop((ty, d))
        where = sorted(w for v in m.values() for b, w in v)[0]
        vs = {(ty, "" if key in DIFFER else d) for ty, d in m}
        if len(vs) > 1:
            # the reading that differs from most
            odd = sorted(m.items(), key=lambda x: len(x[1]))[0]
            rep.add("bad", nm, odd[1][0][1], "%s: %s" % (key, "; ".join("%s, default %s (%s)" % (
                ty, d, ", ".join(sorted({b for b, w in v}))) for (ty, d), v in sorted(m.items()))))
        else:
            ty, d = sorted(m)[0]
            rep.add("ok", nm, where, "%s%s: %s, default %s, %d readings" % (
                key, " (%s)" % solver if solver else "", ty, d, sum(len(v) for v in m.values())))
    nm = "both backends read the options documented for both"
    seen = {b: {} for b in ("assembled", "matrix-free")}
    for b, key, solver, ty, d, w in reads:
        if b in seen:
            seen[b].setdefault(key, w)
    extra = {b: {k: w for k, w in seen[b].items() if k not in SHARED | OWN} for b in seen}
    dims = {"agglomeration.nz"}
    for k in sorted(SHARED):
        miss = [b for b in sorted(seen) if k not in seen[b]]
        strange = [k2 + " at " + w for b in miss for k2, w in extra[b].items() if k2 not in dims]
        if not miss:
            rep.add("ok", nm, seen["assembled"][k], k)
        elif len(miss) == 1:
            o = [b for b in seen if b not in miss][0]
            rep.add("bad", nm, strange[0].split(" at ")[-1] if strange else seen[o][k],
                    "the %s backend reads %s, the %s backend does not%s" % (
                        o, k, miss[0], ", it reads " + strange[0] if strange else ""))
        else:
            rep.add("bad" if strange else "und", nm, strange[0].split(" at ")[-1] if strange else "include",
                    "%s is not read%s" % (k, ", but " + strange[0] if strange else ""))
    rep.need(40, "readings of options")
