"""C14 unknown choices, C15 narrowing, C16 status codes."""
import re
import vn
import spec
from core import *
from rules_flow import sweep, roots, owner


def thrown(g):
    """the condition under which the function leaves by an exception"""
    return or_(*[e.guard for e in g.events if e.kind == "throw"])


def conditions(g):
    seen = set()
    for e in g.events:
        for c, _ in e.pc:
            if c.id not in seen:
                seen.add(c.id)
                yield c
    for w in g.writes:
        for c, _ in w[2]:
            if c.id not in seen:
                seen.add(c.id)
                yield c
    for p, pc, *_ in g.derefs:
        for c, _ in pc:
            if c.id not in seen:
                seen.add(c.id)
                yield c


# -- C14 ---------------------------------------------------------------------

def choice(s):
    """(tree, name of the option or query, matched without regard to case) of a string a choice is made by"""
    low = any(x.op == "app" and x.a[0] in ("tolower", "toupper") for x in subterms(s))
    o = next((x for x in subterms(s) if x.op == "opt"), None)
    if o is not None:
        path = ""
        t = o.a[0]
        while t.op == "child":
            path = name_of(t.a[1]) + "." + path
            t = t.a[0]
        return path + name_of(o.a[1]), o.a[0], low
    r = next((x for x in subterms(s) if x.op.startswith("res_") or x.op == "app" and "get_mesh_evaluator_type" in
              str(x.a[0])), None)
    if r is not None and "get_mesh_evaluator_type" in (r.op + str(r.a[0])):
        return "evaluator type", r, low
    return None


def name_of(t):
    return t.a[0] if isinstance(t, T) and t.op == "str" else str(t)


# what the algorithm of each name consists of
ALG = [
    (r"smoother\.type$", {"symmetric gauss-seidel": r"PreconditionSSOR", "gauss-seidel": r"PreconditionSOR",
                          "jacobi": r"PreconditionJacobi", "ilu": r"PreconditionILU",
                          "chebyshev": r"PreconditionChebyshev"}),
    (r"coarse\.type$", {"direct": r"SolverDirect", "ml": r"PreconditionAMG"}),
    (r"(eigensolver\.|eigensolver_params.*|^)type$", {"arpack": r"ArpackSolver", "lanczos": r"LAPACKE?_?dste|Lanczos",
                                                     "anasazi": r"Anasazi::", "lapack": r"LAPACKFullMatrix"}),
    (r"partitioner$", {"block": None, "zoltan": r"SparsityTools::partition", "metis": r"SparsityTools::partition"}),
    (r"evaluator type", {"DealIIMeshEvaluator": r"DealIIHierarchyHelpers",
                         "DealIIMatrixFreeMeshEvaluator": r"DealIIMatrixFreeHierarchyHelpers"}),
]
CASELESS = r"(smoother\.type|coarse\.type|partitioner)$"


def c14_visit(g, f):
    if f.acc in (1, 2):
        return []
    out = []
    sels = {}
    dims = {}
    for c in conditions(g):
        for x in subterms(c):
            if x.op == "eq" and any(isinstance(y, T) and y.op == "str" for y in x.a):
                k, s = (x.a[0], x.a[1]) if x.a[0].op == "str" else (x.a[1], x.a[0])
                ch = choice(s)
                if ch is not None:
                    sels.setdefault((ch[0], ch[1]), {})[x] = (k.a[0], ch[2])
            if x.op == "eq0":
                for y in subterms(x):
                    if y.op.startswith("res_") and y.op.endswith("::get_dim"):
                        n = sub(x.a[0], y)
                        n = neg(n) if isconst(n) else add(x.a[0], y)
                        if isconst(n):
                            dims.setdefault(y, {})[x] = int(cval(n))
    th = thrown(g)
    w = wfn(f)
    alt = {e for e in g.events if e.kind == "throw"}
    for (key, tree), atoms in sorted(sels.items(), key=lambda q: str(q[0][0])):
        short = re.sub(r"^agglomeration\.|^eigensolver\.", "", key)
        names = sorted({n for n, _ in atoms.values()})
        left = not_(restrict(th, {a: False for a in atoms}))
        nm = "a value of '%s' that names nothing known is rejected" % short
        if infeasible(left):
            out.append(("ok", nm, w, ", ".join(names)))
        else:
            live = [e for e in g.events if e.kind != "throw" and
                    restrict(e.guard, {a: False for a in atoms}) is not FALSE]
            o = opaque_heads(left) - {"app tolower"}
            hard = [h for h in o if not h.startswith(("app dealii", "app std", "res_"))]
            out.append(("und" if hard else "bad", nm, w, "none of %s: the function goes on%s" % (
                names, "" if left is TRUE else " if " + show(left)[:300])))
        algs = next((a for r, a in ALG if re.search(r, key)), None)
        if algs is None:
            continue
        low = {n for n, l in atoms.values() if l}
        if re.search(CASELESS, key):
            raww = [n for n, l in atoms.values() if not l]
            up = [n for n in low if n != n.lower()]
            nm = "'%s' is matched without regard to case" % short
            if up or raww:
                out.append(("bad", nm, w, "%s: %s" % ("as the user wrote it" if raww else "never equal to", raww or up)))
            else:
                out.append(("ok", nm, w, ""))
        for n in names:
            if n not in algs:
                continue
            lits = {a: (m == n) for a, (m, _) in atoms.items()}
            nm = "'%s' = '%s' runs that very algorithm" % (short, n)
            tn = restrict(th, lits)
            if tn is TRUE:
                # the name is known but not offered by this backend
                out.append(("ok", "'%s' = '%s' is rejected by exception" % (short, n), w, ""))
                continue
            ran = {}
            for e in g.events:
                if e.kind in ("throw",):
                    continue
                for m, r in algs.items():
                    if r and re.search(r, e.name + " " + (e.fn.qn.split("(")[0] if e.fn else "")) and \
                            restrict(e.guard, lits) is not FALSE:
                        ran.setdefault(m, e)
            for fn_ in ():
                pass
            wrong = [m for m in ran if algs[m] != algs[n]]
            if wrong:
                e = ran[wrong[0]]
                out.append(("bad", nm, e.where, "runs " + e.name))
            elif algs[n] and n not in ran:
                out.append(("und", nm, w, "the algorithm is not recognised"))
            else:
                if algs[n] and "SparsityTools" in algs[n]:
                    e = ran[n]
                    v = assume(e.argv[-1], {a: b for a, b in lits.items()}) if e.argv[-1] is not None else None
                    if v is not None and v.op == "enum":
                        out.append(("ok" if show(v).split("::")[-1].strip("()'") .startswith(n) or n in show(v) else "bad",
                                    nm, e.where, "partitioner " + show(v)))
                        continue
                    out.append(("und", nm, e.where, "partitioner " + show(v)[:200]))
                    continue
                out.append(("ok", nm, w, ""))
    for y, atoms in dims.items():
        left = not_(restrict(th, {a: False for a in atoms}))
        nm = "an unsupported dimension is rejected"
        out.append(("ok" if infeasible(left) else "bad", nm, w, "" if infeasible(left) else
                    "dimension not in %s: the function goes on" % sorted(set(atoms.values()))))
        for a, d in atoms.items():
            lits = {b: e == d for b, e in atoms.items()}
            for e in g.events:
                m = re.search(r"HierarchyHelpers<(\d)", e.name)
                if e.kind == "new" and m and restrict(e.guard, lits) is not FALSE:
                    nm = "dimension %d gets the helpers of that dimension" % d
                    out.append(("ok" if int(m.group(1)) == d else "bad", nm, e.where, e.name[:80]))
    return out


def c14(p, rep):
    sweep(p, rep, c14_visit)
    rep.need(20, "selections")


# -- C15 ---------------------------------------------------------------------

def known_type(v, t, depth=0):
    """True if the object v points to is known to be of class t, False if it comes from outside, else None"""
    if depth > 40:
        return None
    if v.op == "ite":
        a, b = known_type(v.a[1], t, depth + 1), known_type(v.a[2], t, depth + 1)
        return a if a == b else False if False in (a, b) else None
    if v.op == "null":
        return True
    if v.op == "addr":
        l = v.a[0]
        if l.op == "new":
            return True if t in str(l.a[0]) else None
        if l.op == "ptr":
            return known_type(l.a[0], t, depth + 1)
        return False if l.op == "var" and "#" not in str(l.a[0]) else None
    if v.op == "dyncast":
        return v.a[0] == t or known_type(v.a[1], t, depth + 1)
    if v.op in ("sym", "fld", "this"):
        return False
    if v.op.startswith("res_") or v.op == "app":
        return False
    return None


def c15_visit(g, f):
    out = []
    done = {}
    for d, pc, file, line, seq in g.derefs:
        leaves = [d]
        if d.op == "ite":
            leaves = [x for _, x in value_paths(d)]
        where = "%s:%s" % (vn.short(file), line)
        for x in leaves:
            if x.op == "dyncast":
                nm = "nothing is read through a narrowed pointer before it is checked"
                c = and_(*[q for q, _ in pc])
                left = restrict(c, {raw("nonnull", x): False})
                if x is not d:
                    left = and_(left, or_(*[and_(*[a if b else not_(a) for a, b in l.items()])
                                            for l, leaf in value_paths(d) if leaf is x]))
                st = "ok" if infeasible(left) else "bad"
                if done.get((nm, where)) != "bad":
                    done[nm, where] = st
                    out.append((st, nm, where, "" if st == "ok" else "%s may be null here" % show(x)[:200]))
            if x.op == "sdown":
                nm = "an unchecked downcast is applied only to objects known to be of that class"
                t = str(x.a[0])
                k = known_type(x.a[1], t)
                c = and_(*[q for q, _ in pc])
                chk = [y for y in atoms_of(c) if y.op == "nonnull" and y.a[0].op == "dyncast" and y.a[0].a[0] == t]
                if k is not True and chk and infeasible(restrict(c, {y: False for y in chk})):
                    k = True
                elif k is False and "get_mesh_evaluator_type" in show(c):
                    k = None
                out.append(("ok" if k else "bad" if k is False else "und", nm, where,
                            "to %s: %s" % (t[:80], show(x.a[1])[:200])))
    if f.acc in (1, 2):
        return out
    # nothing fits: an exception
    ats = {}
    seen = set()
    for c in conditions(g):
        for x in subterms(c):
            if x.id not in seen and x.op == "nonnull" and x.a[0].op == "dyncast":
                seen.add(x.id)
                ats.setdefault(x.a[0].a[1], []).append(x)
    for d, *_ in g.derefs:
        if d.op == "dyncast" and d.a[1] not in ats:
            ats.setdefault(d.a[1], [])
    th = thrown(g)
    for base, l in ats.items():
        if any(x.op in ("k", "trip", "iter") for x in subterms(base)):
            continue
        nm = "an object of an unexpected class is rejected by exception"
        left = not_(restrict(th, {x: False for x in l}))
        what = sorted({str(x.a[0].a[0])[:60] for x in l})
        if infeasible(left):
            out.append(("ok", nm, wfn(f), ", ".join(what)))
        else:
            # also rejected if it is refused before it is looked at
            out.append(("bad", nm, wfn(f), "%s is none of %s: the function goes on%s" % (
                show(base)[:100], what, "" if left is TRUE else " if " + show(left)[:300])))
    return out


def c15(p, rep):
    sweep(p, rep, c15_visit)
    rep.need(20, "narrowed pointers")


# -- C16 ---------------------------------------------------------------------

STATUS = re.compile(r"^(Epetra|EpetraExt|LAPACKE?_|Anasazi::|Belos::|Amesos|Ifpack)|^(LAPACK_)?[sdcz](stev|steqr|syev|geev|stevd|"
                    r"sterf|potrf|getrf|getrs|gesv|potrs)[a-z]*_?$")
NOSTATUS = re.compile(r"::~?(GCID|GRID|LCID|LRID|LID|GID|Num\w*|Max\w*|Min\w*|Index\w*|My\w*|get\w*|Get\w*|ElementSize|"
                      r"is\w*|Is\w*|Indices\w*|Sorted|operator\w*|StorageOptimized|Filled|HaveColMap|Upper\w*|Lower\w*|NoDiagonal|"
                      r"SameAs|PointSameAs|DistributedGlobal|Unique\w*|Linear\w*|size|Length|Stride|Global\w*Length)$")


def gets_status(f):
    """the call reports failure by its result"""
    if f is None or f.ret is None or f.kind == "ctor":
        return False
    n = f.base
    if not STATUS.search(n) or NOSTATUS.search(n) and not n.endswith("::GlobalAssemble"):
        return False
    r = f.ret.s
    return r in ("int", "bool") or "ReturnType" in r or r == "lapack_int"


def c_assert(g, f, oloc, oid, locs, vals, ev):
    return ("v", raw("void"))


def verdict(c, r):
    """does the condition c (handed to an assertion) hold for success and fail otherwise?"""
    if c is r:
        return True
    if c is not_(r):
        return False
    z = [a for a in atoms_of(c) if has(a, r)]
    if len(z) != 1:
        return None
    a = z[0]
    if a.op == "eq0" and (a.a[0] is r or neg(a.a[0]) is r):
        good = True
    elif a is r:
        good = True
    elif a.op == "eq" and r in a.a:
        o = a.a[0] if a.a[1] is r else a.a[1]
        s = show(o)
        if "Unconverged" in s:
            good = False
        elif "Converged" in s:
            good = True
        else:
            return None
    else:
        return None
    yes, no = restrict(c, {a: good}), restrict(c, {a: not good})
    if no is FALSE and yes is not FALSE:
        return True
    if yes is FALSE or no is TRUE:
        return False
    return None


def c16_visit(g, f):
    out = []
    checks = []
    for e in g.events:
        if e.name == "mfmg::ASSERT" or e.name == "mfmg::ASSERT_THROW":
            c = next((v for v, t in zip(e.argv, e.fn.ptypes) if v is not None and t.s == "bool"), None)
            if c is not None:
                checks.append((c, e))
        elif e.kind == "throw":
            # under the conditions of the branch it is in
            checks.append((not_(e.guard), e))
    for e in g.events:
        if e.kind == "throw" or not gets_status(e.fn):
            continue
        n = e.name
        nm = "the status of %s is checked" % n
        r = e.res
        if r is None or r.op == "void":
            out.append(("bad", nm, e.where, "result dropped"))
            continue
        here = e.guard
        best = None
        for c, k in checks:
            if k.seq < e.seq or not has(c, r):
                continue
            if k.kind == "throw":
                c = restrict(c, literals(here)) if here is not TRUE else c
            v = verdict(c, r)
            if v is None:
                best = best or ("und", "checked by " + show(c)[:200])
                continue
            if v is False:
                best = ("bad", "the check fails on success and passes on failure: " + show(c)[:200])
                continue
            if k.kind != "throw":
                miss = and_(here, not_(k.guard))
                if not infeasible(miss):
                    best = best or ("bad", "not checked if " + show(miss)[:300])
                    continue
            # what happens to the results before
            touched = {x for x in [e.obj] + [l for l in (e.args or []) if isinstance(l, T)] if isinstance(x, T) and
                       root_of(x).op in ("var", "new")}
            touched = {root_of(x) for x in touched}
            if e.obj is not None and e.fn.const:
                touched.discard(root_of(e.obj))
            used = [q for q in g.events if e.seq < q.seq < k.seq and q.kind != "throw" and q.name != "mfmg::ASSERT"
                    and not infeasible(and_(here, q.guard))
                    and any(isinstance(x, T) and root_of(x) in touched for x in [q.obj] + list(q.args or []))]
            if used:
                best = best or ("bad", "%s uses the result at %s before the status is checked" % (
                    used[0].name, used[0].where))
                continue
            best = ("ok", "")
            break
        st, d = best or ("bad", "status dropped or not compared with success")
        out.append((st, nm, e.where, d))
    return out


def root_of(l):
    while l.op in ("f", "el", "ptr", "addr") and l.a and isinstance(l.a[0], T):
        l = l.a[0]
    return l


def c16(p, rep):
    sweep(p, rep, c16_visit, contracts={"mfmg::ASSERT": c_assert})
    rep.need(10, "status codes")
