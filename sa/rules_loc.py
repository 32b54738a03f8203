"""C27 local eigenproblem of an agglomerate."""
import re
from fractions import Fraction

import vn
import spec
from core import *
from vn import Engine, F, EL, THIS, ptr, addr
from rules_eig import atom, holds
from rules_mesh import node_bool, same_line

# deal.II: ArpackSolver::WhichEigenvalues
LARGEST = {0: "algebraically_largest", 2: "largest_magnitude"}
OTHER = {1: "algebraically_smallest", 3: "smallest_magnitude", 4: "largest_real_part", 5: "smallest_real_part",
         6: "largest_imaginary_part", 7: "smallest_imaginary_part", 8: "both_ends"}
DIAG = "#diag"


def local_fns(p):
    out = [f for f in p.fns if f.body is not None and f.repo and f.name == "compute_local_eigenvectors" and
           f.cls and f.cls.endswith("AMGe_host")]
    seen, r = set(), []
    for f in out:
        k = (f.line, f.ct.s if f.ct else "", tuple(t.s for t in f.ptypes))
        if k not in seen:
            seen.add(k)
            r.append(f)
    return r


def with_dim(fs):
    """one instantiation per definition and space dimension"""
    seen, r = set(), []
    for f in fs:
        m = re.search(r"<(\d)", f.ct.s if f.ct else "")
        k = (f.file, f.line, m.group(1) if m else "")
        if k not in seen:
            seen.add(k)
            r.append(f)
    return r


def elem(t, k, bounds):
    """entry k of the array t for a k below all the bounds"""
    if t.op == "ite" and isinstance(t.a[1], T):
        return ite(atomb(t.a[0]), elem(t.a[1], k, bounds), elem(t.a[2], k, bounds))
    if t.op == "stol":
        e = inst(t.a[2], k)
        if e.op == "tup" and isconst(sub(e.a[0], k)):
            c = sub(e.a[0], k)
            b = sub(k, c)
            new, old = deep(inst(t.a[2], b).a[1], k, bounds), elem(t.a[0], k, bounds)
            return ite(lt0(b), old, ite(lt0(sub(b, t.a[1])), new, old))
        if t.a[1] in bounds or t.a[1].op == "len" and t.a[1].a[0].op in ("lzval", "lzvec"):
            return deep(inst(t.a[2], k), k, bounds)
        if t.a[1] is ZERO:
            return elem(t.a[0], k, bounds)
        return ite(lt0(sub(k, t.a[1])), deep(inst(t.a[2], k), k, bounds), elem(t.a[0], k, bounds))
    r = assume(sel(t, k), below(k, bounds))
    return r if r.op == "sel" and r.a[0] is t else deep(r, k, bounds)


def deep(v, k, bounds):
    """resolve the entries k that occur in v"""
    d = {x: elem(x.a[0], k, bounds) for x in subterms(v)
         if x.op == "sel" and x.a[1] is k and x.a[0].op in ("ite", "stol")}
    return subst(v, d) if d else v


class Solved:
    """what an inner eigensolver was given"""

    def __init__(self, kind, where, guard, val, vec, mats, argv, ev):
        self.__dict__.update(locals())


def local_engine(p, f):
    found = []

    def mats_of(g, t):
        """values of the objects whose addresses occur in t"""
        out = []
        for x in subterms(t):
            if x.op == "addr":
                try:
                    out.append((x.a[0], g.read(x.a[0])))
                except Exception:
                    pass
        return out

    def inner(kind):
        def k(g, f_, oloc, oid, locs, vals, ev):
            ov = g.read(oloc)
            a, b = raw("lzval", ov, *vals), raw("lzvec", ov, *vals)
            if not g.dry:
                found.append(Solved(kind, ev.where if ev is not None else "", ev.guard if ev is not None else TRUE,
                                    a, b, mats_of(g, ov), list(vals), ev))
            return ("v", raw("tup", a, b))
        return k
    g = Engine(p, contracts={"mfmg::Lanczos::solve": inner("lanczos"), "mfmg::AnasaziSolver::solve": inner("anasazi")})
    r = g.enter(f)
    return g, r, found


def base_of(t):
    while t.op == "rec":
        t = t.a[0]
    return t


def mrow(m, k):
    """k-th diagonal entry of the matrix value m"""
    return sel(fld(m, DIAG), k)


def unconstrain(t, cons):
    """the diagonal before and the (index, value) pairs set by loops over the constraint lines"""
    sets = []
    while t.op == "iter":
        lam = t.a[2]
        body = lam.a[-1] if lam.op == "lam" else None
        k = raw("sym", "$c%d" % len(sets))
        b = inst(lam, k)
        if b.op != "sto" or b.a[0].op != "bvp":
            return None, None
        sets.append((t.a[0], k, b.a[1], b.a[2]))
        t = t.a[1]
    return t, sets


def coef(t, unit):
    """c >= 0 such that certainly t >= c * (bound of the spectrum); None: not recognised.
    unit(t) gives the multiple for an atomic term"""
    u = unit(t)
    if u is not None:
        return u
    if isconst(t):
        return 0 if cval(t) >= 0 else None
    if t.op == "max":
        cs = [c for c in (coef(x, unit) for x in t.a) if c is not None]
        return max(cs) if cs else None
    if t.op in ("min", "ite"):
        cs = [coef(x, unit) for x in t.a[-2:]]
        return None if None in cs else min(cs)
    if t.op == "poly":
        tot = 0
        for m, c in t.a:
            if c < 0:
                return None
            if not m:
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            k = coef(m[0][0], unit)
            if k is None:
                return None
            tot += c * k
        return tot
    return None


ANY = re.compile("SparseMatrix::(linfty|l1|frobenius)_norm$")


def spectrum(M, shifted):
    """unit for coef(): norms bounding the eigenvalues of the shifted matrix"""
    def unit(t):
        if t.op != "app" or not ANY.search(str(t.a[0])):
            return None
        m = t.a[1]
        if base_of(m) is not M:
            return None
        d = unconstrain(fld(m, DIAG), None)[0]
        if d is None:
            return None
        if d is fld(M, DIAG):
            # lambda + mean of the diagonal is at most twice the norm of the matrix before shifting
            return Fraction(1, 2) if "linfty" in str(t.a[0]) or "l1" in str(t.a[0]) else None
        return 1 if d is shifted else None
    return unit


def leafname(lits):
    n = [y.a[0] for a, b in lits.items() if b and a.op == "eq" for y in a.a if isinstance(y, T) and y.op == "str"]
    return n[0] if n else "default"


def c27(p, rep):
    fs = with_dim(local_fns(p))
    for f in fs:
        local(p, rep, f)
    which(p, rep)
    rep.need(20, "local eigenproblems")


def local(p, rep, f):
    g, r, found = local_engine(p, f)
    rep.fns(g)
    w = wfn(f)
    if r is None or r[0] != "v" or r[1].op != "tup" or len(r[1].a) != 4:
        return rep.und("local eigenproblem", w, "result not recognised")
    evals, evecs, diag = r[1].a[:3]
    evs = [e for e in g.events if e.name.endswith("::evaluate_agglomerate")]
    k = raw("sym", "$k")
    INT.add(k.id)
    NONNEG.add(k.id)
    n = next((raw("sym", q["n"]) for q in f.params if q["n"].startswith("n_eig")), None) if False else \
        raw("sym", f.params[0]["n"])
    if not evs:
        return matrixfree(rep, g, f, w, evals, diag, found, k, n)
    mats = [o for e in evs for l, o in e.out if e.fn and any(
        t.cls and t.cls.endswith("SparseMatrix") for i, t in enumerate(e.fn.ptypes) if o.op.startswith("out_") and o.a[0] is num(i))]
    if len(mats) != 1:
        return rep.und("local eigenproblem", w, "%d matrices assembled" % len(mats))
    M = mats[0]
    cons = [o for e in evs for l, o in e.out if e.fn and any(
        t.cls and t.cls.endswith("AffineConstraints") for i, t in enumerate(e.fn.ptypes) if o.a[0] is num(i))]
    m = app_("dealii::SparseMatrix::m", M)
    # what the solvers are given
    given = []
    for e in g.events:
        if last(e.name) in ("solve", "copy_from", "initialize") and e.kind == "ext":
            for a in e.argv:
                if a is not None and base_of(a) is M:
                    given.append((last(e.name), e.where, a, e))
    for s in found:
        ms = [v for _, v in s.mats if base_of(v) is M]
        if ms:
            given.append((s.kind, s.where, ms[0], s.ev))
        else:
            rep.und("operator of " + s.kind, s.where, "matrix not recognised")
    if not given:
        return rep.und("local eigenproblem", w, "no eigensolver recognised")
    D = {v for _, _, v, _ in given}
    vals = {fld(v, DIAG) for v in D}
    if len(vals) != 1 or len(D) != 1:
        rep.und("one matrix for all eigensolvers", w, "%d different matrices" % len(vals))
        return
    rep.ok("one matrix for all eigensolvers", w, "%d uses" % len(given))
    d0, sets = unconstrain(vals.pop(), cons)
    if d0 is None:
        return rep.und("diagonal handed to the eigensolvers", w, "changed in an unknown way")
    # shift
    S = sub(elem(d0, k, [m]), sel(fld(M, DIAG), k))
    if S.op == "ite":
        ls = value_paths(S)
        if len({v for _, v in ls}) > 1 and all(not has(v, k) for _, v in ls) and any(v is ZERO for _, v in ls) and all(
                isinstance(a, T) and a.op in ("lt0", "eq0") for l, _ in ls for a in l):
            return rep.bad("every diagonal entry is shifted by the same value", w, "the shift is %s for entry $k" % show(S)[:600])
    if has(S, k) or S.op == "ite":
        return rep.und("shift", w, "not the same for all unknowns: " + show(S)[:300])
    if d0.op != "stol" or d0.a[1] is not m:
        if S is ZERO:
            pass
        elif d0.op == "stol" and not opaque_heads(sub(d0.a[1], m)) - opaque_heads(m):
            rep.bad("every diagonal entry is shifted", w, "only %s entries of %s" % (show(d0.a[1])[:200], show(m)[:100]))
            return
        else:
            return rep.und("every diagonal entry is shifted", w, show(d0)[:300])
    rep.ok("every diagonal entry is shifted by the same value", w, show(S)[:300])
    # diagonal reported
    compare(rep, "diagonal reported is that before shifting", elem(diag, k, [m]), sel(fld(M, DIAG), k), w, eng=g,
            also=("app dealii::SparseMatrix::m",))
    compare(rep, "diagonal reported: number of entries", length(diag), m, w, eng=g)
    # shifted back
    el = elem(evals, k, [n, length(evals)])
    for ls, v in value_paths(el):
        shifted_back(rep, w, leafname(ls), v, S, k)
    # vectors
    j = raw("sym", "$j")
    INT.add(j.id)
    NONNEG.add(j.id)
    ev_ = deep2(elem(evecs, k, [n, length(evecs)]), j, [m])
    for ls, v in value_paths(ev_):
        vectors(rep, w, leafname(ls), v, k, j)
    # constrained unknowns
    constrained(rep, g, w, M, cons, d0, sets, given)
    smallest(rep, g, w, M, given)


def below(k, ns):
    lits = {}
    for x in ns:
        a, b = atom(lt0(sub(k, x)))
        if a is not None:
            lits[a] = b
    a, b = atom(lt0(k))
    if a is not None:
        lits[a] = not b
    return lits


def solver_value(t, k):
    """t is entry k of the eigenvalues an inner solver returned"""
    while t.op in ("re", "fld") or t.op == "rec" and t.a[1] and t.a[1][0][0] in ("re", "im"):
        t = dict(t.a[1]).get("re", t.a[1][0][1]) if t.op == "rec" else t.a[0]
    if t.op != "sel" or t.a[1] is not k:
        return False
    b = t.a[0]
    while b.op in ("sto", "stol"):
        b = b.a[0]
    return b.op == "lzval" or b.op.startswith("out_") or b.op == "fld"


def shifted_back(rep, w, name, v, S, k):
    R = add(v, S)
    what = "eigenvalues of %s are reported without the shift" % name
    if solver_value(R, k):
        return rep.ok(what, w, show(R)[:200])
    atoms = [a for m_, c in todict(R).items() for a, e in m_]
    src = [a for a in atoms if solver_value(a, k)]
    if len(src) == 1 and todict(R).get(((src[0], 1),)) == 1 and len(todict(R)) > 1:
        return rep.bad(what, w, "the value reported plus the shift is %s" % show(R)[:500])
    other = [a for a in atoms if a.op == "sel"]
    return rep.und(what, w, show(R)[:400])


def deep2(v, j, bounds):
    if v.op == "ite" and isinstance(v.a[1], T):
        return ite(atomb(v.a[0]), deep2(v.a[1], j, bounds), deep2(v.a[2], j, bounds))
    return elem(v, j, bounds)


def vectors(rep, w, name, v, k, j):
    """vector k as the inner solver returned it"""
    what = "vectors of %s are those of the eigenvalues" % name
    if v.op == "sel" and v.a[1] is j and v.a[0].op == "sel" and v.a[0].a[1] is k:
        b = v.a[0].a[0]
        if b.op == "lzvec" or b.op.endswith("ArpackSolver::solve"):
            return rep.ok(what, w)
        if b.op.endswith("compute_eigenvalues_symmetric"):
            return rep.bad(what, w, "rows of the dense eigenvector matrix are copied, not columns")
    if v.op == "sel" and v.a[1] is k and v.a[0].op == "sel" and v.a[0].a[1] is j:
        b = v.a[0].a[0]
        if b.op.endswith("compute_eigenvalues_symmetric"):
            return rep.ok(what, w)
        if b.op == "lzvec" or b.op.endswith("ArpackSolver::solve"):
            return rep.bad(what, w, "transposed: " + show(v)[:100])
    return rep.und(what, w, show(v)[:300])


def constrained(rep, g, w, M, cons, d0, sets, given):
    name = "constrained unknowns lie beyond the spectrum"
    if len(cons) != 1:
        return rep.und(name, w, "constraints not recognised")
    lines = app_("dealii::AffineConstraints::get_lines", cons[0])
    if not sets:
        if has_set_call(g, M):
            return rep.und(name, w, "matrix entries are set in an unknown way")
        return rep.bad(name, w, "the diagonal entries of constrained unknowns are not changed after shifting")
    tops = []
    for N, kk, idx, val in sets:
        L = fld(sel(lines, kk), "index")
        full = N is length(lines)
        if not full or idx is not L:
            if N.op == "len" and not opaque_heads(idx) - opaque_heads(L) and full:
                rep.bad("every constrained unknown is set", w, "index %s" % show(idx)[:200])
            else:
                rep.und("every constrained unknown is set", w, "%s of %s" % (show(idx)[:200], show(N)[:200]))
            return
        tops.append(val)
    rep.ok("every constrained unknown is set", w)
    c = tops[0]          # outermost: the last to be set
    unit = spectrum(M, d0)
    q = coef(c, unit)
    if has(c, sets[0][1]) and q is None:
        return rep.und(name, w, show(c)[:300])
    if q is not None and q > 1:
        rep.ok(name, w, "%s times a norm bounding the shifted spectrum" % q)
    elif isconst(c) or (q is not None and not has(c, M)):
        rep.bad(name, w, "they are set to %s, whatever the matrix" % show(c)[:200])
    elif q is not None and not unknown_norm(c, M):
        rep.bad(name, w, "they are set to %s, at least %s times the bound of the shifted spectrum only" % (show(c)[:300], q))
    else:
        rep.und(name, w, show(c)[:300])
    # dense solver: eigenvalues in an interval
    for e in g.events:
        if last(e.name) == "compute_eigenvalues_symmetric":
            lo, hi = e.argv[0], e.argv[1]
            if isconst(lo):
                rep.check(cval(lo) <= 0, "interval of the dense eigensolver starts below the spectrum", e.where, "starts at " + show(lo))
            else:
                rep.und("interval of the dense eigensolver starts below the spectrum", e.where, show(lo)[:200])
            qh = coef(hi, unit)
            nm = "interval of the dense eigensolver covers the unconstrained spectrum only"
            gap = sub(c, hi)
            qg = coef(gap, unit)
            if qh is not None and qh >= 1 and (qg is not None and (qg > 0 or strictly(gap))):
                rep.ok(nm, e.where, show(hi)[:200])
            elif isconst(hi) or (qh is not None and qh < 1 and not unknown_norm(hi, M)):
                rep.bad(nm, e.where, "it ends at %s" % show(hi)[:300])
            elif isconst(gap) and cval(gap) <= 0 or (coef(neg(gap), unit) is not None):
                rep.bad(nm, e.where, "it ends at %s, beyond the constrained unknowns at %s" % (show(hi)[:200], show(c)[:200]))
            else:
                rep.und(nm, e.where, "%s, constrained unknowns at %s" % (show(hi)[:200], show(c)[:200]))


def strictly(t):
    return isconst(t) and cval(t) > 0 or t.op == "max" and any(strictly(x) for x in t.a) or \
        t.op == "poly" and any(c > 0 and len(m) == 1 and m[0][1] == 1 and strictly(m[0][0]) for m, c in t.a)


def unknown_norm(t, M):
    """something computed from the matrix that is not understood"""
    return any(x.op == "app" and not ANY.search(str(x.a[0])) or x.op in ("sum", "fold", "iter", "phi", "out", "sel")
               for x in tops(t))


def tops(t):
    """subterms of t outside the arguments of norms"""
    out = [t]
    if t.op == "app" and ANY.search(str(t.a[0])):
        return out
    if t.op == "poly":
        for m, c in t.a:
            for a, e in m:
                out += tops(a)
        return out
    for a in t.a:
        if isinstance(a, T):
            out += tops(a)
    return out


def has_set_call(g, M):
    return any(e.kind == "ext" and e.obj is not None and not e.fn.const and "SparseMatrix" in e.name for e in g.events if e.fn)


def last(n):
    return n.rsplit("::", 1)[-1]


def smallest(rep, g, w, M, given):
    """the inverse iteration asks for the largest values of the inverse of the very matrix"""
    data = {}
    for e in g.events:
        if e.name.endswith("ArpackSolver::AdditionalData"):
            data[e.where] = e
    for e in g.events:
        if not (e.kind == "ext" and e.name.endswith("ArpackSolver::solve")):
            continue
        name = "smallest eigenvalues are requested from arpack"
        if len(data) != 1 or len(e.argv) < 3:
            rep.und(name, e.where, "settings not recognised")
            continue
        wh = list(data.values())[0].argv[1] if len(list(data.values())[0].argv) > 1 else None
        inv = e.argv[2]
        inverse = inv.op.startswith("upd_") and inv.op.endswith("UMFPACK::initialize") and inv.a[1] is e.argv[0]
        if wh is None or not isconst(wh):
            rep.und(name, e.where, "which: " + (show(wh)[:100] if wh is not None else "?"))
        elif inverse:
            rep.check(int(cval(wh)) in LARGEST, name, e.where, "%s of the inverse are requested" % OTHER.get(int(cval(wh)), "?"))
        else:
            rep.und(name, e.where, "inverse not recognised: " + show(inv)[:200])
        if e.argv[0] is not None and inv.op.startswith("upd_") and inv.op.endswith("UMFPACK::initialize"):
            compare(rep, "arpack works with the inverse of the shifted matrix", inv.a[1], e.argv[0], e.where, eng=g)


def matrixfree(rep, g, f, w, evals, diag, found, k, n):
    if not found:
        return rep.und("matrix-free eigenproblem", w, "no eigensolver recognised")
    el = elem(evals, k, [n, length(evals)])
    for ls, v in value_paths(el):
        shifted_back(rep, w, leafname(ls) + " (matrix-free)", v, ZERO, k)


def which(p, rep):
    for f in p.fns:
        if f.body is None or not f.repo or f.base != "mfmg::AnasaziSolver::solve":
            continue
        g = Engine(p)
        g.enter(f)
        rep.fns(g)
        sets = [e for e in g.events if last(e.name) == "set" and len(e.argv) >= 2 and e.argv[0] is not None and
                show(e.argv[0]).strip("'\"") == "Which"]
        name = "smallest eigenvalues are requested from anasazi"
        if not sets:
            rep.und(name, wfn(f), "option not recognised")
        for e in sets[-1:]:
            v = show(e.argv[1]).strip("'\"")
            if v in ("SM", "SR"):
                rep.ok(name, e.where, v)
            elif v in ("LM", "LR", "SI", "LI"):
                rep.bad(name, e.where, "requested: " + v)
            else:
                rep.und(name, e.where, v[:100])
