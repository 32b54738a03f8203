"""C21-C24 eigensolvers, C28 multivector operations."""
import re
import vn
import spec
from core import *
from vn import Engine, F, EL, THIS, ptr, addr

MVT = "Anasazi::MultiVecTraits"
OPT = "Anasazi::OperatorTraits"


def engine(p, **kw):
    return Engine(p, contracts=spec.OPS, **kw)


def field_of(p, cls, pred):
    """names of the fields of cls whose type satisfies pred"""
    c = p.classes.get(cls)
    return [f["n"] for f in c.fields if pred(f["t"])] if c else []


def columns_field(p, ty):
    fs = field_of(p, ty, lambda t: t.s.startswith("std::vector<std::shared_ptr<"))
    return fs[0] if len(fs) == 1 else None


def atom(b):
    """(atom, truth value) of a condition made of one comparison"""
    if b.op == "ite" and {b.a[1], b.a[2]} == {TRUE, FALSE}:
        return b.a[0], b.a[1] is TRUE
    return None, None


def holds(lits, b):
    """truth value of the condition b under the literals, None if not decided"""
    a, v = atom(b)
    if b in (TRUE, FALSE):
        return b is TRUE
    return None if a not in lits else lits[a] == v


class MV:
    """a multivector parameter: its columns as terms"""

    def __init__(self, g, loc, fld_, init=None):
        self.loc = loc
        self.cols = F(loc, fld_)
        self.vec = g.read(self.cols) if init is None else init

    def n(self):
        return length(self.vec)

    def p(self, i):
        return sel(self.vec, i)

    def at(self, i):
        v = raw("at", sel(self.vec, i))
        VEC.add(v.id)
        return v


SIZES = re.compile(r"SerialDenseMatrix::num(Rows|Cols)$|Range1D::(size|lbound|ubound)$")


def families(g, loc):
    """loops that write to the family of locations loc belongs to"""
    out = []
    for pat, ks, v, lp in g.st.umem:
        b = {}
        if vn.match(pat, loc, ks, b):
            out.append((pat, ks, b))
    return out


def dom_check(rep, g, name, w, loc, domain):
    """every loop that runs over the family of loc has one of the given trip counts"""
    fam = families(g, loc)
    if not fam:
        v = g.read(loc)
        if v is g.init_value(loc):
            return rep.bad(name, w, "nothing is written")
        return rep.und(name, w, "no loop over the columns recognised")
    by = {l.k: l for l in g.all_loops}
    ok = True
    for pat, ks, b in fam:
        for k in [t for t in subterms(pat) if t in by]:
            l = by[k]
            if l.breaks:
                ok = rep.und(name, w, "the loop at line %s may stop early" % l.line) and ok
            elif l.N is None or l.N.op == "trip":
                ok = rep.und(name, w, "number of rounds of the loop at line %s not recognised" % l.line) and ok
            elif l.N in domain:
                pass
            elif [h for h in opaque_heads(l.N) if not SIZES.search(h)]:
                ok = rep.und(name, w, "the loop at line %s runs %s times" % (l.line, show(l.N)[:200])) and ok
            else:
                ok = rep.bad(name, w, "the loop at line %s runs %s times" % (l.line, show(l.N)[:200])) and ok
            off = b.get(k)
    return rep.ok(name, w) if ok else False


def col_check(rep, g, name, w, loc, expected, domain):
    """the column at loc holds `expected` for every selected column"""
    compare(rep, name, g.read(loc), expected, w, eng=g)
    dom_check(rep, g, name + ": range", w, loc, domain)


def inrange(v, bounds):
    """v where each index is known to lie below one of its bounds"""
    lits = {}
    for i, ns in bounds:
        for n in ns:
            a, b = atom(lt0(sub(i, n)))
            if a is not None:
                lits[a] = b
        a, b = atom(lt0(i))
        if a is not None:
            lits[a] = not b
    return assume(v, lits)


def entry_check(rep, g, name, w, loc, idx, expected, domains):
    v = g.read(loc)
    for i, ns in zip(idx, domains):
        if v.op == "stol" and v.a[1] in ns and v.a[2].a[0].op != "tup":
            v = inst(v.a[2], i)
        else:
            v = sel(v, i)
        v = inrange(v, list(zip(idx, domains)))
    compare(rep, name, v, expected, w, eng=g, also=[h for h in opaque_heads(v) if NORMAPP.search(h)])


def size_app(g, loc, names):
    """the values of a size query on the object at loc"""
    out = set()
    for e in g.events:
        if e.obj is loc and e.name.rsplit("::", 1)[-1] in names and e.res is not None:
            out.add(e.res)
    v = g.init_value(loc)
    for nm in names:
        out.add(app_("Teuchos::SerialDenseMatrix::" + nm, v))
    return out


def sym(n):
    s = raw("sym", n)
    mark(s, True, True)
    return s


def index_of(g, t, v, loc, j):
    """(index number j, number of indices) of an index argument"""
    if t.cls and "vector" in t.cls:
        return sel(v, j), {length(v)}
    if "Range1D" in t.s:
        lb = {e.res for e in g.events if e.name.endswith("Range1D::lbound") and e.obj is loc and e.res is not None}
        lb.add(app_("Teuchos::Range1D::lbound", v))
        use = [x for e in g.writes for x in subterms(e[0]) if x in lb] + [
            x for e in g.writes for x in subterms(e[1]) if x in lb]
        b = use[0] if use else sorted(lb, key=lambda x: x.id)[-1]
        return add(b, j), size_app(g, loc, ("size",)) | {app_("Teuchos::Range1D::size", v)}
    return None


def clone(p, rep, g, f, fl, w, tag, r, M, num_, loc, J):
    res = r[1]
    if res is None or res.op != "addr":
        return rep.und(tag + "result", w, "not recognised: %s" % (show(res)[:200] if res is not None else None))
    obj = F(res.a[0], fl)
    cols = g.read(obj)
    copy = not f.name.startswith("CloneView")
    if f.name == "Clone":
        ix = (None, {num_(1)})
    elif len(f.ptypes) == 1:
        ix = (J, {M.n()})
    else:
        ix = index_of(g, f.ptypes[1], num_(1), loc[1], J)
    if ix is None:
        return rep.und(tag + "index set", w, "kind of index %s" % f.ptypes[1].s)
    i, cnt = ix
    n = length(cols)
    if n in cnt:
        rep.ok(tag + "number of columns", w)
    elif opaque_heads(n) - set().union(*[opaque_heads(c) for c in cnt]):
        rep.und(tag + "number of columns", w, show(n)[:200])
    else:
        rep.bad(tag + "number of columns", w, "%s columns instead of %s" % (
            show(n)[:200], " or ".join(show(c)[:80] for c in cnt)))
    q = inrange(sel(cols, J), [(J, list(cnt) + [n])])
    if copy:
        if q.op == "addr" and q.a[0].op == "new":
            rep.ok(tag + "copies own their vectors", w)
        elif any(x is M.vec for x in subterms(q)):
            return rep.bad(tag + "copies own their vectors", w, "column J of the copy is " + show(q)[:300])
        else:
            return rep.und(tag + "copies own their vectors", w, show(q)[:300])
        v = g.read(q.a[0])
        if f.name == "Clone":
            m = veclen(v)
            e = {ite(eq0(M.n()), num(0), veclen(M.at(num(0)))), veclen(M.at(num(0)))}
            rep.add("ok" if m in e else "und" if opaque_heads(m) else "bad", tag + "length of the columns", w,
                    "columns of length %s" % show(m)[:200])
        else:
            compare(rep, tag + "copied columns", v, M.at(i), w, eng=g)
    else:
        compare(rep, tag + "columns shared with the original", q, M.p(i), w, eng=g)


def veclen(v):
    return length(v)


def c28(p, rep):
    done = set()
    fs = [f for f in p.fns if f.body is not None and f.repo and (f.cls or "") in (MVT, OPT) and f.static]
    n = 0
    for f in fs:
        key = (f.name, tuple(t.s for t in f.ptypes))
        if key in done:
            continue
        done.add(key)
        mvs = [i for i, t in enumerate(f.ptypes) if (t.cls or "") == "mfmg::MultiVector"]
        if not mvs:
            continue
        ty = re.sub(r"\bconst\b|&", "", f.ptypes[mvs[0]].s).strip()
        fl = columns_field(p, ty)
        w = wfn(f)
        tag = f.base.replace("Anasazi::", "") + "(" + ", ".join(
            re.sub(r"std::allocator<[^<>]*>|mfmg::|dealii::|, *(?=>)", "", t.s) for t in f.ptypes) + "): "
        if fl is None:
            rep.und(tag + "columns", w, "the columns of %s are not one vector of shared pointers" % ty)
            continue
        n += 1
        variants = [None]
        if f.name == "MvAddMv":
            variants += ["first operand", "second operand"]
        for var in variants:
            one_mv(p, rep, f, fl, w, tag if not var else tag + "result is the " + var + ": ", mvs, var)
    rep.need(12, "multivector operations")


def one_mv(p, rep, f, fl, w, tag, mvs, var):
    g = engine(p)
    names = [q["n"] or "arg%d" % i for i, q in enumerate(f.params)]
    loc = [raw("var", "@" + n) for n in names]
    init = {}
    for i in mvs:
        v = g.read(F(loc[i], fl))
        init[i] = v
    if var:
        out = [i for i in mvs if not f.ptypes[i].const][-1]
        ins = [i for i in mvs if i != out]
        src = ins[0] if var.startswith("first") else ins[1]
        g.write(F(loc[src], fl), init[out], True)
        init[src] = init[out]
    r = g.enter(f)
    rep.fns(g)
    J, I = sym("J"), sym("I")
    th = [e for e in g.events if e.kind == "throw"]
    if any(e.guard is TRUE for e in th):
        rep.ok(tag + "refuses", w, "throws on every path")
        return
    M = {i: MV(g, loc[i], fl, init[i]) for i in mvs}
    nm = f.name
    a = f.ptypes

    def arg(i):
        return g.init_value(loc[i])

    def after(i, j):
        return ptr(M[i].p(j))

    rows = lambda i: size_app(g, loc[i], ("numRows",))
    cols = lambda i: size_app(g, loc[i], ("numCols",))
    if nm == "MvTimesMatAddMv" and len(mvs) == 2:
        al, A, B, be, mv = arg(0), M[1], arg(2), arg(3), M[4]
        k = raw("sym", "kk")
        t = lam(mul(mul(al, sel(sel(B, k), J)), A.at(k)), k)
        cands = [add(mul(be, mv.at(J)), summ(n, t)) for n in [A.n()] + sorted(rows(2), key=lambda x: x.id)]
        got = g.read(after(4, J))
        col_check(rep, g, tag + "mv*beta + alpha A B", w, after(4, J), got if got in cands else cands[0],
                  {mv.n()} | cols(2))
    elif nm == "MvAddMv" and len(mvs) == 3:
        al, A, be, B, mv = arg(0), M[1], arg(2), M[3], M[4]
        e = add(mul(al, A.at(J)), mul(be, B.at(J)))
        col_check(rep, g, tag + "alpha A + beta B", w, after(4, J), e, {A.n(), B.n(), mv.n()})
    elif nm == "MvScale":
        mv = M[0]
        if f.ptypes[1].cls and "vector" in f.ptypes[1].cls:
            e = mul(sel(arg(1), J), mv.at(J))
            dom = {mv.n(), length(arg(1))}
        else:
            e = mul(arg(1), mv.at(J))
            dom = {mv.n()}
        col_check(rep, g, tag + "scaled columns", w, after(0, J), e, dom)
    elif nm == "MvInit":
        got = g.read(after(0, J))
        dom_check(rep, g, tag + "every column is set", w, after(0, J), {M[0].n()})
        if got.op == "arr" and got.a[1] is arg(1):
            rep.ok(tag + "constant columns", w, show(got)[:200])
        elif opaque_heads(got):
            rep.und(tag + "constant columns", w, show(got)[:200])
        else:
            rep.bad(tag + "constant columns", w, "a column becomes " + show(got)[:300])
    elif nm == "MvTransMv" and len(mvs) == 2:
        al, A, B = arg(0), M[1], M[2]
        entry_check(rep, g, tag + "alpha A^T B", w, loc[3], (I, J), mul(al, dot(A.at(I), B.at(J))),
                    [[A.n()] + list(rows(3)), [B.n()] + list(cols(3))])
    elif nm == "MvDot":
        A, B = M[0], M[1]
        entry_check(rep, g, tag + "inner products", w, loc[2], (I,), dot(A.at(I), B.at(I)), [[A.n(), B.n()]])
    elif nm == "MvNorm":
        A = M[0]
        entry_check(rep, g, tag + "norms", w, loc[1], (I,), norm(A.at(I)), [[A.n()]])
    elif nm == "SetBlock":
        A, mv = M[0], M[2]
        ix = index_of(g, f.ptypes[1], arg(1), loc[1], J)
        if ix is None:
            rep.und(tag + "index set", w, "kind of index %s" % f.ptypes[1].s)
        else:
            i, cnt = ix
            col_check(rep, g, tag + "assigned columns", w, after(2, i), A.at(J), {A.n()} | cnt)
    elif nm in ("CloneCopy", "CloneView", "CloneViewNonConst", "Clone"):
        clone(p, rep, g, f, fl, w, tag, r, M[0], arg, loc, J)
    elif nm == "GetNumberVecs":
        compare(rep, tag + "number of columns", r[1], M[0].n(), w, eng=g)
    elif nm == "GetGlobalLength":
        m = veclen(M[0].at(num(0)))
        e = ite(eq0(M[0].n()), num(0), m)
        if r[1] is m:
            rep.ok(tag + "length of a column", w)
        else:
            compare(rep, tag + "length of a column", r[1], e, w, eng=g)
    elif nm == "MvRandom":
        dom_check(rep, g, tag + "every column is set", w, after(0, J), {M[0].n()})
    elif nm == "Apply" and len(mvs) == 2:
        x, y = M[1], M[2]
        got = g.read(after(2, J))
        dom_check(rep, g, tag + "every column is set", w, after(2, J), {x.n(), y.n()})
        if got.op == "lin" and got.a[1] is x.at(J):
            rep.check(arg(0) is got.a[0] or loc[0] in list(subterms(got.a[0])) or arg(0) in list(subterms(got.a[0])),
                      tag + "operator applied to the column", w, "applies " + show(got.a[0])[:300])
        elif got.op.startswith("out_") and x.at(J) in cols_of(got, x) and cols_of(got, x, y) <= {x.at(J), y.at(J)}:
            rep.ok(tag + "operator applied to the column", w, "evaluated by the user's class")
        elif not opaque_heads(got):
            rep.bad(tag + "operator applied to the column", w, "column J becomes " + show(got)[:300])
        else:
            rep.und(tag + "operator applied to the column", w, "column J becomes " + show(got)[:300])
    else:
        rep.notes.append("no rule for " + tag)


def cols_of(t, *ms):
    """the columns of the given multivectors that occur in t"""
    return {u for u in subterms(t) if u.op == "at" and u.a[0].op == "sel" and u.a[0].a[0] in [m.vec for m in ms]}


# -- C24 -------------------------------------------------------------------

DEFL = "mfmg::DeflatedOperator"


def projection(v, x, V):
    """is v the vector x with its components along all elements of the array V removed?
    (True / False / None, text)"""
    n = length(V)
    for lits, leaf in value_paths(v):
        r = proj_leaf(leaf, x, V, n, lits)
        if r is not True:
            return r
    return True


def proj_leaf(v, x, V, n, lits):
    def empty():
        return holds(lits, eq0(n)) is True or holds(lits, lt0(sub(n, ONE))) is True or holds(lits, lt0(neg(n))) is False
    if v is x:
        return True if empty() else "nothing is removed"
    if v.op == "iter":
        N, i0, l = v.a
        if i0 is not x:
            r = proj_leaf(i0, x, V, n, lits)
            if r is not True:
                return None if opaque_heads(i0) - opaque_heads(x) else "starts from " + show(i0)[:200]
        h = l.a[1]
        b, p = raw("bv", h), raw("bvp", h)
        d = sub(l.a[0], p)
        us = [t for t in subterms(d) if t.op == "sel" and t.a[0] is V]
        if N is not n:
            return None if opaque_heads(N) else "components along %s vectors are removed" % show(N)[:200]
        for u in set(us):
            VEC.add(u.id)
            if d is neg(mul(u, dot(u, p))):
                i = u.a[1]
                if i is b or i is sub(sub(n, ONE), b):
                    return True
                return "removes components along element %s of the vectors" % show(i)
        return None if opaque_heads(d) else "one step adds " + show(d)[:300]
    if v.op == "poly":
        d = sub(v, x)
        for t in subterms(d):
            if t.op == "sum" and t.a[0] is n:
                h = t.a[1].a[1]
                u = sel(V, raw("bv", h))
                VEC.add(u.id)
                if d is neg(t) and t.a[1].a[0] is mul(u, dot(u, x)):
                    return True
        return None if opaque_heads(d) - opaque_heads(x) else "adds " + show(d)[:300]
    return None if opaque_heads(v) - opaque_heads(x) else "is " + show(v)[:300]


def c24(p, rep):
    cls = {}
    for f in p.fns:
        if f.cls == DEFL and f.body is not None and f.kind == "fn":
            cls.setdefault(f.clsT and str(f.clsT) or "", {})[f.name] = f
    done = set()
    for f in p.fns:
        if f.cls != DEFL or f.body is None or f.name not in ("vmult", "deflate", "add_deflation_vecs"):
            continue
        ty = f.ct.s
        w = wfn(f)
        if (ty, f.name) in done:
            continue
        done.add((ty, f.name))
        vf = field_of(p, ty, lambda t: t.s.startswith("std::vector<"))
        tag = "DeflatedOperator::%s: " % f.name
        if len(vf) != 1:
            rep.und(tag + "stored vectors", w, "no single field of vectors")
            continue
        g = engine(p)
        g.enter(f)
        rep.fns(g)
        V0 = raw_fld(g, vf[0])
        loc = [raw("var", "@" + (q["n"] or "arg%d" % i)) for i, q in enumerate(f.params)]
        if f.name == "deflate":
            verdict(rep, tag + "projection onto the complement of all stored vectors", w,
                    projection(g.read(loc[0]), mkvec(g.init_value(loc[0])), V0))
        elif f.name == "vmult":
            y = g.read(loc[0])
            x = mkvec(g.init_value(loc[1]))
            ls = {t for t in subterms(y) if t.op == "lin" and t.a[1] is x}
            if not ls:
                ls0 = [e for e in g.events if e.kind == "lin"]
                ls = {t for t in subterms(y) if t.op.startswith("out_") and x in t.a}
            if not ls:
                rep.add("und" if opaque_heads(y) else "bad", tag + "base operator", w, "y becomes " + show(y)[:300])
                continue
            rs = [projection(y, a, V0) for a in ls]
            verdict(rep, tag + "projection of the base operator's result", w,
                    True if True in rs else ([r for r in rs if r] or [None])[0])
        else:
            orthonormal(rep, g, f, tag, w, F(THIS, vf[0]), V0, loc)
    solve_deflation(p, rep)
    rep.need(4, "deflated operators")


def mkvec(t):
    VEC.add(t.id)
    return t


def raw_fld(g, n):
    return fld(g.init_value(THIS), n)


def verdict(rep, name, w, r):
    if r is True:
        rep.ok(name, w)
    elif r is None:
        rep.und(name, w, "not recognised")
    else:
        rep.bad(name, w, r)


def closed(*ts):
    """built from interpreted operations and loop counters only"""
    return not any(opaque_heads(t) for t in ts)


def orthonormal(rep, g, f, tag, w, vloc, V0, loc):
    n0 = length(V0)
    vecs = g.init_value(loc[0])
    n1 = length(vecs)
    by = {l.k: l for l in g.all_loops}
    ws = [x for x in g.writes if x[0] is vloc]
    pushed, steps, strange = False, [], []
    for l_, v, pc, loops, file, line, par in ws:
        if v.op == "cat":
            k = [t for t in loops]
            tail = v.a[-1]
            if len(loops) == 1 and tail.op == "one" and tail.a[0] is sel(vecs, loops[0].k) and loops[0].N is n1 \
                    and not loops[0].breaks and not pc:
                pushed = True
            elif not loops and v is cat(V0, vecs):
                pushed = True
            else:
                strange.append((line, v))
        elif v.op == "sto":
            base, idx, e = v.a
            old = mkvec(sel(base, idx))
            steps.append((classify(base, idx, old, e), base, idx, e, old, pc, loops, line))
        else:
            strange.append((line, v))
    if not pushed:
        fin = g.read(vloc)
        if strange or any(t.op == "cat" for t in subterms(fin)) or opaque_heads(fin):
            rep.und(tag + "all vectors are added", w, "way of adding not recognised")
        else:
            rep.bad(tag + "all vectors are added", w, "the stored vectors become " + show(fin)[:300])
        return
    rep.ok(tag + "all vectors are added", w)
    if strange or any(s[0] is None for s in steps):
        what = [(s[7], s[3]) for s in steps if s[0] is None] + strange
        ln, t = what[0]
        st = [s for s in steps if s[0] is None]
        if st and wrong_step(st[0]):
            rep.bad(tag + "orthonormalisation steps", "%s:%s" % (w.split(":")[0], ln), wrong_step(st[0]))
        else:
            rep.und(tag + "orthonormalisation steps", "%s:%s" % (w.split(":")[0], ln), "not recognised: " + show(t)[:300])
        return
    perms = {}
    old_ok, mutual, scale = [], [], []
    for kind, base, idx, e, old, pc, loops, line in steps:
        at = "%s:%s" % (w.split(":")[0], line)
        if pc_in(g, pc, loops):
            rep.und(tag + "orthonormalisation steps", at, "a step is taken conditionally")
            continue
        if kind[0] == "scale":
            scale.append((idx, kind[1], old, base, loops, at))
            continue
        src = kind[1]
        t, s = sub(idx, n0), src
        if t in by and by[t].N is n1 and s in by:
            # new against stored
            N = by[s].N
            if N is n0:
                old_ok.append(at)
            elif closed(N):
                rep.bad(tag + "new vectors are made orthogonal to all stored ones", at,
                        "only to %s of the %s stored ones" % (show(N)[:200], show(n0)[:100]))
                return
            else:
                rep.und(tag + "new vectors are made orthogonal to all stored ones", at, "number " + show(N)[:200])
                return
        elif t in by and closed(s) and not any(has(s, l.k) and l.k is t for l in loops) \
                and any(by.get(q) and has(s, q) for q in by) and closed(*[l.N for l in loops]) \
                and not any(x.op == "sel" for x in subterms(s)) and not mutual_form(idx, src, n0, n1, by, loops):
            k = [q for q in by if has(s, q)][0]
            rep.bad(tag + "new vectors are made orthogonal to all stored ones", at,
                    "along elements %s with %s rounds" % (show(s)[:150], show(by[k].N)[:150]))
            return
        else:
            mutual.append((idx, src, loops, at))
    rep.add("ok" if old_ok else "und" if mutual else "bad", tag + "new vectors are made orthogonal to all stored ones",
            old_ok[0] if old_ok else w, "" if old_ok else "no step does so")
    if not scale:
        rep.bad(tag + "vectors are normalised", w, "no step changes the length of a vector")
        return
    for idx, c, old, base, loops, at in scale:
        norm_ok(rep, g, tag, at, idx, c, old, base, loops, n0, n1, by)
    for idx, src, loops, at in mutual:
        m = mutual_form(idx, src, n0, n1, by, loops)
        if m is None:
            rep.und(tag + "new vectors are made orthogonal to each other", at, "target %s, source %s" % (
                show(idx)[:100], show(src)[:100]))
            continue
        N, want, order, i = m
        if N is not want:
            rep.add("bad" if closed(N, want) else "und", tag + "new vectors are made orthogonal to each other", at,
                    "in %s instead of %s rounds" % (show(N)[:100], show(want)[:100]))
            continue
        same = [q for q in scale if q[4] and q[4][0] is loops[0]]
        if not same:
            rep.und(tag + "new vectors are made orthogonal to each other", at, "normalised in another loop")
            continue
        before = int(same[0][5].rsplit(":", 1)[-1]) <= int(at.rsplit(":", 1)[-1])
        rep.add("ok" if before == (order == "right") else "und",
                tag + "new vectors are made orthogonal to each other", at, "order of normalising and projecting")
    if not mutual:
        rep.bad(tag + "new vectors are made orthogonal to each other", w, "no step does so")


def pc_in(g, pc, loops):
    """conditions of a step other than those of the function's assertions"""
    return [c for c, _ in pc if c is not TRUE]


def classify(base, idx, old, e):
    """('proj', source index) or ('scale', factor)"""
    us = {t for t in subterms(e) if t.op == "sel" and t.a[0] is base and t is not old}
    d = sub(e, old)
    for u in us:
        mkvec(u)
        if d is neg(mul(u, dot(u, old))):
            return ("proj", u.a[1])
    if e.op == "poly" and len(e.a) == 1:
        (m, c), = e.a
        if (old, 1) in m:
            rest = tuple(x for x in m if x != (old, 1))
            if not any(isvec(a) and a.op != "dot" for a, _ in rest):
                return ("scale", poly_of(rest, c))
    return None


def poly_of(m, c):
    r = num(c)
    for a, e in m:
        r = mul(r, power(a, e))
    return r


def wrong_step(s):
    """a step that combines two stored vectors in another way than a projection"""
    kind, base, idx, e, old, pc, loops, line = s
    d = sub(e, old)
    us = [t for t in subterms(d) if t.op == "sel" and t.a[0] is base]
    bad = [h for h in opaque_heads(d) - opaque_heads(base) if h not in ("out", "phi")]
    if e.op != "poly" or bad or not us:
        return None
    for u in us:
        if u is not old:
            return "vector %s becomes %s" % (show(idx)[:100], show(e)[:400])
    return None


def mutual_form(idx, src, n0, n1, by, loops):
    """new vectors against each other: (rounds of the inner loop, expected rounds, order, outer counter)"""
    def pos(t):
        if t.op == "sel":
            return t.a[0], t.a[1]
        return None, sub(t, n0)
    P, a = pos(idx)
    Q, b = pos(src)
    if P is not Q:
        return None
    ks = [l.k for l in loops]
    for i in ks:
        if by[i].N is not n1 and by[i].N is not sub(n1, ONE):
            continue
        if b is i:                      # right-looking: later ones against this one
            for j in ks:
                if j is not i:
                    off = sub(a, j)
                    if not has(off, j):
                        return by[j].N, sub(n1, add(i, ONE)) if closed(off) else sub(n1, off), "right", i
        if a is i:                      # left-looking: this one against earlier ones
            for j in ks:
                if b is j and j is not i:
                    return by[j].N, i, "left", i
    return None


def norm_ok(rep, g, tag, at, idx, c, old, base, loops, n0, n1, by):
    name = tag + "vectors are normalised"
    k = [l for l in loops if has(idx, l.k)]
    if len(loops) != 1 or not k:
        return rep.und(name, at, "loop around the step not recognised")
    l = loops[0]
    pos = idx.a[1] if idx.op == "sel" else sub(idx, n0)
    if pos is not l.k or l.N is not n1:
        return rep.add("bad" if closed(pos, l.N) else "und", name, at, "positions %s, %s rounds" % (
            show(pos)[:100], show(l.N)[:100]))
    if c is power(dot(old, old), Fraction(-1, 2)):
        return rep.ok(name, at)
    outs = [t for t in subterms(c) if t.op == "out"]
    if len(set(outs)) == 1 and c is power(outs[0], Fraction(-1, 2)):
        r = squared_length(g, outs[0], idx, base)
        if r is True:
            return rep.ok(name, at, "the divisor is the length of the pivot, by induction over the search")
        if r is None:
            return rep.und(name, at, "divisor not recognised")
        return rep.bad(name, at, r)
    if len(set(outs)) == 1 and c.op == "poly" and len(c.a) == 1 and squared_length(g, outs[0], idx, base) is True:
        return rep.bad(name, at, "divides by another power of the length: factor " + show(c)[:200])
    if not opaque_heads(c) - opaque_heads(base):
        return rep.bad(name, at, "factor " + show(c)[:300])
    rep.und(name, at, "factor " + show(c)[:300])


def squared_length(g, out, idx, base):
    """is the loop result `out` the squared length of element idx of base?"""
    lp = [l for l in g.all_loops if l.uid == out.a[0]]
    if not lp or idx.op != "sel" or idx.a[0].op != "out" or idx.a[0].a[0] != out.a[0]:
        return None
    lp = lp[0]
    D, P = lp.phis.get(out.a[1]), lp.phis.get(idx.a[0].a[1])
    if D is None or P is None or D[2] is None or P[2] is None or lp.breaks:
        return None
    i = idx.a[1]
    v = lambda perm: mkvec(sel(base, sel(perm, i)))
    want = dot(v(P[2]), v(P[2]))
    for lits, leaf in value_paths(D[2]):
        exp = assume(want, lits)
        if leaf is D[0]:
            if assume(sel(P[2], i), lits) is not sel(P[0], i):
                return "the pivot changes where the length found is kept"
            continue
        cases = [(leaf, exp)]
        # a swap of a position with itself changes nothing
        conds = [t for t in subterms(exp) if t.op == "eq0" and has(t, lp.k)]
        for t in set(conds):
            cases = [(assume(a, {t: False}), assume(b, {t: False})) for a, b in cases] + [
                (subst(a, {lp.k: ZERO}), subst(b, {lp.k: ZERO})) for a, b in cases if t is atom(eq0(lp.k))[0]]
        for a, b in cases:
            if a is not b:
                if {h for h in opaque_heads(a) if h != "phi"} - opaque_heads(base):
                    return None
                return "the length found is %s, that of the pivot %s" % (show(a)[:300], show(b)[:300])
    i0 = D[1]
    if isconst(i0):
        return True if cval(i0) <= 0 else "the search starts from %s" % show(i0)
    return None


# the solver on top of it

def k_deflate(g, f, oloc, oid, locs, vals, ev):
    v = mkvec(raw("defl", g.read(oloc), vals[0]))
    g.write(locs[0], v)
    ev.out.append((locs[0], v))
    return ("v", raw("void"))


def k_vmult(g, f, oloc, oid, locs, vals, ev):
    v = mkvec(raw("dop", g.read(oloc), vals[1]))
    g.write(locs[0], v)
    ev.out.append((locs[0], v))
    return ("v", raw("void"))


def k_add(g, f, oloc, oid, locs, vals, ev):
    g.write(oloc, raw("added", g.read(oloc), vals[0]))
    return ("v", raw("void"))


DEFLC = {DEFL + "::deflate": k_deflate, DEFL + "::vmult": k_vmult, DEFL + "::add_deflation_vecs": k_add}


def solve_engine(p, rep):
    for f in p.fns:
        if f.base == "mfmg::Lanczos::solve" and f.body is not None:
            g = Engine(p, contracts=dict(spec.OPS, **DEFLC))
            r = g.enter(f)
            rep.fns(g)
            yield f, g, r


def outer_loop(g, e):
    by = {l.uid: l for l in g.all_loops}
    return [by.get(l.uid, l) for l in e.loops]


def first_round(lp, t):
    """t in the first round of the loop"""
    return subst(t, dict([(q[0], q[1]) for q in lp.phis.values() if q[1] is not None] + [(lp.k, ZERO)]))


def unit_of(q):
    """v if q is v divided by its own norm"""
    if q.op != "poly" or len(q.a) != 1:
        return None
    (m, c), = q.a
    if c != 1:
        return None
    vs = [a for a, e in m if isvec(a) and a.op not in ("dot",) and e == 1]
    if len(vs) != 1:
        return None
    v = vs[0]
    return v if q is mul(power(dot(v, v), Fraction(-1, 2)), v) else None


def rounds(l):
    """rounds of a loop that is not left early (other than by an exception)"""
    if l.N is not None and l.N.op != "trip":
        return l.N
    n = getattr(l, "N0", None)
    if n is not None and n.op != "trip" and all(b[2] == "throw" for b in l.breaks):
        return n
    return None


def solve_deflation(p, rep):
    done = set()
    for f, g, r in solve_engine(p, rep):
        if (f.file, f.line) in done:
            continue
        done.add((f.file, f.line))
        w = wfn(f)
        tag = "Lanczos::solve: "
        ap = [e for e in g.events if e.name == DEFL + "::vmult" and e.loops]
        base = [e for e in g.events if e.kind == "lin" and not any("DeflatedOperator" in str(s) for s in (e.stack or ()))]
        if not ap:
            rep.add("bad" if base else "und", tag + "the deflated operator is applied", w,
                    "only the original operator is" if base else "no application found")
            continue
        for e in ap:
            ls = outer_loop(g, e)
            if len(ls) < 2:
                rep.und(tag + "cycles", e.where, "no loop over cycles around the application")
                continue
            out, inn = ls[0], ls[1]
            q = first_round(inn, e.argv[1])
            # the first vector
            st = first_round(inn, e.objv)
            nm = tag + "every initial guess is projected"
            verdicts = []
            for lits, v in value_paths(q):
                v = unit_of(v) or v
                if v.op == "defl":
                    verdicts.append(True if v.a[0] is st else "onto the complement of another set of vectors")
                elif not opaque_heads(v) - {"phi", "out", "var"} or v.op in ("phi", "out", "var"):
                    verdicts.append("the first Lanczos vector of a cycle is %s%s" % (show(v)[:300], "" if not lits else " when " + ", ".join(
                        ("" if b else "not ") + show(c)[:100] for c, b in lits.items())))
                else:
                    verdicts.append(None)
            bads = [x for x in verdicts if isinstance(x, str)]
            verdict(rep, nm, e.where, bads[0] if bads else None if None in verdicts else True)
            # what is deflated from the next cycle on
            ks = [(k, t) for k, t in out.phis.items() if t[0] is st]
            nm = tag + "eigenvectors of each cycle but the last are added"
            if not ks:
                if not any(x.op == "phi" and x.a[0] == out.uid for x in subterms(st)):
                    add_ = [x for x in g.events if x.name.endswith("::add_deflation_vecs")]
                    rep.add("und" if add_ else "bad", nm, e.where, "the deflated vectors never change")
                else:
                    rep.und(nm, e.where, "state of the operator not recognised")
                continue
            t = ks[0][1]
            init, nxt = t[1], t[2]
            rep.check(not any(x.op == "added" for x in subterms(init)), tag + "nothing is deflated from the first cycle",
                      e.where)
            if rounds(out) is None:
                rep.und(nm, e.where, "number of cycles not recognised")
                continue
            for lits, leaf in value_paths(nxt):
                if leaf.op == "added":
                    if leaf.a[0] is not t[0]:
                        rep.und(nm, e.where, "added to " + show(leaf.a[0])[:200])
                        continue
                    cycle_vectors(rep, g, nm, e, out, leaf.a[1])
                elif leaf is t[0]:
                    fin = [c for c, v in lits.items() if has(c, out.k)]
                    if is_last(lits, out):
                        rep.ok(nm, e.where, "skipped in the last cycle only")
                    elif any(opaque_heads(c) - {"phi"} for c in fin):
                        rep.und(nm, e.where, "skipped when " + show(fin[0])[:200])
                    else:
                        rep.bad(nm, e.where, "skipped in other cycles than the last: " + "; ".join(
                            ("" if v else "not ") + show(c)[:150] for c, v in lits.items())[:500])
                else:
                    rep.und(nm, e.where, "the deflated vectors become " + show(leaf)[:200])


def is_last(lits, out):
    """do the conditions hold in the last round only?"""
    n = assume(rounds(out), lits)
    for more, N in value_paths(n):
        if N is ONE:
            continue
        d = sub(add(out.k, ONE), N)
        l = {**lits, **more}
        if not any(atom(b)[0] is not None and holds(l, b) is v for b, v in (
                (eq0(d), True), (lt0(d), False), (lt0(sub(neg(ONE), d)), True))):
            return False
    return True


def cycle_vectors(rep, g, nm, e, out, X):
    res = [t for k, t in out.phis.items() if t[2] is not None and t[2].op in ("cat", "ite") and t[0] is not X]
    found, other = False, False
    for t in res:
        for _, leaf in value_paths(t[2]):
            if leaf.op == "cat" and leaf.a[0] is t[0]:
                for part in leaf.a[1:]:
                    if part is X:
                        found = True
                    elif part.op == "rep":
                        b = sym("B")
                        i = inst(part.a[1], b)
                        if i is one(sel(X, b)):
                            found = True
                        elif X in list(subterms(i)):
                            found = True
                    elif any(x is X for x in subterms(part)):
                        found = True
    if found:
        rep.ok(nm, e.where, "those put into the result")
    elif X.op == "cat" and not X.a:
        rep.bad(nm, e.where, "nothing is added")
    else:
        rep.und(nm, e.where, "added vectors not found among the results: " + show(X)[:200])
