"""C22 eigenpairs come back complete, paired and ordered; C23 the Lanczos recurrence."""
import itertools
import vn
import terms
import rules_eig as E
from core import *
from rules_eig import atom, holds, rounds, sym, solve_engine

M = raw("sym", "m")
mark(M, True, True)


def unit_of(q):
    """v if q is v divided by its own norm"""
    u = E.unit_of(q)
    if u is not None or q.op != "poly":
        return u
    common = None
    for mono, c in q.a:
        s = {a for a, e in mono if e == Fraction(-1, 2)}
        common = s if common is None else common & s
    for d in common or ():
        v = mul(power(d, Fraction(1, 2)), q)
        if power(dot(v, v), Fraction(-1, 2)) is power(d, Fraction(-1, 2)):
            return v
    return None


def closed_heads(t, extra=()):
    """library results in t that are not part of the recurrence"""
    return {h for h in opaque_heads(t) if h not in ("phi", "var") and h not in extra}


class Rounds:
    """the loop of the Lanczos iteration under fixed options: values in the first round, in round m+1 and in the
    rounds after them"""

    def __init__(self, l, lits):
        self.l, self.lits = l, lits
        self.ph = {k: t for k, t in l.phis.items() if t[1] is not None and t[1].op != "undef" and t[2] is not None}
        self.raw_len = {}
        self.len0, self.len1 = {}, {}
        arrays = {k: t for k, t in self.ph.items() if t[1].op in ("cat", "sto", "stol", "arr", "resz", "iter")
                  and not (t[1].op == "arr" and isvec(t[0]))}
        for k, t in arrays.items():
            n = length(t[0])
            if n.op == "len":
                self.raw_len[k] = n
                self.len0[k] = length(assume(t[1], lits))
            else:
                q = subst(t[0], {l.k: add(M, ONE)})
                terms.KNOWN_LEN[q.id] = subst(assume(n, lits), {l.k: add(M, ONE)})
        K1 = add(M, ONE)
        init = {t[0]: assume(t[1], lits) for t in self.ph.values()}
        self.veclists = {k for k, t in arrays.items() if t[2] is not None and any(
            x.op == "dop" for x in subterms(sel(t[2], add(l.k, ONE)))) and t[1].op == "cat" and
            any(isvec(x.a[0]) or x.a[0].op in ("defl", "ite") for x in t[1].a if x.op == "one")}
        for k in list(self.raw_len):
            a = length(self.val(self.ph[k][2], init, ZERO, self.len0))
            self.len1[k] = a
        hyp = {k: add(a, M) for k, a in self.len1.items()}
        while True:                      # the lengths assumed have to be reproduced by the round
            wrong = [k for k in hyp if length(self.val(self.ph[k][2], {}, K1, hyp)) is not add(hyp[k], ONE)]
            if not wrong:
                break
            for k in wrong:
                hyp.pop(k)
        self.known = hyp
        self.s0, self.s1 = init, {}
        self.K1 = K1

    def val(self, t, mp, K, lens):
        t = assume(t, self.lits)
        d = {self.raw_len[k]: lens[k] for k in self.raw_len if lens.get(k) is not None}
        d.update(mp)
        d[self.l.k] = K
        for k in self.raw_len:
            p = subst(self.ph[k][0], {self.l.k: K})
            if lens.get(k) is not None and not mp:
                terms.KNOWN_LEN[p.id] = lens[k]
        t = subst(t, d)
        for _ in range(8):
            dd = {x: sel(x.a[0], x.a[1]) for x in subterms(t) if x.op == "sel" and x.a[0].op in ("cat", "sto")}
            dd = {a: b for a, b in dd.items() if a is not b}
            if not dd:
                break
            t = subst(t, dd)
        return self.canon(t)

    def canon(self, t):
        """inner products expanded over all vectors of the iteration"""
        for x in subterms(t):
            if x.op == "dop" or x.op == "sel" and x.a[0].op == "phi" and x.a[0].a[1] in self.veclists:
                VEC.add(x.id)
        for _ in range(4):
            dd = {x: dot(x.a[0], x.a[1]) for x in subterms(t) if x.op == "dot"}
            dd = {a: b for a, b in dd.items() if a is not b}
            if not dd:
                break
            t = subst(t, dd)
        return t

    def first(self, t):
        return self.val(t, self.s0, ZERO, self.len0)

    def later(self, t):
        return self.val(t, {}, self.K1, self.known)

    def after_first(self, t):
        mp = {x[0]: self.first(x[2]) for x in self.ph.values()}
        return self.val(t, mp, ONE, {k: self.len1[k] for k in self.len1})

    def after_later(self, t):
        mp = {x[0]: self.later(x[2]) for x in self.ph.values()}
        return self.val(t, mp, add(M, num(2)), {k: add(self.known[k], ONE) for k in self.known})


def option_cases(l, *more):
    """truth values of the boolean options the loop depends on"""
    ats = []
    for t in [x[2] for x in l.phis.values() if x[2] is not None] + [x[1] for x in l.phis.values()
                                                                    if x[1] is not None] + list(more):
        for x in subterms(t):
            if x.op == "ite" and x.a[0].op == "opt" and x.a[0] not in ats:
                ats.append(x.a[0])
    if len(ats) > 2:
        return None
    return [dict(zip(ats, vs)) for vs in itertools.product((False, True), repeat=len(ats))]


def lanczos_loops(p, rep, title):
    """(function, engine, result, iteration loop, applications) of every Lanczos solve, once per source"""
    done = set()
    n = 0
    for f, g, r in solve_engine(p, rep):
        if (f.file, f.line) in done:
            continue
        done.add((f.file, f.line))
        ap = [e for e in g.events if e.name == E.DEFL + "::vmult" and e.loops]
        if not ap:
            rep.und("Lanczos::solve: " + title, wfn(f), "no application of the operator in a loop")
            continue
        if len(ap) > 1:
            rep.und("Lanczos::solve: " + title, wfn(f), "%s applications of the operator" % len(ap))
            continue
        ls = E.outer_loop(g, ap[0])
        n += 1
        yield f, g, r, ls[-1], ap[0], (ls[0] if len(ls) > 1 else None)


def tag_of(lits):
    return "" if not any(lits.values()) else " (with " + ", ".join(
        str(a.a[1].a[0]) if isinstance(a.a[1], T) and a.a[1].a else show(a) for a, v in lits.items() if v) + ")"


def nrm(v):
    return power(dot(v, v), Fraction(1, 2))


def c23(p, rep):
    for f, g, r, l, e, _ in lanczos_loops(p, rep, "recurrence"):
        cases = option_cases(l, e.argv[1])
        if cases is None:
            rep.und("Lanczos::solve: recurrence", e.where, "too many options")
            continue
        for lits in cases:
            recurrence(rep, g, l, e, lits)
        stopping(rep, g, l, e, cases)
    rep.need(8, "obligations of the recurrence")


def recurrence(rep, g, l, e, lits):
    R = Rounds(l, lits)
    tg = "Lanczos iteration%s: " % tag_of(lits)
    w = e.where
    Q = e.argv[1]
    start = unit_of(R.first(Q))
    if start is not None and not start.op == "poly":
        X = E.mkvec(raw("sym", "start"))
        R.s0 = {a: subst(b, {start: X}) for a, b in R.s0.items()}
    q0, q1 = R.first(Q), R.later(Q)
    S0, S1 = [raw("dop", R_(e.objv), q) for R_, q in ((R.first, q0), (R.later, q1))]
    for s in (S0, S1):
        VEC.add(s.id)
    E.mkvec(q0), E.mkvec(q1)
    # normalised vectors
    u0 = unit_of(q0)
    rep.add("ok" if u0 is not None else "und" if closed_heads(q0, ("app", "out")) else "bad",
            tg + "the first vector has norm one", w, show(q0)[:300])
    n1, n2 = R.after_first(Q), R.after_later(Q)
    W0, W1 = unit_of(n1), unit_of(n2)
    for nm, v, u in (("second", n1, W0), ("next", n2, W1)):
        rep.add("ok" if u is not None else "und" if closed_heads(v) or has_loops(v) else "bad",
                tg + "the %s vector is normalised by its own norm" % nm, w, show(v)[:500])
    if W0 is None or W1 is None:
        return
    # second vector
    a0 = dot(q0, S0)
    nm = tg + "the second vector is A q - (q.A q) q"
    if W0 is sub(S0, mul(a0, q0)):
        rep.ok(nm, w)
    elif closed_heads(W0, ("app", "out")) - closed_heads(q0) or has_loops(W0):
        rep.und(nm, w, show(W0)[:500])
    else:
        rep.bad(nm, w, "remainder is %s" % show(W0)[:700])
        return
    # later ones
    bs = [x[0] for x in R.ph.values() if not isvec(x[0]) and R.later(x[2]) is nrm(W1) and R.first(x[2]) is nrm(W0)]
    ps = []
    for k, x in R.ph.items():
        if k in R.known:
            for d in (ZERO, ONE, num(2)):
                t = sel(x[0], sub(l.k, d))
                ps.append(t)
        else:
            ps.append(x[0])
    prev = []
    for t in ps:
        v = R.later(t)
        if R.after_later(t) is q1 and R.after_first(t) is q0:
            prev.append(E.mkvec(v))
    nm = tg + "the next vector is A q - b q_prev - (q.A q) q"
    found = None
    for b, pv in itertools.product([R.later(b) for b in bs], prev):
        d = sub(S1, mul(b, pv))
        for a in (dot(q1, d), dot(q1, S1)):
            if W1 is sub(d, mul(a, q1)):
                found = (a, b, pv)
    if found:
        rep.ok(nm, w, "b: norm of the preceding remainder")
    elif closed_heads(W1) - closed_heads(q1) or has_loops(W1):
        rep.und(nm, w, show(W1)[:500])
        return
    elif not bs or not prev:
        # the norm or the previous vector may be kept in a way not recognised
        other = {t for t in subterms(W1) if t.op == "sel" and t.a[0] in [subst(x[0], {l.k: R.K1}) for x in R.ph.values()]}
        scal = {t for t in subterms(W1) if t.op == "phi" and not isvec(t)}
        if len(other) <= 1 and not any(W1 is sub(sub(S1, mul(b, o)), x) for b in scal for o in other for x in ()):
            rep.bad(nm, w, "remainder is %s" % show(W1)[:700])
        else:
            rep.add("bad" if bs or prev else "und", nm, w, "remainder is %s" % show(W1)[:700])
        return
    else:
        rep.bad(nm, w, "remainder is %s" % show(W1)[:700])
        return
    a, b, pv = found
    tridiagonal(rep, g, l, R, tg, a0, a, b)


def has_loops(t):
    return any(x.op in ("iter", "sum", "psum", "trip", "out") for x in subterms(t))


def eigen_calls(g, l):
    """calls of the tridiagonal eigensolver inside the iteration, in order"""
    return [e for e in g.events if e.name.startswith("LAPACKE_dst") and any(x.uid == l.uid for x in e.loops)]


def contents(g, e, R_, i):
    a = e.argv[i]
    if a.op != "itr" or not isconst(a.a[1]) or cval(a.a[1]) != 0:
        return None
    return R_(g.read_at(e, a.a[0]))


def tridiagonal(rep, g, l, R, tg, a0, a, b):
    ev = eigen_calls(g, l)
    if not ev:
        return rep.und(tg + "tridiagonal matrix", "", "no call of the tridiagonal eigensolver found")
    e = ev[0]
    w = e.where
    if not e.name.startswith("LAPACKE_dst") or len(e.argv) != 7:
        return rep.und(tg + "tridiagonal matrix", w, "call of %s" % e.name)
    n = R.later(e.argv[2])
    want = add(M, num(2))
    if n is want and R.first(e.argv[2]) is ONE:
        rep.ok(tg + "order of the tridiagonal matrix", w)
    else:
        rep.add("und" if closed_heads(n) else "bad", tg + "order of the tridiagonal matrix", w,
                "order %s in round %s" % (show(n)[:200], show(want)))
    for nm, i, new, idx, first in (("alpha on the diagonal", 3, a, R.K1, a0), ("beta beside the diagonal", 4, b, M, None)):
        nm = tg + nm
        c = contents(g, e, R.later, i)
        if c is None:
            rep.und(nm, w, "argument %s" % show(e.argv[i])[:200])
            continue
        last = sel(c, idx)
        if last is not new:
            rep.add("und" if closed_heads(last) - closed_heads(new) or last.op == "sel" else "bad", nm, w,
                    "the newest entry is %s instead of %s" % (show(last)[:300], show(new)[:300]))
            continue
        if first is not None:
            c0 = contents(g, e, R.first, i)
            if sel(c0, ZERO) is not first:
                rep.add("und" if closed_heads(sel(c0, ZERO)) - closed_heads(first) else "bad", nm, w, "first entry %s" % show(sel(c0, ZERO))[:300])
                continue
        # older entries: what was stored in earlier rounds
        keep = [x for x in R.ph.values() if R.later(x[2]) is c]
        old = subst(keep[0][0], {l.k: R.K1}) if keep else None
        if old is not None and (c.op == "cat" and c.a[0] is old or c.op == "sto" and c.a[0] is old and c.a[1] is idx):
            rep.ok(nm, w, "entries are added in order and kept")
        elif keep and not closed_heads(c) and c.op in ("cat", "sto") and not any(x is old for x in subterms(c)):
            rep.bad(nm, w, "entries of earlier rounds are lost: %s" % show(c)[:300])
        else:
            rep.und(nm, w, "stored as %s" % show(c)[:300])


# -- when to stop -----------------------------------------------------------

def tri_key(g, l):
    """phis of the iteration that hold results of the eigensolver"""
    out = []
    for k, t in l.phis.items():
        if t[1] is not None and t[1].op == "cat" and t[2] is not None:
            hs = {x.op for x in subterms(t[2]) if x.op.startswith("out_LAPACKE_")}
            if hs:
                out.append(k)
    return out


def stopping(rep, g, l, e, cases):
    w = e.where
    tg = "Lanczos iteration: "
    n0 = getattr(l, "N0", None)
    lim = [x for x in subterms(n0) if x.op == "opt"] if n0 is not None else []
    if n0 is not None and n0.op == "opt" and "max_iterations" in show(n0):
        rep.ok(tg + "ends at the iteration limit", w)
    else:
        rep.add("bad" if n0 is not None and lim and not closed_heads(n0) else "und", tg + "ends at the iteration limit", w,
                "number of rounds %s" % (show(n0)[:200] if n0 is not None else None))
    brk = [b for b in l.breaks if b[2] == "break"]
    if not brk:
        return rep.add("und" if l.breaks or l.N.op == "trip" else "bad", tg + "ends when the residual bound is met", w,
                       "the iteration is never left early")
    for lits in cases:
        R = Rounds(l, lits)
        t2 = tag_of(lits)
        n1 = R.after_later(e.argv[1])
        W = unit_of(n1)
        ev = eigen_calls(g, l)
        if W is None or not ev:
            rep.und(tg + "residual bound" + t2, w, "remainder not recognised")
            continue
        order = R.later(ev[0].argv[2])
        for guard, st, kind in brk:
            G = R.later(guard)
            ps = bool_paths(G)
            if ps is None:
                rep.und(tg + "residual bound" + t2, w, "too many cases")
                continue
            for lt in ps:
                residual(rep, g, l, R, tg, t2, lt, W, order, w)


def residual(rep, g, l, R, tg, t2, lt, W, order, w):
    nm = tg + "left early only if the bound holds for all requested pairs" + t2
    its = [x for x, v in lt.items() if v and x.op == "iter" and x.a[1] is TRUE]
    neg_ = [x for x, v in lt.items() if not v and x.op == "iter" and x.a[1] is FALSE]
    ex = [x for x, v in lt.items() if not v and x.op == "exists"]
    if not its and len(ex) == 1:
        # no round of a search finds a pair that fails
        l2 = [q for q in g.all_loops if q.uid == ex[0].a[0]]
        if l2 and getattr(l2[0], "N0", None) is not None:
            la = ex[0].a[1]
            N = assume(R.later(l2[0].N0), lt)
            la = T_lam(not_(la.a[0]), la.a[1])
            return quantified(rep, g, l, R, tg, t2, lt, W, order, w, nm, N, la, ex[0])
    if not its:
        odd = [x for x in lt if not counting(x) and not is_bound(x)]
        req = requested(l, R)
        if req is not None and holds(lt, eq0(req)) is True:
            return rep.ok(nm, w, "nothing is requested")
        bare = not odd and not neg_
        # the residual test replaced by something on a single pair or left out
        rep.add("bad" if bare else "und", nm, w, "left when " + " and ".join(("" if v else "not ") + show(x)[:150] for x, v in lt.items())[:700])
        return
    it = its[0]
    N, _, la = it.a
    quantified(rep, g, l, R, tg, t2, lt, W, order, w, nm, N, la, it)


def T_lam(body, h):
    return raw("lam", body, h)


def quantified(rep, g, l, R, tg, t2, lt, W, order, w, nm, N, la, it):
    h = la.a[1]
    i, pv = raw("bv", h), raw("bvp", h)
    body = la.a[0]
    req = requested(l, R)
    if req is not None and N is not req:
        rep.add("und" if closed_heads(N) else "bad", nm, w, "tests %s of %s pairs" % (show(N)[:200], show(req)[:200]))
        return
    if req is None:
        rep.und(nm, w, "number of requested pairs not recognised")
        return
    paths = value_paths(assume(body, {pv: True, **{a: v for a, v in lt.items() if a is not it}}))
    bad_leaf = [(x, v) for x, v in paths if v is TRUE and not any(is_bound(a) for a in x)]
    tests = {a for x, v in paths for a in x if is_bound(a)}
    if bad_leaf:
        rep.add("und" if any(closed_heads(a) for x, v in bad_leaf for a in x) else "bad", nm, w,
                "a pair passes without a test of its residual")
        return
    if not tests:
        rep.und(nm, w, "test %s" % show(body)[:300])
        return
    rep.ok(nm, w, "all %s pairs" % show(req)[:80])
    nm = tg + "bound is beta times the last component of the Ritz vector" + t2
    for a in tests:
        # tol - c |x| < 0 in the failing case
        d = a.a[0]
        c, tol, x = split_bound(d)
        if c is None:
            rep.add("und", nm, w, "test %s" % show(a)[:300])
            continue
        if tol.op != "opt" or "tolerance" not in show(tol):
            rep.add("und" if closed_heads(tol) else "bad", nm, w, "compared with %s" % show(tol)[:200])
            continue
        if c is not nrm(W):
            rep.add("und" if closed_heads(c) - closed_heads(W) else "bad", nm, w, "factor %s" % show(c)[:300])
            continue
        s = x.a[0]
        if s.op != "sel":
            rep.und(nm, w, "component %s" % show(s)[:200])
            continue
        wantidx = add(mul(order, i), sub(order, ONE))
        idx = R.later(s.a[1]) if has(s.a[1], l.k) else s.a[1]
        if idx is not wantidx:
            rep.add("und" if closed_heads(idx) else "bad", nm, w, "component %s instead of %s" % (
                show(idx)[:200], show(wantidx)[:200]))
            continue
        tri = [k for k in tri_key(g, l)]
        okk = [k for k in tri if value_in(R, l, k, lt) is s.a[0]]
        rep.add("ok" if okk else "und", nm, w, "of the vectors just computed" if okk else show(s.a[0])[:300])


def value_in(R, l, k, lt):
    return assume(R.later(l.phis[k][2]), lt)


def has_bool_loop(t):
    return any(x.op in ("iter", "out", "exists") for x in subterms(t))


def counting(x):
    """a condition on numbers of rounds and pairs"""
    if x.op not in ("lt0", "eq0") or is_bound(x):
        return False
    p = x.a[0]
    ats = [a for m, c in p.a for a, e in m] if p.op == "poly" else [p]
    return all(a.op in ("sum", "len", "opt", "phi", "sym") for a in ats)


def is_bound(a):
    return a.op == "lt0" and any(x.op == "abs" for x in subterms(a))


def split_bound(d):
    """(c, tol, |x|) of tol - c |x|"""
    if d.op != "poly":
        return None, None, None
    tol, c, x = ZERO, None, None
    for m, co in d.a:
        ab = [(t, e) for t, e in m if t.op == "abs"]
        if ab:
            if c is not None or len(ab) != 1 or ab[0][1] != 1:
                return None, None, None
            x = ab[0][0]
            c = neg(E.poly_of(tuple(q for q in m if q[0] is not x), co))
        else:
            tol = add(tol, E.poly_of(m, co))
    return c, tol, x


def requested(l, R):
    """number of eigenpairs requested per cycle: what the results are cut to"""
    vals = set()
    for k, t in l.phis.items():
        if t[2] is None:
            continue
        for _, leaf in value_paths(assume(t[2], R.lits)):
            if leaf.op == "resz" and any(x.op.startswith("out_LAPACKE") for x in subterms(leaf)):
                vals.add(leaf.a[1])
    vals = {assume(v, R.lits) for v in vals}
    return vals.pop() if len(vals) == 1 else None


# == C22 =====================================================================

def out_of(t, l, keys):
    """t is the value one of the given variables has after the loop l"""
    return t.op == "out" and t.a[0] == l.uid and t.a[1] in keys


def c22(p, rep):
    for f, g, r, l, e, outer in lanczos_loops(p, rep, "eigenpairs"):
        if r[1] is None or r[1].op != "tup" or len(r[1].a) != 2:
            rep.und("Lanczos::solve: results", wfn(f), "not a pair")
            continue
        cases = option_cases(l, r[1])
        if cases is None:
            rep.und("Lanczos::solve: results", wfn(f), "too many options")
            continue
        for lits in cases:
            R = Rounds(l, lits)
            w = wfn(f)
            results(rep, g, r, l, R, lits, w)
            filtering(rep, g, l, R, e.where)
            ritz_exits(rep, g, l, R, e)
        reads(rep, g, l, e.where)
    anasazi(p, rep)
    local(p, rep)
    rep.need(20, "obligations on eigenpairs")


def num_option(lits):
    return lambda t: t.op == "opt" and "num_eigenpairs" in show(t) and "per_cycle" not in show(t)


def strip_resz(t):
    """the array before it is cut, the length it is cut to"""
    return (t.a[0], t.a[1]) if t.op == "resz" else (t, None)


def results(rep, g, r, l, R, lits, w):
    tg = "Lanczos::solve%s: " % tag_of(lits)
    ev, vc = [assume(x, lits) for x in r[1].a]
    for (el, e), (vl, v) in itertools.product(value_paths(ev), value_paths(vc)):
        if any(el.get(a, b) is not b for a, b in vl.items()):
            continue
        lt = {**el, **vl}
        if contradictory(lt):
            continue
        e, v = assume(e, lt), assume(v, lt)
        # how many
        want = [x for x in subterms(r[1]) if num_option(lits)(x)]
        nm = tg + "as many eigenvalues and eigenvectors as requested"
        ne, nv = length(e), length(v)
        if want and ne is want[0] and nv is want[0]:
            rep.ok(nm, w)
        elif closed_heads(ne) or closed_heads(nv) or not want or ne.op in ("len", "out") or nv.op in ("len", "out"):
            rep.und(nm, w, "%s and %s" % (show(ne)[:200], show(nv)[:200]))
        else:
            rep.bad(nm, w, "%s eigenvalues, %s eigenvectors" % (show(ne)[:200], show(nv)[:200]))
        e0, ce = strip_resz(e)
        v0, cv = strip_resz(v)
        if e0.op == "ite" or v0.op == "ite":
            more(rep, g, l, R, lits, lt, e0, v0, ce, tg, w)
            continue
        uncut(rep, g, l, R, lits, lt, e0, v0, ce, tg, w)


def more(rep, g, l, R, lits, lt, e0, v0, ce, tg, w):
    for el, e in value_paths(e0):
        for vl, v in value_paths(assume(v0, el)):
            lt2 = {**lt, **el, **vl}
            if not contradictory(lt2):
                uncut(rep, g, l, R, lits, lt2, assume(e, lt2), assume(v, lt2), ce, tg, w)


def uncut(rep, g, l, R, lits, lt, e0, v0, ce, tg, w):
    if True:
        if ce is not None:
            # nothing is made up: at least that many were found
            d = sub(length(e0), ce)
            nm = tg + "no result is made up when cutting"
            if d is ZERO or enough(g, d, lits, lt):
                rep.ok(nm, w)
            else:
                rep.add("und" if closed_heads(d) or length(e0).op == "len" else "bad", nm, w,
                        "%s found, cut to %s" % (show(length(e0))[:200], show(ce)[:100]))
        nm = tg + "each eigenvalue stays with its eigenvector"
        x = pair(rep, g, l, R, e0, v0, lt)
        verdict3(rep, nm, w, x)
        order(rep, g, l, R, tg, w, e0, v0, lt)


def verdict3(rep, nm, w, x):
    if x is True:
        rep.ok(nm, w)
    elif x is None:
        rep.und(nm, w, "arrays not recognised")
    elif isinstance(x, tuple):
        rep.und(nm, w, x[0])
    else:
        rep.bad(nm, w, x)


def enough(g, d, lits, lt):
    """an exception is thrown when d < 0"""
    c = lt0(d)
    a, b = atom(c)
    if a is None:
        return c is FALSE
    for e in g.events:
        if e.kind == "throw" and not e.loops:
            gd = assume(assume(e.guard, lits), {**lt, a: b})
            if gd is TRUE:
                return True
    return False


def key_in(l, t):
    return l.phis.get(t.a[1])


def eval_keys(l):
    """(keys of arrays of eigenvalues, keys of arrays of vectors) among the loop's variables"""
    ev, vc = [], []
    for k in tri_key(None, l):
        nx = l.phis[k][2]
        hs = {x.a[0] for x in subterms(nx) if x.op.startswith("out_LAPACKE_dst") and direct(nx, x)}
        (vc if num(5) in hs else ev).append(k)
    return ev, vc


def direct(t, x):
    """x is stored in the array t itself (not only used in conditions)"""
    def go(u, d=0):
        if d > 40:
            return False
        if u is x:
            return True
        if u.op == "ite":
            return go(u.a[1], d + 1) or go(u.a[2], d + 1)
        if u.op in ("resz", "cat", "one"):
            return any(go(q, d + 1) for q in u.a if isinstance(q, T))
        if u.op == "iter":
            return go(u.a[1], d + 1) or go(u.a[2].a[0], d + 1)
        if u.op in ("stol",):
            return go(u.a[0], d + 1) or go(u.a[2].a[0], d + 1)
        if u.op == "sto":
            return go(u.a[0], d + 1) or go(u.a[2], d + 1)
        if u.op == "tup":
            return go(u.a[-1], d + 1)
        if u.op == "rep":
            return go(u.a[1].a[0], d + 1)
        if u.op == "sel":
            return go(u.a[0], d + 1)
        if u.op == "poly":
            return any(go(a, d + 1) for m, c in u.a for a, e in m)
        return False
    return go(t)


def pair(rep, g, l, R, e, v, lt, depth=0):
    """do the arrays e of values and v of vectors list the same pairs in the same order?"""
    if depth > 8:
        return None
    if e.op == "cat" and v.op == "cat":
        if len(e.a) != len(v.a):
            return "values and vectors are collected differently: %s against %s" % (show(e)[:200], show(v)[:200]) \
                if not closed_heads(e) and not closed_heads(v) else None
        rs = [pair(rep, g, l, R, a, b, lt, depth + 1) for a, b in zip(e.a, v.a)]
        return worst(rs)
    if e.op == "rep" and v.op == "rep":
        if e.a[0] is not v.a[0]:
            return "%s values but %s vectors are taken" % (show(e.a[0])[:150], show(v.a[0])[:150])
        b = sym("B%d" % depth)
        return pair(rep, g, l, R, inst(e.a[1], b), inst(v.a[1], b), lt, depth + 1)
    if (e.op == "iter") != (v.op == "iter"):
        st, o = (e, v) if e.op == "iter" else (v, e)
        b = st.a[2].a[0]
        if b.op == "sto" and b.a[1].op == "sel" and b.a[1].a[0].op == "sorted" and any(x is b.a[1].a[0] for x in subterms(o)):
            return "one array is permuted by a permutation, the other by its inverse"
    if e.op == "one" and v.op == "one":
        return one_pair(rep, g, l, R, assume(e.a[0], lt), assume(v.a[0], lt), lt, depth)
    return None


def worst(rs):
    for x in rs:
        if isinstance(x, str):
            return x
    for x in rs:
        if x is not True:
            return x
    return True


def one_pair(rep, g, l, R, e, v, lt, depth):
    if e.op == "sel" and v.op == "sel":
        if e.a[0].op == "out":
            return None
        if e.a[1] is not v.a[1]:
            return "value %s with vector %s" % (show(e.a[1])[:200], show(v.a[1])[:200]) \
                if not closed_heads(e.a[1]) and not closed_heads(v.a[1]) else None
        return pair(rep, g, l, R, e.a[0], v.a[0], lt, depth + 1)
    if e.op != "sel" or e.a[0].op != "out" or e.a[0].a[0] != l.uid:
        return None
    ek, vk = eval_keys(l)
    if e.a[0].a[1] not in ek:
        return None
    i = e.a[1]
    if v.op != "sum":
        if out_v(v, l, R):
            return "the vector is a Lanczos vector, not a combination of them"
        return None
    bad = None
    for lt2, n in value_paths(v.a[0]):
        j = raw("bv", v.a[1].a[1])
        b = assume(v.a[1].a[0], lt2)
        if b.op != "poly" or len(b.a) != 1:
            return None
        (mono, c), = b.a
        fs = [(a, x) for a, x in mono]
        vs = [a for a, x in fs if a.op == "sel" and a.a[0].op == "out" and a.a[0].a[1] in R.veclists and x == 1]
        cs = [a for a, x in fs if a.op == "sel" and a.a[0].op == "out" and a.a[0].a[1] in vk and x == 1]
        if len(vs) != 1 or len(cs) != 1 or len(fs) != 2:
            return None
        if c != 1:
            return "the combination is scaled by %s" % c
        a = vs[0].a[1]
        want = add(mul(n, i), a)
        if a is not j and a is not sub(sub(n, ONE), j):
            return "term %s uses Lanczos vector %s" % (show(j), show(a)[:200]) if not closed_heads(a, ("out",)) else None
        if cs[0].a[1] is not want:
            x = cs[0].a[1]
            return "value %s is paired with coefficients %s (stride %s)" % (show(i)[:80], show(x)[:200], show(n)[:80]) \
                if not closed_heads(x, ("out",)) else None
    return bad or True


def out_v(v, l, R):
    return v.op == "sel" and v.a[0].op == "out" and v.a[0].a[1] in R.veclists


def sorted_terms(t):
    return [x for x in subterms(t) if x.op == "sorted"]


def order(rep, g, l, R, tg, w, e0, v0, lt):
    """several cycles come out in ascending order and keep the smallest"""
    nm = tg + "pairs of several cycles are sorted before they are cut"
    cyc = cycles_of(e0)
    S = [x for x in sorted_terms(e0)]
    part = [x for x in subterms(e0) if x.op == "sortedpart"]
    if not S and part:
        lo, hi = part[0].a[2:4]
        bad = lo is not ZERO or not closed_heads(hi)
        return rep.add("bad" if bad else "und", nm, w, "only positions %s to %s of %s are sorted" % (
            show(lo)[:100], show(hi)[:100], show(length(part[0].a[0]))[:100]))
    if not S:
        if cyc is None:
            return rep.und(nm, w, show(e0)[:300])
        if cyc is ONE or holds(lt, lt0(sub(ONE, cyc))) is False or holds(lt, lt0(sub(cyc, num(2)))) is True:
            return rep.ok(nm, w, "one cycle only, sorted by LAPACK")
        return rep.bad(nm, w, "the pairs of %s cycles stay in the order found%s" % (show(cyc)[:100], "" if not lt else " when " + ", ".join(
            ("" if b else "not ") + show(a)[:100] for a, b in lt.items())))
    B = sym("B")
    if e0.op != "cat" or len(e0.a) != 1 or e0.a[0].op != "rep":
        return rep.und(nm, w, show(e0)[:300])
    cnt = e0.a[0].a[0]
    x = inst(e0.a[0].a[1], B)
    x = x.a[0] if x.op == "one" else x
    if x.op != "sel" or x.a[1].op != "sel" or x.a[1].a[0] not in S or x.a[1].a[1] is not B:
        # permuted in another way
        if x.op == "sel" and x.a[1].op == "sel" and x.a[1].a[0] in S and not closed_heads(x.a[1].a[1]):
            return rep.bad(nm, w, "result B is number %s in ascending order" % show(x.a[1].a[1])[:200])
        return rep.und(nm, w, show(x)[:300])
    X, P, = x.a[0], x.a[1].a[0]
    I0, cmp_ = P.a[0], P.a[1]
    nall = length(X)
    b = sym("B1")
    ident = I0.op in ("cat",) and len(I0.a) == 1 and I0.a[0].op == "rep" and inst(I0.a[0].a[1], b) is one(b)
    if not ident:
        return rep.und(nm, w, "sorts %s" % show(I0)[:300])
    if I0.a[0].a[0] is not nall or cnt is not nall:
        q = I0.a[0].a[0] if I0.a[0].a[0] is not nall else cnt
        return rep.add("und" if closed_heads(q) or nall.op == "len" else "bad", nm, w, "%s of %s pairs take part" % (
            show(q)[:200], show(nall)[:200]))
    xs = sorted({t for t in subterms(cmp_) if t.op == "sym" and str(t.a[0]).startswith("%")}, key=lambda t: str(t.a[0]))
    if len(xs) != 2:
        return rep.und(nm, w, "comparison %s" % show(cmp_)[:300])
    good = [lt0(sub(sel(X, xs[0]), sel(X, xs[1])))]
    if cmp_ in good:
        return rep.ok(nm, w)
    if closed_heads(cmp_) - closed_heads(X):
        return rep.und(nm, w, "comparison %s" % show(cmp_)[:300])
    if not any(t.op == "sel" for t in subterms(cmp_)):
        return rep.und(nm, w, "comparison %s" % show(cmp_)[:300])
    rep.bad(nm, w, "compares with %s" % show(cmp_)[:300])


def cycles_of(e):
    """number of cycles an unsorted list of results comes from"""
    if e.op == "cat" and len(e.a) == 1:
        e = e.a[0]
    if e.op == "rep":
        b = e.a[1].a[0]
        if b.op == "one":
            return ONE if b.a[0].op == "sel" and b.a[0].a[0].op == "out" and b.a[0].a[1] is raw("bv", e.a[1].a[1]) else None
        if b.op in ("rep", "cat"):
            return e.a[0]
    return None


# -- what one check of the iteration yields ---------------------------------

def filtering(rep, g, l, R, w):
    tg = "Lanczos iteration%s: " % tag_of(R.lits)
    ek, vk = eval_keys(l)
    if len(ek) != 1 or len(vk) != 1:
        return rep.und(tg + "pairs found", w, "%s arrays of values, %s of vectors" % (len(ek), len(vk)))
    e = R.later(l.phis[ek[0]][2])
    t = R.later(l.phis[vk[0]][2])
    pe = subst(l.phis[ek[0]][0], {l.k: R.K1})
    pt = subst(l.phis[vk[0]][0], {l.k: R.K1})
    evs = eigen_calls(g, l)
    n = R.later(evs[0].argv[2]) if evs else None
    P = requested(l, R)
    nm = tg + "each eigenvalue stays with its vector when pairs are removed"
    for le, xe in value_paths(e):
        for lv, xt in value_paths(assume(t, le)):
            lt = {**le, **lv}
            xe2 = assume(xe, lt)
            if isempty(xe2) and isempty(xt) or xe2 is pe and xt is pt:
                continue
            if (isempty(xe2) or xe2 is pe) != (isempty(xt) or xt is pt):
                rep.bad(nm, w, "values %s, vectors %s" % (show(xe2)[:200], show(xt)[:200]))
                continue
            verdict3(rep, nm, w, found(rep, g, l, R, xe2, xt, n, P, lt, tg, w))


def isempty(t):
    return t.op == "cat" and not t.a


def found(rep, g, l, R, e, t, n, P, lt, tg, w):
    F_, ce = strip_resz(e)
    if t.op != "iter" or t.a[2].a[0].op not in ("stol", "iter"):
        return None
    N, i = t.a[0], raw("bv", t.a[2].a[1])
    st = t.a[2].a[0]
    if st.op == "stol" and st.a[2].a[0].op == "tup" and st.a[0] is raw("bvp", t.a[2].a[1]):
        j = raw("bv", st.a[2].a[1])
        idx, val = st.a[2].a[0].a
        rows = st.a[1]
    elif st.op == "iter" and st.a[1] is raw("bvp", t.a[2].a[1]) and st.a[2].a[0].op == "sto" and \
            st.a[2].a[0].a[0] is raw("bvp", st.a[2].a[1]):
        j = raw("bv", st.a[2].a[1])
        idx, val = st.a[2].a[0].a[1:]
        rows = st.a[0]
    else:
        return None
    if ce is None or P is None:
        return None
    if N is not ce:
        return "%s values but %s vectors are kept" % (show(ce)[:100], show(N)[:100])
    if rows is not n:
        return "%s of %s components are kept" % (show(rows)[:100], show(n)[:100]) if not closed_heads(rows) else None
    if idx is not add(mul(n, i), j):
        return "component %s is stored at %s" % (show(j), show(idx)[:200]) if not closed_heads(idx) else None
    src = [x for x in factors(val) if x.op == "sel" and (x.a[0].op == "iter" or x.a[0].op.startswith("out_LAPACKE"))]
    if len(src) != 1:
        return None
    src = src[0]
    sc = mul(val, power(src, -1))
    if has(sc, j):
        return "the components of a vector are scaled differently: %s" % show(sc)[:300]
    if src.a[1] is not idx:
        return "component %s comes from %s" % (show(idx)[:100], show(src.a[1])[:100]) if not closed_heads(src.a[1]) else None
    x = same_removal(F_, src.a[0], n)
    if x is not True:
        return x
    count(rep, F_, lt, P, n, tg, w)
    return True


def factors(v):
    if v.op != "poly" or len(v.a) != 1:
        return [v]
    return [a for a, x in v.a[0][0] if x == 1]


def same_removal(F_, A, n):
    """are values and vectors removed from the results of one call alike?"""
    def call(t):
        return t.op.startswith("out_LAPACKE_dst")
    if call(F_) and call(A):
        return True if F_.a[1:] == A.a[1:] else "values and vectors of different calls"
    if call(F_) != call(A):
        return "pairs are removed from one of the arrays only"
    if F_.op != "iter" or A.op != "iter" or not call(F_.a[1]) or not call(A.a[1]):
        return None
    if F_.a[1].a[1:] != A.a[1].a[1:]:
        return "values and vectors of different calls"
    if F_.a[0] is not A.a[0]:
        return "removal in %s and %s rounds" % (show(F_.a[0])[:100], show(A.a[0])[:100])
    K = sym("K")
    fe, fa = F_.a[2], A.a[2]
    pe, pa = raw("bvp", fe.a[1]), raw("bvp", fa.a[1])
    be = subst(fe.a[0], {raw("bv", fe.a[1]): K})
    ba = subst(fa.a[0], {raw("bv", fa.a[1]): K})
    for l1, x in value_paths(be):
        for l2, y in value_paths(assume(ba, l1)):
            if x is pe and y is pa:
                continue
            if (x is pe) != (y is pa):
                return "under %s a pair is removed from one of the arrays only" % ", ".join(
                    ("" if b else "not ") + show(a)[:120] for a, b in {**l1, **l2}.items())
            if x.op != "erase" or y.op != "erase" or x.a[0] is not pe or y.a[0] is not pa or len(x.a) > 2:
                return None
            I = x.a[1]
            lo = y.a[1]
            hi = y.a[2] if len(y.a) > 2 else add(lo, ONE)
            if not same_poly(lo, mul(n, I)) or not same_poly(hi, mul(n, add(I, ONE))):
                return "value %s is removed with components %s to %s" % (show(I)[:100], show(lo)[:150], show(hi)[:150])
            s = sub(I, mul(neg(ONE), K))
            if has(s, K):
                if not has(sub(I, K), K):
                    return "positions shift while pairs are removed in ascending order"
                return None
    return True


def same_poly(a, b):
    """equal after powers of sums are multiplied out"""
    return not expand(sub(a, b))


def expand(t):
    if t.op != "poly":
        return {((t, 1),): 1}
    tot = {}
    for mono, c in t.a:
        cur = {(): c}
        for a, x in mono:
            if a.op == "poly" and x in (1, 2, 3, 4):
                f, x = expand(a), int(x)
            else:
                f, x = {((a, x),): 1}, 1
            for _ in range(x):
                nw = {}
                for m1, c1 in cur.items():
                    for m2, c2 in f.items():
                        e = {}
                        for q, y in m1 + m2:
                            e[q] = e.get(q, 0) + y
                        k = tuple(sorted(((q, y) for q, y in e.items() if y), key=lambda z: z[0].id))
                        nw[k] = nw.get(k, 0) + c1 * c2
                cur = nw
        for k, c1 in cur.items():
            tot[k] = tot.get(k, 0) + c1
    return {k: c for k, c in tot.items() if c}


def count(rep, F_, lt, P, n, tg, w):
    """results are kept only if enough are left"""
    nm = tg + "kept only if at least as many are left as requested"
    if F_.op != "iter":
        ok = holds(lt, lt0(sub(n, P))) is False
        return rep.add("ok" if ok else "und", nm, w)
    c = [(a, b) for a, b in lt.items() if a.op == "lt0" and any(x.op in ("sum", "len") for x in subterms(a)) and has(a, P)
         and not is_bound(a)]
    if not c:
        return rep.bad(nm, w, "no comparison with the number left")
    for a, b in c:
        # lt0(left - P) is false, or lt0(P - left - ..) true
        d = a.a[0]
        left = add(d, P) if not b else sub(sub(P, d), ONE)
        s = [(x, co) for m, co in left.a for x, e in m if x.op in ("sum", "len")] if left.op == "poly" else [(left, 1)]
        if len(s) == 1 and s[0][0].op == "len" and left is s[0][0]:
            if s[0][0].a[0] is F_:
                return rep.ok(nm, w)
            continue
        if len(s) != 1 or s[0][0].op != "sum":
            continue
        sm = s[0][0]
        if sub(left, sm) is not n or sm.a[0] is not F_.a[0]:
            return rep.add("bad" if not closed_heads(sub(left, sm)) and not has_loops(sub(left, sm)) else "und", nm, w,
                           "number left taken to be %s" % show(left)[:300])
        K = sym("K")
        body = subst(sm.a[1].a[0], {raw("bv", sm.a[1].a[1]): K})
        fe = F_.a[2]
        be = subst(fe.a[0], {raw("bv", fe.a[1]): K})
        for l1, x in value_paths(be):
            v = assume(body, l1)
            want = ZERO if x is raw("bvp", fe.a[1]) else num(-1)
            if v is not want:
                return rep.add("bad" if isconst(v) else "und", nm, w, "a removal is counted as %s" % show(v)[:200])
        return rep.ok(nm, w)
    rep.und(nm, w, "; ".join(show(a)[:200] for a, b in c)[:500])


def it_terms(l, r):
    """numbers of terms of the combinations of Lanczos vectors"""
    return {x.a[0] for x in subterms(r) if x.op == "sum" and any(
        y.op == "out" and y.a[0] == l.uid for y in subterms(x.a[1]))}


def nomin(t):
    """minima and maxima as alternatives"""
    mp = {}
    for x in subterms(t):
        if x.op in ("min", "max") and len(x.a) == 2:
            a, b = x.a
            mp[x] = ite(lt0(sub(b, a)), b, a) if x.op == "min" else ite(lt0(sub(a, b)), b, a)
    return subst(t, mp) if mp else t


def ritz_exits(rep, g, l, R, e):
    """the number of coefficients per vector at every end of the iteration"""
    tg = "Lanczos iteration%s: " % tag_of(R.lits)
    nm = tg + "as many coefficients per vector as the tridiagonal matrix last solved has rows"
    w = e.where
    evs = eigen_calls(g, l)
    ek, vk = eval_keys(l)
    N0 = getattr(l, "N0", None)
    if not evs or len(vk) != 1 or N0 is None or N0.op == "trip":
        return rep.und(nm, w, "iteration not recognised")
    N0 = assume(N0, R.lits)
    order_raw = assume(evs[0].argv[2], R.lits)
    terms_ = set()
    for lp in g.all_loops:
        for k, t in lp.phis.items():
            for v in (t[1], t[2]):
                if v is not None and isinstance(v, T):
                    terms_ |= it_terms(l, assume(v, R.lits))
    if not terms_:
        return rep.und(nm, w, "no combination of Lanczos vectors found")
    outs = {x for t in terms_ for x in subterms(t) if x.op == "out" and x.a[0] == l.uid and x.a[1] in l.phis}
    cases = []
    for gd, st, kind in l.breaks:
        if kind == "break":
            cases.append(("when left early", {o: R.later(g.keyread(st, o.a[1])) for o in outs}, R.later(order_raw), R.later(gd), R.K1))
    last = sub(N0, ONE)
    cases.append(("at the limit", {o: assume(subst(l.phis[o.a[1]][2], {l.k: last}), R.lits) for o in outs},
                  subst(order_raw, {l.k: last}), TRUE, last))
    for what, mp, n, gd, K in cases:
        for t in terms_:
            v = nomin(subst(t, mp))
            for lt, leaf in value_paths(v):
                if leaf is n:
                    rep.ok(nm, w, what)
                elif leaf is N0 and holds(lt, lt0(sub(n, N0))) is False and sub(n, ONE) is K:
                    rep.ok(nm, w, what + ", the last round")
                elif closed_heads(leaf, ("out",)) or leaf.op == "out" or has_loops(leaf):
                    rep.und(nm, w, "%s: %s" % (what, show(leaf)[:200]))
                else:
                    rep.bad(nm, w, "%s: %s instead of %s" % (what, show(leaf)[:200], show(n)[:200]))
    # the results belong to the last round
    nm = tg + "the pairs are computed anew in the round the iteration ends in"
    pt = l.phis[vk[0]][0]
    nx = assume(l.phis[vk[0]][2], R.lits)
    v = subst(nx, {l.k: last})
    q = subst(pt, {l.k: last})
    old = [lt for lt, leaf in value_paths(v) if leaf is q]
    if old:
        rep.bad(nm, w, "not in the last round when %s" % ", ".join(("" if b else "not ") + show(a)[:150] for a, b in old[0].items()))
    else:
        rep.ok(nm, w, "last round")
    nx = R.later(nx)
    q = subst(pt, {l.k: R.K1})
    for gd, st, kind in l.breaks:
        if kind != "break":
            continue
        for lt in bool_paths(R.later(gd)) or []:
            x = assume(nx, lt)
            ls = [leaf for _, leaf in value_paths(x)]
            if any(leaf is q for leaf in ls):
                rep.bad(nm, w, "left early with the pairs of an earlier round")
            elif any(isempty(leaf) for leaf in ls):
                rep.bad(nm, w, "left early without enough pairs")
            else:
                rep.ok(nm, w, "left early")


def reads(rep, g, l, w):
    """coefficients are read only after their number was compared with the number requested"""
    nm = "Lanczos::solve: results are read only if enough were found"
    ek, vk = eval_keys(l)
    outs = {raw("out", l.uid, k) for k in vk}
    oute = {raw("out", l.uid, k) for k in ek}
    n = 0
    for wr in g.writes:
        loc, val, pc = wr[0], wr[1], wr[2]
        if not any(x in outs for x in subterms(val)) or not isinstance(val, T):
            continue
        if any(q.uid == l.uid for q in wr[3]):
            continue
        if not any(x.op == "sel" and x.a[0] in outs for x in subterms(val)):
            continue
        n += 1
        conds = [c for c, _ in pc if any(x.op == "len" and x.a[0] in outs | oute for x in subterms(c))]
        if not conds:
            # conditions checked by a function that returned are no longer listed
            if n == 1:
                rep.bad(nm, "%s:%s" % (rel_file(wr[4]), wr[5]), "no check of their number before")
                return
            continue
        few = [fewer(c, lits, outs, oute) for c in conds for lits in option_cases(l, c) or []]
        if all(x is FALSE for x in few) or any(fewer(c, {}, outs, oute) is FALSE for c in conds):
            rep.ok(nm, w, show(conds[0])[:200])
        else:
            rep.add("bad" if any(x is TRUE for x in few) else "und", nm, "%s:%s" % (rel_file(wr[4]), wr[5]),
                    "read under %s" % show(conds[0])[:300])
    if not n:
        rep.und(nm, w, "no use of the coefficients found")


def fewer(c, lits, outs, oute):
    """the condition when one pair less than it asks for was found"""
    c = assume(c, lits)
    mp = {}
    for x in subterms(c):
        if x.op == "len" and x.a[0] in outs:
            mp[x] = ZERO
        if x.op == "len" and x.a[0] in oute:
            for t in subterms(c):
                if t.op in ("eq0", "lt0") and has(t, x):
                    o = sub(x, t.a[0]) if not has(sub(x, t.a[0]), x) else add(t.a[0], x)
                    if not has(o, x) and any(q.op == "opt" for q in subterms(o)):
                        mp[x] = sub(o, ONE)
                    elif x not in mp:
                        mp[x] = ZERO
    return subst(c, mp)


def rel_file(f):
    return os.path.relpath(f, load.REPO) if f else "?"


# -- the other solvers -------------------------------------------------------

def anasazi(p, rep):
    done = set()
    for f in p.fns:
        if f.base != "mfmg::AnasaziSolver::solve" or f.body is None or (f.file, f.line) in done:
            continue
        done.add((f.file, f.line))
        g = vn.Engine(p, contracts=dict(E.spec.OPS))
        r = g.enter(f)
        rep.fns(g)
        w = wfn(f)
        tg = "AnasaziSolver::solve: "
        if r[1] is None or r[1].op != "tup" or len(r[1].a) != 2:
            rep.und(tg + "results", w, "not a pair")
            continue
        e, v = r[1].a
        ne, nv = [length(base(x)) for x in (e, v)]
        if ne is nv:
            rep.ok(tg + "as many values as vectors", w, show(ne)[:200])
        else:
            rep.add("und" if ne.op == "len" or nv.op == "len" else "bad", tg + "as many values as vectors", w,
                    "%s and %s" % (show(ne)[:200], show(nv)[:200]))
        J = sym("J")
        nm = tg + "value and vector number J belong together"

        def ent(t):
            if t.op == "stol":
                return t.a[1], inst(t.a[2], J)
            if t.op == "cat" and len(t.a) == 1 and t.a[0].op == "rep":
                x = inst(t.a[0].a[1], J)
                return t.a[0].a[0], x.a[0] if x.op == "one" else None
            return None, None
        (n1, x), (n2, y) = ent(e), ent(v)
        if x is None or y is None:
            rep.und(nm, w, "%s; %s" % (show(e)[:200], show(v)[:200]))
            continue
        sx = {t.a[1] for t in subterms(x) if t.op == "sel" and "Evals" in show(t.a[0])}
        sy = {t.a[1] for t in subterms(y) if t.op == "sel" and "Evecs" in show(t.a[0])}
        if len(sx) != 1 or len(sy) != 1:
            rep.und(nm, w, "%s; %s" % (show(x)[-200:], show(y)[-200:]))
            continue
        sx, sy = sx.pop(), sy.pop()
        if sx is J and sy is J and n1 is n2:
            rep.ok(nm, w)
        elif sx is sy and n1 is n2:
            rep.ok(nm, w, "position %s" % show(sx)[:100])
        else:
            rep.add("und" if (closed_heads(sx) or closed_heads(sy)) and not differ(sx, sy, J) else "bad", nm, w, "value %s, vector %s, rounds %s and %s" % (
                show(sx)[:100], show(sy)[:100], show(n1)[:100], show(n2)[:100]))
        if not any("realpart" in show(t) for t in subterms(x) if t.op == "fld"):
            rep.add("bad" if any("imagpart" in show(t) for t in subterms(x) if t.op == "fld") else "und",
                    tg + "real parts", w, show(x)[-200:])


def differ(a, b, j):
    """a and b are sums in which j has different coefficients"""
    def co(t):
        d = todict(t)
        return d.get(((j, 1),), 0) if not any(has(x, j) and x is not j for m, c in d.items() for x, e in m) else None
    x, y = co(a), co(b)
    return x is not None and y is not None and x != y


def few_found(th, e, v, n):
    """a case in which fewer are found and nothing is thrown"""
    x = length(v)
    for have, want in ((0, 1), (1, 2), (2, 5)):
        c = subst(th.guard, {x: num(have)})
        c = subst(c, {n: num(want)})
        gd = subst(e.guard, {n: num(want)}) if e.guard is not None else TRUE
        for lt in bool_paths(gd) or []:
            if assume(c, lt) is FALSE:
                return "nothing is thrown if %d of %d are found" % (have, want)
    return None


def base(t):
    """an array of the same length: entries set one by one do not change it"""
    while t.op in ("stol", "sto"):
        t = t.a[0]
    return t


def local(p, rep):
    """fewer pairs than requested are recognised before they are used"""
    import rules_loc as L
    for f in L.with_dim(L.local_fns(p)):
        g, r, found_ = L.local_engine(p, f)
        rep.fns(g)
        w = wfn(f)
        tg = "%s:%s: " % (f.name, f.line)
        n = [raw("sym", q["n"]) for q in f.params[:1]][0]
        throws = [e for e in g.events if e.kind == "throw"]
        for s in found_:
            nm = tg + "%s: fewer eigenvectors than requested are refused" % s.kind
            if s.kind == "lanczos":
                # the solver itself throws; what is requested is what is needed
                continue
            d = sub(length(s.vec), n)
            d2 = sub(length(s.val), n)
            ok = False
            for e in throws:
                for x in (d, d2):
                    for c in (not_(eq0(x)), lt0(x)):
                        lits = bool_paths(and_(s.guard, c)) if s.guard is not None else None
                        for lt in lits or []:
                            if assume(e.guard, lt) is TRUE:
                                ok = True
            if ok:
                rep.ok(nm, w)
            else:
                ment = [e for e in throws if any(x in (length(s.vec), length(s.val)) for x in subterms(e.guard))]
                why = [few_found(e, s, x, n) for e in ment for x in (s.vec, s.val) if has(e.guard, length(x))]
                bad = not ment or why and all(why)
                rep.add("bad" if bad else "und", nm, s.where or w, (why[0] if why else None) or "no check of the number found")
        for e in g.events:
            if e.name.endswith("LAPACKFullMatrix::compute_eigenvalues_symmetric"):
                nm = tg + "lapack: fewer eigenvalues than requested are refused"
                vals = [a for a in e.out if len(a) > 1]
                ok = False
                for th in throws:
                    for _, ov in e.out:
                        c = lt0(sub(length(ov), n))
                        for lt in bool_paths(and_(e.guard, c)) or []:
                            if assume(th.guard, lt) is TRUE:
                                ok = True
                if ok:
                    rep.ok(nm, e.where)
                else:
                    ment = [th for th in throws if any(x.op == "len" and x.a[0] in [o for _, o in e.out] for x in subterms(th.guard))]
                    why = [few_found(th, e, o, n) for th in ment for _, o in e.out if has(th.guard, length(o))]
                    bad = not ment or why and all(why)
                    rep.add("bad" if bad else "und", nm, e.where, (why[0] if why else None) or "no check of the number found")
