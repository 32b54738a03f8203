"""C21 initial guesses of the eigensolvers."""
import vn
import rules_eig as E
import rules_loc as L
from core import *
from rules_eig import atom, holds

RANDOM = ("distribution::operator()", "std::rand", "drand48", "engine::operator()")


def loop_of(g, uid):
    for l in g.all_loops:
        if l.uid == uid:
            return l


def entry(g, t, j, depth=0):
    """entry j of the array t"""
    if depth > 12:
        return sel(t, j)
    if t.op == "ite" and isinstance(t.a[1], T):
        return ite(atomb(t.a[0]), entry(g, t.a[1], j, depth + 1), entry(g, t.a[2], j, depth + 1))
    if t.op == "out":
        l = loop_of(g, t.a[0])
        q = l.phis.get(t.a[1]) if l is not None else None
        if q is not None and q[1] is not None and q[2] is not None and l.N is not None and l.N.op != "trip":
            ph, init, nx = q[0], q[1], q[2]
            old = entry(g, init, j, depth + 1)
            new = stored(nx, ph, l.k, j)
            if new is not None:
                new = subst(new, {sel(subst(ph, {l.k: j}), j): old, sel(ph, j): old})
                n = length(base(init))
                return new if l.N is n else ite(lt0(sub(j, l.N)), new, old)
    if t.op in ("sto", "stol"):
        return L.elem(t, j, [length(base(t))])
    return sel(t, j)


def stored(nx, ph, k, j):
    """the value round j stores at position j, if round k stores at position k only"""
    if nx.op == "ite" and isinstance(nx.a[1], T):
        a, b = stored(nx.a[1], ph, k, j), stored(nx.a[2], ph, k, j)
        return None if a is None or b is None else ite(atomb(subst(nx.a[0], {k: j})), a, b)
    if nx is ph:
        return sel(subst(ph, {k: j}), j)
    if nx.op == "sto" and nx.a[0] is ph and nx.a[1] is k:
        return subst(nx.a[2], {k: j})
    return None


def base(t):
    while t.op in ("sto", "stol", "iter") or t.op == "out":
        if t.op == "out":
            return t
        t = t.a[0] if t.op != "iter" else t.a[1]
    return t


def is_random(t):
    return any(x.op.startswith("res_") and x.op.endswith(RANDOM) for x in subterms(t))


def constrained(t, j):
    return t.op == "app" and str(t.a[0]).endswith("AffineConstraints::is_constrained") and t.a[2] is j


def c21(p, rep):
    for f in L.with_dim(L.local_fns(p)):
        g, r, found = L.local_engine(p, f)
        rep.fns(g)
        for s in found:
            guess(rep, g, f, s)
    cycles(p, rep)
    rep.need(8, "guesses")


def guess(rep, g, f, s):
    j = raw("sym", "$j")
    INT.add(j.id)
    NONNEG.add(j.id)
    tg = "%s: " % s.kind
    w = s.where or wfn(f)
    v = s.argv[-1]
    for t in s.argv[1:]:
        v = t
    for lt, x in value_paths(v):
        if x.op in ("cat", "sto", "arr", "stol"):
            objs = [q.a[0] for q in subterms(x) if q.op == "addr"]
            if not objs or x.op == "arr":
                rep.und(tg + "guess is zero where constrained", w, show(x)[:200])
            for o in objs:
                member(rep, g, f, s, tg, w, o, x, j, {**lt})
        else:
            zero(rep, g, s, tg, w, entry(g, x, j), j, lt, True)


def conclude(lits, v):
    return assume(v, lits)


def zero(rep, g, s, tg, w, v, j, lt, generated):
    """v, an entry of a guess, vanishes where constrained and, if it was generated, is random elsewhere"""
    nm = tg + "guess is zero where constrained"
    v = assume(v, lt)
    cs = [c for c in subterms(v) if constrained(c, j)]
    if not cs:
        if is_random(v) and not opaque(v):
            return rep.bad(nm, w, "the entry is %s whether constrained or not" % show(v)[:300])
        return rep.und(nm, w, show(v)[:300])
    c = cs[0]
    C = c.a[1]
    con = assume(v, {c: TRUE})
    con = assume(v, dict([lit(c, True)]))
    unc = assume(v, dict([lit(c, False)]))
    if con is ZERO:
        rep.ok(nm, w, "where %s" % show(c)[:150])
    elif opaque(con):
        rep.und(nm, w, show(con)[:300])
    else:
        rep.bad(nm, w, "a constrained entry is %s" % show(con)[:300])
    nm = tg + "unconstrained entries of the guess are random"
    leaves = [x for _, x in value_paths(unc)]
    if all(is_random(x) for x in leaves):
        rep.ok(nm, w)
    elif any(isconst(x) for x in leaves):
        rep.bad(nm, w, "an unconstrained entry is %s" % show(unc)[:300])
    else:
        rep.und(nm, w, show(unc)[:300])
    nm = tg + "the constraints of the assembled agglomerate are used"
    if C.op.startswith(("out_mfmg::", "upd_mfmg::")):
        rep.ok(nm, w, C.op)
    elif C.op == "made":
        later = [e.name for e in g.events if e.name.startswith("mfmg::") and any(q is C for q in e.argv)]
        if later:
            rep.bad(nm, w, "the constraints are still empty: they are filled by %s only later" % later[0])
        else:
            rep.und(nm, w, show(C)[:200])
    else:
        rep.und(nm, w, show(C)[:200])


def lit(c, b):
    a, x = atom(c if c.op == "ite" else atomb(c))
    return a, (x if b else not_(x)) if isinstance(x, T) else (x == b)


WEAKER = ("AffineConstraints::is_inhomogeneously_constrained", "AffineConstraints::is_identity_constrained")


def opaque(t):
    """t depends on something this rule does not know"""
    inner = {y.id for x in subterms(t) if x.op.startswith("res_") and x.op.endswith(RANDOM) for y in subterms(x)}
    for x in subterms(t):
        if x.id in inner:
            continue
        if x.op == "app" and (constrained(x, x.a[2] if len(x.a) > 2 else None) or str(x.a[0]).endswith(WEAKER)):
            inner |= {y.id for y in subterms(x)}
    rest = [x for x in subterms(t) if x.id not in inner]
    return any(x.op in ("phi", "out", "iter", "app", "undef") or x.op.startswith(("out_", "res_", "upd_")) or x.op in OPAQUE
               for x in rest)


def member(rep, g, f, s, tg, w, o, x, j, lt):
    """one of the vectors of a block of guesses"""
    nm = tg + "guess is zero where constrained"
    ws = [q for q in g.writes if same_family(q[0], o)]
    elem_ws = [q for q in ws if isinstance(q[1], T) and any(y.op == "sto" for y in subterms(q[1]))]
    if not elem_ws:
        v = g.read_at(s.ev, o)
        return zero(rep, g, s, tg, w, entry(g, assume(v, {**lt, **guard_lits(s.guard)}), j), j, lt, True)
    # reused vectors, changed entry by entry
    n = None
    if x.op == "cat" and len(x.a) == 1 and x.a[0].op == "rep":
        n = x.a[0].a[0]
    cleared = None
    und = None
    for q in elem_ws:
        loc, val, pc, loops = q[0], q[1], q[2], q[3]
        by = {l.uid: l for l in g.all_loops}
        ls = [by.get(l.uid, l) for l in loops]
        if val.op == "ite":
            und = "value %s" % show(val)[:200]
            continue
        if val.op != "sto" or val.a[1].op == "sto":
            und = "value %s" % show(val)[:200]
            continue
        idx, v = val.a[1], val.a[2]
        li = [l for l in ls if l.k is idx]
        ix = loc_index(loc)
        lo = [l for l in ls if ix is not None and has(ix, l.k)]
        if len(li) != 1:
            und = "index %s" % show(idx)[:200]
            continue
        K = li[0].k
        conds = [subst(c, {K: j}) for c, _ in pc]
        v = subst(v, {K: j})
        # where constrained: entries of generated guesses vanish
        conds = [where_constrained(g, c, j) for c in conds]
        v0 = where_constrained(g, v, j)
        rel = [c for c in conds if assume(c, guard_lits(s.guard)) is not TRUE]
        rel = [assume(assume(c, guard_lits(s.guard)), lt) for c in rel]
        rel = [c for c in rel if c is not TRUE]
        where = "%s:%s" % (q[4] and q[4].split("/")[-1], q[5])
        if any(c is FALSE for c in rel):
            continue
        if v0 is ZERO:
            if rel:
                und = und or "cleared only if %s" % show(rel[0])[:200]
                partial = (where, rel)
                if all(understood(c) for c in rel) and cleared is None:
                    cleared = ("bad", where, "cleared only if %s" % show(rel[0])[:200])
                continue
            N = li[0].N
            size = [y for y in subterms(N)] if N is not None else []
            if N is None or N.op == "trip":
                und = "loop not recognised"
                continue
            okN = N.op == "len" and from_guess(g, N.a[0], j)
            if n is not None and not lo and ix is not None:
                rep.bad(nm, w, "only reused vector %s is reset" % show(ix)[:100])
                return
            if n is not None and lo and (lo[0].N is not n or ix is not lo[0].k):
                if lo[0].N is not None and not opaque(sub(n, lo[0].N)) and lo[0].N.op != "trip" and isconst(sub(ix, lo[0].k)):
                    rep.bad(nm, w, "only %s of %s reused vectors are reset" % (show(lo[0].N)[:100], show(n)[:100]))
                    return
                und = "number of vectors %s" % show(lo[0].N)[:100]
                continue
            if not okN:
                d = N
                if any(y.op == "len" for y in subterms(N)):
                    rep.bad(nm, w, "only %s entries are reset" % show(N)[:200])
                    return
                und = "rounds %s" % show(N)[:150]
                continue
            cleared = ("ok", where, "reset at %s" % where)
            und = None
        else:
            if understood(v0) and not rel:
                cleared = ("bad", where, "set to %s" % show(v0)[:200])
            elif understood(v0) or is_random(v0):
                und = "set to %s under %s" % (show(v0)[:150], show(rel[0])[:150] if rel else "")
            else:
                und = "set to %s" % show(v0)[:200]
    if cleared and cleared[0] == "ok" and not und:
        rep.ok(nm, w, cleared[2])
    elif cleared and cleared[0] == "bad":
        rep.bad(nm, w, "reused vectors: %s (%s)" % (cleared[2], cleared[1]))
    elif und:
        rep.und(nm, w, und)
    else:
        rep.bad(nm, w, "reused vectors are not reset where the generated guess is zero")


def understood(t):
    return not opaque(t)


def loc_index(loc):
    for a in loc.a:
        if isinstance(a, tuple) and len(a) == 1 and isinstance(a[0], T):
            return a[0]
    return None


def same_family(a, b):
    return a.op == b.op == "new" and a.a[:2] == b.a[:2]


def guard_lits(gd):
    ps = bool_paths(gd) or [{}]
    return ps[0] if len(ps) == 1 else {k: v for k, v in ps[0].items() if all(q.get(k) is v or q.get(k) == v for q in ps)}


def from_guess(g, t, j):
    v = entry(g, t, j)
    return any(constrained(c, j) for c in subterms(v))


def where_constrained(g, t, j):
    """t when unknown j is constrained: entries of generated guesses are zero"""
    mp = {}
    for x in subterms(t):
        if x.op == "sel" and x.a[1] is j:
            v = entry(g, x.a[0], j)
            cs = [c for c in subterms(v) if constrained(c, j)]
            if cs:
                z = assume(v, dict([lit(cs[0], True)]))
                if z is ZERO:
                    mp[x] = z
    return subst(t, mp) if mp else t


# -- later cycles of the Lanczos solver -------------------------------------

def cycles(p, rep):
    seen = set()
    for f, g, r in E.solve_engine(p, rep):
        w = wfn(f)
        nm = "Lanczos::solve: changing the guess for a later cycle keeps its zeros"
        j = raw("sym", "$j")
        INT.add(j.id)
        NONNEG.add(j.id)
        # the vector that is deflated and starts the iteration
        src = set()
        for q in g.writes:
            if isinstance(q[1], T):
                for x in subterms(q[1]):
                    if x.op == "defl" and len(q[3]) == 1:
                        src.add(x.a[1])
        if not src:
            rep.und(nm, w, "no deflated guess found")
            continue
        for t in src:
            for lt, x in value_paths(t):
                if x.op in ("phi", "sym"):
                    rep.ok(nm, w, "unchanged")
                    continue
                if x.op != "out":
                    v = L.elem(x, j, [length(base(x))]) if x.op in ("stol", "sto") else None
                    old = {y: ZERO for y in subterms(v) if y.op == "sel" and y.a[1] is j} if v is not None else {}
                else:
                    v = None
                    l = loop_of(g, x.a[0])
                    q = l.phis.get(x.a[1]) if l is not None else None
                    if q is not None and q[2] is not None:
                        v = stored(q[2], q[0], l.k, j)
                    old = {sel(subst(q[0], {l.k: j}), j): ZERO} if v is not None else {}
                if v is None:
                    rep.und(nm, w, show(x)[:200])
                    continue
                z = subst(v, old)
                if z is ZERO:
                    rep.ok(nm, w, show(v)[:150])
                elif opaque(z):
                    rep.und(nm, w, show(v)[:200])
                else:
                    rep.bad(nm, w, "an entry that is zero becomes %s" % show(z)[:200])
