"""C26 agglomerate patches and boundary lists."""
import itertools
import re

import spec
from core import *
from vn import Engine
from rules_eig import atom
from rules_mesh import node_bool
from rules_guess import loop_of
from rules_lanczos import closed_heads

BUILD = "dealii::GridTools::build_triangulation_from_patch"
SETID = re.compile(r"::(set_boundary_id|set_all_boundary_ids|set_all_boundary_indicators|set_boundary_indicator)$")
FACE = re.compile(r"Accessor::face$")
HARMLESS = ("len", "length")


def fns(p, name):
    seen, out = set(), []
    for f in p.fns:
        if f.body is None or not f.repo or f.name != name or not (f.cls or "").endswith("AMGe"):
            continue
        m = re.search(r"<(\d)", f.ct.s if f.ct else "")
        k = (f.line, m.group(1) if m else "")
        if m and k not in seen:
            seen.add(k)
            out.append((f, int(m.group(1))))
    return out


def ci(t):
    """a constant integer, or None"""
    return int(cval(t)) if t is not None and isconst(t) else None


def c26(p, rep):
    for f, dim in fns(p, "build_agglomerate_triangulation"):
        g = Engine(p, contracts=spec.OPS)
        g.enter(f)
        rep.fns(g)
        patch(rep, g, f, dim)
    for f, dim in fns(p, "compute_dof_index_map"):
        g = Engine(p, contracts=spec.OPS)
        r = g.enter(f)
        rep.fns(g)
        dofs(rep, g, f, r)
    for f, dim in fns(p, "build_boundary_agglomerates"):
        g = Engine(p, contracts=spec.OPS)
        r = g.enter(f)
        rep.fns(g)
        lists(rep, g, f, r)
    rep.need(10, "patches and lists")


# ---------------------------------------------------------------- cells

def active(t):
    """the cells a collection of active cells ranges over: the DoFHandler or None"""
    return t.a[1] if t.op == "app" and str(t.a[0]) == "active_cells" else None


def active_of_mesh(t):
    d = active(t)
    return d is not None and show(d) == "at(this._dof_handler)"


def strip_cat(t):
    while t.op == "cat" and len(t.a) == 1 and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def cell_at(t):
    """(index) when t denotes an active cell of the mesh, by position"""
    if t.op == "sel" and active_of_mesh(t.a[0]):
        return t.a[1]
    if t.op == "itr" and t.a[0].op == "handles" and active_of_mesh(t.a[0].a[0]):
        return t.a[1]
    return None


def patch(rep, g, f, dim):
    evs = [e for e in g.events if e.name == BUILD]
    w = wfn(f)
    if not evs:
        return rep.und("patch is built", w, "no patch is built")
    ev = evs[0]
    arg0 = "$" + f.params[0]["n"]
    t0 = f.ptypes[0].s
    cells = ev.argv[0]
    nm = "the patch has exactly the requested cells"
    if "Accessor" in t0 or "Iterator" in t0:
        if cells.op == "sym" and show(cells) == f.params[0]["n"]:
            rep.ok(nm, ev.where)
        elif closed_cells(cells):
            rep.bad(nm, ev.where, "the patch is built from %s" % show(cells)[:400])
        else:
            rep.und(nm, ev.where, show(cells)[:400])
        guard_ok(rep, g, ev, cells)
        ids(rep, g, f, dim, ev)
    elif "vector" in t0:
        by_list(rep, g, f, ev, cells, nm)
    else:
        by_id(rep, g, f, ev, cells, nm)


def closed_cells(t):
    return not any(x.op in ("trip", "phi", "out", "havoc") or x.op == "app" and not str(x.a[0]).startswith(
        ("active_cells", "dealii::TriaAccessor::user_index", "filter")) or x.op.startswith(("res_", "upd_"))
        for x in subterms(t))


def guard_ok(rep, g, ev, cells):
    """the patch may be left out for no cells only"""
    nm = "a patch is built for every agglomerate with cells"
    for lits in bool_paths(ev.guard) or [{}]:
        rest = [a for a, b in lits.items() if not (a.op == "eq0" and length(cells) in set(subterms(a)) and not b)]
        if rest:
            return rep.und(nm, ev.where, show(rest[0])[:300])
    rep.ok(nm, ev.where)


def by_id(rep, g, f, ev, cells, nm):
    t = strip_cat(cells)
    pid = f.params[0]["n"]
    if t.op != "rep":
        return rep.und(nm, ev.where, show(cells)[:400])
    b = raw("sym", "$b")
    INT.add(b.id)
    NONNEG.add(b.id)
    N, body = t.a[0], inst(t.a[1], b)
    src = None
    for x in subterms(body):
        if x.op == "app" and str(x.a[0]) in ("active_cells", "filter"):
            src = x
            break
    if src is None or not active_of_mesh(src):
        return rep.und(nm, ev.where, show(t)[:400])
    el = sel(src, b)
    if N is not length(src):
        if isconst(sub(N, length(src))):
            return rep.bad(nm, ev.where, "only %s of the %s cells are looked at" % (show(N), show(length(src))))
        return rep.und(nm, ev.where, show(N)[:300])
    uid = [x for x in subterms(body) if x.op == "app" and str(x.a[0]).endswith("::user_index") and
           x.a[1].op == "at" and x.a[1].a[0] is el]
    ids_ = [x for x in subterms(body) if x.op == "sym" and show(x) == pid]
    res = []
    if not uid or not ids_:
        for lits, v in value_paths(body):
            if v is strip(one(el)) or show(v) in (show(one(el)), show(cat(one(el)))):
                if not any(a.op == "app" for a in lits):
                    return rep.bad(nm, ev.where, "a cell is taken under %s whatever its agglomerate" %
                                   [show(a) for a in lits])
        return rep.und(nm, ev.where, show(body)[:400])
    a, pol = atom(eq0(sub(uid[0], ids_[0])))
    for lits, v in value_paths(body):
        n, mine = length(v), lits.get(a)
        others = [x for x in lits if x is not a]
        if others or mine is None:
            if closed_cells(body) and all(x.op in ("eq0", "lt0", "eq") for x in lits):
                return rep.bad(nm, ev.where, "a cell is taken under %s" % show(body)[:400])
            return rep.und(nm, ev.where, show(body)[:400])
        if mine == pol:
            res.append(v is one(el) or sel(v, ZERO) is el and n is ONE)
        else:
            res.append(n is ZERO)
    if all(res):
        rep.ok(nm, ev.where, "user_index == %s" % pid)
    elif closed_cells(body):
        rep.bad(nm, ev.where, "a cell is taken under %s" % show(body)[:400])
    else:
        rep.und(nm, ev.where, show(body)[:400])


def by_list(rep, g, f, ev, cells, nm):
    lst = None
    for x in subterms(cells):
        if x.op == "sym" and show(x) == f.params[0]["n"]:
            lst = x
    t = strip_cat(cells)
    if t.op == "ite" and isinstance(t.a[1], T):         # no cells for an empty list
        t = strip_cat(t.a[1] if t.a[2].op == "cat" and not t.a[2].a else t.a[2])
    if t.op == "rep":
        b = raw("sym", "$b")
        INT.add(b.id)
        NONNEG.add(b.id)
        v = inst(t.a[1], b)
        L_ = lst or [x for x in subterms(v) if x.op == "sym" and show(x) == f.params[0]["n"]]
        if not L_:
            return rep.und(nm, ev.where, show(t)[:300])
        lst = lst or L_[0]
        i = cell_at(sel(v, ZERO)) if length(v) is ONE else None
        if i is None:
            return rep.und(nm, ev.where, show(t)[:300])
        if i is sel(lst, b) and t.a[0] is length(lst):
            return rep.ok(nm, ev.where, "one cell per entry")
        if closed(i) and closed(t.a[0]):
            return rep.bad(nm, ev.where, "entry %s of %s is the cell %s" % (show(b), show(t.a[0]), show(i)[:300]))
        return rep.und(nm, ev.where, show(t)[:300])
    if t.op != "out":
        return rep.und(nm, ev.where, show(t)[:400])
    l = loop_of(g, t.a[0])
    if l is None or l.N is None or t.a[1] not in l.phis or l.phis[t.a[1]][1] is None:
        return rep.und(nm, ev.where, "the loop over the list is not understood")
    ph, init, nx = l.phis[t.a[1]][:3]
    for q in l.phis.values():
        for x in list(subterms(q[1])) + list(subterms(q[2])) if q[1] is not None and q[2] is not None else ():
            if x.op == "sym" and show(x) == f.params[0]["n"]:
                lst = x
    if lst is None:
        return rep.und(nm, ev.where, show(nx)[:300])
    # position k of the iteration: the cell variable has some list position list[k+c]
    c = length(init)
    if not isconst(c) or sub(add(l.N, c), length(lst)) is not ZERO:
        if closed(l.N) and isconst(c) and isconst(sub(add(l.N, c), length(lst))):
            return rep.bad(nm, ev.where, "%s cells are taken for a list of %s" % (show(add(l.N, c)), show(length(lst))))
        return rep.und(nm, ev.where, "%s rounds" % show(l.N)[:200])
    H = None
    inv = {}
    for key, q in l.phis.items():
        if q[1] is None or q[2] is None or key == t.a[1]:
            continue
        i = cell_at(q[1])
        if i is None:
            continue
        H = q[1].a[0]
        off = [x for x in (0, 1, -1) if i is sel(lst, num(x))]
        pos = add(l.k, num(off[0])) if off else None
        nxt = q[2]
        cands = [sel(lst, pos)] if off else []
        cands += [q[1].a[1]] if not off else []
        for cand in cands:
            v = subst(nxt, {q[0]: itr_(H, cand)})
            v = resolve(v)
            want = subst(cand, {l.k: add(l.k, ONE)})
            if cell_at(v) is not None and cell_at(v) is want:
                inv[q[0]] = itr_(H, cand)
            elif cell_at(v) is not None and closed(cell_at(v)):
                return rep.bad(nm, ev.where, "after the cell %s of the mesh follows %s, not %s" % (
                    show(cand)[:150], show(cell_at(v))[:200], show(want)[:150]))
    got = [("first", ZERO, sel(init, ZERO))] if c is ONE else []
    if nx.op == "cat" and len(nx.a) == 2 and nx.a[0] is ph and length(nx.a[1]) is ONE:
        got.append(("next", add(l.k, c), resolve(subst(sel(nx.a[1], ZERO), inv))))
    else:
        return rep.und(nm, ev.where, show(nx)[:300])
    for _, k, v in got:
        i = cell_at(v)
        if i is None:
            return rep.und(nm, ev.where, show(v)[:300])
        if i is not sel(lst, k):
            if closed(i):
                return rep.bad(nm, ev.where, "cell %s of the patch is number %s of the mesh" % (show(k), show(i)[:300]))
            return rep.und(nm, ev.where, show(i)[:300])
    rep.ok(nm, ev.where, "by induction over the list")


def itr_(H, i):
    return raw("itr", H, i)


def resolve(v):
    """advances of known positions"""
    d = {}
    for x in subterms(v):
        if x.op == "adv" and x.a[0].op == "itr":
            d[x] = itr_(x.a[0].a[0], add(x.a[0].a[1], x.a[1]))
    return subst(v, d) if d else v


def closed(t):
    return not any(x.op in ("trip", "phi", "out", "havoc", "app") or x.op.startswith(("res_", "upd_", "out_"))
                   for x in subterms(t))


# ---------------------------------------------------------------- boundary ids

def ids(rep, g, f, dim, ev):
    nm = "boundary faces keep their boundary id"
    sets = [e for e in g.events if SETID.search(e.name)]
    if not sets:
        i = g.events.index(ev)
        later = [e for e in g.events[i + 1:] if any(x.op == "addr" or x.op.startswith("out_") and BUILD in x.op
                                                    for a in e.argv for x in subterms(a)) and e.kind == "ext" and
                 not e.name.startswith("std::")]
        if later:
            return rep.und(nm, wfn(f), "no id is set directly; %s" % later[0].name)
        return rep.bad(nm, wfn(f), "no boundary id of the patch is set")
    for e in sets:
        one_set(rep, g, f, dim, ev, e, nm)


def one_set(rep, g, f, dim, ev, e, nm):
    w = e.where
    o = e.obj
    if o is not None and o.op == "ptr":
        o = o.a[0]
    if o is None or o.op != "app" or not FACE.search(str(o.a[0])):
        return rep.und(nm, w, show(o)[:300] if o is not None else "?")
    C, Fi, V = o.a[1], o.a[2], e.argv[0]
    while C.op == "at":
        C = C.a[0]
    if not (Fi.op == "fld" and V.op == "fld" and Fi.a[0] is V.a[0]):
        direct(rep, g, f, dim, ev, e, nm, C, Fi, V)
        return
    X = Fi.a[0]                         # an element of the list stored for a cell
    if not (X.op == "sel" and X.a[0].op == "fld" and X.a[0].a[1] == "second" and X.a[0].a[0].op == "sel"):
        return rep.und(nm, w, show(X)[:300])
    entry_ = X.a[0].a[0]
    M = entry_.a[0]
    key = fld(entry_, "first")
    # the loops visit every entry of every cell
    n2 = "every recorded boundary face is copied"
    ks = {l.k: l for l in e.loops}
    full = True
    for k, n in ((entry_.a[1], length(M)), (X.a[1], length(X.a[0]))):
        l = ks.get(k)
        if l is None or l.N is None:
            full = False
            rep.und(n2, w, show(k)[:100])
        elif l.N is not n:
            full = False
            if isconst(sub(l.N, n)):
                rep.bad(n2, w, "only %s of them" % show(l.N)[:60])
            else:
                rep.und(n2, w, "rounds")
    # the cell of the patch
    n3 = "the id is set on the patch's copy of the cell"
    MAPS = [x for x in subterms(C) if x.op == "mfindif"]
    after = None
    if C.op == "fld" and C.a[1] == "first" and MAPS and C.a[0].op == "at" and C.a[0].a[0] is MAPS[0]:
        mf = MAPS[0]
        container = mf.a[0].a[0]
        pred = mf.a[2]
        if container.op.startswith("out_" + BUILD) or container.op == "out" or "patch" in container.op:
            pass
        elif container.op == "sym":
            rep.bad(n3, w, "the map is searched before the patch has been built")
            return
        x = raw("sym", "%x")
        want = [node(x, "second", key)]
        if any(pred is q for q in want):
            rep.ok(n3, w, "the entry whose mesh cell is the recorded cell")
        elif matches(pred, x, key):
            rep.ok(n3, w, "the entry whose mesh cell is the recorded cell")
        elif matches(not_(pred), x, key):
            rep.bad(n3, w, "the entry looked for is another cell")
        elif pred.op == "ite" and pred.a[0].op == "eq0" and {str(q.a[0]).split("::")[-1] for q in subterms(
                subst(pred.a[0], {key: raw("sym", "%key")})) if q.op == "app"} == {"index"}:
            rep.bad(n3, w, "the entry is looked for by the index alone, which cells of different levels share")
        elif not has_op(pred, ("app", "phi", "out")) or pred.op in ("eq",):
            rep.bad(n3, w, "the entry looked for satisfies %s" % brief(pred, M))
        else:
            rep.und(n3, w, brief(pred, M))
        after = mf
    elif C.op == "fld" and C.a[1] == "first" and C.a[0].op == "sel" and C.a[0].a[0].op.startswith("out_" + BUILD):
        E_ = C.a[0]
        lp = [l for l in e.loops if l.k is E_.a[1]]
        mate = fld(E_, "second")
        hit = None
        for lits in bool_paths(e.guard) or []:
            for a, b in lits.items():
                if a.op == "eq" and mate in a.a:
                    hit = (a, b)
        if not lp or lp[0].N is not length(E_.a[0]):
            rep.und(n3, w, "the loop over the map")
        elif hit and key in hit[0].a and hit[1]:
            rep.ok(n3, w, "the entry whose mesh cell is the recorded cell")
            after = key
        elif hit is None:
            rep.bad(n3, w, "the id is set whatever the cell of the patch")
        else:
            rep.bad(n3, w, "the id is set where %s%s" % ("" if hit[1] else "not ", brief(hit[0], M)))
    else:
        rep.und(n3, w, brief(C, M))
    # nothing else decides
    if full:
        rest = []
        for lits in bool_paths(e.guard) or []:
            for a, b in lits.items():
                if a.op == "eq" and after is not None and after in a.a and b == (after is key):
                    continue
                if a in {q for q in (bool_paths(ev.guard) or [{}])[0]}:
                    continue
                rest.append((a, b))
        if rest:
            a, b = rest[0]
            if a.op == "eq" and after is not None and any(q is after for q in a.a) and \
                    any(q.op == "mbegin" for q in a.a):
                return rep.bad(n2, w, "only if the cell is the first of the map")
            S = fld(X, V.a[1])
            if S in set(subterms(a)) and not has_op(subst(a, {S: ZERO}), ("sel", "app", "fld")):
                # ids left out must be the default one
                nd = assume_val(a, S)
                rep.check(nd != b, n2, w, "faces with %s%s only" % ("" if b else "not ", "condition on the id")) \
                    if nd is not None else rep.und(n2, w, "condition on the id")
            else:
                rep.und(n2, w, brief(a, M))
        else:
            rep.ok(n2, w)
    recorded(rep, g, f, dim, ev, e, nm, M, Fi.a[1], V.a[1])


def assume_val(a, S):
    v = subst(a, {S: ZERO})
    return True if v is TRUE else False if v is FALSE else None


def brief(t, M):
    return show(t).replace(show(M), "IDS")[:400]


def node(x, fl, key):
    t = eqv(fld(x, fl), key)
    return t


def eqv(a, b):
    return raw("eq", *sorted((a, b), key=lambda t: t.id))


def matches(pred, x, key):
    if pred.op == "ite":
        if not (pred.a[1] is TRUE and pred.a[2] is FALSE):
            return False
        pred = pred.a[0]
    if pred.op != "eq":
        return False
    s = {strip_at(q).id for q in pred.a}
    return s in ({fld(x, "second").id, key.id}, {fld(raw("at", x), "second").id, key.id})


def strip_at(t):
    return t


def has_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def recorded(rep, g, f, dim, ev, e, nm, M, pf, pv):
    """what the recording loop stores for a cell"""
    w = wfn(f)
    cells = ev.argv[0]
    if M.op == "ite" and isinstance(M.a[1], T):
        M = M.a[1] if M.a[1].op == "iter" else M.a[2]
    if M.op != "iter" or not (M.a[1].op == "cat" and not M.a[1].a):
        return rep.und(nm, w, "recorded as %s" % show(M)[:300])
    n4 = "the cells looked at are those of the patch"
    if M.a[0] is not length(cells):
        if isconst(sub(M.a[0], length(cells))):
            return rep.bad(n4, w, "%s of %s" % (show(M.a[0]), show(length(cells))))
        return rep.und(n4, w, show(M.a[0])[:300])
    lam_ = M.a[2]
    b = raw("sym", "$b")
    INT.add(b.id)
    NONNEG.add(b.id)
    cell = sel(cells, b)
    body = inst(lam_, b)
    bvps = [x for x in subterms(body) if x.op == "bvp"]
    if not bvps:
        return rep.bad(nm, w, "every cell overwrites the record: %s" % show(body)[:300])
    B = bvps[0]
    apps = {x for x in subterms(body) if x.op == "app"}

    def on(x, what):
        return str(x.a[0]).endswith("::" + what)
    cb, fb = None, {}
    cellb = [x for x in apps if on(x, "at_boundary") and x.a[1].op == "at" and x.a[1].a[0] is cell]
    faces = {}
    for x in apps:
        if FACE.search(str(x.a[0])) and x.a[1].op == "at" and x.a[1].a[0] is cell and ci(x.a[2]) is not None:
            faces.setdefault(ci(x.a[2]), []).append(x)
    nf = 2 * dim
    fb = {}
    for x in apps:
        if on(x, "at_boundary") and x.a[1].op == "at":
            for i, fs in faces.items():
                if any(q is x.a[1].a[0] for q in fs):
                    fb[i] = x
    known = set(cellb) | set(fb.values())
    # paths with atoms we do not know
    extra = {a for lits, v in value_paths(body) for a in lits} - known
    extra = {a for a in extra if not known & set(subterms(a))}
    missing = [i for i in range(nf) if i not in fb]
    if any(i >= nf for i in faces):
        return rep.bad(nm, w, "face %d of a cell with %d faces" % (max(faces), nf))
    count = 0
    for bits in itertools.product((True, False), repeat=nf):
        lits = {fb[i]: bits[i] for i in fb}
        for c in cellb:
            lits[c] = any(bits)
        v = assume(body, lits)
        v = settle(v)
        got = collect(v, B, cell)
        expect = [i for i in range(nf) if bits[i]]
        if got is None:
            return rep.und(nm, w, show(v)[:400])
        fcs = []
        for t in got:
            fi, val = ci(fld(t, pf)), fld(t, pv)
            if fi is None:
                if any(on(x, "boundary_id") for x in [fld(t, pf)] if x.op == "app"):
                    return rep.bad(nm, w, "the boundary id is taken for the number of the face")
                return rep.und(nm, w, show(t)[:300])
            src = val
            if src.op == "app" and on(src, "boundary_id") and src.a[1].op == "at" and src.a[1].a[0].op == "app" and \
                    FACE.search(str(src.a[1].a[0].a[0])):
                fc = src.a[1].a[0]
                if fc.a[1].op == "at" and fc.a[1].a[0] is cell and ci(fc.a[2]) is not None:
                    if ci(fc.a[2]) != fi:
                        return rep.bad(nm, w, "face %d of the patch cell gets the boundary id of face %d" % (
                            fi, ci(fc.a[2])))
                    fcs.append(fi)
                    continue
                return rep.und(nm, w, show(val)[:300])
            if isconst(val):
                return rep.bad(nm, w, "face %d gets the id %s" % (fi, show(val)))
            return rep.und(nm, w, show(val)[:300])
        miss = [i for i in expect if i not in fcs]
        if miss:
            if extra and not missing:
                return rep.und(nm, w, "further conditions %s" % show(list(extra)[0])[:200])
            return rep.bad(nm, w, "the boundary id of face %d of a cell is not copied (with exactly the faces %s at the "
                           "boundary)" % (miss[0], expect))
        more_ = [i for i in fcs if i not in expect]
        if more_ and any(bits):
            # an id set on an interior face: it is no boundary face of the mesh
            return rep.bad(nm, w, "face %d is recorded although it is not at the boundary" % more_[0])
        count += 1
    rep.ok(nm, w, "%d combinations of boundary faces" % count)


def settle(v):
    """decide what the assumptions settle"""
    for _ in range(3):
        d = {}
        for x in subterms(v):
            if x.op == "ite" and isinstance(x.a[1], T):
                if x.a[0] is TRUE:
                    d[x] = x.a[1]
                elif x.a[0] is FALSE:
                    d[x] = x.a[2]
        if not d:
            return v
        v = subst(v, d)
    return v


def collect(v, B, cell):
    """the elements appended to B[cell], or None"""
    if v is B:
        return []
    if v.op == "sto" and v.a[1] is cell:
        inner = v.a[2]
        out = []
        parts = flat(inner)
        if parts is None:
            return None
        for t in parts:
            if t.op == "sel" and t.a[1] is cell and t.a[0] is B:
                continue
            if t.op == "sel" and t.a[1] is cell:
                r = collect(t.a[0], B, cell)
                if r is None:
                    return None
                out += r
            elif t.op == "one":
                out.append(t.a[0])
            else:
                return None
        return out
    return None


def flat(t):
    if t.op == "cat":
        r = []
        for x in t.a:
            q = flat(x)
            if q is None:
                return None
            r += q
        return r
    if t.op in ("one", "sel"):
        return [t]
    return None


def direct(rep, g, f, dim, ev, e, nm, C, Fi, V):
    """set_boundary_id(face(copy, i), boundary_id(face(cell, i))) without a record"""
    w = e.where
    if Fi.op == "fld" and V.op == "fld" and Fi.a[0].op == "sel" and V.a[0].op == "sel":
        x, y = Fi.a[0], V.a[0]
        if x.a[0] is y.a[0]:
            return rep.bad(nm, w, "the face of record %s gets the id of record %s" % (show(x.a[1]), show(y.a[1])))
        if x.a[0].op == "fld" and y.a[0].op == "fld" and x.a[0].a[0].op == "sel" and y.a[0].a[0].op == "sel" and \
                x.a[0].a[0].a[0] is y.a[0].a[0].a[0]:
            return rep.bad(nm, w, "the face of one cell's record gets the id of another cell's")
    if V.op == "app" and str(V.a[0]).endswith("::boundary_id") and V.a[1].op == "at" and V.a[1].a[0].op == "app" and \
            FACE.search(str(V.a[1].a[0].a[0])):
        i = V.a[1].a[0].a[2]
        if isconst(i) and isconst(Fi) and i is not Fi:
            return rep.bad(nm, w, "face %s of the patch cell gets the boundary id of face %s" % (show(Fi), show(i)))
    elif isconst(V):
        return rep.bad(nm, w, "a face gets the id %s" % show(V))
    rep.und(nm, w, "face %s gets %s" % (show(Fi)[:100], show(V)[:200]))


# ---------------------------------------------------------------- unknowns

GETI = re.compile(r"::get_(active_or_mg_|mg_)?dof_indices$")


def dofs(rep, g, f, r):
    nm = "unknown k of a patch cell maps to unknown k of its mesh cell"
    w = wfn(f)
    v = r[1]
    if v is None or v.op not in ("out", "iter", "sto", "stol"):
        return rep.und(nm, w, show(v)[:300] if v is not None else "?")
    key = None
    ws = [x for x in g.writes if x[1].op == "sto" and len(x[3]) >= 1 and any(
        q.op.startswith("out_") and GETI.search(q.op) for q in subterms(x[1]))]
    if not ws:
        return rep.und(nm, w, show(v)[:300])
    mapn, dhn = f.params[0]["n"], f.params[1]["n"]
    for x in ws:
        line = "%s:%s" % (x[4] and x[4].split("/repo/")[-1], x[5])
        ph, I, val = x[1].a[:3]
        if ph.op not in ("phi", "bvp"):
            rep.und(nm, line, show(x[1])[:300])
            continue
        a, b = entry_of(I), entry_of(val)
        if a is None or b is None:
            rep.und(nm, line, show(x[1])[:300])
            continue
        (ca, ka), (cb, kb) = a, b
        okc = ca.op == "sel" and active(ca.a[0]) is not None and show(active(ca.a[0])) in (dhn, "at(&%s)" % dhn)
        okm = cb.op == "sel" and cb.a[0].op == "sym" and show(cb.a[0]) == mapn and cb.a[1] is ca
        if okc and okm and ka is kb:
            rep.ok(nm, line)
        elif closed_pos(ka) and closed_pos(kb) and ka is not kb and okc and okm:
            rep.bad(nm, line, "position %s of the patch cell is mapped to position %s of the mesh cell" % (
                show(ka), show(kb)))
        elif ca is cb or show(ca).startswith(mapn) and not show(cb).startswith(mapn):
            rep.bad(nm, line, "the index %s is mapped to %s" % (show(I)[:200], show(val)[:200]))
        else:
            rep.und(nm, line, show(x[1])[:300])
            continue
        conds = [c for c, _ in x[2] if c is not TRUE]
        if conds:
            rep.und("every unknown of the patch is mapped", line, show(conds[0])[:300])
            continue
        n2 = "every unknown of the patch is mapped"
        for l in x[3]:
            if l.N is None or l.N.op == "trip":
                rep.und(n2, line, "rounds")
            elif isconst(sub(ka, l.k)) or isconst(add(ka, l.k)):
                n_ = l.N
                if isconst(sub(ka, l.k)) and sub(ka, l.k) is not ZERO:
                    rep.bad(n2, line, "positions %s on only" % show(sub(ka, l.k)))
                    continue
                s = show(l.N)
                if re.search(r"dofs_per_cell$|n_dofs_per_cell|^len\(out_.*get_dof_indices", s) and l.N.op in (
                        "fld", "app", "len") or re.fullmatch(r"(at\(.*\)|.*)\.?.*dofs_per_cell.*", s) and \
                        l.N.op in ("fld", "app"):
                    rep.ok(n2, line, s)
                elif any(isconst(sub(l.N, q)) and sub(l.N, q) is not ZERO for q in subterms(l.N)
                         if q.op in ("fld", "app", "len")):
                    rep.bad(n2, line, "only %s of the positions" % s[:200])
                elif "dofs_per_" in s:
                    rep.bad(n2, line, "only the first %s positions" % s[:200])
                else:
                    rep.und(n2, line, s[:200])
            elif ca.op == "sel" and l.k is ca.a[1]:
                if l.N is length(ca.a[0]):
                    rep.ok(n2, line, show(l.N))
                elif isconst(sub(l.N, length(ca.a[0]))):
                    rep.bad(n2, line, "only %s of the cells" % show(l.N))
                else:
                    rep.und(n2, line, show(l.N)[:200])


def closed_pos(t):
    return closed(t) or all(x.op not in ("trip", "phi", "out", "havoc") and not x.op.startswith(("res_", "upd_", "out_"))
                            and (x.op != "app" or str(x.a[0]).endswith(("::get_fe", "dofs_per_cell")))
                            for x in subterms(t))


def entry_of(t):
    """(cell, position) when t is an entry of a cell's list of unknowns"""
    if t.op == "sel" and t.a[0].op.startswith("out_") and GETI.search(t.a[0].op):
        o = t.a[0].a[1]
        while o.op in ("at", "ptr"):
            o = o.a[0]
        return o, t.a[1]
    return None


# ---------------------------------------------------------------- boundary lists

def lists(rep, g, f, r):
    w = wfn(f)
    v = r[1]
    got = [fld(v, "first"), fld(v, "second")] if v is not None else [None, None]
    got = [None if x is None else strip_cat(x) for x in got]
    if any(x is None or x.op != "rep" for x in got):
        return rep.und("boundary lists", w, show(v)[:300] if v is not None else "?")
    for what, t in zip(("interior", "halo"), got):
        one_list(rep, g, f, w, what, t)


def unwrap(t):
    """the sequence whose elements a list holds"""
    while True:
        if t.op == "one" or t.op == "cat" and len(t.a) == 1 and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == "made" and len(t.a) >= 2 and t.a[0].op == "mbegin" and t.a[1].op == "mend":
            t = t.a[0].a[0]
        elif t.op in ("vecof", "seqof", "setseq") and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == "ite" and isinstance(t.a[1], T) and t.a[1].op == "cat" and not t.a[1].a:
            t = t.a[2]
        elif t.op == "ite" and isinstance(t.a[1], T) and t.a[2].op == "cat" and not t.a[2].a:
            t = t.a[1]
        else:
            return t


def one_list(rep, g, f, w, what, t):
    nm = "the %s list of an agglomerate" % what
    b = raw("sym", "$b")
    INT.add(b.id)
    NONNEG.add(b.id)
    x = unwrap(inst(t.a[1], b))
    chain = []
    while x.op == "out" and len(chain) < 6:
        l = loop_of(g, x.a[0])
        if l is None or x.a[1] not in l.phis or l.phis[x.a[1]][2] is None:
            return rep.und(nm, w, show(x)[:200])
        chain.append((l, x.a[1]))
        x = unwrap(l.phis[x.a[1]][2])
    if len(chain) < 1:
        return rep.und(nm, w, show(x)[:300])
    inner, key = chain[-1]
    ph, init, nx = inner.phis[key][:3]
    cnt = [q for q in subterms(nx) if q.op == "app" and str(q.a[0]).endswith(("map.count", "set.count", "::count"))]
    if not cnt:
        return rep.und(nm, w, show(nx)[:300])
    P = cnt[0]
    S, col = P.a[1], P.a[2]
    if not (col.op == "app" and str(col.a[0]).endswith("::column") and S.op == "sel"):
        return rep.und(nm, w, show(P)[:300])
    SETS = S.a[0]
    members(rep, g, f, w, SETS)
    # rows
    it = [q for k, q in inner.phis.items() if q[0] in set(subterms(col))]
    nrow = "the connectivity row of the cell is walked through"
    cell = None
    if it and it[0][1] is not None:
        i0 = it[0][1]
        if i0.op == "app" and str(i0.a[0]).endswith("::begin"):
            cell = i0.a[2]
        ends = [q for q in subterms_of_events(g) if q.op == "app" and str(q.a[0]).endswith("DynamicSparsityPattern::end")]
        conds = [a for ww in g.writes if inner in ww[3] for c, _ in ww[2] for a in subterms(c)
                 if a.op == "app" and str(a.a[0]).endswith("::end")]
        en = conds[0] if conds else None
        step = it[0][2]
        if cell is None or en is None:
            rep.und(nrow, w, show(i0)[:300])
        else:
            good = en.a[1] is i0.a[1] and en.a[2] is cell and step is raw("adv", it[0][0], ONE)
            if not good and not (step.op == "adv" and step.a[0] is it[0][0] and isconst(step.a[1])) and \
                    show(step) != "adv(%s,1)" % show(it[0][0]):
                rep.und(nrow, w, show(step)[:200])
            elif good or show(step) == "adv(%s,1)" % show(it[0][0]) and en.a[1] is i0.a[1] and en.a[2] is cell:
                rep.ok(nrow, w)
            else:
                rep.bad(nrow, w, "from begin(%s) to end(%s) by %s" % (
                    tail(cell), tail(en.a[2]), show(step.a[1])))
            conn(rep, w, i0.a[1])
    else:
        rep.und(nrow, w, "iterator")
    if cell is None:
        return
    okcell = cell.op == "sel" and cell.a[0] is S
    (rep.ok if okcell else rep.und)("each cell of the agglomerate is looked at", w, "" if okcell else show(cell)[-200:])
    if okcell:
        rounds(rep, g, w, S, cell)
    # the push
    flags = [q for k, q in inner.phis.items() if q[0] in set(bool_atoms(nx)) and q[1] is not None and q[2] is not None]
    want = cell if what == "interior" else col
    outside = eq0(P)
    a, pol = atom(outside)
    for q in (True, False):
        for bits in itertools.product((True, False), repeat=len(flags)):
            lits = {a: pol == q}
            for fl, bt in zip(flags, bits):
                lits[fl[0]] = bt
            v = settle(assume(nx, lits))
            if v.op == "ite":
                return rep.und(nm, w, "depends on %s" % show(v.a[0])[:200])
            isset = v.op == "mins"
            pushed = None
            if v is ph:
                pass
            elif v.op == "cat" and len(v.a) == 2 and v.a[0] is ph and v.a[1].op == "one":
                pushed = v.a[1].a[0]
            elif v.op == "mins" and v.a[0] is ph:
                pushed = v.a[1]
            else:
                return rep.und(nm, w, show(v)[:300])
            if pushed is not None and pushed is not want:
                if pushed in (cell, col):
                    return rep.bad(nm, w, "the %s is listed instead of the %s" % (
                        "neighbour" if pushed is col else "cell", "neighbour" if want is col else "cell"))
                return rep.und(nm, w, show(pushed)[:300])
            if not q and pushed is not None:
                return rep.bad(nm, w, "a cell is listed for a neighbour inside the agglomerate")
            if isset:
                if not q:
                    return rep.bad(nm, w, "a cell is listed for a neighbour inside the agglomerate")
                continue
            if any(y.op == "mins" and y.a[0] is ph for y in subterms(nx)):
                if q and (what == "halo" or not flags):
                    return rep.bad(nm, w, "a neighbour outside the agglomerate is left out%s" % (
                        " once the cell is listed" if flags else ""))
                if q and flags and flags[0][1] in (TRUE, FALSE) and (flags[0][1] is TRUE) == bits[0]:
                    return rep.bad(nm, w, "a cell touching the outside is left out")
                continue
            if not flags:
                if q and pushed is None:
                    return rep.bad(nm, w, "a neighbour outside the agglomerate is left out")
                if q and pushed is not None:
                    return rep.bad(nm, w, "an entry is listed once per neighbour: more than once")
                continue
            # a flag: pushed already
            fl, bt = flags[0], bits[0]
            n1 = settle(assume(fl[2], lits))
            first = fl[1]          # its value at the start of the row
            if first not in (TRUE, FALSE) or n1 not in (TRUE, FALSE):
                if first is not TRUE and first is not FALSE:
                    return rep.bad(nm, w, "whether a cell has been listed is not forgotten before the next cell") \
                        if first.op in ("phi", "out", "ite") else rep.und(nm, w, show(first)[:200])
                return rep.und(nm, w, show(n1)[:200])
            fresh_ = (first is TRUE) == bt
            if q and fresh_ and pushed is None:
                return rep.bad(nm, w, "a cell touching the outside is left out")
            if q and not fresh_ and pushed is not None:
                return rep.bad(nm, w, "a cell is listed more than once")
            if q and (n1 is TRUE) == (first is TRUE):
                if fresh_:
                    return rep.bad(nm, w, "a cell is listed once per neighbour outside")
                return rep.bad(nm, w, "a listed cell is listed again")
            if not q and (n1 is TRUE) != bt:
                return rep.bad(nm, w, "a neighbour inside changes whether the cell counts as listed")
    if what == "halo" and not any(q.op == "mins" for q in subterms(nx)):
        return rep.und(nm, w, show(nx)[:300])
    # what earlier neighbours and cells contributed stays, what earlier agglomerates did does not
    seen, e, li, ki = [inner.k], init, inner, key
    while e.op == "phi":
        lo = [(l, k) for l in g.all_loops for k, q in l.phis.items() if q[0] is e]
        if not lo or lo[0][0].phis[lo[0][1]][1] is None:
            return rep.und(nm, w, show(e)[:200])
        lo, ko = lo[0]
        if lo.k is S.a[1]:
            return rep.bad(nm, w, "the list starts with the cells of the agglomerates before")
        nx2 = unwrap(lo.phis[ko][2])
        if not (nx2.op == "out" and nx2.a[0] == li.uid):
            return rep.und(nm, w, show(nx2)[:200])
        seen.append(lo.k)
        e, li, ki = lo.phis[ko][1], lo, ko
    if not (e.op == "cat" and not e.a or e.op == "made" and not e.a[1:]):
        return rep.und(nm, w, "starts as %s" % show(e)[:200])
    if cell.a[1] not in seen:
        return rep.bad(nm, w, "what earlier cells of the agglomerate contributed is dropped")
    rep.ok(nm, w)
    n5 = "one %s list per agglomerate, in order" % what
    if t.a[0] is length(SETS) and S.a[1] in {l.k for l in g.all_loops}:
        rep.ok(n5, w)
    elif isconst(sub(t.a[0], length(SETS))):
        rep.bad(n5, w, "%s lists" % show(sub(t.a[0], length(SETS))))
    else:
        rep.und(n5, w, show(t.a[0])[:200])


def bool_atoms(t):
    out = set()
    for lits, v in value_paths(t):
        out |= set(lits)
    return out


def subterms_of_events(g):
    out = set()
    for e in g.events:
        if e.res is not None:
            out.add(e.res)
    return out


def tail(t):
    return show(t)[-60:]


def rounds(rep, g, w, S, cell):
    nm = "each cell of the agglomerate is looked at"
    for k, n in ((cell.a[1], length(S)), (S.a[1], length(S.a[0]))):
        ls = [l for l in g.all_loops if l.k is k]
        if not ls:
            rep.und(nm, w, show(k))
        elif ls[0].N is not n:
            if ls[0].N is not None and isconst(sub(ls[0].N, n)):
                rep.bad(nm, w, "all but %s" % show(sub(n, ls[0].N)))
            else:
                rep.und(nm, w, "rounds")


def conn(rep, w, t):
    nm = "cells touch when they share a vertex"
    s = {x.op for x in subterms(t) if x.op.startswith("out_")}
    if any("get_vertex_connectivity_of_cells" in x for x in s):
        rep.ok(nm, w)
    elif any("get_face_connectivity_of_cells" in x for x in s):
        rep.bad(nm, w, "only neighbours across faces are found")
    else:
        rep.und(nm, w, show(t)[:200])


def members(rep, g, f, w, t):
    nm = "set i holds the locally owned cells of agglomerate i+1"
    if t.op == "ite" and isinstance(t.a[1], T):
        t = t.a[1] if t.a[1].op == "iter" else t.a[2]
    if t.op != "iter":
        return rep.und(nm, w, show(t)[:300])
    N, init = t.a[0], t.a[1]
    b = raw("sym", "$b")
    INT.add(b.id)
    NONNEG.add(b.id)
    body = inst(t.a[2], b)
    own = [x for x in subterms(body) if x.op == "app" and str(x.a[0]) in ("filter", "active_cells")]
    own = [x for x in own if x.op == "app" and sel(x, b) in set(subterms(body))]
    if not own:
        return rep.und(nm, w, show(body)[:300])
    O = own[0]
    e = sel(O, b)
    if N is not length(O):
        if isconst(sub(N, length(O))):
            return rep.bad(nm, w, "%s of %s cells are sorted in" % (show(N)[:100], show(length(O))[:100]))
        return rep.und(nm, w, show(N)[:200])
    conds = list(value_paths(body))
    B = [x for x in subterms(body) if x.op == "bvp"]
    for lits, v in conds:
        mine = True
        for a, q in lits.items():
            if a.op == "app" and str(a.a[0]).endswith("::is_locally_owned") and a.a[1].op == "at" and a.a[1].a[0] is e:
                mine = q
            else:
                return rep.und(nm, w, show(a)[:200])
        if not mine:
            if v.op != "bvp":
                return rep.bad(nm, w, "cells of other processes are sorted in")
            continue
        if str(O.a[0]) == "active_cells" and not lits:
            return rep.bad(nm, w, "cells of other processes are sorted in")
        if v.op != "sto" or v.a[2].op not in ("mins",) or not B or v.a[0] is not B[0]:
            return rep.und(nm, w, show(v)[:300])
        i, m = v.a[1], v.a[2]
        ui = [x for x in subterms(i) if x.op == "app" and str(x.a[0]).endswith("::user_index") and x.a[1].op == "at" and
              x.a[1].a[0] is e]
        good = ui and i is sub(ui[0], ONE)
        if not good and (not ui or not isconst(sub(i, ui[0]))):
            return rep.und(nm, w, show(i)[:200])
        if not good:
            return rep.bad(nm, w, "set %s" % show(i)[:200])
        if not (m.a[0] is sel(B[0], i)):
            return rep.und(nm, w, show(m)[:200])
        x = m.a[1]
        if x.op == "app" and x.a[1].op == "at" and x.a[1].a[0] is e:
            if str(x.a[0]).endswith("::active_cell_index"):
                continue
            if str(x.a[0]).endswith(("::index", "::global_active_cell_index")):
                return rep.bad(nm, w, "cells are numbered by %s, the connectivity by the active cell index" % x.a[0])
        return rep.und(nm, w, show(x)[:200])
    rep.ok(nm, w)
