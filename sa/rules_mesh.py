"""C25 agglomerate numbers, C29 visualisation files."""
import re
import vn
import spec
from core import *
from vn import Engine, F, EL, THIS, ptr, addr
from rules_eig import atom, holds, sym, mkvec, verdict

ACT = "app(active_cells"
OWN = "is_locally_owned"
HEADS = re.compile(r"(is_locally_owned|user_index|at_boundary|active_cells|neighbor|has_children)$")


def entries(p, *names):
    """the given public member functions of the AMGe class, one per class instantiation"""
    out, seen = [], set()
    for f in p.fns:
        if f.body is not None and f.repo and f.cls == "mfmg::AMGe" and f.name in names:
            key = (f.name, f.ct.s if f.ct else "", tuple(t.s for t in f.ptypes))
            if key not in seen:
                seen.add(key)
                out.append(f)
    return out


def same_line(fs):
    """one function per definition and dimension"""
    seen, out = set(), []
    for f in fs:
        k = (f.file, f.line, re.sub(r"<(\d).*", r"\1", f.ct.s if f.ct else ""))
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def is_act(t):
    return t.op == "app" and t.a and str(getattr(t.a[0], "a", [t.a[0]])[0] if isinstance(t.a[0], T) else t.a[0]) == "active_cells"


def owned(cell):
    return app_("dealii::CellAccessor::is_locally_owned", raw("at", cell))


def owned_atoms(t):
    return [x for x in subterms(t) if x.op == "app" and show(x).startswith("app(dealii::") and OWN in show(x)[:60]]


def cell_of(e):
    """the cell an accessor is called on, as a term"""
    o = e.obj
    if o is None:
        return None
    if o.op == "ptr":
        return o.a[0]
    return None


def last(n):
    return n.rsplit("::", 1)[-1]


def implied_owned(g, guard, cell, seen=()):
    """does the guard imply that the cell is owned by this process? True / False / None"""
    a = owned(cell)
    if and_(guard, not_(node_bool(a))) is FALSE:
        return True
    if cell.op == "ite":
        rs = [implied_owned(g, and_(guard, *[node_bool(c) if b else not_(node_bool(c)) for c, b in l.items()]), v, seen)
              for l, v in value_paths(cell)]
        return False if False in rs else None if None in rs else True
    if cell.op in ("phi", "out"):
        uid, key = cell.a[0], cell.a[1]
        if (uid, key) in seen:
            return True
        lps = [l for l in g.all_loops if l.uid == uid]
        if not lps or key not in lps[0].phis:
            return None
        t = lps[0].phis[key]
        r = implied_owned(g, guard, t[1], seen + ((uid, key),))
        if r is not True:
            return r
        go_on = not_(or_(*[b[0] for b in lps[0].breaks if b[0] is not None])) if lps[0].breaks else TRUE
        for lits, leaf in value_paths(t[2]):
            gd = and_(guard, go_on, *[node_bool(c) if b else not_(node_bool(c)) for c, b in lits.items()])
            r = implied_owned(g, gd, leaf, seen + ((uid, key),))
            if r is not True:
                return r
        return True
    if opaque_cell(cell):
        return None
    return False


def opaque_cell(cell):
    return [h for h in opaque_heads(cell) if not HEADS.search(h) and h not in ("phi", "out")]


def node_bool(a):
    return ite(atomb(a), TRUE, FALSE)


def c25(p, rep):
    fs = same_line(entries(p, "build_agglomerates"))
    for f in fs:
        numbering(p, rep, f)
    rep.need(4, "agglomeration methods")


def cases(ret):
    if ret is None:
        return []
    return value_paths(ret)


def numbering(p, rep, f):
    g = Engine(p)
    r = g.enter(f)
    rep.fns(g)
    w = wfn(f)
    ty = f.ct.s
    cnt = [q["n"] for q in p.classes[ty].fields if q["t"].s in ("unsigned int",)] if ty in p.classes else []
    evs = sorted((e for e in g.events if last(e.name) in ("set_user_index", "clear_user_index", "user_index",
                                                         "recursively_set_user_index", "clear_user_data",
                                                         "recursively_clear_user_index", "clear_user_data_index")),
                 key=lambda e: e.seq)
    throws = [e for e in g.events if e.kind == "throw"]
    name = "AMGe<%s>::build_agglomerates" % re.sub(r".*?<(\d).*", r"\1", ty)
    for lits, ret in cases(r[1]):
        lits = dict(lits)
        for e in throws:
            a, b = atom(assume(e.guard, lits))
            if a is not None:
                lits[a] = not b
        sub_ = lambda t: assume(t, lits)
        if any(sub_(e.guard) is TRUE for e in throws):
            continue
        label = "%s, partitioner %s: " % (name, ", ".join(
            ("" if b else "not ") + (show(c).rsplit("'", 2) + ["", ""])[1] for c, b in lits.items()))
        es = [(e, sub_(e.guard)) for e in evs]
        es = [(e, gd) for e, gd in es if gd is not FALSE]
        if not es:
            rep.und(label + "numbers", w, "no agglomerate numbers recognised")
            continue
        count(rep, g, label, w, cnt, ret, lits)
        cleared(rep, g, label, es, f, p)
        only_owned(rep, g, label, es)
        contiguous(rep, g, label, es, ret, sub_)


def count(rep, g, label, w, cnt, ret, lits):
    nm = label + "the number reported later is the one returned"
    if len(cnt) != 1:
        return rep.und(nm, w, "field of the count not recognised")
    v = assume(g.read(F(THIS, cnt[0])), lits)
    if v is ret:
        return rep.ok(nm, w)
    if v is g.init_value(F(THIS, cnt[0])):
        return rep.bad(nm, w, "it is not stored")
    if not [h for h in opaque_heads(v) + opaque_heads(ret) if not HEADS.search(h) and h not in ("out", "phi")] \
            if isinstance(opaque_heads(v), list) else not [
            h for h in opaque_heads(v) | opaque_heads(ret) if not HEADS.search(h) and h not in ("out", "phi")]:
        return rep.bad(nm, w, "stored is %s, returned %s" % (show(v)[:200], show(ret)[:200]))
    rep.und(nm, w, "stored is %s" % show(v)[:200])


def loop_cell(e, c):
    """the loop over all active cells in which c is the current one"""
    if c is None or c.op != "sel" or not is_act(c.a[0]):
        return None
    for l in e.loops:
        if l.k is c.a[1]:
            return l
    return None


def cleared(rep, g, label, es, f, p):
    nm = label + "numbers of a previous call are overwritten"
    e0 = es[0][0]
    c = cell_of(e0)
    tria = [e for e in g.events if last(e.name) in ("clear_user_data", "clear_user_data_index") and e.seq <= e0.seq]
    if any(e.guard is TRUE or e is e0 for e in tria):
        return rep.ok(nm, tria[0].where, "all user data are cleared")
    l = loop_cell(e0, c)
    if l is None:
        return rep.und(nm, e0.where, "first access is not in a loop over the active cells")
    by = {x.uid: x for x in g.all_loops}
    lp = by.get(l.uid, l)
    if lp.N is not length(c.a[0]):
        if lp.breaks or lp.N.op == "trip":
            return rep.und(nm, e0.where, "the loop may stop early")
        return rep.bad(nm, e0.where, "only %s cells are visited" % show(lp.N)[:100])
    cover = FALSE
    for e, gd in es:
        if not any(x.uid == l.uid for x in e.loops):
            continue
        if last(e.name) == "user_index":
            if and_(gd, not_(cover)) is not FALSE and cell_of(e) is c:
                return rep.bad(nm, e.where, "the number is used before it is set or cleared")
        elif cell_of(e) is c and e.loops[-1].uid == l.uid:
            cover = or_(cover, gd)
    rest = not_(cover)
    own = node_bool(owned(c))
    if rest is FALSE:
        return rep.ok(nm, e0.where, "set or cleared for every active cell first")
    if and_(rest, own) is FALSE:
        return rep.ok(nm, e0.where, "set or cleared for every owned cell first; others are never numbered")
    if [h for h in opaque_heads(rest) if not HEADS.search(h)]:
        return rep.und(nm, e0.where, "left alone when " + show(rest)[:200])
    rep.bad(nm, e0.where, "the number of an owned cell is left alone when " + show(rest)[:300])


def zero(e):
    return last(e.name) == "clear_user_index" or (e.argv and e.argv[0] is ZERO)


def only_owned(rep, g, label, es):
    nm = label + "only owned cells are numbered"
    for e, gd in es:
        if not last(e.name).endswith("set_user_index") or zero(e):
            continue
        c = cell_of(e)
        if c is None:
            rep.und(nm, e.where, "cell not recognised")
            continue
        v = e.argv[0]
        # a cell that keeps the number zero
        r = implied_owned(g, gd, c)
        if r is not True and v.op == "sel" and last_ui(v.a[1]) is c:
            r = True
        rep.add("ok" if r else "und" if r is None else "bad", nm, e.where,
                "" if r else "cell %s is numbered without being known to be owned" % show(c)[:200])


def last_ui(t):
    """the cell whose number t is"""
    if t.op == "app" and show(t).split(",")[0].endswith("user_index") and t.a[-1].op == "at":
        return t.a[-1].a[0]
    return None


def contiguous(rep, g, label, es, ret, sub_):
    nm = label + "numbers are contiguous and their count is returned"
    sets = [(e, gd) for e, gd in es if last(e.name).endswith("set_user_index") and not zero(e)]
    if not sets:
        return rep.und(nm, es[0][0].where, "no numbering recognised")
    e, gd = sets[-1]
    c, v = cell_of(e), sub_(e.argv[0])
    by = {x.uid: x for x in g.all_loops}
    l = loop_cell(e, c)
    # renumbering by running sums of the used numbers
    if v.op == "sel" and running_sum(g, v.a[0]) is not None and last_ui(v.a[1]) is c and l is not None:
        X = running_sum(g, v.a[0])
        if by[l.uid].N is not length(c.a[0]) or and_(node_bool(owned(c)), not_(gd)) is not FALSE:
            return rep.bad(nm, e.where, "not every owned cell is renumbered")
        if ret not in (sel(v.a[0], sub(length(v.a[0]), ONE)), sel(v.a[0], sub(length(X), ONE))):
            return rep.add("bad" if not strange(ret) else "und", nm, e.where,
                           "returned is %s, not the largest new number" % show(ret)[:300])
        r = used_indicator(X)
        rep.add("ok" if r is True else "und" if r is None else "bad", nm, e.where, "" if r is True else r or "indicator of used numbers not recognised")
        return seeds(rep, g, nm.replace("numbers are contiguous and their count is returned", "every owned cell gets a number"),
                     sets[:-1], by, c, e)
    # numbering by first occurrence
    if l is not None:
        lp = by[l.uid]
        mine = [(x, gx) for x, gx in sets if any(y.uid == l.uid for y in x.loops)]
        if len(mine) == len(sets) and all(cell_of(x) is c for x, _ in mine):
            return first_seen(rep, g, nm, lp, c, mine, ret, sub_)
    if any(last_ui(x) is c for x in subterms(v)):
        return rep.und(nm, e.where, "way of renumbering not recognised")
    # seeds that later cells may take over
    for e, gd in sets:
        c = cell_of(e)
        if c is not None and c.op in ("phi", "out"):
            free = [a for a in atoms(gd) if a.op == "eq0" and last_ui(a.a[0]) is c]
            if not free:
                return rep.bad(nm, e.where, "a cell of an earlier agglomerate may be taken over, whose number is "
                               "then unused, and nothing renumbers afterwards")
    rep.und(nm, e.where, "way of numbering not recognised")


def running_sum(g, t):
    """the array of which t holds the running sums"""
    if t.op == "psum":
        return t.a[0]
    if t.op == "iter":
        N, X, b = t.a
        k, prev = raw("bv", b.a[1]), raw("bvp", b.a[1])
        i = add(k, ONE)
        if N is sub(length(X), ONE) and b.a[0] in (sto(prev, i, add(sel(prev, i), sel(prev, k))),):
            return X
    if t.op == "out":
        for l in g.all_loops:
            if l.uid == t.a[0] and t.a[1] in l.phis and not l.breaks:
                prev, X, nxt = l.phis[t.a[1]][:3]
                i = add(l.k, ONE)
                if nxt is sto(prev, i, add(sel(prev, i), sel(prev, l.k))) and l.N in (
                        sub(length(X), ONE), sub(length(prev), ONE), posmax(sub(length(X), ONE))):
                    return X
    return None


def posmax(n):
    return ite(lt0(n), ZERO, n)


def seeds(rep, g, nm, sets, by, c, final):
    """a loop over all cells gives a number to each owned one that has none"""
    why = "nothing numbers the cells"
    for e, gd in sets:
        ce = cell_of(e)
        l = loop_cell(e, ce)
        if l is None:
            continue
        lp = by[l.uid]
        fresh = [a for a in atoms(gd) if a.op == "eq0" and last_ui(a.a[0]) is ce]
        need = and_(node_bool(owned(ce)), *[node_bool(a) for a in fresh])
        if lp.N is not length(ce.a[0]):
            why = None if lp.breaks or lp.N.op == "trip" else "only %s cells are visited" % show(lp.N)[:100]
        elif and_(need, not_(gd)) is not FALSE:
            why = None if strange(gd) else "an owned cell without a number gets one only when " + show(gd)[:300]
        else:
            return rep.ok(nm, e.where, "seeds")
    rep.add("und" if why is None else "bad", nm, sets[0][0].where if sets else final.where, why or "loop over seeds not recognised")


def atoms(d):
    out = set()

    def go(t):
        if t.op == "ite":
            out.add(t.a[0])
            go(t.a[1])
            go(t.a[2])
    go(d)
    return out


def strange(t):
    return [h for h in opaque_heads(t) if not HEADS.search(h) and h not in ("out", "phi", "psum")]


def used_indicator(X):
    """is X the array with a one exactly at the numbers of owned cells?"""
    if X.op != "iter":
        return None
    N, i0, b = X.a
    h = b.a[1]
    if i0.op != "arr" or i0.a[1] is not ZERO:
        return "entries of unused numbers start as " + show(i0)[:100] if i0.op == "arr" else None
    prev = raw("bvp", h)
    for lits, leaf in value_paths(b.a[0]):
        own = [b_ for a, b_ in lits.items() if OWN in show(a)[:80]]
        if leaf is prev:
            if not own or own[0]:
                return "an owned cell is not counted"
        elif leaf.op == "sto" and leaf.a[0] is prev and last_ui(leaf.a[1]) is not None and leaf.a[2] is ONE:
            if own and not own[0]:
                return None
        elif leaf.op == "sto" and leaf.a[0] is prev and not [x for x in strange(leaf.a[2]) if x != "bvp"] and last_ui(leaf.a[1]) is not None:
            return "used numbers are marked with " + show(leaf.a[2])[:100]
        else:
            return None
    return True


def first_seen(rep, g, nm, lp, c, sets, ret, sub_):
    where = sets[0][0].where
    own = node_bool(owned(c))
    cover = or_(*[gd for _, gd in sets])
    if and_(own, not_(cover)) is not FALSE:
        if strange(cover):
            return rep.und(nm, where, "owned cells may stay without a number")
        return rep.bad(nm, where, "an owned cell may stay without a number")
    # counter
    for e, gd in sets:
        v = sub_(e.argv[0])
        for key, t in lp.phis.items():
            phi, i0, nxt = t[0], t[1], sub_(t[2])
            if not has(v, phi) or v.op != "poly" and v is not phi:
                continue
            off = sub(v, phi)
            if not isconst(off) or not isconst(i0):
                continue
            steps = value_paths(nxt)
            if any(not (leaf is phi or leaf is add(phi, ONE)) for _, leaf in steps):
                continue
            first = add(i0, off)
            if first is not ONE:
                return rep.bad(nm, e.where, "numbering starts from " + show(first))
            inc = or_(*[and_(*[node_bool(a) if b else not_(node_bool(a)) for a, b in l.items()]) for l, leaf in steps
                        if leaf is not phi]) if any(leaf is not phi for _, leaf in steps) else FALSE
            if inc is not gd and and_(inc, not_(gd)) is FALSE and and_(gd, not_(inc)) is FALSE:
                inc = gd
            if inc is not gd:
                if inc is FALSE:
                    return rep.bad(nm, e.where, "the counter never moves on")
                return rep.und(nm, e.where, "the counter moves on when " + show(inc)[:200])
            end = raw("out", lp.uid, key)
            want = sub(end, i0)
            if ret is not want:
                d = sub(ret, want)
                return rep.add("bad" if isconst(d) or not strange(ret) else "und", nm, e.where,
                               "returned is %s, numbers given out are %s" % (show(ret)[:200], show(want)[:100]))
            # the number is remembered under the key that selects it
            maps = [(k, m) for k, m in ((k, (m[0], m[1], sub_(m[2]))) for k, m in lp.phis.items()) if m[0] is not phi and any(
                x.op == "sto" and x.a[0] is m[0] and x.a[2] is v for x in subterms(m[2]))]
            if not maps:
                return rep.bad(nm, e.where, "the number is not remembered for later cells of the same part")
            m = maps[0][1]
            keys = {x.a[1] for x in subterms(m[2]) if x.op == "sto" and x.a[0] is m[0] and x.a[2] is v}
            tested = {x.a[1] for x in subterms(gd) if x.op in ("mfind", "mhas", "mcount", "sel") and x.a[0] is m[0]}
            others = [sub_(x.argv[0]) for x, _ in sets if x is not e]
            ok = len(keys) == 1 and (not tested or keys == tested) and all(
                any(y.op in ("mfind", "sel") and y.a[0] is m[0] and y.a[1] in keys for y in subterms(o)) or
                any(y.op == "sel" and y.a[0] is m[2] for y in subterms(o)) for o in others)
            free = [o for o in others if not any(y in (m[0], m[2]) or y is phi for y in subterms(o))]
            if free:
                return rep.bad(nm, e.where, "a later cell gets %s, which is not the number remembered" % (
                    show(free[0])[-200:]))
            return rep.add("ok" if ok else "und", nm, e.where, "" if ok else "keys of the renumbering not recognised")
    # the part number itself
    vs = [sub_(e.argv[0]) for e, _ in sets]
    if all(not any(x.op == "phi" and x.a[0] == lp.uid for x in subterms(v)) for v in vs):
        part = [v for v in vs if any(x.op == "sel" for x in subterms(v))]
        if part:
            return rep.bad(nm, where, "cells are numbered by %s, of which some values may not occur" % show(part[0])[:200])
    rep.und(nm, where, "counter of the numbers not recognised")


# -- C29 ---------------------------------------------------------------------

def stream_name(v):
    """the file an output stream is connected with"""
    for x in subterms(v):
        if x.op == "made" and "basic_ofstream" in str(x.a[0]):
            return x.a[1] if len(x.a) > 1 else None
        if x.op.startswith("upd_std::basic_ofstream::open"):
            return x.a[1]
    return None


def c29(p, rep):
    fs = same_line(entries(p, "output"))
    for f in fs:
        output(p, rep, f)
    rep.need(2, "output functions")


def output(p, rep, f):
    g = Engine(p)
    g.enter(f)
    rep.fns(g)
    w = wfn(f)
    tag = "AMGe<%s>::output: " % re.sub(r".*?<(\d).*", r"\1", f.ct.s)
    files = [e for e in g.events if last(e.name) in ("write_vtu",)]
    recs = [e for e in g.events if last(e.name) == "write_pvtu_record"]
    if not files or not recs:
        return rep.add("und", tag + "files", w, "no file or no record is written")
    rank = None
    for e in g.events:
        if last(e.name) == "this_mpi_process" and e.res is not None:
            rank = e.res
    if rank is None:
        return rep.und(tag + "files", w, "rank not recognised")
    J = sym("J")
    for e in files:
        rep.add("ok" if e.guard is TRUE else "und" if strange29(e.guard) else "bad", tag + "every process writes its file",
                e.where, "only when " + show(e.guard)[:200])
    names = {stream_name(e.argv[0]) for e in files}
    for e in recs:
        gd = e.guard
        nm = tag + "one process writes the record"
        a, b = atom(gd) if gd.op == "ite" else (None, None)
        if a is not None and holds({a: b}, eq0(rank)):
            rep.ok(nm, e.where)
        elif gd is TRUE:
            rep.bad(nm, e.where, "all processes write the same file")
        else:
            rep.add("und" if strange29(gd) else "bad", nm, e.where, "when " + show(gd)[:200])
        L = e.argv[1]
        n = length(L)
        nprocs = {x.res for x in g.events if last(x.name) == "n_mpi_processes" and x.res is not None}
        nm = tag + "one entry per process"
        if n in nprocs:
            rep.ok(nm, e.where)
        else:
            rep.add("und" if strange29(n) else "bad", nm, e.where, "%s entries" % show(n)[:200])
        nm = tag + "entries name the files the processes write"
        if None in names or len(names) != 1:
            rep.und(nm, e.where, "name of the file written not recognised")
            continue
        have = next(iter(names))
        want = subst(have, {rank: J})
        got = sel(L, J)
        if len(nprocs) == 1:
            got = assume_below(got, J, next(iter(nprocs)))
        if not has(have, rank):
            rep.bad(nm, e.where, "all processes write " + show(have)[:200])
        elif got is want:
            rep.ok(nm, e.where)
        elif strange29(got) or strange29(want):
            rep.und(nm, e.where, "entry J is %s, process J writes %s" % (show(got)[:200], show(want)[:200]))
        else:
            rep.bad(nm, e.where, "entry J is %s, process J writes %s" % (show(got)[:200], show(want)[:200]))
    cell_data(rep, g, tag, w, files)


def assume_below(v, j, n):
    lits = {}
    for b, val in ((lt0(sub(j, n)), True), (lt0(j), False)):
        a, s = atom(b)
        if a is not None:
            lits[a] = s == val
    return assume(v, lits)


def strange29(t):
    return [h for h in opaque_heads(t) if not re.search(r"(this_mpi_process|n_mpi_processes|tostr|filename|_comm)", h)]


def cell_data(rep, g, tag, w, files):
    nm = tag + "agglomerate numbers of owned cells, zero elsewhere"
    data = [e for e in g.events if last(e.name) == "add_data_vector" and len(e.argv) > 1]
    order = [e for e in g.events if last(e.name) in ("attach_dof_handler", "add_data_vector", "build_patches", "write_vtu",
                                                     "attach_triangulation")]
    ds = [(e, elementwise(g, e.argv[0])) for e in data]
    ui = [(e, d) for e, d in ds if d is not None and any(last_ui(x) is not None for x in subterms(d[0]))]
    if not ui:
        return rep.add("bad" if data and all(d is not None or not strange(e.argv[0]) for e, d in ds) else "und", nm, w,
                       "no data of the cells' numbers")
    e, (val, b, prev, N) = ui[0]
    r, ok = None, True
    act = None
    for lits, leaf in value_paths(val):
        own = [x for a, x in lits.items() if OWN in show(a)[:80]]
        if leaf is prev or leaf is ZERO:
            if not own:
                ok = None
            elif own[0]:
                r = "an owned cell is left out"
            continue
        pos = b
        if leaf.op == "sto" and leaf.a[0] is prev:
            pos, leaf = leaf.a[1], leaf.a[2]
        c = last_ui(leaf)
        if c is None or not (c.op == "sel" and is_act(c.a[0])):
            ok = None
        elif pos is not c.a[1]:
            r = "the number of cell %s is stored at position %s" % (show(c.a[1])[:80], show(pos)[:120])
        elif not own or not own[0]:
            r = "also cells of other processes get a number"
        else:
            act = length(c.a[0])
    if N is not act:
        ok = None
    rep.add("bad" if r else "ok" if ok else "und", nm, e.where, r or "")
    seq = [last(x.name) for x in sorted(order, key=lambda x: x.seq)]
    nm = tag + "data are attached before they are written"
    try:
        b = seq.index("build_patches")
        wv = seq.index("write_vtu")
        ok = max(i for i, s in enumerate(seq) if s == "add_data_vector") < b < wv
        rep.add("ok" if ok else "bad", nm, w, "order " + ", ".join(seq))
    except ValueError:
        rep.und(nm, w, "order " + ", ".join(seq))


def elementwise(g, v):
    """(value after one round or element, counter, previous value, number of rounds) of an array filled in a loop"""
    if v.op == "iter" and v.a[1].op == "arr" and v.a[1].a[1] is ZERO:
        h = v.a[2].a[1]
        return v.a[2].a[0], raw("bv", h), raw("bvp", h), v.a[0]
    if v.op == "stol" and v.a[2].a[0].op != "tup" and v.a[0].op == "arr" and v.a[0].a[1] is ZERO:
        return v.a[2].a[0], raw("bv", v.a[2].a[1]), None, v.a[1]
    if v.op == "out":
        for l in g.all_loops:
            if l.uid == v.a[0] and v.a[1] in l.phis and not l.breaks:
                phi, i0, nxt = l.phis[v.a[1]][:3]
                if i0.op == "arr" and i0.a[1] is ZERO:
                    return nxt, l.k, phi, l.N
    return None
