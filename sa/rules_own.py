"""C31 ownership: what is allocated is released exactly once, nothing outlives what it refers to."""
import re

import rules_flow as RF
from core import *
from vn import addr, refers, uidof

# external functions that hand an object over through a reference to a pointer: name -> argument
GIVES = {"EpetraExt::MatrixMatrix::Add": 6}
# external functions whose object keeps referring to the argument
KEEPS = [(r"^dealii::TrilinosWrappers::(Precondition\w*|SolverDirect)::initialize$", 0),
         (r"^dealii::PreconditionChebyshev::initialize$", 0), (r"^dealii::PreconditionJacobi::initialize$", 0),
         (r"^dealii::DiagonalMatrix::reinit$", -1), (r"^dealii::DoFHandler::reinit$", 0),
         (r"^dealii::MatrixFreeOperators::\w+::initialize$", 0)]
# classes whose objects keep referring to a constructor's argument
KEPT = [(r"^dealii::(TrilinosWrappers::)?Solver\w+", 0), (r"^dealii::(DoFHandler|hp::DoFHandler)<", 0),
        (r"^dealii::ArpackSolver", 0), (r"^dealii::FEValues", 1)]

NEW = "an object made by new is released exactly once"
OUT = "an object handed over by a library is released exactly once"
REL = "an object taken out of a smart pointer is released exactly once"
OWN = "a smart pointer only takes over objects nobody else owns"
USE = "nothing is used after it was released"
LIFE = "what a kept object refers to is kept alive with it"
REF = "nothing refers to an object with a shorter life"


def rootof(l):
    while l is not None and l.op in ("f", "el"):
        l = l.a[0]
    return l


HOLD = {"ite", "sto", "setf", "arr", "cat", "one", "made", "refto", "tup", "pair", "resz", "rep", "some", "lam", "zero"}


def held(v):
    """addresses and functions the value itself holds, not those it was computed from"""
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("addr", "clo"):
            out.append(x)
        elif x.op == "ite":
            todo += x.a[1:]
        elif x.op in HOLD:
            todo += [y for y in x.a if isinstance(y, T)]
    return out


def outlives(l, u0, byval, kept):
    """the location still exists when the call that began at u0 is over"""
    r = rootof(l)
    if r.op == "var":
        return r not in byval and uidof(r) <= u0
    if r.op == "new":
        return r.a[1] <= u0 or r in kept
    return r.op in ("ptr", "glob")


def once(g, v, made, rels, end=None):
    """is the object v released exactly once wherever it was made?  made: event"""
    if any(r.name not in ("delete", "own") for r in rels):
        return "und", "custom deleter or unknown call"
    lk = tuple(l.uid for l in made.loops)
    if any(tuple(l.uid for l in r.loops)[:len(lk)] != lk for r in rels):
        return "und", "released in another loop"
    inner = [r for r in rels if tuple(l.uid for l in r.loops) != lk]
    if inner:
        return "und", "released in an inner loop"
    conds = [release_cond(r, v) for r in rels]
    for i in range(len(rels)):
        for j in range(i):
            if not infeasible(and_(made.guard, and_(conds[i], conds[j]))):
                return "bad", "released at %s and again at %s" % (rels[j].where, rels[i].where)
    none = made.guard
    for c in conds:
        none = and_(none, not_(c))
    ps = bool_paths(none)
    if ps is None:
        return "und", "too many cases"
    ps = [x for x in ps if not contradictory(x)]
    if ps:
        if not rels:
            return "bad", "never released"
        return "bad", "not released if " + ", ".join(("" if b else "not ") + show(a)[:60] for a, b in list(ps[0].items())[:3])
    return "ok", "released once at " + ", ".join(r.where for r in rels)


def release_cond(r, v):
    """condition under which the event releases v itself"""
    x = r.argv[0]
    if x is v:
        return r.guard
    out = FALSE
    for lits, y in value_paths(x):
        if y is v:
            c = r.guard
            for a, b in lits.items():
                c = and_(c, atomb(a) if b else not_(atomb(a)))
            out = or_(out, c)
    return out


def targets(x):
    return [y for _, y in value_paths(x)]


def c31_visit(g, f):
    out = []
    rels = [e for e in g.events if e.kind == "delete" or e.kind == "mem" and e.name in
            ("own", "own with deleter")]
    objs = []
    for e in g.events:
        if e.kind == "new" and e.obj in g.rawnew:
            objs.append((NEW, addr(e.obj), e))
        elif e.kind == "ext" and e.name in GIVES and e.out is not None:
            i = GIVES[e.name]
            if i < len(e.argv) and e.args[i] is not None:
                null = [y for _, y in value_paths(e.argv[i])]
                if all(y.op == "null" for y in null):
                    objs.append((OUT, given(g, e, i), e))
                elif any(y.op == "null" for y in null):
                    out.append(("und", OUT, e.where, "the argument may already point to an object"))
        elif e.kind == "mem" and e.name == "release":
            for _, y in value_paths(e.argv[0]):
                if y.op == "addr":
                    objs.append((REL, y, e))
    fresh = {v for _, v, _ in objs}
    for nm, v, e in objs:
        if v is None:
            out.append(("und", nm, e.where, "pointer not followed"))
            continue
        rs = [r for r in rels if any(y is v for y in targets(r.argv[0])) and r.seq > e.seq]
        # taking it out of the smart pointer again starts another ownership
        took = [r.seq for r in g.events if r.kind == "mem" and r.name == "release" and r.seq > e.seq and
                any(y is v for y in targets(r.argv[0]))]
        if took:
            rs = [r for r in rs if r.seq < min(took)]
        st, why = once(g, v, e, rs)
        if st == "bad" and not rs and escapes(g, v, e):
            st, why = "und", "the raw pointer is passed on"
        out.append((st, nm, e.where, why))
        # uses after the release
        for r in rs:
            if r.kind != "delete":
                continue
            c = release_cond(r, v)
            n = g.events.index(r)
            for p, pc, w in uses(g, v):
                if p > n and not infeasible(and_(c, pc)):
                    out.append(("bad", USE, w, "released at %s" % r.where))
                    break
            else:
                out.append(("ok", USE, r.where, ""))
    for r in rels:
        for y in targets(r.argv[0]):
            if y in fresh or y.op in ("null", "undef"):
                continue
            if y.op == "addr" and y.a[0].op in ("new", "var", "f", "el") and not opaque_root(y.a[0]):
                out.append(("bad", OWN, r.where, "%s belongs to %s" % (
                    show(y)[:80], "another smart pointer" if y.a[0].op == "new" else "a variable or an object")))
            elif y.op == "addr" and y.a[0].op == "ptr" and r.kind == "mem":
                out.append(("bad", OWN, r.where, "the object %s, which others own" % show(y.a[0])[:80]))
        if all(y in fresh for y in targets(r.argv[0])):
            out.append(("ok", OWN, r.where, ""))
    dangling(g, out)
    lifelines(g, f, out)
    return out


def opaque_root(l):
    r = rootof(l)
    return r.op == "new" and r.a[0] in ("scratch", "copy")


def given(g, e, i):
    """the pointer the call stores through its argument i"""
    for o in e.out if isinstance(e.out, (list, tuple)) else [e.out]:
        if isinstance(o, T) and o.op.startswith("out") and len(o.a) and show(o.a[0]) == str(i):
            return o
    for p, pc, w in getattr(g, "derefs_", []):
        pass
    for x in {y for r in g.events for v in r.argv if v is not None for y in subterms(v)}:
        if x.op.startswith("out_" + e.name) and show(x.a[0]) == str(i):
            return x
    return None


def uses(g, v):
    for d in g.derefs:
        p, pc, fi, ln, n = d[:5]
        if any(y is v for y in targets(p)):
            yield n, cond(pc), "%s:%s" % (short(fi), ln)
    for p, n, fi, ln in g.uses:
        if p is v:
            yield n, TRUE, "%s:%s" % (short(fi), ln)


def short(fi):
    for k in ("/include/mfmg/", "/source/"):
        if k in fi:
            return k[1:] + fi.split(k)[1]
    return fi


def cond(pc):
    c = TRUE
    for x in pc:
        if x[1] != "as":
            c = and_(c, x[0])
    return c


def escapes(g, v, e):
    """the raw pointer goes where the analysis does not follow"""
    for r in g.events:
        if r.seq > e.seq and r.kind in ("ext", "ctor", "new", "unk", "virt") and any(
                x is not None and v in set(subterms(x)) for x in r.argv):
            return True
    for l, x, _, _ in g.stores:
        if v in set(subterms(x)) and rootof(l).op != "new":
            return True
    r = g.result
    return bool(r and r[1] is not None and v in set(subterms(r[1])))


def dangling(g, out):
    n = 0
    for f, u0, u1, s0, s1, val, byval, v0, v1 in g.spans:
        if not f.repo:
            continue

        def gone(l):
            r = rootof(l)
            if r.op != "var":
                return False
            if r in byval:
                return True
            k = uidof(r)
            if not u0 < k <= u1:
                return False
            return not r.a[0].startswith("tmp#") or r in g.mats
        stores = g.stores[s0:s1]
        # objects allocated here that are still there afterwards
        kept = set()
        grew = True
        while grew:
            grew = False
            for l, v, _, _ in stores:
                if outlives(l, u0, byval, kept):
                    for x in held(v):
                        if x.op == "addr" and rootof(x.a[0]).op == "new" and rootof(x.a[0]) not in kept and \
                                rootof(x.a[0]).a[1] > u0:
                            kept.add(rootof(x.a[0]))
                            grew = True
            if val is not None:
                for x in held(val):
                    if x.op == "addr" and rootof(x.a[0]).op == "new" and rootof(x.a[0]) not in kept and \
                            rootof(x.a[0]).a[1] > u0:
                        kept.add(rootof(x.a[0]))
                        grew = True
        last = {}
        for i, (l, v, _, _) in enumerate(stores):
            last[l] = i
        for i, (l, v, fi, ln) in enumerate(stores):
            if last[l] != i or not outlives(l, u0, byval, kept):
                continue
            if any(last.get(x, -1) > i for x in prefixes(l)):
                continue
            for x in held(v):
                if x.op == "addr" and gone(x.a[0]):
                    out.append(("bad", REF, "%s:%s" % (short(fi), ln), "%s refers to %s, which ends with %s" % (
                        show(l)[:60], show(x.a[0])[:60], f.name)))
                elif x.op == "clo" and x in g.clos:
                    for c in g.clos[x][1].values():
                        if c is not None and gone(c) and captured(g.clos[x], c):
                            out.append(("bad", REF, "%s:%s" % (short(fi), ln), "a function kept in %s refers to %s, "
                                        "which ends with %s" % (show(l)[:60], show(c)[:60], f.name)))
            n += 1
        if val is not None and val.op != "void":
            for x in held(val):
                if x.op == "addr" and gone(x.a[0]):
                    out.append(("bad", REF, wfn(f), "the value returned refers to %s, which ends with the call" %
                                show(x.a[0])[:60]))
        for e in g.events[v0:v1]:
            for l, a, what in keepers(e):
                ra = rootof(a)
                if outlives(l, u0, byval, kept) and (gone(a) or ra.op == "new" and ra.a[1] > u0 and ra not in kept
                                                     and ra not in g.rawnew):
                    out.append(("bad", REF, e.where, "%s keeps a reference to %s, which ends with %s" % (
                        what, show(a)[:60], f.name)))
                elif outlives(l, u0, byval, kept):
                    out.append(("ok", REF, e.where, what))
    # a reference member bound to a temporary
    for l, v, fi, ln in g.stores:
        if v.op == "refto":
            t = rootof(v.a[0].a[0])
            o = rootof(l)
            if t in g.mats and not (o.op == "var" and o.a[0].startswith("tmp#")):
                out.append(("bad", REF, "%s:%s" % (short(fi), ln), "%s refers to a temporary" % show(l)[:60]))
            else:
                out.append(("ok", REF, "%s:%s" % (short(fi), ln), l.a[1] if l.op == "f" else "a member"))
    for name, r, u0, u1, kept, fi, ln in g.binds:
        if r in g.rawnew:
            continue
        out.append(("ok" if kept else "bad", REF, "%s:%s" % (short(fi), ln),
                    "%s refers to an object made in the same expression%s" % (name, "" if kept else " that nothing keeps")))


def lifelines(g, f, out):
    """what a kept object refers to must be kept alive by the object that keeps it"""
    if f.kind != "ctor" or not g.spans:
        return
    f0, u0, u1, s0, s1, val, byval, v0, v1 = g.spans[-1]
    mine = {l: v for l, v, _, _ in g.stores[s0:s1] if l.op == "f" and l.a[0].op == "var" and l.a[0].a[0] == "this"}
    mine = list(mine.items())
    lent = {y for e in g.events if e.kind == "mem" and e.name in ("own with deleter", "view") for y in targets(e.argv[0])}
    fields = {}
    todo = [f.ct.s] if f.ct is not None else []
    while todo:
        c = g.p.classes.get(todo.pop())
        for x in (c.fields if c else []):
            fields[x["n"]] = x["t"]
        todo += [b.s for b, _ in c.bases] if c else []
    for e in g.events:
        for l, a, what in keepers(e):
            r = rootof(a)
            if r.op != "ptr" or not any(rootof(l) in [rootof(x.a[0]) for x in held(v) if x.op == "addr"] for _, v in mine):
                continue
            sub = set(subterms(r))
            if any(x.op == "sym" and x.a[0] == "this" for x in sub):
                continue
            own = [k for k, v in mine if any(y in sub and y not in lent for y in targets(v)) and not (
                k.a[1] in fields and (fields[k.a[1]].ptr or fields[k.a[1]].ref or "weak_ptr" in fields[k.a[1]].s))]
            if own:
                out.append(("ok", LIFE, e.where, "%s is kept alive through %s" % (show(a)[:60], show(own[0])[:60])))
            else:
                out.append(("bad", LIFE, e.where, "%s keeps a reference to %s, which no member keeps alive" % (
                    what, show(a)[:60])))


def captured(clo, loc):
    fns, caps, fr, node = clo
    return any(c.get("ref") and caps.get(c.get("id")) is loc for c in node.get("cap", []))


def prefixes(l):
    while l.op in ("f", "el"):
        l = l.a[0]
        yield l


def keepers(e):
    """(object, object it keeps referring to, description)"""
    if e.kind == "ext" and e.obj is not None:
        for rx, i in KEEPS:
            if re.search(rx, e.name) and 0 <= i < len(e.args) and e.args[i] is not None:
                yield e.obj, e.args[i], e.name
    if e.kind == "new" and getattr(e, "cargs", None):
        for rx, i in KEPT:
            if re.search(rx, e.name) and i < len(e.cargs) and e.cargs[i] is not None:
                yield e.obj, e.cargs[i], e.name


def c31(p, rep):
    RF.sweep(p, rep, c31_visit, RF.roots(p))
    rep.need(20, "allocations and references")
