"""C19 distributed objects are completed with the matching operation before use."""
import re

import spec
from core import *
import rules_flow as RF
import rules_time as RT
from rules_guess import loop_of

CLS = r"dealii::(?:TrilinosWrappers::(?:SparseMatrix|SparsityPattern|MPI::Vector)|LinearAlgebra::distributed::Vector)"
HEAD = re.compile(r"^(?:upd_|out_)?(%s)::(\w+|operator.*)$" % CLS)
ADD = {"add", "add_entries", "distribute_local_to_global"}
SET = {"set"}
NEUTRAL = {"m", "n", "size", "local_size", "locally_owned_size", "local_range", "in_local_range",
           "locally_owned_range_indices", "locally_owned_domain_indices", "locally_owned_elements",
           "get_mpi_communicator", "domain_partitioner", "range_partitioner", "row_partitioner", "col_partitioner",
           "memory_consumption", "n_nonzero_elements", "trilinos_matrix", "trilinos_vector", "trilinos_sparsity_pattern",
           "reinit", "clear", "n_rows", "n_cols", "get_partitioner", "partitioners_are_compatible", "trilinos_partitioner",
           "IndicesAreLocal", "IndicesAreGlobal", "Comm", "RowMap", "ColMap", "DomainMap", "RangeMap", "GCID", "LCID",
           "GRID", "LRID", "NumMyRows", "NumMyCols", "NumGlobalRows", "NumGlobalCols", "Filled", "is_compressed",
           "operator="}


def head(t):
    """(class, method) of the last call that changed the object whose value t is"""
    m = HEAD.match(t.op)
    return (m.group(1), m.group(2)) if m and t.op.startswith(("upd_", "out_")) else None


def entrywise(cls, name, args):
    """the call writes single entries (and is not a sum of objects)"""
    if name == "add" and cls.endswith(("SparseMatrix",)):
        return len(args) >= 3
    if name == "add" and cls.endswith("Vector"):
        return len(args) >= 2 and not isscalar(args[0])
    return True


def isscalar(t):
    return isconst(t) or t.op in ("poly",)


class State:
    def __init__(self, g):
        self.g = g
        self.memo = {}

    def of(self, t, depth=0):
        """'add' or 'insert' writes pending in the value t, '' when there are none, '?' when that is not known,
        'maybe add' etc. when that depends on the path"""
        if t is None:
            return ""
        if t in self.memo:
            return self.memo[t]
        if depth > 60:
            return "?"
        self.memo[t] = ""           # recursion through loops contributes nothing by itself
        r = self.of1(t, depth)
        self.memo[t] = r
        return r

    def of1(self, t, depth):
        if t.op == "ite" and isinstance(t.a[1], T):
            rs = {self.of(v, depth + 1) for l, v in value_paths(t)}
            return join(rs)
        h = head(t)
        if h:
            base = first_object(t)
            if h[1] == "compress":
                return ""
            if h[1] in ("reinit", "clear"):
                return ""
            if h[1] in ADD and entrywise(h[0], h[1], t.a[1:]):
                return "add"
            if h[1] in SET:
                return "insert"
            if h[1] == "operator=":
                return ""
            return self.of(base, depth + 1)
        if t.op.startswith("upd_") and t.a and isinstance(t.a[0], T):
            return self.of(t.a[0], depth + 1)
        if t.op in ("out", "phi"):
            l = loop_of(self.g, t.a[0])
            q = l.phis.get(t.a[1]) if l is not None else None
            if q is None or q[1] is None or q[2] is None:
                return ""
            self.memo[q[0]] = self.of(q[1], depth + 1)
            rs = {self.of(q[1], depth + 1), self.of(q[2], depth + 1)}
            if t.op == "out":           # an empty loop writes nothing, which is no matter
                rs.discard("")
            del self.memo[q[0]]
            return join(rs)
        if t.op == "iter":
            body = t.a[2]
            if body.op == "lam":
                body = inst(body, raw("sym", "$b"))
            rs = {self.of(t.a[1], depth + 1), self.of(body, depth + 1)}
            rs.discard("")
            return join(rs)
        return ""


def first_object(t):
    for x in t.a:
        if isinstance(x, T):
            if not t.op.startswith("out_"):
                return x
            break
    return t.a[1] if len(t.a) > 1 and isinstance(t.a[1], T) else (t.a[0] if t.a and isinstance(t.a[0], T) else None)


def join(rs):
    rs = set(rs)
    if len(rs) <= 1:
        return rs.pop() if rs else ""
    rs.discard("")
    if len(rs) == 1:
        r = rs.pop()
        return r if r.startswith("maybe") else "maybe " + r
    if {r.replace("maybe ", "") for r in rs} == {"add"}:
        return "add"
    return "mixed"


def c19_visit(g, f):
    out = []
    S = State(g)
    g.c19_alias = {e.res: e.obj for e in g.events if e.name.endswith("::trilinos_vector") and e.obj is not None}
    for e in g.events:
        h = HEAD.match(e.name)
        w = e.where
        if h:
            cls, name = h.group(1), h.group(2)
            st = S.of(e.objv) if e.objv is not None else ""
            what = cls.replace("dealii::", "")
            if name == "compress":
                kind = show(e.argv[0]) if e.argv else ""
                nm = "compress matches the writes"
                if not kind or "Pattern" in cls:
                    out.append(("ok", nm, w, what))
                    continue
                k = mode(kind)
                pend = st.replace("maybe ", "")
                if pend in ("", "?"):
                    out.append(("ok", nm, w, "%s: no entries pending" % what))
                elif k is None:
                    out.append(("und", nm, w, kind))
                elif pend == "mixed":
                    out.append(("bad", nm, w, "entries of %s are both set and added" % what))
                else:
                    out.append(("ok" if pend == k else "bad", nm, w,
                                "%s: %s after %s" % (what, kind, "set" if pend == "insert" else "add")))
                continue
            if name in ADD and entrywise(cls, name, e.argv) or name in SET:
                k = "insert" if name in SET else "add"
                nm = "entries are either set or added"
                pend = st.replace("maybe ", "")
                if pend in ("add", "insert") and pend != k and "Pattern" not in cls:
                    out.append(("bad", nm, w, "entries are %s although others were %s and not compressed" % (
                        "set" if k == "insert" else "added", "set" if pend == "insert" else "added")))
                else:
                    out.append(("ok", nm, w, what))
                # the other operands are used
                used(out, S, g, e, e.argv)
                continue
            if name in NEUTRAL:
                if name in ("reinit", "operator="):
                    used(out, S, g, e, e.argv)
                continue
            if st and completed(g, e.objv, e.obj, e):
                st = ""
            pending(out, w, st, "%s::%s" % (what, name), known=True)
            used(out, S, g, e, e.argv)
            continue
        short = e.name.split("::")[-1]
        if short in NEUTRAL or e.kind == "throw":
            continue
        if e.objv is not None:
            st = S.of(e.objv)
            if st and not completed(g, e.objv, e.obj, e):
                pending(out, w, st, e.name, known="Epetra" in e.name)
        used(out, S, g, e, e.argv)
    epetra(out, g, S)
    ghosts(out, g)
    return out


def mode(kind):
    return "add" if kind.endswith("::add)") or kind == "2" else "insert" if kind.endswith("::insert)") or kind == "1" else None


def completed(g, v, loc, e=None):
    """the vector at loc with the value v, whose compression leaves its value as it is, was compressed since its entries
    were written, before the event e (or the end)"""
    if loc is None or not any("Vector::" in x.op for x in [v, *(y for y in v.a if isinstance(y, T))]):
        return False
    cover = FALSE
    for q in g.events:
        if e is not None and q.seq >= e.seq:
            break
        if q.obj is not loc:
            continue
        name = q.name.split("::")[-1]
        if name in SET or name in ADD:
            cover = FALSE
        elif name == "compress":
            cover = or_(cover, q.guard)
    left = and_(e.guard, not_(cover)) if e is not None else not_(cover)
    return cover is not FALSE and (left is FALSE or infeasible(left))


def pending(out, w, st, name, known):
    nm = "objects are compressed before use"
    if not st:
        if known:
            out.append(("ok", nm, w, name))
        return
    if st in ("?",):
        out.append(("und", nm, w, name))
    elif known:
        out.append(("bad", nm, w, "%s reads an object whose entries were %s and%s not compressed" % (
            name, "set" if "insert" in st else "added", " on some path" if st.startswith("maybe") else "")))
    else:
        out.append(("und", nm, w, "%s gets an object that is not compressed" % name))


READS = re.compile(r"(SparseMatrix|SparsityPattern|Vector)::(\w+|operator.*)$|EpetraExt::|Epetra_|ML_|Operator|Smoother|"
                   r"Solver|^dealii::PreconditionBase|SolverCG|std::make_shared")


def used(out, S, g, e, vals):
    for i, v in enumerate(vals):
        if v is None:
            continue
        st = S.of(v)
        if st and vals is e.argv and i < len(e.args) and completed(g, v, e.args[i], e):
            st = ""
        if st:
            pending(out, e.where, st, e.name or "construction", known=e.kind == "ctor" or bool(READS.search(e.name)))
        if e.mem is None:
            continue
        for x in subterms(v):
            loc = x.a[0] if x.op == "addr" and x.a[0].op == "new" else g.c19_alias.get(x)
            if loc is not None:
                q = g.read_at(e, loc)
                st = S.of(q)
                if st and not completed(g, q, loc, e):
                    pending(out, e.where, st, e.name, known=e.kind == "ctor" or bool(READS.search(e.name)))


def epetra(out, g, S):
    """the sum of two matrices is completed before it is read"""
    nm = "the sum of matrices is completed before use"
    for i, e in enumerate(g.events):
        if e.name != "EpetraExt::MatrixMatrix::Add" or len(e.argv) < 7:
            continue
        res = "out_" + e.name
        cover = FALSE
        n = 0
        for q in g.events[i + 1:]:
            ts = [q.obj] if q.obj is not None else []
            ts += [a for a in q.argv if a is not None]
            if not any(x.op == res for t in ts for x in subterms(t)):
                continue
            if q.name.endswith("::FillComplete"):
                cover = or_(cover, q.guard)
                continue
            if q.name.split("::")[-1] in NEUTRAL - {"reinit"}:
                continue
            n += 1
            left = and_(q.guard, not_(cover))
            if left is FALSE or infeasible(left):
                out.append(("ok", nm, q.where, q.name))
            elif cover is FALSE:
                out.append(("bad", nm, q.where, "%s reads the sum before it is completed" % q.name))
            else:
                out.append(("bad", nm, q.where, "only completed under %s" % show(cover)[:200]))
        if not n:
            out.append(("und", nm, e.where, "not used"))


def ghosts(out, g):
    """vectors with ghost entries written entry by entry need compress(add)"""
    for loc, ev in getattr(g, "ctors", {}).items():
        if not (ev.name or "").startswith("dealii::LinearAlgebra::distributed::Vector") or len(ev.argv) < 3:
            continue
        ws = [x for x in g.writes if x[0] is loc and any(y.op in ("sto", "stol") for y in [x[1]])]
        if not ws:
            continue
        nm = "ghost entries written are added to their owners"
        cs = [e for e in g.events if e.obj is loc and e.name.endswith("::compress")]
        w = "%s:%s" % (vn_short(ws[0][4]), ws[0][5])
        if not cs:
            out.append(("bad", nm, w, "the vector written is never compressed"))
            continue
        c = cs[0]
        k = show(c.argv[0]) if c.argv else ""
        if mode(k) == "add":
            out.append(("ok", nm, c.where, k))
        elif mode(k) == "insert":
            out.append(("bad", nm, c.where, "%s discards what was written to ghost entries" % k))
        else:
            out.append(("und", nm, c.where, k))


def vn_short(f):
    import vn
    return vn.short(f)


def opaque(f, called):
    """callers see f through its declaration only: nobody in the library calls it, or they call it through the
    interface it implements"""
    fs, todo = {f}, [f]
    while todo:
        for o in todo.pop().overrides:
            if o not in fs:
                fs.add(o)
                todo.append(o)
    return f.virtual or RT.key(f) not in called or any(x.base in spec.OPS for x in fs)


def c19(p, rep):
    called = {c for k, (f, outs) in RT.graph(p).items() for c in outs if c != k}

    def visit(g, f):
        out = c19_visit(g, f)
        if opaque(f, called):
            out += at_end(g, f)
        return out
    RF.sweep(p, rep, visit)
    rep.need(20, "uses and completions")


def at_end(g, f):
    """what the caller gets, or what is kept in objects that live on, is compressed"""
    out = []
    S = State(g)
    nm = "what is returned or kept is compressed"
    todo = []
    r = getattr(g, "result", None)
    if r is not None and len(r) > 1 and isinstance(r[1], T):
        todo.append(("the result of %s" % f.name, r[1] if r[0] == "v" else g.read(r[1])))
    for loc in {x[0] for x in g.writes if isinstance(x[0], T)}:
        if not local(loc):
            v = g.read(loc)
            if not completed(g, v, loc):
                todo.append((show(loc)[:60], v))
    seen = set()
    for what, v in todo:
        st = S.of(v)
        if st:
            out.append(("und" if st == "?" else "bad", nm, wfn(f), "%s: entries are %s%s and not compressed" % (
                what, "set" if "insert" in st else "added", " on some path" if st.startswith("maybe") else "")))
        for x in subterms(v):
            if x.op == "addr" and x.a[0] not in seen:
                seen.add(x.a[0])
                q = g.read(x.a[0])
                if not completed(g, q, x.a[0]):
                    todo.append(("%s -> %s" % (what[:40], show(x.a[0])[:60]), q))
    out.append(("ok", nm, wfn(f), "%d objects" % len(todo))) if todo else None
    return out


def local(loc):
    """the location belongs to a local variable or to an object made here"""
    t = loc
    while isinstance(t, T):
        if t.op == "new":
            return True
        if t.op == "var" or show(t).startswith("&") and "@" not in show(t)[:3]:
            return "#" in show(t)
        t = next((x for x in t.a if isinstance(x, T)), None)
    return False
