"""C06 column-by-column product, C07 restriction entries, C08 fast product, C09 gathering."""
import vn
import spec
from rules_ops import derived
from core import *
from vn import F, EL, THIS, ptr, addr

INVALID = 4294967295
IWS = "dealii::IndexSet::index_within_set"


def lib(p, name, cls=None, n=1):
    fs = [f for f in p.fns if f.name == name and f.body is not None and f.repo
          and (cls is None and not f.ct or cls is not None and f.cls == cls)]
    if not fs:
        raise Broken("%s%s not found" % (cls + "::" if cls else "mfmg::", name))
    return fs


def ptype(f, s, const=None, nth=0):
    """name of the nth parameter whose type mentions s"""
    q = [x for x in f.params if s in x["t"].s and (const is None or bool(x["t"].const) == const)]
    return q[nth]["n"] if len(q) > nth else None


def app_args(t, *names):
    """t is the result of the library function (last name component) -> its arguments"""
    if t.op == "app" and str(t.a[0]).split("::")[-1] in names:
        return t.a[1:]
    return None


def owned_atoms(c, i):
    """atoms of c that say whether index i is owned: atom -> value when owned"""
    out = {}
    for a in subterms(c):
        if a.op == "eq0":
            for t in subterms(a):
                r = app_args(t, "index_within_set")
                if r and r[-1] is i and a.a[0] in (sub(t, num(INVALID)), sub(num(INVALID), t)):
                    out[a] = (False, r[0])
        r = app_args(a, "is_element", "in_local_range")
        if r and r[-1] is i:
            out[a] = (True, r[0])
    return out


def affine(t, loops):
    """(loop, offset) when t = counter + loop-invariant offset"""
    for l in loops:
        if has(t, l.k):
            o = sub(t, l.k)
            if not has(o, l.k):
                return l, o
    return None, None


def full_range(t, loops):
    """[lo, hi) of the values t takes over its loop, or None"""
    l, o = affine(t, loops)
    if l is None or l.N is None or l.N.op == "trip" or l.breaks:
        return None
    return o, add(o, l.N)


def negligible(rep, guard, v, name, where):
    """guard (after ownership is settled) may only exclude negligible |v|"""
    if guard is TRUE:
        return rep.ok(name, where, "unconditional")
    lits = literals(guard)
    rest = restrict(guard, lits) if lits else guard
    if rest is not TRUE:
        return rep.und(name, where, "set under " + show(guard)[:400])
    for a, val in lits.items():
        if a.op == "lt0":
            for t, lim in ((absv(v), 1e-13), (mul(v, v), 1e-26)):
                c1, c2 = add(a.a[0], t), sub(t, a.a[0])
                # val true: a = c1 - t < 0  (t > c1);  val false: not (t - c < 0)  (t >= c)
                if val and isconst(c1) and cval(c1) <= lim or not val and isconst(c2) and cval(c2) <= lim:
                    break
            else:
                if has(a, v) or any(has(a, x) for x in float_parts(v)) and not opaque_heads(a) - opaque_heads(v):
                    return rep.bad(name, where, "entries are kept only if %s%s, which drops entries that are not "
                                   "negligible" % ("" if val else "not ", show(a)[:300]))
                return rep.und(name, where, "kept only if %s%s" % ("" if val else "not ", show(a)[:300]))
        elif a.op == "eq0" and not val and a.a[0] in (v, neg(v), absv(v)):
            pass
        else:
            return rep.und(name, where, "kept only if %s%s" % ("" if val else "not ", show(a)[:300]))
    return rep.ok(name, where, show(guard)[:200])


def float_parts(v):
    """non-integer quantities v is computed from"""
    return {x for x in subterms(v) if x.op == "sel" and not isint(x) and x.a[0].op in ("sel", "sym", "lin")}


# -- C06 ---------------------------------------------------------------------

def c_row(g, f, oloc, oid, locs, vals, ev):
    m = next((v for v, t in zip(vals, f.ptypes) if "Matrix" in t.s), None)
    j = next((v for v, t in zip(vals, f.ptypes) if t.isint()), None)
    if m is None or j is None:
        return None
    r = raw("row", m, j)
    VEC.add(r.id)
    return ("v", r)


def c06(p, rep):
    rowfns = lib(p, "extract_row")
    for f in lib(p, "matrix_transpose_matrix_multiply"):
        g = vn.Engine(p, contracts=dict(spec.OPS, **{"mfmg::extract_row": c_row}))
        r = g.enter(f)
        rep.fns(g)
        tag = "matrix_transpose_matrix_multiply"
        res = r[1] if r[0] == "v" else g.read(r[1])
        Bn = ptype(f, "Matrix", True)
        An = next((q["n"] for q in f.params if "Operator" in q["t"].s), None)
        if Bn is None or An is None:
            rep.und(tag, wfn(f), "cannot tell operator and matrix parameters apart")
            continue
        B = raw("sym", Bn)
        obj = res.a[0] if res.op == "addr" else None
        sets = [e for e in g.events if e.name.split("::")[-1] in ("set", "add") and "SparseMatrix" in e.name
                and (obj is None or e.obj is obj)]
        if not sets:
            rep.bad(tag + ": entries are set", wfn(f), "no entry of the returned matrix is ever set")
            continue
        made = [e for e in g.events if e.kind in ("new", "ctor") and e.obj is obj] or \
               [e for e in g.events if e.kind == "new" and "SparseMatrix" in e.name]
        sets_par = [q["n"] for q in f.params if "IndexSet" in q["t"].s]
        if len(made) == 1 and len(made[0].argv) >= 3 and len(sets_par) == 2:
            want = [raw("sym", q["n"]) for q in f.params if "IndexSet" in q["t"].s or "ommunicator" in q["t"].s]
            for k, (a, w) in enumerate(zip(made[0].argv, want)):
                compare(rep, tag + ": result is laid out by the given sets (%d)" % k, a, w, made[0].where, eng=g)
        else:
            rep.und(tag + ": layout of the result", wfn(f), str(made)[:200])
        for e in sets:
            if len(e.argv) < 3:
                rep.und(tag + ": entries", e.where, "unknown form of set")
                continue
            i, j, v = e.argv[:3]
            jr = full_range(j, e.loops)
            n = raw("app", "dealii::TrilinosWrappers::SparseMatrix::m", B)
            nm = tag + ": every row of B gives a column"
            if jr is None:
                rep.und(nm, e.where, "column " + show(j)[:200])
            else:
                rows = [t for t in subterms(jr[1]) if t.op == "app"]
                if jr[0] is ZERO and jr[1] is n:
                    rep.ok(nm, e.where, show(n))
                elif all(t.a[1] is B for t in rows) and all(str(t.a[0]).split("::")[-1] in
                         ("m", "n", "local_size", "n_nonzero_elements") for t in rows):
                    rep.bad(nm, e.where, "columns %s .. %s are computed instead of 0 .. %s" % (
                        show(jr[0]), show(jr[1]), show(n)))
                else:
                    rep.und(nm, e.where, "columns %s .. %s" % (show(jr[0]), show(jr[1])))
            # value: component i of A row_j(B)
            row = raw("row", B, j)
            names = [t for t in subterms(v) if t.op == "lin"]
            nm = tag + ": entry (i, j) is component i of A (row j of B)"
            A = [raw("addr", raw("var", "@" + An))] + [t.a[0] for t in names]
            if v.op == "sel" and v.a[0].op == "lin" and v.a[0].a[1] is row:
                lf = v.a[0].a[0]
                rep.check(v.a[1] is i, nm, e.where, "component %s is set in row %s" % (show(v.a[1]), show(i)))
                rep.check(lf.op != "tr", tag + ": A is applied, not its transpose", e.where,
                          "the transpose of A is applied")
            elif not names and has(v, row) and not opaque_heads(v) - opaque_heads(row):
                rep.bad(nm, e.where, "A is not applied: the value set is " + show(v)[:400])
            elif not names and not has(v, row):
                rep.und(nm, e.where, "value " + show(v)[:400])
            elif v.op == "sel" and v.a[0].op == "lin" and v.a[0].a[1].op == "row":
                rep.bad(nm, e.where, "column %s holds A applied to row %s" % (show(j), show(v.a[0].a[1].a[1])))
            else:
                h = opaque_heads(v) - opaque_heads(row)
                inner = [t for t in subterms(v) if t.op == "sel" and t.a[0].op == "lin"]
                if inner and v.op == "poly" and not h:
                    rep.bad(nm, e.where, "value set is " + show(v)[:400])
                else:
                    rep.und(nm, e.where, "value " + show(v)[:400])
            # guard
            own = owned_atoms(e.guard, i)
            g1 = restrict(e.guard, {a: val for a, (val, s) in own.items()})
            negligible(rep, g1, v, tag + ": only negligible owned entries are left out", e.where)
            nm = tag + ": every owned row index is visited"
            ir = full_range(i, e.loops)
            if own:
                if ir is None:
                    rep.und(nm, e.where, "row " + show(i)[:200])
                else:
                    s = next(iter(own.values()))[1]
                    base = s
                    a = app_args(s, "locally_owned_elements")
                    if a:
                        base = a[0]
                    oks = [length(base), length(s)] + [raw("app", q, base) for q in (
                        "dealii::LinearAlgebra::distributed::Vector::size",)]
                    gv = [t for t in subterms(v) if t.op == "garbage"]
                    up = ir[1]
                    if ir[0] is ZERO and (up in oks or up.op == "len" or size_of_range(up, An)):
                        rep.ok(nm, e.where, show(up)[:200])
                    elif isconst(ir[0]) and cval(ir[0]) > 0 or any(
                            isconst(sub(up, o)) and cval(sub(up, o)) < 0 for o in oks + lens(up)):
                        rep.bad(nm, e.where, "rows %s .. %s" % (show(ir[0]), show(up)))
                    else:
                        rep.und(nm, e.where, "rows %s .. %s" % (show(ir[0]), show(up)))
            else:
                hs = opaque_heads(i)
                if ir is not None and any("local_size" in h or "n_elements" in h for h in opaque_heads(ir[1])) \
                        and not hs:
                    rep.bad(nm, e.where, "rows %s .. %s are numbered from this process's first row" % (
                        show(ir[0]), show(ir[1])))
                elif any("nth_index_in_set" in h for h in hs) or i.op == "sel" or any(
                        h.startswith("app") and "IndexSet" in h for h in hs) or "garbage" in show(i):
                    l = [x for x in e.loops if has(i, x.k)]
                    ok = l and l[-1].N is not None and not l[-1].breaks and l[-1].N.op != "trip"
                    (rep.ok if ok else rep.und)(nm, e.where, "rows " + show(i)[:200])
                else:
                    rep.und(nm, e.where, "rows " + show(i)[:200])
    for f in rowfns:
        row_rule(p, rep, f)
    rep.need(8, "product")


def lens(t):
    return [x for x in subterms(t) if x.op == "len"]


def size_of_range(t, An):
    return t.op == "app" and str(t.a[0]).split("::")[-1] in ("size", "m") and "vector" in show(t)


EPETRA_ALT = ("app Epetra_CrsMatrix::" + x for x in ("GRID", "LCID", "LRID", "GCID", "NumMyRows", "NumMyEntries"))


def row_rule(p, rep, f):
    g = vn.Engine(p, contracts=spec.OPS)
    r = g.enter(f)
    rep.fns(g)
    tag = "extract_row"
    v = r[1] if r[0] == "v" else g.read(r[1])
    mn = ptype(f, "Matrix")
    jn = next((q["n"] for q in f.params if q["t"].isint()), None)
    M, J = raw("sym", mn), raw("sym", jn)
    own = owned_atoms(v, J)
    if not own:
        cs = [t for t in subterms(v) if t.op == "eq0" and has(t, J)]
        if cs:
            rep.bad(tag + ": ownership of the row is decided by its index", wfn(f),
                    "rows are taken as owned under " + show(cs[0])[:300])
        else:
            rep.und(tag, wfn(f), "ownership test not recognised in " + show(v)[:300])
        return
    for a, (val, s) in own.items():
        compare(rep, tag + ": ownership is decided by the rows of the matrix", s,
                raw("app", "dealii::TrilinosWrappers::SparseMatrix::locally_owned_range_indices", M), wfn(f),
                also={"app dealii::TrilinosWrappers::SparseMatrix::locally_owned_domain_indices"}, eng=g)
    here = assume(v, {a: val for a, (val, s) in own.items()})
    other = assume(v, {a: not val for a, (val, s) in own.items()})
    nm = tag + ": other processes contribute zero"
    if other.op == "arr" and other.a[1] is ZERO:
        rep.ok(nm, wfn(f))
    elif other.op == "arr":
        rep.bad(nm, wfn(f), "the row of another process starts as " + show(other)[:300])
    else:
        rep.und(nm, wfn(f), show(other)[:300])
    ext = [e for e in g.events if e.name.endswith("::ExtractMyRowView") or e.name.endswith("::ExtractMyRowCopy")]
    nm = tag + ": the stored entries of the row, at their global columns"
    if len(ext) != 1 or here.op != "iter":
        # a loop that was left out, or another way of reading the row
        (rep.bad if here.op == "arr" and len(ext) == 1 else rep.und)(nm, wfn(f), show(here)[:400])
        return
    e = ext[0]
    row = next((t for t in subterms(e.argv[0]) if app_args(t, "index_within_set")), None)
    compare(rep, tag + ": the local row of the given index is read", e.argv[0],
            raw("app", IWS, raw("app", "dealii::TrilinosWrappers::SparseMatrix::locally_owned_range_indices", M), J),
            e.where, also={"app dealii::TrilinosWrappers::SparseMatrix::locally_owned_domain_indices"}, eng=g)
    outs = [raw("out_" + e.name, num(i), e.objv, *e.argv) for i in range(4)]
    N, init, l = here.a[0], here.a[1], here.a[2]
    k = raw("k", 9999)
    old = raw("sym", "@old")
    compare(rep, tag + ": all stored entries are copied", N, outs[1], e.where, eng=g)
    rep.check(init.op == "arr" and init.a[1] is ZERO, tag + ": the row starts as zero", wfn(f), show(init)[:200])
    col = raw("app", "Epetra_CrsMatrix::GCID", M, sel(raw("at", outs[3]), k))
    val = sel(raw("at", outs[2]), k)
    body = inst(l, k)
    olds = [t for t in subterms(body) if t.op == "bvp"]
    if len(set(olds)) != 1 or body.op != "sto":
        rep.und(nm, e.where, show(body)[:400])
        return
    I, V = body.a[1], body.a[2]
    V = sub(V, sel(olds[0], I)) if has(V, olds[0]) else V
    compare(rep, nm + " (column)", I, col, e.where, also=EPETRA_ALT, eng=g)
    compare(rep, nm + " (value)", V, val, e.where, also=EPETRA_ALT, eng=g)
    # ghosts: the vector written to knows every column of the row, and sums them up at the owners
    comp = [x for x in g.events if x.name.endswith("::compress") and "Vector" in x.name]
    nm = tag + ": off-process entries reach their owner"
    if not comp:
        ctor = [x for x in g.events if x.kind == "ctor" and "Vector" in x.name and len(x.argv) == 3]
        (rep.bad if ctor else rep.und)(nm, wfn(f), "the vector with ghost entries is never compressed")
    for x in comp:
        rep.check(x.argv and x.argv[0] is raw("enum", "dealii::VectorOperation::add"), nm, x.where,
                  "compressed with %s, which drops the entries of ghosts" % [show(a) for a in x.argv])


# -- C07 ---------------------------------------------------------------------

def cover(rep, name, t, loops, his, where, eng=None):
    """t runs over 0 .. hi (any of the equivalent bounds)"""
    r = full_range(t, loops)
    if r is None:
        return rep.und(name, where, "index " + show(t)[:200])
    lo, hi = r
    if lo is ZERO and hi in his:
        return rep.ok(name, where, "0 .. " + show(hi)[:200])
    d = "indices %s .. %s instead of 0 .. %s" % (show(lo)[:200], show(hi)[:300], show(his[0])[:300])
    if any(isconst(sub(hi, h)) for h in his) or isconst(hi) or not (opaque_heads(hi) | opaque_heads(lo)) - set(
            x for h in his for x in opaque_heads(h)):
        return rep.bad(name, where, d)
    return rep.und(name, where, d)


def positions(rep, tag, pos, a, loops, nloc, where, nsel):
    """pos counts the pairs (agglomerate a, k < nloc[a]) in order"""
    nm = tag + ": eigenvectors are visited one after the other"
    n = sel(nloc, a)
    alts = [n] + nsel
    for l in loops:
        if has(pos, l.k) and not has(a, l.k):
            o = sub(pos, l.k)
            if has(o, l.k):
                continue
            if l.N is None or l.N.op == "trip" or l.breaks:
                return rep.und(nm, where, "inner loop")
            if l.N not in alts:
                d = "%s eigenvectors of agglomerate %s are used instead of %s" % (show(l.N)[:200], show(a), show(n))
                (rep.bad if not opaque_heads(l.N) - opaque_heads(n) else rep.und)(nm, where, d)
                return
            for m in loops:
                for key, v in m.phis.items():
                    if v[0] is o:
                        compare(rep, tag + ": the first eigenvector has position 0", v[1], ZERO, where)
                        if v[2] is None:
                            return rep.und(nm, where, "advance of the position unknown")
                        adv = sub(v[2], o)
                        if adv in alts:
                            return rep.ok(nm, where, "advances by " + show(n))
                        return compare(rep, nm, adv, n, where)
            if o.op == "sum" and o.a[0] is a:
                kk = raw("k", 9998)
                return compare(rep, nm, inst(o.a[1], kk), sel(nloc, kk), where)
            if not has(o, a) or not opaque_heads(o):
                return rep.bad(nm, where, "position %s does not count the eigenvectors of earlier agglomerates"
                               % show(pos))
            return rep.und(nm, where, "position " + show(pos)[:300])
    if all(x.op in ("k", "poly") for x in subterms(pos)):
        return rep.bad(nm, where, "position %s does not count the eigenvectors of each agglomerate" % show(pos)[:200])
    return rep.und(nm, where, "position " + show(pos)[:300])


def c07(p, rep):
    for f in lib(p, "compute_restriction_sparse_matrix", "mfmg::AMGe"):
        c07_fn(p, rep, f)
    rep.need(12, "restriction assembly")


def shape(t):
    """(nesting of std::vector, element type)"""
    n = 0
    t = t[6:] if t.startswith("const ") else t
    while t.startswith("std::vector<"):
        n += 1
        t = t[len("std::vector<"):]
    return n, t.split(", std::allocator")[0]


def c07_fn(p, rep, f):
    g = vn.Engine(p, contracts=spec.OPS)
    g.enter(f)
    rep.fns(g)
    names = [q["n"] for q in f.params]
    ty = {q["n"]: q["t"].s for q in f.params}
    sh = {n: shape(ty[n]) for n in names}
    ev = next((n for n in names if sh[n][0] == 1 and "Vector<" in sh[n][1]), None)
    nl = next((n for n in names if sh[n][0] == 1 and "Vector" not in sh[n][1]), None)
    dg = next((n for n in names if sh[n][0] == 2 and sh[n][1] in ("double", "float")), None)
    mp = next((n for n in names if sh[n][0] == 2 and "unsigned" in sh[n][1]), None)
    gd = next((n for n in names if "distributed::Vector" in ty[n]), None)
    mats = [n for n in names if "SparseMatrix" in ty[n]]
    tag = "restriction" + (" (with E and D)" if len(mats) > 1 else "")
    if None in (ev, nl, dg, mp, gd) or len(mats) not in (1, 3):
        return rep.und(tag, wfn(f), "parameters not recognised: %s" % ty)
    EV, NL, DG, MP, GD = [raw("sym", n) for n in (ev, nl, dg, mp, gd)]
    roles = {}
    for n, role in zip(mats, "RED"):
        v = g.read(g.syms[n])
        if v.op == "addr":
            roles[v.a[0]] = role
        elif "ptr" in ty[n]:
            roles[ptr(raw("sym", n))] = role
        else:
            roles[g.syms[n]] = role
    per = {r: [] for r in "RED"[:len(mats)]}
    for e in g.events:
        if e.name in ("dealii::TrilinosWrappers::SparseMatrix::add", "dealii::TrilinosWrappers::SparseMatrix::set"):
            r = roles.get(e.obj)
            if r is None or len(e.argv) < 3:
                rep.und(tag + ": entries", e.where, "matrix written to not recognised")
                return
            per[r].append(e)
    rows = {}
    for r, es in per.items():
        if len(es) != 1:
            if not es:
                rep.bad("%s: %s is filled" % (tag, r), wfn(f), "no entry of %s is ever written" % r)
            else:
                rep.und("%s: %s is filled" % (tag, r), es[0].where, "%d statements write it" % len(es))
            continue
        e = es[0]
        i, j, v = e.argv[:3]
        t = "%s: %s" % (tag, r)
        evs = {x for x in subterms(v) if x.op == "sel" and x.a[0].op == "sel" and x.a[0].a[0] is EV}
        if j.op == "sel" and j.a[0].op == "sel" and j.a[0].a[0] is MP:
            a, el = j.a[0].a[1], j.a[1]
        else:
            cm = t + ": columns come from the index map of the agglomerate"
            if has(j, MP) or opaque_heads(j) - {"phi"}:
                rep.und(cm, e.where, "column " + show(j)[:300])
            else:
                rep.bad(cm, e.where, "column " + show(j)[:300])
            continue
        if len(evs) != 1:
            (rep.bad if not opaque_heads(v) else rep.und)(t + ": value", e.where, "value " + show(v)[:400])
            continue
        x = evs.pop()
        pos = x.a[0].a[1]
        w = mul(x, sel(sel(DG, a), el), power(sel(GD, j), -1)) if False else mul(
            mul(x, sel(sel(DG, a), el)), power(sel(GD, j), -1))
        want = {"R": w, "E": x, "D": sub(w, x)}[r]
        compare(rep, t + ": entry is " + {"R": "eigenvector times diagonal ratio", "E": "the eigenvector",
                                          "D": "R - E"}[r], v, want, e.where, also={"phi"}, eng=g)
        compare(rep, t + ": value and column belong to the same unknown", x.a[1], el, e.where, also={"phi"}, eng=g)
        base = sub(i, pos)
        nm = t + ": row is the position of the eigenvector after the rows of lower ranks"
        rows[r] = i
        if base.op == "fld" and base.a[1] == "first" and app_args(base.a[0], "local_range"):
            rep.ok(nm, e.where, show(i)[:200])
        elif any("allgather" in h.lower() or "scan" in h.lower() or "partial" in h for h in opaque_heads(base)):
            (rep.ok if base.op == "sum" else rep.und)(nm, e.where, show(base)[:300])
        else:
            lr = [z for z in subterms(base) if app_args(z, "local_range")]
            hs = opaque_heads(base) - {"phi"} - {h for h in opaque_heads(base) if "local_range" in h or lr and (
                "SparsityPattern" in h or h == "out")}
            (rep.und if hs else rep.bad)(nm, e.where, "row %s for eigenvector %s" % (show(i)[:300], show(pos)[:200]))
        nmax = [length(NL), length(MP), length(DG)]
        cover(rep, t + ": every agglomerate contributes", a, e.loops, nmax, e.where)
        cover(rep, t + ": every unknown of the agglomerate contributes", el, e.loops,
              [length(sel(EV, pos)), length(sel(MP, a)), length(sel(DG, a))], e.where)
        positions(rep, t, pos, a, e.loops, NL, e.where, [])
        negligible(rep, e.guard, v, t + ": no entry is left out", e.where)
    if len(set(rows.values())) > 1:
        rep.bad(tag + ": R, E and D use the same rows", wfn(f), str([show(x)[:100] for x in rows.values()]))
    elif rows:
        rep.ok(tag + ": R, E and D use the same rows", wfn(f))
    # sparsity pattern
    tag = "sparsity"
    add_ = [e for e in g.events if "SparsityPattern" in e.name and e.name.split("::")[-1] in ("add_entries", "add")]
    mk_ = [e for e in g.events if e.kind == "ctor" and e.name.endswith("SparsityPattern") and len(e.argv) >= 2]
    ag = [e for e in g.events if e.name == "MPI_Allgather"]
    before = None
    if len(mk_) == 1:
        e = mk_[0]
        compare(rep, tag + ": columns are laid out like the unknowns", strip_at(e.argv[1]),
                raw("app", "dealii::DoFHandler::locally_owned_dofs", raw("at", raw("fld", raw("sym", "this"),
                                                                                 dofh(p, f)))), e.where, eng=g)
        if len(ag) == 1 and len(ag[0].argv) >= 7:
            o = raw("out_MPI_Allgather", num(3), *ag[0].argv)
            me = raw("app", "dealii::Utilities::MPI::this_mpi_process", ag[0].argv[-1])
            k = raw("k", 9997)
            before = summ(me, lam(sel(o, k), k))
            total = summ(raw("app", "dealii::Utilities::MPI::n_mpi_processes", ag[0].argv[-1]), lam(sel(o, k), k))
            rng = [x for x in g.events if x.name.endswith("IndexSet::add_range")]
            if len(rng) == 1:
                lo, hi = rng[0].argv[:2]
                same = set(opaque_heads(o)) | {"app dealii::Utilities::MPI::this_mpi_process",
                                               "app dealii::Utilities::MPI::n_mpi_processes"}
                compare(rep, tag + ": rows start after the rows of lower ranks", lo, before, rng[0].where, same, g)
                compare(rep, tag + ": one row for each eigenvector", hi, add(before, length(EV)), rng[0].where, same, g)
                s0 = rng[0].objv
                if s0.op == "made":
                    compare(rep, tag + ": number of rows", s0.a[1], total, rng[0].where, same, g)
            b = ag[0].argv[3]
            if b.op == "addr" and b.a[0].op == "el":
                mine = sel(g.read_at(ag[0], b.a[0].a[0]), me)
                compare(rep, tag + ": each process announces its number of eigenvectors", mine, length(EV),
                        ag[0].where, {"app dealii::Utilities::MPI::this_mpi_process"}, g)
        else:
            rep.und(tag + ": distribution of rows", e.where, "not by MPI_Allgather")
    else:
        rep.und(tag, wfn(f), "%d patterns built" % len(mk_))
    for e in add_:
        i = e.argv[0]
        base = before
        mark_ = e.name.endswith("add_entries")
        if mark_:
            b, en = e.argv[1:3]
            a = None
            if b.op == "itr" and b.a[0].op == "el":
                a = b.a[0].a[1]
            if a is None or not has(b, MPloc(g, mp)):
                rep.und(tag + ": columns", e.where, "from %s" % show(b)[:200])
                continue
            full = b.a[1] is ZERO and en.op == "itr" and en.a[0] is b.a[0] and en.a[1] is length(sel(MP, a))
            nm = tag + ": every unknown of the agglomerate is in the pattern"
            if full:
                rep.ok(nm, e.where)
            elif en.op == "itr":
                rep.bad(nm, e.where, "columns %s .. %s" % (show(b), show(en)))
            else:
                rep.und(nm, e.where, "columns %s .. %s" % (show(b), show(en)))
        else:
            j = e.argv[1]
            if not (j.op == "sel" and j.a[0].op == "sel" and j.a[0].a[0] is MP):
                rep.und(tag + ": columns", e.where, show(j)[:200])
                continue
            a = j.a[0].a[1]
            cover(rep, tag + ": every unknown of the agglomerate is in the pattern", j.a[1], e.loops,
                  [length(sel(MP, a)), length(sel(DG, a))], e.where)
        if base is None or not has(i, base) and not isconst(base):
            rep.und(tag + ": row", e.where, show(i)[:300])
            continue
        pos = sub(i, base)
        positions(rep, tag, pos, a, e.loops, NL, e.where, [])
        cover(rep, tag + ": every agglomerate contributes", a, e.loops, [length(NL), length(MP), length(DG)], e.where)
        rep.check(e.guard is TRUE, tag + ": no entry is left out", e.where, "only under " + show(e.guard)[:300])
    if not add_:
        rep.und(tag, wfn(f), "no entries added to a pattern")


def MPloc(g, n):
    return g.syms[n]


def strip_at(v):
    while v.op in ("at",) and v.a[0].op == "addrof":
        v = v.a[0].a[0]
    return v


def dofh(p, f):
    c = p.classes.get(f.ct.s)
    for fd in c.fields:
        if "DoFHandler" in fd["t"].s:
            return fd["n"]
    return "?"


# -- C08 ---------------------------------------------------------------------

def c_setup_fast(g, f, oloc, oid, locs, vals, ev):
    """R, E, D and eigenvalues by their meaning (C07, C09)"""
    mats = 0
    fast = any("unique_ptr<dealii::TrilinosWrappers::SparseMatrix" in t.s for t in f.ptypes)
    for t, l, v in zip(f.ptypes, locs, vals):
        if "SparseMatrix" in t.s:
            n = "RED"[mats]
            mats += 1
            if "unique_ptr" in t.s:
                pp = raw("made", "matrix", n)
                g.write(l, pp)
                g.write(ptr(pp), raw("sym", "@" + n), True)
            elif "shared_ptr" in t.s:
                g.write(g.deref(v, False), raw("sym", "@R"))
            else:
                g.write(l, raw("sym", "@R"))
        elif fast and shape(t.s)[0] == 1 and "double" in shape(t.s)[1]:
            g.write(l, raw("sym", "@lambda"))
    return ("v", raw("void"))


def c_boundary(g, f, oloc, oid, locs, vals, ev):
    return ("v", raw("tup", raw("sym", "@boundary"), raw("sym", "@halo")))


def c_patch(g, f, oloc, oid, locs, vals, ev):
    for t, l in zip(f.ptypes, locs):
        if "map<" in t.s and l is not None:
            g.write(l, raw("pmap", vals[0]))
        elif "Triangulation" in t.s and l is not None and not t.const:
            g.write(l, raw("patch", vals[0]))
    return ("v", raw("void"))


def c_dofmap(g, f, oloc, oid, locs, vals, ev):
    m = next(v for v, t in zip(vals, f.ptypes) if "map<" in t.s)
    return ("v", raw("dofs", m))


def c_evalagg(g, f, oloc, oid, locs, vals, ev):
    for t, l, v in zip(f.ptypes, locs, vals):
        if "SparseMatrix" in t.s:
            pt = [x for x in subterms(vals[0]) if x.op == "patch"]
            g.write(l, raw("Aloc", pt[0] if pt else vals[0]))
        elif "DoFHandler" in t.s and l is not None:
            g.write(l, raw("dofh", v))
    return ("v", raw("void"))


def c_mfinit(g, f, oloc, oid, locs, vals, ev):
    pt = [x for x in subterms(vals[0]) if x.op == "patch"]
    g.write(oloc, raw("mfagg", pt[0] if pt else vals[0]))
    return ("v", raw("void"))


def c_mfeval(g, f, oloc, oid, locs, vals, ev):
    st = g.read(oloc)
    pt = st.a[0] if st.op == "mfagg" else st
    y = lin(raw("Aloc", pt), vals[0])
    g.write(locs[1], y)
    return ("v", raw("void"))


def c_clone(g, f, oloc, oid, locs, vals, ev):
    pp = spec.fresh_ptr(g, "clone")
    g.write(ptr(pp), g.read(oloc), True)
    return ("v", pp)


FAST = dict(spec.OPS, **{
    "mfmg::AMGe_host::setup_restrictor": c_setup_fast,
    "mfmg::AMGe::build_boundary_agglomerates": c_boundary,
    "mfmg::AMGe::build_agglomerate_triangulation": c_patch,
    "mfmg::AMGe::compute_dof_index_map": c_dofmap,
    "mfmg::DealIIMeshEvaluator::evaluate_agglomerate": c_evalagg,
    "mfmg::DealIIMatrixFreeMeshEvaluator::matrix_free_initialize_agglomerate": c_mfinit,
    "mfmg::DealIIMatrixFreeMeshEvaluator::matrix_free_evaluate_agglomerate": c_mfeval,
    "mfmg::DealIIMatrixFreeMeshEvaluator::clone": c_clone,
})


def fast_run(p, f):
    g = vn.Engine(p, contracts=FAST)
    g.ptvals = {"fast_ap": TRUE}
    g.enter(f)
    return g


RNG = "dealii::TrilinosWrappers::SparseMatrix::locally_owned_range_indices"
SME = "dealii::TrilinosWrappers::SparseMatrix::el"
NTH = "dealii::IndexSet::nth_index_in_set"
E_, D_, R_, LAM = raw("sym", "@E"), raw("sym", "@D"), raw("sym", "@R"), raw("sym", "@lambda")
BND, HAL = raw("sym", "@boundary"), raw("sym", "@halo")


def same_rows(t):
    """R, E and D have the same rows and columns"""
    m = {}
    for x in subterms(t):
        if x.op == "app" and len(x.a) == 2 and x.a[1] in (D_, R_) and str(x.a[0]).split("::")[-1] in (
                "locally_owned_range_indices", "locally_owned_domain_indices", "get_mpi_communicator", "local_range",
                "m", "n", "local_size", "range_partitioner", "domain_partitioner"):
            m[x] = raw("app", x.a[0], E_)
    return subst(t, m) if m else t


def row_of(t):
    """t is the global number of the p-th own row -> p"""
    r = app_args(t, "nth_index_in_set")
    if r and r[0] is raw("app", RNG, E_):
        return r[1]
    for x in subterms(t):
        if x.op == "fld" and str(x.a[1]) == "first" and app_args(x.a[0], "local_range") and x.a[0].a[1] is E_:
            o = sub(t, x)
            if not has(o, x):
                return o
    return None


def own_rows(t):
    """is t the number of own rows"""
    r = raw("app", RNG, E_)
    return t in (raw("app", "dealii::IndexSet::n_elements", r), length(LAM),
                 raw("app", "dealii::TrilinosWrappers::SparseMatrix::local_size", E_))


def entry(v, L, k):
    """element k of a vector value of L elements"""
    while True:
        if v.op == "stol":
            if v.a[2].op == "lam":
                return inst(v.a[2], k)
            return None
        break
    return sel(v, k)


def chain(v, *names):
    """peel updates of a library object: (innermost value, [update terms])"""
    out = []
    while v.op.startswith("upd_"):
        out.append(v)
        v = v.a[0]
    return v, out


def c08(p, rep):
    ts = derived(p, "mfmg::HierarchyHelpers")
    fs = [f for f in p.fns if f.name == "build_restrictor" and f.body is not None and f.ct is not None and f.ct.s in ts]
    if not fs:
        raise Broken("build_restrictor not found")
    for f in fs:
        c08_fn(p, rep, f)
    rep.need(10, "fast product")


def c08_fn(p, rep, f):
    tag = f.cls.split("::")[-1]
    g = fast_run(p, f)
    rep.fns(g)
    SM = "dealii::TrilinosWrappers::SparseMatrix"
    adds = [e for e in g.events if e.name == "EpetraExt::MatrixMatrix::Add"]
    if len(adds) != 1 or len(adds[0].argv) < 6:
        if not adds and not any(e.name.startswith("EpetraExt") or e.name.endswith(("::mmult", "::Tmmult")) or
                                "::add" in e.name for e in g.events):
            rep.bad(tag + ": sum", wfn(f), "the scaled eigenvectors and the correction are never added")
        else:
            rep.und(tag + ": sum", wfn(f), "not formed by one EpetraExt::MatrixMatrix::Add")
        return
    A = adds[0]
    ops = [A.argv[0:3], A.argv[3:6]]
    # which operand is E
    eop = [o for o in ops if chain(o[0])[0] is E_]
    cop = [o for o in ops if chain(o[0])[0] is not E_]
    if len(eop) != 1 or len(cop) != 1:
        rep.und(tag + ": operands of the sum", A.where, show(ops[0][0])[:200])
        return
    eop, cop = eop[0], cop[0]
    for nm, o in (("eigenvectors", eop), ("correction", cop)):
        compare(rep, tag + ": the %s enter transposed" % nm, num(1) if o[1] is TRUE else o[1], num(1), A.where, eng=g)
        compare(rep, tag + ": the %s enter with weight one" % nm, o[2], num(1), A.where, eng=g)
    # Lambda E
    base, ups = chain(eop[0])
    sc = [u for u in ups if u.op.endswith("::LeftScale")]
    nm = tag + ": E is scaled by its own eigenvalues"
    if not sc:
        if [u for u in ups if "compress" not in u.op]:
            rep.und(nm, A.where, str([u.op for u in ups]))
        else:
            rep.bad(nm, A.where, "the eigenvectors are added without being scaled by their eigenvalues")
    elif len(sc) > 1:
        rep.bad(nm, A.where, "the eigenvectors are scaled %d times" % len(sc))
    else:
        vs = [t for t in subterms(sc[0].a[1]) if t.op.startswith("upd_dealii::TrilinosWrappers::MPI::Vector::set")]
        le = next(e for e in g.events if e.name.endswith("::LeftScale"))
        if len(vs) != 1:
            rep.und(nm, le.where, show(sc[0].a[1])[:300])
        else:
            idx, val = vs[0].a[1], vs[0].a[2]
            k = raw("k", 9997)
            compare(rep, nm, sel(same_rows(val), k), sel(LAM, k), le.where, eng=g)
            ie = sel(same_rows(idx), k)
            pos = row_of(ie)
            n2 = tag + ": eigenvalue i scales own row i"
            if pos is None:
                rep.und(n2, le.where, show(ie)[:200])
            else:
                compare(rep, n2, pos, k, le.where, eng=g)
            ln = length(idx)
            rep.check(own_rows(same_rows(ln)) or has(ln, LAM), tag + ": every own row is scaled", le.where, show(ln)[:200]) \
                if own_rows(same_rows(ln)) or not opaque_heads(ln) else rep.und(
                    tag + ": every own row is scaled", le.where, show(ln)[:200])
    # the correction
    sets = [e for e in g.events if e.name in (SM + "::set", SM + "::add") and len(e.argv) >= 4 and e.seq < A.seq]
    if not sets:
        return rep.und(tag + ": entries of the correction", A.where, "no block of entries is set")
    seen = {"boundary": [], "halo": []}
    for e in sets:
        c08_set(rep, tag, g, e, seen)
    for which in seen:
        nm = tag + ": the %s of every agglomerate contributes once" % which
        n = len(seen[which])
        if n == 1:
            rep.ok(nm, seen[which][0].where)
        elif n == 0:
            if len(sets) == sum(len(x) for x in seen.values()):
                rep.bad(nm, wfn(f), "no correction from the %s patches is added" % which)
            else:
                rep.und(nm, wfn(f), "not recognised")
        else:
            rep.bad(nm, seen[which][-1].where, "added %d times" % n)
    # completion and hand-over
    fc = [e for e in g.events if e.name.endswith("::FillComplete") and e.seq > A.seq]
    nm = tag + ": the sum is completed with the maps of the transpose"
    if not fc:
        rep.bad(nm, A.where, "the sum is never completed")
    for e in fc:
        if len(e.argv) < 2:
            rep.bad(nm, e.where, "the maps of a square matrix are used") if not e.argv else rep.und(nm, e.where, "")
            continue
        for v, want in zip(e.argv[:2], ("range_partitioner", "domain_partitioner")):
            got = [str(t.a[0]).split("::")[-1] for t in subterms(v) if t.op == "app" and str(
                t.a[0]).endswith(("_partitioner", "Map"))]
            if len(set(got)) == 1:
                rep.check(got[0] == want, nm, e.where, "%s map is %s of E" % (
                    "domain" if want[0] == "r" else "range", got[0]))
            else:
                rep.und(nm, e.where, show(v)[:200])
    comp = [u for u in chain(cop[0])[1] if u.op.endswith("::compress")]
    rep.check(bool(comp), tag + ": the correction is compressed before the sum", A.where, "entries set but not compressed") \
        if comp or chain(cop[0])[0].op in ("iter", "made") else rep.und(tag + ": correction", A.where, "")
    # returned by fast_multiply_transpose
    fm = [x for x in p.fns if x.name == "fast_multiply_transpose" and x.ct is f.ct and x.body is not None]
    nm = tag + ": the sum is what fast_multiply_transpose returns"
    if not fm:
        return rep.und(nm, wfn(f), "fast_multiply_transpose not found")
    r = g.inline(fm[0], THIS, [], {"l": fm[0].line})
    v = r[1] if r[0] == "v" else g.read(r[1])
    tgt = g.deref(v, False)
    cont = g.read(tgt) if tgt is not None else None
    sums = cont is not None and any(t.op.startswith("out_EpetraExt::MatrixMatrix::Add") for t in deep(g, cont))
    if sums:
        rep.ok(nm, wfn(fm[0]))
    elif v.op == "null" or v is raw("null"):
        rep.bad(nm, wfn(fm[0]), "returns a null operator")
    else:
        rep.und(nm, wfn(fm[0]), show(v)[:200])


def deep(g, t, n=3):
    """subterms, also of what pointers in t point to"""
    out = list(subterms(t))
    if n:
        for x in list(out):
            if x.op in ("addr", "new", "made") or x.op == "sym":
                try:
                    l = x.a[0] if x.op == "addr" else g.deref(x, False)
                    if l is not None:
                        out += deep(g, g.read(l), n - 1)
                except Exception:
                    pass
    return out


def c08_set(rep, tag, g, e, seen):
    row, cnt, colp, valp = e.argv[:4]
    if colp.op != "itr" or valp.op != "itr" or not e.mem:
        return rep.und(tag + ": entries of the correction", e.where, "columns or values are no contiguous arrays")
    cols = same_rows(g.read_at(e, colp.a[0]))
    vals = same_rows(g.read_at(e, valp.a[0]))
    row, cnt = same_rows(row), same_rows(cnt)
    row = g.simp(row) if hasattr(g, "simp") else row
    # the patch
    pats = {t.a[0] for t in subterms(cols) if t.op == "pmap"}
    if len(pats) != 1:
        return rep.und(tag + ": columns", e.where, show(cols)[:300])
    P = pats.pop()
    which = "boundary" if has(P, BND) else "halo" if has(P, HAL) else None
    if which is None or has(P, BND) and has(P, HAL):
        return rep.und(tag + ": patch", e.where, show(P)[:300])
    seen[which].append(e)
    L = BND if which == "boundary" else HAL
    tg = "%s (%s patch)" % (tag, which)
    dofs = raw("dofs", raw("pmap", P))
    k = raw("k", 9996)
    compare(rep, tg + ": columns are the patch's degrees of freedom", sel(cols, k), sel(dofs, k), e.where, eng=g)
    compare(rep, tg + ": all columns", cnt, length(dofs), e.where, eng=g)
    lp = [l for l in e.loops if has(P, l.k)]
    if len(lp) != 1 or len(e.loops) != 2:
        return rep.und(tg + ": one patch per agglomerate", e.where, "loops")
    la = lp[0]
    lj = [l for l in e.loops if l is not la][0]
    compare(rep, tg + ": patch k belongs to agglomerate k", P, sel(L, la.k), e.where, eng=g)
    if la.N in (length(BND), length(HAL)) and not la.breaks:
        rep.ok(tg + ": all agglomerates", e.where)
    else:
        compare(rep, tg + ": all agglomerates", la.N, length(L), e.where, eng=g)
    pos = row_of(row)
    if pos is None:
        return rep.und(tg + ": rows", e.where, show(row)[:300])
    # guards: only empty patches and agglomerates without eigenvectors may be left out
    n = lj.N

    def settle(t):
        lits = {}
        for a in atoms_of(t):
            if a.op == "eq0" and (a.a[0] in (length(BND), length(HAL)) or any(
                    x.op == "pmap" for x in subterms(a)) and "len" in [x.op for x in subterms(a)]):
                lits[a] = False
        return assume(t, lits) if lits else t
    n = same_rows(settle(n))
    gd = settle(e.guard)
    nm = tg + ": every eigenvector contributes"
    if gd is not TRUE:
        fl = literals(gd)
        (rep.bad if fl and not any(opaque_heads(a) - {"app " + NTH, "app " + SME} - opaque_heads(pos) for a in fl)
         else rep.und)(nm, e.where, "only if " + show(gd)[:300])
    d = todict(pos)
    cj = d.get(((lj.k, 1),), 0)
    rest = settle(sub(pos, mul(num(cj), lj.k))) if cj else None
    if cj != 1:
        return (rep.bad if not opaque_heads(pos) - opaque_heads(n) else rep.und)(
            tg + ": rows", e.where, "position " + show(pos)[:200])
    compare(rep, tg + ": rows of agglomerate k start after those of agglomerates before it", rest, mul(n, la.k), e.where,
            eng=g)
    nm = tg + ": all rows of the agglomerate"
    q = None
    for t in subterms(n):
        if t.op == "idiv":
            q = t
    if n is q and own_rows(q.a[0]) and q.a[1] in (length(BND), length(HAL)):
        rep.ok(nm, e.where, show(n)[:200])
    else:
        compare(rep, nm, n, raw("idiv", raw("app", "dealii::IndexSet::n_elements", raw("app", RNG, E_)), length(BND)),
                e.where, eng=g)
    # values
    m = raw("k", 9995)
    got = entry(vals, None, k)
    if got is None:
        return rep.und(tg + ": values", e.where, show(vals)[:300])
    lins = [t for t in subterms(got) if t.op == "lin"]
    v = raw("app", SME, D_, row, sel(dofs, m))
    if which == "halo":
        v = add(v, raw("app", SME, E_, row, sel(dofs, m)))
    nm = tg + ": the values are the local operator applied to " + ("D" if which == "boundary" else "R = D + E")
    if len(set(lins)) != 1:
        if not lins and not opaque_heads(got) - {"app " + SME, "app " + NTH, "app " + RNG}:
            rep.bad(nm, e.where, show(got)[:400])
        else:
            rep.und(nm, e.where, show(got)[:400])
        return
    A, x = lins[0].a
    compare(rep, nm + " (operator)", A, raw("Aloc", raw("patch", P)), e.where, eng=g)
    compare(rep, nm + " (result)", got, sel(lins[0], k), e.where, eng=g)
    xm = entry(x, None, m)
    if xm is None:
        return rep.und(nm, e.where, show(x)[:300])
    vr = v
    if which == "halo" and has(xm, R_):
        vr = raw("app", SME, R_, row, sel(dofs, m))
    compare(rep, nm, settle(xm), vr, e.where, eng=g, also={"app " + SME})


# -- C09 ---------------------------------------------------------------------

def c_nagg(g, f, oloc, oid, locs, vals, ev):
    n = raw("sym", "@nagg")
    mark(n, True, True)
    return ("v", n)


def c_localeig(g, f, oloc, oid, locs, vals, ev):
    pt = next((v for v, t in zip(vals, f.ptypes) if "map<" in t.s), None)
    ps = [x.a[0] for x in subterms(pt)if x.op == "pmap"] if pt is not None else []
    i = ps[0] if ps else raw("unk", "patch")
    return ("v", raw("tup", raw("eigvals", i), raw("eigvecs", i), raw("diag", i), raw("dofs", i)))


def c_recordargs(store):
    def c(g, f, oloc, oid, locs, vals, ev):
        content = []
        for t, l, v in zip(f.ptypes, locs, vals):
            x = v
            if t.ref and l is not None:
                x = g.read(l)
            content.append(x)
        store.append((f, content, ev))
        return ("v", raw("void"))
    return c


def gather_run(p, f):
    store = []
    g = vn.Engine(p, contracts=dict(spec.OPS, **{
        "mfmg::AMGe::build_agglomerates": c_nagg,
        "mfmg::AMGe::build_agglomerate_triangulation": c_patch,
        "mfmg::AMGe_host::compute_local_eigenvectors": c_localeig,
        "mfmg::AMGe::compute_restriction_sparse_matrix": c_recordargs(store)}))
    g.enter(f)
    return g, store


def c09(p, rep):
    n = 0
    for f in lib(p, "setup_restrictor", "mfmg::AMGe_host"):
        g, store = gather_run(p, f)
        rep.fns(g)
        tag = "setup_restrictor" + (" (with E and D)" if len(f.params) > 6 else "")
        if not store:
            rep.und(tag, wfn(f), "the restriction is not computed by compute_restriction_sparse_matrix")
            continue
        h, args, ev = store[-1]
        where = wfn(f)
        N = raw("sym", "@nagg")
        k = raw("k", 9990)
        el = {}
        for t, v in zip(h.ptypes, args):
            n, e = shape(t.s)
            if n == 1 and "Vector<" in e:
                el["eigenvectors"] = v
            elif n == 1 and "unsigned" in e:
                el["count"] = v
            elif n == 2 and e in ("double", "float"):
                el["diagonals"] = v
            elif n == 2 and "unsigned" in e:
                el["index maps"] = v
        for t, nme in zip(f.ptypes, [q["n"] for q in f.params]):
            n, e = shape(t.s)
            if t.ref and not t.const and n == 1 and e in ("double", "float"):
                el["eigenvalues"] = g.read(g.syms[nme])
        kk = add(k, ONE)
        want = {"eigenvectors": raw("eigvecs", kk), "count": cat(one(length(raw("eigvecs", kk)))),
                "diagonals": cat(one(raw("diag", kk))), "index maps": cat(one(raw("dofs", kk)))}
        for nm, v in el.items():
            w = raw("eigvals", kk) if nm == "eigenvalues" else want[nm]
            gathered(rep, g, tag, nm, v, N, k, w, where)
        for nm in want:
            if nm not in el:
                rep.und(tag + ": " + nm, where, "not found among the arguments of the restriction's assembly")
    rep.need(10, "gathering")


def step_error(v, w, k):
    """one step of the loop that builds a list does something else than append w"""
    b = v.a[2]
    b = subst(b.a[0], {raw("bv", b.a[1]): k})
    old = next((x for x in subterms(b) if x.op == "bvp"), None)
    if old is None:
        return "the list is overwritten in every step"
    leaves = []

    def walk(t, cs):
        if t.op == "ite":
            walk(t.a[1], cs + [(t.a[0], True)])
            walk(t.a[2], cs + [(t.a[0], False)])
        else:
            leaves.append((t, cs))
    walk(b, [])
    for t, cs in leaves:
        if t.op == "ins" and t.a[0] is old and (t.a[1] is ZERO or t.a[1].op == "itr" and t.a[1].a[1] is ZERO):
            return "inserted at the beginning: " + show(t)[:200]
        if t is old and cs and not any(c.op == "eq0" and val and c.a[0] is length(w) for c, val in cs) and not any(
                opaque_heads(c) for c, val in cs):
            return "nothing is appended if " + " and ".join(("" if val else "not ") + show(c)[:150] for c, val in cs)
    return None


def gathered(rep, g, tag, nm, v, N, k, w, where):
    """v == concatenation over k < N of w(k)"""
    name = "%s: %s of agglomerate k are appended once, at step k" % (tag, nm)
    parts = list(v.a) if v.op == "cat" else [v]
    if parts and nm == "eigenvalues" and parts[0].op == "sym":
        parts = parts[1:]         # what the caller's list held before
    reps = [x for x in parts if x.op == "rep"]
    if v.op == "iter":
        why = step_error(v, w, k)
        (rep.bad if why else rep.und)(name, where, why or show(v)[:400])
        return
    if len(parts) != 1 or len(reps) != 1:
        bad = not opaque_heads(v) and not g.unk and (not parts or v.op in ("cat", "arr", "sym") and
                                                      all(x.op in ("rep", "one", "sym", "arr") for x in parts))
        (rep.bad if bad else rep.und)(name, where, show(v)[:400])
        return
    n, l = reps[0].a
    compare(rep, "%s: %s of every agglomerate are appended" % (tag, nm), n, N, where, eng=g)
    got = inst(l, k)
    if nm == "eigenvalues":
        # real parts, one by one
        src = [x for x in subterms(got) if x.op == "eigvals"]
        if len(set(src)) == 1:
            compare(rep, name, src[0], w, where, eng=g)
            j = raw("k", 9989)
            e = None
            q = got.a[0] if got.op == "cat" and len(got.a) == 1 else got
            if q.op == "rep":
                b = inst(q.a[1], j)
                b = b.a[0] if b.op == "cat" and len(b.a) == 1 else b
                e = b.a[0] if b.op == "one" else None
                compare(rep, "%s: every eigenvalue is appended" % tag, q.a[0], length(w), where, eng=g)
            if e is None:
                return rep.und(name + " (entries)", where, show(got)[:300])
            r = e.a[0] if e.op == "re" else (app_args(e, "real") or [e])[0]
            compare(rep, "%s: the real part of eigenvalue j is entry j" % tag, r, sel(w, j), where, eng=g,
                    also={"app std::complex::imag", "app std::imag", "app std::norm", "app std::arg"})
            return
    compare(rep, name, cat(got) if got.op in ("one", "rep") else got, w, where, eng=g)
