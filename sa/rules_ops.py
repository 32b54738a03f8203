"""C04 smoothers, C05 operators, C32 coarse solver."""
import vn
import spec
from core import *
from vn import F, EL, THIS, ptr, addr

NOTR = raw("enum", "mfmg::OperatorMode::NO_TRANS")
TRANS = raw("enum", "mfmg::OperatorMode::TRANS")


def derived(p, base):
    """classes of the library deriving from base, and the functions defined in them"""
    out = {}
    for c in p.classes.values():
        if c.lam or not c.name:
            continue
        if any((b.cls or b.s).split("<")[0] == base for b in p.all_bases(c)):
            out[c.type.s if hasattr(c.type, "s") else c.type] = c
    return out


def methods(p, c, name):
    return [f for f in p.fns if f.ct is not None and f.ct.s == tstr(c) and f.name == name and f.body is not None]


def ctors(p, c):
    return [f for f in p.fns if f.ct is not None and f.ct.s == tstr(c) and f.kind == "ctor" and not f.cpy
            and not f.mv and f.body is not None]


def tstr(c):
    return c.type.s if hasattr(c.type, "s") else c.type


def never_returns(g):
    return any(c is FALSE for c, k in g.st.pc)


def short_cls(c):
    return tstr(c).split("<")[0].replace("mfmg::", "")


# -- C04 ---------------------------------------------------------------------

PREC = {
    "symmetric gauss-seidel": "dealii::TrilinosWrappers::PreconditionSSOR",
    "gauss-seidel": "dealii::TrilinosWrappers::PreconditionSOR",
    "jacobi": "dealii::TrilinosWrappers::PreconditionJacobi",
    "ilu": "dealii::TrilinosWrappers::PreconditionILU",
    "chebyshev": "dealii::PreconditionChebyshev",
}
SMOOTHER_OPTIONS = {"mfmg::DealIISmoother": (["symmetric gauss-seidel", "gauss-seidel", "jacobi", "ilu"],
                                             "Symmetric Gauss-Seidel"),
                    "mfmg::DealIIMatrixFreeSmoother": (["chebyshev"], "Chebyshev")}
CHEB = ("degree", "smoothing_range", "max_eigenvalue")


def spellings(n):
    return [n, n.upper(), n.title()]


def pointee_ops(g, v, where):
    """(object location, its value) of a pointer to an object made here"""
    if v.op != "addr":
        return None, None
    return v.a[0], g.read(v.a[0])


def heads(v):
    """linear operators applied in v"""
    return [t for t in subterms(v) if t.op == "lin"]


def c04(p, rep):
    cl = derived(p, "mfmg::Smoother")
    if not cl:
        raise Broken("no class derives from mfmg::Smoother")
    for c in cl.values():
        cls = tstr(c).split("<")[0]
        tag = short_cls(c) + tstr(c)[tstr(c).find("<"):][:3].rstrip(",d")
        opts, dflt = SMOOTHER_OPTIONS.get(cls, ([], None))
        cs = ctors(p, c)
        if not cs:
            continue
        pfield = ofield = None
        for k in cs:
            opn = next((q["n"] for q in k.params if "Operator<" in q["t"].s), None)
            par = next((q["n"] for q in k.params if "ptree" in q["t"].s), None)
            cases = [(n, s) for n in opts for s in spellings(n)] + [(dflt.lower(), None)] if dflt else []
            for name, sp in cases:
                g = vn.Engine(p, contracts=spec.OPS)
                if sp is not None:
                    g.ptvals = {"smoother.type": raw("str", sp)}
                g.enter(k)
                rep.fns(g)
                title = "%s, smoother type %s" % (tag, repr(sp) if sp else "not given")
                if sp is None:
                    # the default used by the code must be one of the names
                    e = [x for x in g.events if x.name == "ptree.get" and x.argv[0] is raw("str", "smoother.type")]
                    d = {x.argv[1].a[0] for x in e if x.argv[1].op == "str"}
                    if len(d) != 1:
                        rep.und(title, wfn(k), "default is %s" % d)
                        continue
                    d = d.pop()
                    rep.check(d.lower() == dflt.lower(), title + ": default name", wfn(k),
                              "default is %r instead of %r" % (d, dflt))
                    continue
                if never_returns(g):
                    rep.bad(title + " is accepted", wfn(k), "the constructor throws for this documented choice")
                    continue
                want = PREC[name]
                found = None
                for fd in p.classes[tstr(c)].fields:
                    v = g.read(F(THIS, fd["n"]))
                    if v.op == "addr" and v.a[0].op == "new":
                        found = (fd["n"], v.a[0])
                if found is None:
                    rep.und(title, wfn(k), "no member points to a preconditioner made here")
                    continue
                pfield, obj = found
                T_ = obj.a[0].split("<")[0]
                rep.check(T_ == want, title + " selects " + want.split("::")[-1], wfn(k), "selects " + T_)
                state = g.read(obj)
                inits = [t for t in subterms(state) if t.op.startswith("upd_") and t.op.endswith("::initialize")]
                # matrix handed to initialize
                opv = raw("sym", opn)
                A = operator_matrix(p, g, opv)
                evs = [x for x in g.events if x.name.endswith("::initialize") and x.obj is obj]
                if len(evs) != 1 or state.op.split("::")[-1] != "initialize":
                    if not evs and not inits:
                        rep.bad(title + ": preconditioner initialised", wfn(k), "never initialised")
                    else:
                        rep.und(title + ": preconditioner initialised", wfn(k), show(state)[:300])
                    continue
                a0 = evs[0].argv[0]
                rep.check(a0 in A, title + ": preconditioner is built from the smoother's operator", evs[0].where,
                          "initialised from %s, not from %s" % (show(a0), [show(x) for x in A]))
                if name == "chebyshev":
                    cheb(rep, title, evs[0], g)
            # operator kept by the smoother
            g = vn.Engine(p, contracts=spec.OPS)
            g.enter(k)
            base = [b.s for b in p.all_bases(c)] + [tstr(c)]
            for b in base:
                bc = p.classes.get(b)
                for fd in (bc.fields if bc else []):
                    v = g.read(F(THIS, fd["n"]))
                    if strip(v) is raw("sym", opn):
                        ofield = fd["n"]
        for f in methods(p, c, "apply"):
            g = vn.Engine(p, contracts=spec.OPS)
            g.enter(f)
            rep.fns(g)
            bn = next(q["n"] for q in f.params if q["t"].const)
            xn = next(q["n"] for q in f.params if not q["t"].const)
            b, x = raw("sym", bn), raw("sym", xn)
            if pfield is None or ofield is None:
                rep.und(tag + "::apply", wfn(f), "members holding operator/preconditioner not identified")
                continue
            A = raw("fld", raw("sym", "this"), ofield)
            P = raw("at", raw("fld", raw("sym", "this"), pfield))
            want = add(x, lin(P, sub(b, lin(A, x))))
            compare(rep, tag + "::apply is x + P (b - A x)", g.read(g.syms[xn]), want, wfn(f), eng=g)
            rep.check(g.read(g.syms[bn]) is b, tag + "::apply leaves b unchanged", wfn(f),
                      "b becomes " + show(g.read(g.syms[bn])))
            for e in g.events:
                if e.kind == "lin" and len(e.args) == 2 and e.args[0] is not None:
                    rep.check(e.args[0] is not e.args[1], tag + "::apply: no operator is applied in place", e.where,
                              "source and destination of vmult are the same vector")
    rep.need(20, "smoothers")


def operator_matrix(p, g, opv):
    """terms that denote the matrix/operator behind an operator pointer"""
    out = [raw("at", opv)]
    for f in p.fns:
        if f.name == "get_matrix" and f.body is not None and "Operator" in (f.cls or ""):
            e = vn.Engine(p)
            r = e.inline(f, ptr(opv), [], {"l": f.line})
            v = e.read(e.deref(r[1] if r[0] == "v" else e.read(r[1]), False))
            out.append(v)
    return out


def cheb(rep, title, ev, g):
    d = ev.argv[1]
    for o in CHEB:
        v = fld(d, o)
        want = None
        key = raw("str", "smoother." + o)
        base = fld(d.a[0], o) if d.op == "rec" else None
        opts = [t for t in subterms(v) if t.op in ("optval", "opt") and t.a[1] is key]
        others = [t for t in subterms(v) if t.op in ("optval", "opt") and t.a[1] is not key
                  and t.a[1].op == "str" and t.a[1].a[0] != "smoother.type"]
        if others:
            rep.bad(title + ": option %s reaches the setting of the same name" % o, ev.where,
                    "the setting is taken from %s" % show(others[0]))
        elif not opts:
            rep.bad(title + ": option %s reaches the setting of the same name" % o, ev.where,
                    "the setting is " + show(v)[:300])
        else:
            ov = opts[0]
            if ov.op == "optval":
                present = assume(v, {a: True for a in [raw("has", ov)]})
                absent = assume(v, {a: False for a in [raw("has", ov)]})
                ok = present is raw("val", ov) and not has(absent, ov)
            else:
                ok = v is ov
            rep.check(ok, title + ": option %s reaches the setting of the same name unchanged" % o, ev.where,
                      "the setting is " + show(v)[:400])
        if o == "max_eigenvalue" and opts and opts[0].op == "optval":
            n = assume(fld(d, "eig_cg_n_iterations"), {raw("has", opts[0]): True})
            nm = title + ": a given largest eigenvalue takes effect"
            if isconst(n):
                rep.check(cval(n) == 0, nm, ev.where, "deal.II estimates it in %s steps instead" % show(n))
            elif n.op == "fld" or n.op == "made":
                rep.bad(nm, ev.where, "deal.II estimates it in its default number of steps instead (%s)" % show(n)[:200])
            else:
                rep.und(nm, ev.where, show(n)[:300])
    v = fld(d, "preconditioner")
    s = show(v)
    rep.check("get_diagonal_inverse" in s, title + ": Chebyshev is preconditioned by the operator's diagonal",
              ev.where, "preconditioner is " + s[:300])


# -- C05 ---------------------------------------------------------------------

def c_mf_global(g, f, oloc, oid, locs, vals, ev):
    s = [i for i, t in enumerate(f.ptypes) if t.const]
    d = [i for i, t in enumerate(f.ptypes) if not t.const]
    if len(s) != 1 or len(d) != 1:
        return None
    y = lin(raw("mfglobal", oid), vals[s[0]])
    g.write(locs[d[0]], y)
    ev.out.append((locs[d[0]], y))
    return ("v", raw("void"))


def c_colprod(g, f, oloc, oid, locs, vals, ev):
    p_ = spec.fresh_ptr(g, "matrix")
    ms = [v for v, t in zip(vals, f.ptypes) if "IndexSet" not in t.s and "communicator" not in t.s]
    g.write(ptr(p_), raw("mprod", vals[4], tr(vals[3])), True)
    g.write(raw("glob", "layout#%d" % g.uid), raw("tup", *vals[:3]), True)
    ev.res = p_
    return ("v", p_)


def op_engine(p):
    return vn.Engine(p, contracts={
        "mfmg::DealIIMatrixFreeMeshEvaluator::matrix_free_evaluate_global": c_mf_global,
        "mfmg::matrix_transpose_matrix_multiply": c_colprod})


def vector_terms(f):
    i = [q for q in f.params if "Vector" in (q["t"].cls or "")]
    src = next((q["n"] for q in i if q["t"].const), None)
    dst = next((q["n"] for q in i if not q["t"].const), None)
    mode = next((q["n"] for q in f.params if "OperatorMode" in q["t"].s), None)
    return src, dst, mode


def applied_matrix(p, c, loc, mode, g0=None):
    """matrix M such that apply(x, y, mode) on the object at loc leaves y = M x;
    None when the call throws, 'und' when it is something else"""
    fs = methods(p, c, "apply")
    if not fs:
        return "und", None, None
    f = fs[0]
    g = op_engine(p)
    if g0 is not None:
        g.st = g0.st.copy()
        g.uid = g0.uid + 1000
        g.dyn = dict(g0.dyn)
    src, dst, mn = vector_terms(f)
    x = raw("sym", src)
    VEC.add(x.id)
    args = [raw("var", "@" + q["n"]) if q["n"] != mn else mode for q in f.params]
    g.enter(f, this=loc, args=args, dyn=False)
    if never_returns(g):
        return None, g, f
    y = g.read(raw("var", "@" + dst))
    if y.op == "lin" and y.a[1] is x:
        return y.a[0], g, f
    return "und:" + show(y)[:300], g, f


def c05(p, rep):
    cl = derived(p, "mfmg::Operator")
    if not cl:
        raise Broken("no class derives from mfmg::Operator")
    tri = [c for c in cl.values() if tstr(c).startswith("mfmg::DealIITrilinosMatrixOperator<")]
    for c in cl.values():
        tag = short_cls(c) + (tstr(c)[tstr(c).find("<"):][:2] if "MatrixFree" in tstr(c) else "")
        A, g, f = applied_matrix(p, c, THIS, NOTR)
        if f is None:
            continue
        rep.fns(g)
        if A is None or isinstance(A, str):
            rep.add("bad" if A is None or "phi" not in A else "und", tag + "::apply multiplies by the matrix",
                    wfn(f), "normal mode " + ("throws" if A is None else "computes " + A))
            continue
        # the matrix must be the one the operator was made from
        ok = A.op != "tr" and any(t is raw("sym", "this") for t in subterms(A))
        rep.check(ok, tag + "::apply, normal mode, multiplies by the operator's own matrix", wfn(f), "uses " + show(A))
        B, g2, _ = applied_matrix(p, c, THIS, TRANS)
        if B is None:
            rep.ok(tag + "::apply, transposed mode, is rejected", wfn(f))
        else:
            rep.check(not isinstance(B, str) and B is tr(A),
                      tag + "::apply, transposed mode, multiplies by the transpose", wfn(f),
                      "computes %s" % (B if isinstance(B, str) else show(B)))
        # the matrix comes from the constructor's argument
        for k in ctors(p, c):
            g3 = op_engine(p)
            g3.enter(k)
            rep.fns(g3)
            M = subst(A, {raw("sym", "this"): g3.read(THIS)})
            rep.check(any(t.op == "sym" and t.a[0] in [q["n"] for q in k.params] for t in subterms(M)),
                      tag + " keeps the matrix it is constructed from", wfn(k), "keeps " + show(M)[:300])
        # products
        bA = None
        for name in ("multiply", "multiply_transpose", "transpose"):
            fs = methods(p, c, name)
            for f in fs:
                g = op_engine(p)
                r = g.enter(f)
                rep.fns(g)
                title = "%s::%s" % (tag, name)
                if never_returns(g):
                    rep.ok(title + " is rejected", wfn(f))
                    continue
                v = g.read(r[1]) if r[0] == "l" else r[1]
                if v.op != "addr":
                    (rep.bad if v.op == "null" else rep.und)(title, wfn(f), "returns " + show(v)[:200])
                    continue
                rt = g.dyn.get(v.a[0]) or (v.a[0].a[0] if v.a[0].op == "new" else None)
                rc = p.classes.get(rt)
                if rc is None:
                    rep.und(title, wfn(f), "class of the result unknown")
                    continue
                M, _, _ = applied_matrix(p, rc, v.a[0], NOTR, g)
                if M is None or isinstance(M, str):
                    rep.und(title, wfn(f), str(M))
                    continue
                if name == "transpose":
                    compare(rep, title + " gives the transpose", M, tr(A), wfn(f), eng=g)
                    continue
                bn = f.params[0]["n"] or "arg0"
                if not tri:
                    raise Broken("DealIITrilinosMatrixOperator not found")
                tc = [t for t in tri if t.clsT[0] == c.clsT[-1]] if hasattr(c, "clsT") else tri
                B, _, _ = applied_matrix(p, tc[0] if tc else tri[0], ptr(raw("sym", bn)), NOTR)
                want = raw("mprod", A, B if name == "multiply" else tr(B))
                me = raw("sym", "this")
                if M.op == "mprod":        # the operator object standing for its own matrix
                    M = raw("mprod", *[A if t is me else tr(A) if t is tr(me) else t for t in M.a])
                compare(rep, title + " gives " + ("A B" if name == "multiply" else "A B^T"), M, want, wfn(f), eng=g)
                if name == "multiply_transpose":
                    layout(rep, title, g, v, A, B, f)
        for name, kind, words in (("build_domain_vector", "columns", ("locally_owned_domain_indices", "n")),
                                  ("build_range_vector", "rows", ("locally_owned_range_indices", "m"))):
            for f in methods(p, c, name):
                g = op_engine(p)
                r = g.enter(f)
                rep.fns(g)
                v = g.read(r[1]) if r[0] == "l" else r[1]
                title = "%s::%s is laid out like the %s" % (tag, name, kind)
                evs = [e for e in g.events if e.kind == "new" and v.op == "addr" and e.obj is v.a[0]]
                if v.op != "addr" or len(evs) != 1 or not evs[0].argv:
                    rep.und(title, wfn(f), show(v)[:300])
                    continue
                a = evs[0].argv[0]
                if "MatrixFree" in tag and has(a, raw("sym", "this")) and any(
                        t.op == "app" and t.a[0].endswith("locally_owned_dofs") for t in subterms(a)):
                    # square operator: both spaces are the dofs of its own mesh evaluator
                    rep.ok(title, wfn(f), show(a))
                    continue
                if a.op != "app":
                    rep.und(title, wfn(f), show(a))
                    continue
                w = a.a[0].split("::")[-1]
                if w in ("locally_owned_domain_indices", "locally_owned_range_indices", "m", "n"):
                    rep.check(w in words and a.a[1] is A, title, wfn(f), "built from %s" % show(a))
                else:
                    rep.und(title, wfn(f), show(a))
    # unsupported element access of the matrix-free operator is rejected
    rep.need(14, "operators")


def layout(rep, title, g, v, A, B, f):
    """rows of A and rows of B lay out the result of A B^T"""
    evs = [e for e in g.events if e.kind in ("new", "ctor") and "SparseMatrix" in e.name and len(e.argv) >= 2]
    for e in evs:
        if e.argv[0].op == "app" and e.argv[1].op == "app":
            w0, w1 = e.argv[0].a[0].split("::")[-1], e.argv[1].a[0].split("::")[-1]
            if "locally_owned" in w0 and "locally_owned" in w1:
                rep.check(w0 == w1 == "locally_owned_range_indices" and e.argv[0].a[1] is A and e.argv[1].a[1] is B,
                          title + ": rows are laid out like A's rows, columns like B's rows", e.where,
                          "laid out by %s and %s" % (show(e.argv[0]), show(e.argv[1])))


# -- C32 ---------------------------------------------------------------------

def c32(p, rep):
    cl = derived(p, "mfmg::Solver")
    if not cl:
        raise Broken("no class derives from mfmg::Solver")
    for c in cl.values():
        tag = short_cls(c)
        for k in ctors(p, c):
            opn = next((q["n"] for q in k.params if "Operator<" in q["t"].s), None)
            par = next((q["n"] for q in k.params if "ptree" in q["t"].s), None)
            opv = raw("sym", opn)
            for name, want in (("direct", "dealii::TrilinosWrappers::SolverDirect"),
                               ("ml", "dealii::TrilinosWrappers::PreconditionAMG")):
                for sp in spellings(name) + ([None] if name == "direct" else []):
                    g = vn.Engine(p, contracts=spec.OPS)
                    if sp is not None:
                        g.ptvals = {"coarse.type": raw("str", sp)}
                        title = "%s, coarse type %r" % (tag, sp)
                    else:
                        e = vn.Engine(p, contracts=spec.OPS)
                        e.enter(k)
                        ds = {x.argv[1] for x in e.events if x.name == "ptree.get" and
                              x.argv[0] is raw("str", "coarse.type")}
                        if len(ds) != 1 or list(ds)[0].op != "str":
                            rep.und("default coarse type", wfn(k), str(ds))
                            continue
                        g.ptvals = {"coarse.type": ds.pop()}
                        title = "%s, coarse type not given" % tag
                    g.enter(k)
                    rep.fns(g)
                    if never_returns(g):
                        rep.bad(title + " is accepted", wfn(k), "the constructor throws")
                        continue
                    objs = {}
                    for fd in p.classes[tstr(c)].fields:
                        v = g.read(F(THIS, fd["n"]))
                        if v.op == "addr" and v.a[0].op == "new":
                            objs[fd["n"]] = v.a[0]
                    hit = [(n, o) for n, o in objs.items() if o.a[0].split("<")[0] == want]
                    if not hit:
                        (rep.bad if objs else rep.und)(title + " uses " + want.split("::")[-1], wfn(k),
                                                       "members point to %s" % [o.a[0] for o in objs.values()])
                        continue
                    rep.ok(title + " uses " + want.split("::")[-1], wfn(k))
                    n, obj = hit[0]
                    evs = [x for x in g.events if x.name.endswith("::initialize") and x.obj is obj]
                    if len(evs) != 1:
                        (rep.bad if not evs else rep.und)(title + ": initialised", wfn(k), "%d initialisations" % len(evs))
                        continue
                    A = operator_matrix(p, g, opv)
                    rep.check(evs[0].argv[0] in A, title + ": initialised from the operator's matrix", evs[0].where,
                              "initialised from " + show(evs[0].argv[0]))
                    if name == "ml":
                        mlopts(p, rep, title, g, evs[0], k)
                    # apply with exactly this object in place
                    for f in methods(p, c, "apply"):
                        h = vn.Engine(p, contracts=spec.OPS)
                        h.st = g.st.copy()
                        h.st.pc = ()
                        h.uid = g.uid
                        h.dyn = dict(g.dyn)
                        h.enter(f)
                        rep.fns(h)
                        bn = next(q["n"] for q in f.params if q["t"].const)
                        xn = next(q["n"] for q in f.params if not q["t"].const)
                        state = h.read(obj)
                        b = raw("sym", bn)
                        op = raw("inv", g.read(obj)) if name == "direct" else g.read(obj)
                        compare(rep, title + ": apply overwrites x with the solution for b",
                                h.read(h.syms[xn]), lin(op, b), wfn(f), eng=h)
                        rep.check(h.read(h.syms[bn]) is b, title + ": apply leaves b unchanged", wfn(f), "b modified")
    rep.need(12, "coarse solver")


def mlopts(p, rep, title, g, ev, k):
    """ML defaults first, then the user's options on top"""
    v = ev.argv[1]
    sd = [t for t in subterms(v) if "SetDefaults" in t.op]
    if not sd:
        rep.bad(title + ": smoothed-aggregation defaults stay in force for options not mentioned", ev.where,
                "the list handed to ML does not contain them: " + show(v)[:300])
        return
    rep.check(any(t.op == "str" and t.a[0] == "SA" for x in sd for t in x.a if isinstance(t, T)),
              title + ": defaults are those of smoothed aggregation", ev.where, "defaults are " + show(sd[0])[:200])
    # with user options present the list must depend on them, without them it is the defaults
    oc = [t for t in subterms(v) if t.op in ("optchild", "child") and t.a[1] is raw("str", "coarse.params")]
    if not oc:
        rep.bad(title + ": user options reach ML", ev.where, "option tree coarse.params is not used: " + show(v)[:300])
        return
    o = oc[0]
    pres, absn = assume(v, {raw("has", o): True}), assume(v, {raw("has", o): False})
    rep.check(has(pres, o), title + ": user options reach ML", ev.where, "list with options: " + show(pres)[:300])
    rep.check(bool([t for t in subterms(pres) if "SetDefaults" in t.op]),
              title + ": user options augment the smoothed-aggregation defaults", ev.where,
              "with user options the list is " + show(pres)[:400] + ", without the defaults")
    rep.check(not has(absn, o) and absn in sd or absn.op.startswith("out_") and absn in sd,
              title + ": without user options the defaults are used", ev.where, "list is " + show(absn)[:300])
