"""C01 V-cycle, C02 initial guess, C03 set-up of the level chain."""
import vn
import spec
from core import *
from vn import F, EL, THIS, ptr, addr


def hier_fns(p, name):
    fs = [f for f in p.fns if f.cls == "mfmg::Hierarchy" and f.name == name and f.body is not None and f.repo]
    if not fs:
        raise Broken("mfmg::Hierarchy::%s not found" % name)
    return fs


def hier_ctors(p):
    fs = [f for f in p.fns if f.cls == "mfmg::Hierarchy" and f.kind == "ctor" and not f.cpy and not f.mv
          and f.body is not None]
    if not fs:
        raise Broken("constructor of mfmg::Hierarchy not found")
    return fs


def levels_loc(p, f, this=THIS):
    c = p.classes.get(f.ct.s)
    fs = [x for x in c.fields if "mfmg::Level<" in x["t"].s]
    if len(fs) != 1:
        raise Broken("Hierarchy no longer holds exactly one container of levels")
    return F(this, fs[0]["n"])


def getter(p, g, f, level, name):
    """value the public getter of Level returns for the given level location"""
    gs = [x for x in p.fns if x.cls == "mfmg::Level" and x.name == name and x.body is not None
          and x.clsT and x.clsT[0] == f.clsT[0]]
    if not gs:
        raise Broken("mfmg::Level::%s not found" % name)
    r = g.inline(gs[0], level, [], {"l": gs[0].line})
    return r[1] if r[0] == "v" else g.read(r[1])


def option_field(p, f, key):
    """this->field initialised from the given configuration key"""
    for c in hier_ctors(p):
        if c.ct.s == f.ct.s:
            g = vn.Engine(p, contracts=spec.OPS)
            g.enter(c)
            for fd in p.classes[f.ct.s].fields:
                v = g.read(F(THIS, fd["n"]))
                if v.op == "opt" and v.a[1].op == "str" and v.a[1].a[0] == key:
                    return raw("fld", raw("sym", "this"), fd["n"]), v
    return None, None


def run_apply(p, f):
    g = vn.Engine(p, contracts=dict(spec.OPS, rec=spec.c_rec))
    g.enter(f)
    return g


def param_roles(f):
    b = x = l = None
    for q in f.params:
        t = q["t"]
        if t.ref and t.const:
            b = q["n"]
        elif t.ref:
            x = q["n"]
        elif t.isint():
            l = q["n"]
    return b, x, l


def under(v, c, truth=True):
    """simplify v assuming the diagram c"""
    return assume(v, literals(c if truth else not_(c)))


def c01(p, rep):
    for f in hier_fns(p, "apply"):
        g = run_apply(p, f)
        rep.fns(g)
        bn, xn, ln = param_roles(f)
        b0, x0, l = raw("sym", bn), raw("sym", xn), raw("sym", ln)
        lv = levels_loc(p, f)
        N = length(raw("fld", raw("sym", "this"), lv.a[1]))
        n, nd = option_field(p, f, "smoother.n_smoothing_steps")
        pre, _ = option_field(p, f, "is preconditioner")
        if n is None or pre is None:
            rep.und("number of smoothing steps", wfn(f), "no member holds the configured number of smoothing steps")
            continue
        last = eq0(sub(add(l, ONE), N))
        x = g.read(g.syms[xn])
        e = vn.Engine(p, contracts=spec.OPS)
        fine = EL(lv, l)
        coarse = EL(lv, add(l, ONE))
        A = getter(p, e, f, fine, "get_operator")
        S = getter(p, e, f, fine, "get_smoother")
        R = getter(p, e, f, coarse, "get_restrictor")
        solver = getter(p, e, f, fine, "get_solver")
        zero = raw("arr", length(x0), ZERO)
        guess = ite(eq0(l), ite(atomb(pre), zero, x0), zero)

        def smoothed(n, y):
            h = 1
            t = raw("smooth", S, b0, raw("bvp", h))
            r = raw("iter", n, y, raw("lam", t, h))
            VEC.add(r.id)
            return r

        # coarsest level
        got = under(x, last)
        compare(rep, "coarsest level applies exactly the coarse solver to (b, x)", got,
                lin(raw("inv", solver), b0), wfn(f), eng=g)
        # other levels, for each value of the level-independent conditions
        got = under(x, last, False)
        for cname, lits in (("finest level, preconditioner", {eq0(l).a[0]: True, pre: True}),
                            ("finest level, standalone", {eq0(l).a[0]: True, pre: False}),
                            ("level below the finest", {eq0(l).a[0]: False})):
            y0 = assume(guess, lits)
            y1 = smoothed(n, y0)
            r = sub(b0, lin(A, y1))
            y2 = add(y1, lin(tr(R), lin(raw("cyc", addr(THIS), add(l, ONE)), lin(R, r))))
            want = smoothed(n, y2)
            compare(rep, "one cycle of the %s is pre-smoothing, coarse correction, post-smoothing" % cname,
                    assume(got, lits), want, wfn(f), eng=g)
        rep.check(g.read(g.syms[bn]) is b0, "right-hand side unchanged", wfn(f),
                  "b becomes " + show(g.read(g.syms[bn])))
        hw = [w for w in g.writes if vn.root(w[0]) is THIS]
        rep.check(not hw, "hierarchy unchanged", wfn(f), "written: %s" % [show(w[0]) for w in hw])
        # vmult is the cycle from the finest level
        for h in hier_fns(p, "vmult"):
            g2 = vn.Engine(p, contracts=dict(spec.OPS, rec=spec.c_rec, **{"mfmg::Hierarchy::apply": spec.c_rec}))
            g2.enter(h)
            rep.fns(g2)
            b2, x2, _ = param_roles(h)
            compare(rep, "vmult applies the cycle of the finest level", g2.read(g2.syms[x2]),
                    lin(raw("cyc", addr(THIS), ZERO), raw("sym", b2)), wfn(h), eng=g2)
    rep.need(7, "Hierarchy::apply")


def c02(p, rep):
    for f in hier_fns(p, "apply"):
        g = vn.Engine(p, contracts=dict(spec.OPS, rec=spec.c_rec))
        g.solve_keeps_guess = True
        g.enter(f)
        rep.fns(g)
        bn, xn, ln = param_roles(f)
        x0, l = raw("sym", xn), raw("sym", ln)
        pre, _ = option_field(p, f, "is preconditioner")
        if pre is None:
            rep.und("preconditioner flag", wfn(f), "no member holds 'is preconditioner'")
            continue
        x = g.read(g.syms[xn])
        for cname, lits, indep in (("preconditioner, finest level", {eq0(l).a[0]: True, pre: True}, True),
                                   ("level below the finest, preconditioner", {eq0(l).a[0]: False, pre: True}, True),
                                   ("level below the finest, standalone", {eq0(l).a[0]: False, pre: False}, True),
                                   ("standalone, finest level", {eq0(l).a[0]: True, pre: False}, False)):
            v = assume(x, lits)
            dep = depends(v, x0)
            heads = opaque_heads(v)
            if indep:
                if dep and heads & {"out", "phi", "unk"}:
                    rep.und(cname + ": result independent of x", wfn(f), str(heads))
                else:
                    rep.check(not dep, cname + ": result independent of x", wfn(f),
                              "the result still depends on the incoming x: " + show(v)[:800])
            else:
                # the caller's iterate must be what the cycle starts from
                lv = levels_loc(p, f)
                N = length(raw("fld", raw("sym", "this"), lv.a[1]))
                last = eq0(sub(add(l, ONE), N))
                for w, t in (("several levels", under(v, last, False)), ("one level", under(v, last))):
                    st = start_of(t)
                    if st is None:
                        rep.und(cname + ", " + w + ": starts from the caller's x", wfn(f), show(t)[:400])
                    else:
                        rep.check(st is x0, cname + ", " + w + ": starts from the caller's x", wfn(f),
                                  "starts from " + show(st)[:300])
        # a vector handed to the recursive call may be garbage: covered by the level>0 cases
    for c in hier_ctors(p):
        for nl in (1, 2, 3):
            g = vn.Engine(p, contracts=spec.OPS)
            g.ptvals = {"max levels": num(nl)}
            g.enter(c)
            rep.fns(g)
            evs = [e for e in g.events if e.name == "mfmg::HierarchyHelpers::build_coarse_solver"]
            if not evs:
                rep.bad("coarse solver is built", wfn(c), "no coarse solver is built with %d levels" % nl)
                continue
            for e in evs:
                pl = e.mem
                pt = None
                saved = g.st
                g.st = pl
                for v in e.argv:
                    if v.op not in ("addr", "sym", "at", "fld"):
                        continue
                    w = g.read(g.deref(v, False))
                    if has_opts(w) or w.op in ("at", "sto"):
                        pt = w
                g.st = saved
                if pt is None:
                    rep.und("starting-solution option", e.where, "no option tree passed")
                    continue
                got = sel(pt, raw("str", "coarse.params.zero starting solution"))
                if nl == 1:
                    _, d = option_field(p, c, "is preconditioner")
                    if d is None:
                        continue
                    compare(rep, "one-level hierarchy tells the solver whether to zero its starting solution",
                            got, d, e.where, eng=g)
                else:
                    base = pt
                    while base.op == "sto":
                        base = base.a[0]
                    rep.check(got is sel(base, raw("str", "coarse.params.zero starting solution")),
                              "deeper hierarchies leave the starting-solution option alone (%d levels)" % nl,
                              e.where, "option set to " + show(got))
    rep.need(8, "Hierarchy")


def ptr_base(g, v):
    """for a pointer to a modified copy of an option tree: pointer to the original"""
    w = g.read(g.deref(v, False))
    while w.op == "sto":
        w = w.a[0]
    return w.a[0] if w.op == "at" else w


def has_opts(w):
    return bool(find_ops(w, "sto")) and "coarse.params" in show(w)


def depends(t, x0):
    """does the content (not just the size) of x0 enter t"""
    seen = set()

    def w(t):
        if t is x0:
            return True
        if t.id in seen or t.op == "len":
            return False
        seen.add(t.id)
        return any(wa(y) for y in t.a)

    def wa(y):
        if isinstance(y, T):
            return w(y)
        if isinstance(y, tuple):
            return any(wa(z) for z in y)
        return False
    return w(t)


def start_of(t):
    """first iterate of a cycle result"""
    while True:
        if t.op == "iter":
            t = t.a[1]
        elif t.op == "solved" or t.op == "smooth":
            t = t.a[-1]
        elif t.op == "poly":
            c = [a for m, k in t.a for a, e in m if a.op == "iter"]
            d = [a for a in c]
            if len(d) != 1:
                return None
            t = d[0]
        elif t.op in ("sym", "arr"):
            return t
        else:
            return None


def c03(p, rep):
    for c in hier_ctors(p):
        for nl in (1, 2, 3, 4):
            for fast in (FALSE, TRUE):
                g = vn.Engine(p, contracts=dict(spec.OPS, **{"mfmg::create_hierarchy_helpers": spec.c_build}))
                g.ptvals = {"max levels": num(nl), "fast_ap": fast}
                g.enter(c)
                rep.fns(g)
                tag = "%d levels, %s product" % (nl, "fast" if fast is TRUE else "general")
                lv = levels_loc(p, c)
                val = g.read(lv)
                L = length(val)
                if not compare(rep, tag + ": number of levels", L, num(nl), wfn(c), eng=g):
                    continue
                ev = next((q["n"] for q in c.params if "MeshEvaluator" in q["t"].s), None)
                comm = next((q["n"] for q in c.params if q["t"].s in ("ompi_communicator_t *", "int") or
                             "communicator" in q["t"].s), None)
                par = next((q["n"] for q in c.params if "ptree" in q["t"].s), None)
                evaluator, params = raw("sym", ev), raw("sym", par)

                def get(i, n):
                    return getter(p, g, c, EL(lv, num(i)), n)

                def made(v, tag_, args, name, where):
                    if v.op == "ite":
                        v = g.simp(v)
                    if v.op != "made" or v.a[0] != tag_:
                        (rep.und if opaque_heads(v) else rep.bad)(name, where, "is %s" % show(v)[:400])
                        return False
                    got = list(v.a[3:]) + [ptr_base(g, a) for a in v.a[3:] if isinstance(a, T) and a.op == "addr"]
                    return rep.check(all(a in got for a in args), name, where,
                                     "built from %s" % [show(a)[:120] for a in v.a[3:]])
                A = get(0, "get_operator")
                made(A, "get_global_operator", (evaluator,), tag + ": level 0 operator is the global operator", wfn(c))
                for i in range(nl):
                    A = get(i, "get_operator")
                    w = "%s: level %d" % (tag, i)
                    if i < nl - 1:
                        made(get(i, "get_smoother"), "build_smoother", (A, params),
                             w + " has a smoother for its operator", wfn(c))
                    else:
                        made(get(i, "get_solver"), "build_coarse_solver", (A, params),
                             w + " has a solver for its operator", wfn(c))
                    if i > 0:
                        R = get(i, "get_restrictor")
                        if not made(R, "build_restrictor", (evaluator, params) + ((raw("sym", comm),) if comm else ()),
                                    w + " has a restriction", wfn(c)):
                            continue
                        prev = get(i - 1, "get_operator")
                        if fast is TRUE:
                            ar = raw("fastmt", raw("state", "build_restrictor", R))
                        else:
                            ar = raw("prodT", prev, R)
                        compare(rep, w + " operator is R (A R^T)", A, raw("prod", R, ar), wfn(c), eng=g)
    rep.need(20, "Hierarchy constructor")
