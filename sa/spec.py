"""Meaning of the library's own virtual interfaces (each is the subject of a check)."""
from terms import *
from vn import Engine, F, EL, THIS, ptr, addr
import vn


def mode_of(g, vals):
    t = raw("enum", "mfmg::OperatorMode::TRANS")
    n = raw("enum", "mfmg::OperatorMode::NO_TRANS")
    if len(vals) < 3:
        return FALSE
    m = vals[2]
    if m is t:
        return TRUE
    if m is n:
        return FALSE
    return eq(m, t)


def vecmark(t):
    for m in [t]:
        if m.op not in ("poly", "ite"):
            VEC.add(m.id)
    return t


def c_op_apply(g, f, oloc, oid, locs, vals, ev):
    x = vals[0]
    c = mode_of(g, vals)
    y = ite(c, lin(tr(oid), x), lin(oid, x))
    g.write(locs[1], y)
    ev.out.append((locs[1], y))
    return ("v", raw("void"))


def c_smooth(g, f, oloc, oid, locs, vals, ev):
    y = vecmark(raw("smooth", oid, vals[0], vals[1]))
    g.write(locs[1], y)
    ev.out.append((locs[1], y))
    return ("v", raw("void"))


def c_solve(g, f, oloc, oid, locs, vals, ev):
    y = lin(raw("inv", oid), vals[0])
    y = vecmark(raw("solved", y, vals[1])) if getattr(g, "solve_keeps_guess", False) else y
    g.write(locs[1], y)
    ev.out.append((locs[1], y))
    return ("v", raw("void"))


def fresh_ptr(g, tag, *info):
    """pointer to an object made by this very call"""
    g.uid += 1
    if g.loops:
        p = raw("made", tag, g.uid, tuple(l.k for l in g.loops), *info)
    else:
        p = raw("made", tag, g.uid, (), *info)
    return p


def c_build_vector(g, f, oloc, oid, locs, vals, ev):
    p = fresh_ptr(g, f.name, oid)
    v = raw("garbage", p)
    VEC.add(v.id)
    g.write(ptr(p), v, True)
    return ("v", p)


def c_build(g, f, oloc, oid, locs, vals, ev):
    p = fresh_ptr(g, f.name, *[v for v in vals])
    if oloc is not None and not f.const:
        g.write(oloc, raw("state", f.name, p))
    return ("v", p)


def c_prod(g, f, oloc, oid, locs, vals, ev):
    return ("v", raw("prod" if f.name == "multiply" else "prodT", oid, vals[0]))


def c_fast(g, f, oloc, oid, locs, vals, ev):
    st = g.read(oloc)
    return ("v", raw("fastmt", st))


def c_rec(g, f, oloc, oid, locs, vals, ev):
    """recursive application of the cycle: by its own specification"""
    bi = xi = li = None
    for i, pt in enumerate(f.ptypes):
        if pt.ref and "Vector" in (pt.cls or ""):
            if pt.const:
                bi = i
            else:
                xi = i
        elif pt.isint():
            li = i
    if bi is None or xi is None or li is None:
        return None
    y = lin(raw("cyc", oid, vals[li]), vals[bi])
    g.write(locs[xi], y)
    ev.out.append((locs[xi], y))
    return ("v", raw("void"))


OPS = {
    "mfmg::Operator::apply": c_op_apply,
    "mfmg::Operator::multiply": c_prod,
    "mfmg::Operator::multiply_transpose": c_prod,
    "mfmg::Operator::build_domain_vector": c_build_vector,
    "mfmg::Operator::build_range_vector": c_build_vector,
    "mfmg::Smoother::apply": c_smooth,
    "mfmg::Solver::apply": c_solve,
    "mfmg::HierarchyHelpers::get_global_operator": c_build,
    "mfmg::HierarchyHelpers::build_restrictor": c_build,
    "mfmg::HierarchyHelpers::build_smoother": c_build,
    "mfmg::HierarchyHelpers::build_coarse_solver": c_build,
    "mfmg::HierarchyHelpers::fast_multiply_transpose": c_fast,
}
