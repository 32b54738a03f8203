"""C18 timer sections."""
import spec
from core import *
from vn import Engine
from rules_flow import walk

ENTER, LEAVE = "dealii::TimerOutput::enter_subsection", "dealii::TimerOutput::leave_subsection"


def key(f):
    return (getattr(f, "file", None), getattr(f, "line", None), f.qn, f.name, tuple(t.s for t in f.ptypes or []))


def graph(p):
    """repository functions and the functions each calls"""
    g = {}
    for f in p.fns:
        if f.body is None or not f.repo:
            continue
        out = g.setdefault(key(f), (f, {}))[1]

        def v(n):
            c = n.get("fn")
            if c is not None and hasattr(c, "qn"):
                out[key(c)] = c
        walk(f.body, v)
        walk(getattr(f, "inits", None) or [], v)
    return g


def uses_timer(f):
    return f.base in (ENTER, LEAVE) or f.qn.startswith("dealii::TimerOutput::Scope")


def entries(p):
    """functions to balance: those from which a section is entered or left and that no other function calls, and
    those that call themselves; and destructors that enter or leave sections"""
    g = graph(p)
    reach = {k for k, (f, out) in g.items() if any(uses_timer(c) for c in out.values())}
    while True:
        more = {k for k, (f, out) in g.items() if k not in reach and any(c in reach for c in out)}
        if not more:
            break
        reach |= more
    called = {}
    for k in reach:
        for c in g[k][1]:
            if c in reach:
                called.setdefault(c, set()).add(k)

    def cyc(k):
        seen, todo = set(), [k]
        while todo:
            for c in g[todo.pop()][1]:
                if c == k:
                    return True
                if c in reach and c not in seen:
                    seen.add(c)
                    todo.append(c)
        return False
    out, dt = [], []
    for k in reach:
        f = g[k][0]
        if f.kind == "dtor":
            dt.append(f)
        elif (f.cls or "").startswith("lambda@"):
            continue
        elif not called.get(k, set()) - {k} or cyc(k):
            out.append(f)
    return sorted(out, key=lambda f: (f.file, f.line, f.ct.s if f.ct else "")), dt, len(reach)


def c18(p, rep):
    fs, dt, n = entries(p)
    seen = set()
    for f in fs:
        g = Engine(p, contracts=spec.OPS)
        g.enter(f)
        rep.fns(g)
        balance(rep, g, f, dt)
    rep.need(6, "timer sections")


def timers(g):
    return [e for e in g.events if e.name in (ENTER, LEAVE)]


def obj(e):
    o = e.obj
    return o


def atoms_of(ds):
    out = []
    for d in ds:
        for lits in bool_paths(d, 256) or []:
            for a in lits:
                if a not in out:
                    out.append(a)
    return out


def assignments(ds, cap=2048):
    """the consistent ways to decide all atoms the diagrams in ds depend on"""
    res = []

    def go(i, ds_, lits):
        if len(res) > cap:
            return
        left = [d for d in ds_ if d is not TRUE and d is not FALSE]
        if not left:
            if not contradictory(lits):
                res.append(lits)
            return
        a = left[0].a[0] if left[0].op == "ite" else left[0]
        for b in (True, False):
            go(i + 1, [assume1(d, a, b) for d in ds_], {**lits, a: b})
    go(0, list(ds), {})
    return res if len(res) <= cap else None


def assume1(d, a, b):
    if d.op != "ite":
        return (TRUE if b else FALSE) if d is a else d
    if d.a[0] is a:
        return assume1(d.a[1] if b else d.a[2], a, b)
    x, y = assume1(d.a[1], a, b), assume1(d.a[2], a, b)
    return x if x is y else ite(d.a[0], x, y)


def balance(rep, g, f, dt):
    ts = timers(g)
    nm = "%s leaves every section it enters" % f.name
    throws = [e for e in g.events if e.name == "throw"]
    for e in ts:
        n1 = "nothing is done without a timer"
        o = e.obj
        t = o.a[0] if o is not None and o.op == "ptr" else None
        if t is None:
            rep.ok(n1, e.where, "not a pointer")
            continue
        paths = bool_paths(e.guard)
        at = raw("nonnull", t)
        if paths is None:
            rep.und(n1, e.where, "paths")
        elif all(l.get(at) for l in paths):
            rep.ok(n1, e.where)
        elif any(set(l) and any(t in set(subterms(a)) for a in l) for l in paths):
            rep.und(n1, e.where, show(e.guard)[:200])
        else:
            rep.bad(n1, e.where, "%s is used although it may be null" % show(t)[:100])
    if not ts:
        return
    if dt:
        return rep.und(nm, wfn(f), "%s runs when an object goes out of scope" % dt[0].qn[:100])
    asg = assignments([e.guard for e in ts] + [e.guard for e in throws])
    if asg is None:
        return rep.und(nm, wfn(f), "too many paths")
    ev = sorted(ts, key=g.events.index)
    doubt = None
    for lits in asg:
        if any(decide(e.guard, lits) for e in throws):
            continue
        for o in {id(e.obj): e.obj for e in ev if e.obj is not None}.values():
            r = run([e for e in ev if e.obj is o], lits, 0)
            if r is None:
                continue
            verdict, e, what = r
            cond = " and ".join(("" if b else "not ") + show(a)[:120] for a, b in lits.items() if a.op != "nonnull")
            if verdict == "und" or doubtful(lits):
                doubt = doubt or (e.where, what + " under " + cond[:400])
            else:
                return rep.bad(nm, user(e), what + (" when " + cond[:500] if cond else ""))
    if doubt:
        return rep.und(nm, *doubt)
    rep.ok(nm, wfn(f), "%d events, %d paths" % (len(ts), len(asg)))
    for e in ev:
        if e.name == ENTER:
            rep.ok("section %s" % show(e.argv[0]), user(e))


def user(e):
    return e.where


def doubtful(lits):
    """conditions that may exclude each other in ways not understood here"""
    num_ = [variables(a) for a in lits if a.op in ("eq0", "lt0", "eq")]
    for i, a in enumerate(num_):
        for b in num_[i + 1:]:
            if a and b and (a <= b or b <= a):
                return True
    return any(a.op == "unk" or any(x.op == "unk" for x in subterms(a)) for a in lits)


def variables(a):
    """the quantities a comparison is about"""
    if a.op == "eq":
        return {x for x in a.a if isinstance(x, T) and x.op not in ("str", "int", "num", "cst")}
    return {f for mono in todict(a.a[0]) for f in factors_(mono)}


def factors_(m):
    if isinstance(m, T):
        return [m]
    return [x[0] if isinstance(x, tuple) else x for x in m]


def decide(d, lits):
    for a, b in lits.items():
        d = assume1(d, a, b)
    return d is TRUE


def run(ev, lits, depth):
    """(verdict, event, text) of the first thing wrong with the sections, or None"""
    stack = []
    i = 0
    while i < len(ev):
        e = ev[i]
        if len(e.loops) > depth:
            l = e.loops[depth]
            j = i
            while j < len(ev) and len(ev[j].loops) > depth and ev[j].loops[depth] is l:
                j += 1
            r = run(ev[i:j], lits, depth + 1)
            if r is not None:
                return r[0], r[1], r[2] + " in a round of the loop"
            i = j
            continue
        i += 1
        if not decide(e.guard, lits):
            continue
        if e.name == ENTER:
            stack.append(e)
            continue
        if not stack:
            return "bad", e, "a section is left that was not entered here"
        top = stack.pop()
        nm = e.argv[0] if e.argv else None
        if nm is not None and nm.op != "dflt" and nm is not top.argv[0]:
            if nm.op == "str" and top.argv[0].op == "str":
                return "bad", e, "section %s is left while %s is the innermost" % (show(nm), show(top.argv[0]))
            return "und", e, "section %s" % show(nm)[:100]
    if stack:
        return "bad", stack[-1], "section %s is not left" % show(stack[-1].argv[0])
    return None
