"""C17 parameter conversion, C33 options, C18 timers."""
import re
import vn
import spec
from core import *
from rules_flow import sweep, roots

PL = "Teuchos::ParameterList"
TYPES = ("int", "double", "bool")


def plain(e):
    """operation on a parameter list: set, sublist, assignment, ..."""
    return e.name.rsplit("::", 1)[-1]


def kind_of(e):
    """the type under which `set` stores its value"""
    t = (e.targs or [None])[0]
    s = t.s if hasattr(t, "s") else str(t) if t is not None else ""
    if not s and e.fn is not None and len(e.fn.ptypes) > 1:
        s = e.fn.ptypes[1].s
    s = s.replace("const", "").replace("&", "").strip()
    return "string" if "string" in s or "char" in s else s


def loop_over(g, e):
    """loop information of the innermost loop around an event"""
    if not e.loops:
        return None
    return e.loops[-1]


def convert(rep, g, f, tree, lst, root, todo):
    w = wfn(f)
    tag = f.name + ": "
    evs = [e for e in g.events if e.kind in ("ext", "rec", "virt") and (
        e.name.startswith(PL) or e.kind == "rec" or "ParameterList" in e.name or "Xml" in e.name or "XML" in e.name)]
    ops = [e for e in evs if plain(e) in ("set", "sublist") and e.name.startswith(PL)]
    rec = [e for e in evs if e.kind == "rec"]
    xml = [e for e in g.events if re.search(r"xml", e.name, re.I)]
    rep.check(not xml, tag + "the list is built entry by entry, not from markup", xml[0].where if xml else w,
              "goes through " + (xml[0].name if xml else ""))
    if xml:
        return
    if not ops:
        rep.und(tag + "entries of the list", w, "no call sets a parameter")
        return
    # the element of the tree that is converted
    el = set()
    for e in ops + rec:
        for a in list(e.argv) + [c for c, _ in e.pc]:
            if a is None:
                continue
            for x in subterms(a):
                if x.op in ("at2", "elem", "idx", "el", "get") or x.op == "fld" and x.a[-1] in ("first", "second"):
                    if x.op == "fld" and x.a[-1] in ("first", "second"):
                        el.add(x.a[0])
    base = [x for x in el if tree in list(subterms(x))]
    if len(set(base)) != 1:
        rep.und(tag + "entries of the list", w, "the children are not visited one by one: %s" %
                [show(x)[:60] for x in el][:4])
        return
    c = base[0]
    name, node = fld(c, "first"), fld(c, "second")
    leafa = [x for e in ops for q, _ in e.pc for x in subterms(q) if x.op == "eq0" and
             any(y is fld(node, "%kids") for y in subterms(x))]
    parse = {}
    for e in ops:
        for q, _ in e.pc:
            for x in subterms(q):
                if x.op == "has" and x.a[0].op == "optparse" and x.a[0].a[0] is node:
                    parse[str(x.a[0].a[1] if not isinstance(x.a[0].a[1], T) else show(x.a[0].a[1]))] = x
    if len(set(leafa)) != 1:
        rep.und(tag + "entries of the list", w, "leaves are not told from inner nodes by their children")
        return
    leaf = leafa[0]
    skip = {}
    if root:
        for q in {x for e in ops for c_, _ in e.pc for x in subterms(c_) if x.op == "eq0"}:
            if tree in list(subterms(q)) and c not in list(subterms(q)):
                skip[q] = False                    # the tree is not empty: it has this child
    # every child is visited
    for e in ops[:1]:
        l = loop_over(g, e)
        if l is None:
            rep.und(tag + "every child is converted", e.where, "not in a loop")
            continue
        n0 = getattr(l, "N0", None) or l.N
        br = list(l.breaks)
        s = show(n0)
        full = "len(" in s and tree in list(subterms(n0)) and n0.op in ("len", "poly") and "-" not in s
        if br:
            rep.bad(tag + "every child is converted", e.where, "the loop over the children is left early")
        elif full:
            rep.ok(tag + "every child is converted", e.where, s)
        else:
            rep.und(tag + "every child is converted", e.where, "the loop runs %s times" % s[:200])
    # what each kind of node becomes
    cases = [("an inner node", {leaf: False}, "sublist")]
    for i, t in enumerate(TYPES):
        lits = {leaf: True}
        for u in TYPES[:i]:
            if u in parse:
                lits[parse[u]] = False
        if t in parse:
            lits[parse[t]] = True
        cases.append(("a leaf that reads as %s" % t, lits, t))
    lits = {leaf: True}
    for t in TYPES:
        if t in parse:
            lits[parse[t]] = False
    cases.append(("any other leaf", lits, "string"))
    extra = sorted(t for t in parse if t not in TYPES)
    for what, lits, want in cases:
        for t in extra:                            # other types tried: whatever they say
            pass
        lits = {**lits, **skip}
        on = [(e, restrict(e.guard, lits)) for e in ops]
        on = [(e, q) for e, q in on if not infeasible(q)]
        nm = tag + "%s becomes %s of its name" % (what, "a sublist" if want == "sublist" else "a parameter (%s)" % want)
        if want in TYPES and want not in parse:
            wrong = [e for e, q in on if plain(e) == "set" and kind_of(e) != want]
            rep.bad(nm, (wrong or ops)[0].where, "it is never tried whether a leaf reads as " + want)
            continue
        if not on:
            rep.bad(nm, w, "nothing is set for it")
            continue
        cov = or_(*[q for _, q in on])
        left = not_(cov)
        if not infeasible(left):
            hard = [h for h in opaque_heads(left)]
            (rep.und if hard else rep.bad)(nm, on[0][0].where, "nothing is set for it if " + show(left)[:300])
            continue
        bad = False
        for e, q in on:
            if plain(e) == "sublist":
                good, v = want == "sublist", "a sublist"
            else:
                v = e.argv[1] if len(e.argv) > 1 else raw("unk", "value")
                k = kind_of(e)
                exp = raw("pdata", node) if want == "string" else None
                good = want == k and (v is exp or want != "string" and v.op == "val" and v.a[0].op == "optparse" and
                                      v.a[0].a[0] is node and want == str(v.a[0].a[1] if not isinstance(
                                          v.a[0].a[1], T) else show(v.a[0].a[1])))
                if want == "string" and v.op == "val" and v.a[0].op == "optparse" and v.a[0].a[0] is node and \
                        k == "string":
                    good = True
                v = "%s as %s" % (show(v)[:200], k)
            if not good:
                bad = True
                un = [h for h in (opaque_heads(e.argv[1]) if len(e.argv) > 1 and e.argv[1] is not None else set())]
                (rep.und if un else rep.bad)(nm, e.where, "becomes " + str(v))
            elif e.argv[0] is not name:
                bad = True
                (rep.und if opaque_heads(e.argv[0]) else rep.bad)(nm, e.where, "under the name " + show(e.argv[0])[:200])
        if not bad:
            rep.ok(nm, on[0][0].where)
    # inner nodes go on in the same way
    sub = [e for e in ops if plain(e) == "sublist"]
    for e in rec:
        callee = e.fn
        into = [a for a in e.argv if a is not None and any(
            x.op.startswith("res_") and "sublist" in x.op for x in subterms(a))]
        frm = [a for a in e.argv if a is node]
        lits = {leaf: False, **skip}
        q = restrict(e.guard, lits)
        good = bool(into) and bool(frm) and infeasible(not_(q))
        (rep.ok if good else rep.und if not frm else rep.bad)(
            tag + "the children of an inner node go into its sublist", e.where,
            "" if good else "called with %s if %s" % ([show(a)[:100] for a in e.argv if a is not None], show(e.guard)[:200]))
        if callee is not None:
            todo.append(callee)
    if sub and not rec:
        rep.bad(tag + "the children of an inner node go into its sublist", sub[0].where, "they are not converted")


def c17(p, rep):
    fs = [f for f in p.fns if f.repo and f.body is not None and f.qn == "mfmg::ptree2plist"]
    if not fs:
        raise Broken("no mfmg::ptree2plist")
    todo, done = list(fs), set()
    while todo:
        f = todo.pop()
        if f.key in done:
            continue
        done.add(f.key)
        g = vn.Engine(p, contracts=spec.OPS)
        g.enter(f)
        rep.fns(g)
        pn = [x for x in f.params]
        tree = lst = None
        for i, x in enumerate(f.params):
            nm = x["n"] if isinstance(x, dict) else x.n
            if "property_tree" in f.ptypes[i].s or "ptree" in f.ptypes[i].s:
                tree = nm
            elif "ParameterList" in f.ptypes[i].s:
                lst = nm
        if tree is None:
            rep.und("parameter conversion", wfn(f), "no tree argument")
            continue
        tt = None
        for e in g.events:
            for a in list(e.argv) + [c for c, _ in e.pc]:
                if a is None:
                    continue
                for x in subterms(a):
                    if x.op in ("par", "in", "sym", "var") and str(x.a[0]) == tree:
                        tt = x
        if tt is None:
            rep.und("parameter conversion", wfn(f), "the tree is not looked at")
            continue
        convert(rep, g, f, tt, lst, f in fs, todo)
        # starts from an empty list
        if f in fs and lst is not None:
            first = next((w for w in g.writes if show(w[0]) in ("&@" + lst, "@" + lst)), None)
            v0 = first[1] if first else None
            good = v0 is not None and v0.op == "made" and not first[2]
            nm = f.name + ": the list holds nothing but what the tree holds"
            if good:
                rep.ok(nm, wfn(f))
            elif v0 is not None and (v0.op.startswith("upd_") and not g.unk):
                rep.bad(nm, wfn(f), "entries of the list given are kept")
            else:
                rep.und(nm, wfn(f), show(v0)[:200] if v0 is not None else "never written")
    rep.need(12, "parameter conversion")
