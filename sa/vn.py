"""Gated value numbering over the extracted program (see DESIGN.md).

One pass over the statements of a function computes the value term of every
storage location; branches merge into decision diagrams, loops are summarised by
recurrences that are put in closed form where possible.  Library functions and
lambdas are inlined; calls that leave the library become modelled operations or
events.  Nothing is executed and no path is enumerated."""
import load
from load import Fn, Type
from terms import *
from fractions import Fraction

THIS = raw("var", "this")


class Event:
    __slots__ = ("kind", "name", "fn", "obj", "objv", "args", "argv", "pc", "loops", "res",
                 "file", "line", "stack", "par", "mem", "seq", "out", "targs", "node", "objt",
                 "phase", "argt", "cargs", "cls")

    def __repr__(self):
        return "%s %s(%s) @%s:%s" % (self.kind, self.name,
                                     ", ".join(show(v) for v in self.argv), short(self.file), self.line)

    @property
    def guard(self):
        return and_(*[c for c, k in self.pc if k != "as"])

    @property
    def where(self):
        return "%s:%d" % (short(self.file), self.line or 0)


class Call:
    __slots__ = ("fn", "node", "name", "pc", "loops", "par", "phase", "file", "line", "inside")
    guard = Event.guard
    where = Event.where


def short(f):
    return f.replace(load.REPO + "/", "") if f else "?"


class Loop:
    def __init__(self):
        self.k = None          # counter symbol
        self.N = None          # trip count
        self.uid = None
        self.kind = None
        self.domain = None     # container term iterated over, if any
        self.phis = {}         # key -> (phi, init, next)
        self.breaks = []       # (relative guard, state, kind)
        self.line = None
        self.file = None
        self.par = False
        self.forms = {}
        self.pc = ()


class State:
    __slots__ = ("mem", "umem", "pc", "kids")

    def __init__(self):
        self.mem = {}
        self.umem = []
        self.pc = ()
        self.kids = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.umem = list(self.umem)
        s.pc = self.pc
        s.kids = dict(self.kids)
        return s


def chain(t, n=8):
    """the operations t consists of, going down its first operands"""
    r = []
    while isinstance(t, T) and n:
        r.append(t.op)
        t = next((x for x in t.a if isinstance(x, T)), None)
        n -= 1
    return " ".join(r)


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.this = None
        self.rets = []         # (state, value)
        self.pc0 = 0
        self.refret = False
        self.loopx = []        # stack of loop exit collectors
        self.file = fn.file if fn else None
        self.throws = 0


def uidof(loc):
    """number of a local location, 0 for anything that was there before"""
    if loc.op == "var" and "#" in loc.a[0]:
        return int(loc.a[0].rsplit("#", 1)[1])
    return 0


def refers(v, loc):
    """the value holds a pointer to (a part of) loc"""
    for x in subterms(v):
        if x.op == "addr":
            r = x.a[0]
            while r.op in ("f", "el"):
                r = r.a[0]
            if r is loc:
                return True
    return False


class Undecided(Exception):
    pass


def root(loc):
    while loc.op in ("f", "el"):
        loc = loc.a[0]
    return loc


def pathhas(loc):
    while loc.op in ("f", "el"):
        if loc.op == "el":
            return True
        loc = loc.a[0]
    return False


def F(loc, f):
    if loc.op == "lite":
        return raw("lite", loc.a[0], F(loc.a[1], f), F(loc.a[2], f))
    return raw("f", loc, f)


def EL(loc, i):
    if loc.op == "lite":
        return raw("lite", loc.a[0], EL(loc.a[1], i), EL(loc.a[2], i))
    if i.op == "ite":
        return lift_loc(lambda x: raw("el", loc, x), i)
    return raw("el", loc, i)


def lift_loc(f, t):
    if t.op == "ite":
        a, b = lift_loc(f, t.a[1]), lift_loc(f, t.a[2])
        return a if a is b else raw("lite", t.a[0], a, b)
    return f(t)


def addr(loc):
    if loc.op == "lite":
        return ite(atomb(loc.a[0]), addr(loc.a[1]), addr(loc.a[2]))
    if loc.op == "ptr":
        return loc.a[0]
    return raw("addr", loc)


MAXDEPTH = 14


def jumps(s, brk=True, cont=True):
    """does the statement break out of, or continue, the loop it is the body of"""
    if isinstance(s, list):
        return any(jumps(x, brk, cont) for x in s)
    if not isinstance(s, dict):
        return False
    k = s.get("k")
    if k == "break":
        return brk
    if k == "continue":
        return cont
    if k in ("for", "while", "do", "rfor", "lambda"):
        return False
    if k == "switch":
        brk = False
    return any(jumps(x, brk, cont) for x in s.values() if isinstance(x, (dict, list)))


class Engine:
    def __init__(self, prog, inline=None, opaque=(), dyn=None, contracts=None):
        self.p = prog
        self.events = []
        self.st = State()
        self.frames = []
        self.uid = 0
        self.loops = []            # active loops
        self.all_loops = []
        self.opaque = set(opaque)  # bases never inlined
        self.dyn = dyn or {}       # location -> class type string
        self.clos = {}
        self.wlogs = []
        self.rlog = None
        self.par = 0
        self.unk = []              # unmodelled constructs met
        self.derefs = []           # (pointer term, pc, file, line)
        self.uses = []             # (pointer to an object made here, event index, file, line, guard)
        self.stores = []           # every store outside plain locals: (loc, value, file, line)
        self.spans = []            # calls: (function, uid before, uid after, store before, store after, value)
        self.binds = []            # references and raw pointers bound: (name, loc, uid before, uid after, kept, file, line)
        self.rawnew = set()        # objects made by a new-expression
        self.mats = set()          # temporaries the language materialises
        self.loopcache = {}
        self.undef_reads = []
        self.contracts = contracts or {}
        self.ptvals = {}           # assumed values of configuration keys
        self.inlined = set()
        self.visited = set()
        self.narrow = []
        self.arrcopy = None
        self.phase = None
        self.dry = 0
        self.evseq = 0
        self.ctors = {}            # local variable -> event of its construction
        self.inner = {}         # location of a reference into a container that is not modelled -> that container
        self.result = None
        self.writes = []           # (loc, value, pc, loops, file, line, par)
        self.static_writes = []
        self.steps = 0
        self.line = 0
        self.colls = []
        self.streams = {}          # loop -> worker, copier, scratch, copy object, counter
        self.calls = []            # every call that leaves the analysed code
        import models
        self.models = models

    # -- memory ------------------------------------------------------------
    def fresh(self, name):
        self.uid += 1
        return raw("var", "%s#%d" % (name, self.uid))

    def init_value(self, loc):
        """initial content of a root location"""
        if loc.op == "ptr":
            return raw("at", loc.a[0])
        if loc.op == "var":
            n = loc.a[0]
            if n == "this":
                return raw("sym", "this")
            if n.startswith("@"):
                return raw("sym", n[1:])
            return raw("undef", n)
        if loc.op == "glob":
            return raw("sym", "::" + loc.a[0])
        if loc.op == "new":
            return raw("undef", loc)
        return raw("init", loc)

    def read(self, loc):
        if loc.op == "lite":
            return ite(atomb(loc.a[0]), self.read(loc.a[1]), self.read(loc.a[2]))
        v = self._read(loc)
        if self.st.pc and v.op == "ite":
            v = self.simp(v)
        return v

    def simp(self, v):
        return restrict(v, self.lits())

    def lits(self):
        pc = self.st.pc
        c = getattr(self, "_litc", None)
        if c is not None and c[0] is pc:
            return c[1]
        d = {}
        for g, k in pc:
            literals(g, d)
        self._litc = (pc, d)
        return d

    def _read(self, loc):
        st = self.st
        if loc.op == "el":
            return sel(self._read(loc.a[0]), loc.a[1])
        if loc in st.mem and loc not in st.kids:
            return st.mem[loc]
        v = self._base(loc)
        ks = st.kids.get(loc)
        if ks:
            its = []
            for f in sorted(ks):
                its.append((f, self._read(raw("f", loc, f))))
            v = rec(v, its)
        return v

    def _base(self, loc):
        st = self.st
        v = st.mem.get(loc)
        if v is not None:
            return v
        if loc.op == "f":
            if pathhas(loc):
                return fld(self._read(loc.a[0]), loc.a[1])
            # field of a keyed location
            b = self._base(loc.a[0])
            v = fld(b, loc.a[1])
            u = self.ulook(loc) if st.umem else None
            return u if u is not None else v
        if loc.op == "el":
            return self._read(loc)
        u = self.ulook(loc) if st.umem else None
        return u if u is not None else self.init_value(loc)

    def ulook(self, loc):
        for pat, ks, v, lp in reversed(self.st.umem):
            b = {}
            if match(pat, loc, ks, b):
                return subst(v, b)
        return None

    def write(self, loc, v, silent=False):
        if loc.op == "lite":
            c = atomb(loc.a[0])
            a, b = self.read(loc.a[1]), self.read(loc.a[2])
            self.write(loc.a[1], ite(c, v, a), silent)
            self.write(loc.a[2], ite(c, b, v), silent)
            return
        if loc.op == "f" and pathhas(loc):
            self.write(loc.a[0], setf(self._read(loc.a[0]), loc.a[1], v), silent)
            return
        if loc.op == "el":
            self.write(loc.a[0], sto(self._read(loc.a[0]), loc.a[1], v), silent)
            return
        st = self.st
        for w in self.wlogs:
            w.add(loc)
        if not self.dry and (loc.op != "var" or loc.a[0].startswith("@")):
            self.stores.append((loc, v, self.file(), self.line))
        if not silent and not self.dry:
            self.writes.append((loc, v, st.pc, tuple(self.loops), self.file(), self.line, self.par))
        # drop sub-keys
        if loc in st.kids:
            for f in st.kids[loc]:
                self._drop(raw("f", loc, f))
            del st.kids[loc]
        st.mem[loc] = v
        x = loc
        while x.op == "f":
            p, f = x.a
            ks = st.kids.get(p)
            if ks is None:
                st.kids[p] = frozenset((f,))
            elif f in ks:
                break
            else:
                st.kids[p] = ks | {f}
            x = p

    def _drop(self, loc):
        st = self.st
        st.mem.pop(loc, None)
        ks = st.kids.pop(loc, None)
        if ks:
            for f in ks:
                self._drop(raw("f", loc, f))

    def deref(self, p, note=True):
        """location designated by a pointer value"""
        if p.op == "ite":
            return lift_loc(lambda x: self.deref(x, note), p)
        if p.op == "addr":
            if note and not self.dry and p.a[0].op == "new":
                self.uses.append((p, len(self.events), self.file(), self.line))
            return p.a[0]
        if p.op == "itr":
            return EL(p.a[0], p.a[1]) if p.a[0].op != "val" else ptr(sel(p.a[0].a[0], p.a[1]))
        if note and not self.dry:
            self.derefs.append((p, self.st.pc, self.file(), self.line, len(self.events)))
        if p.op == "dyncast":
            return self.deref(p.a[1], False)
        return ptr(p)

    def file(self):
        return self.frames[-1].file if self.frames else None

    # -- guards ------------------------------------------------------------
    def merge(self, parts, pc):
        """parts: [(condition, state)], conditions disjoint and exhaustive; the
        last one needs no condition.  -> merged state with path condition pc"""
        if len(parts) == 1:
            s = parts[0][1]
            s.pc = pc
            return s
        out = State()
        keys = {}
        for c, s in parts:
            for k in s.mem:
                keys[k] = 1
            for k, v in s.kids.items():
                o = out.kids.get(k)
                out.kids[k] = v if o is None else o | v
        # umem: union in order
        um = list(parts[0][1].umem)
        for c, s in parts[1:]:
            for u in s.umem:
                if u not in um:
                    um.append(u)
        out.umem = um
        saved = self.st
        # a key with sub-keys in one part must be split in all
        for k in keys:
            vs = []
            for c, s in parts:
                if k in s.mem:
                    vs.append(s.mem[k])
                else:
                    self.st = s
                    vs.append(self._base(k))
            v = vs[-1]
            for (c, s), x in zip(reversed(parts[:-1]), reversed(vs[:-1])):
                if x is not v:
                    v = ite(c, x, v)
            out.mem[k] = v
        self.st = saved
        # whole written in one part, fields in another: restore field keys of parents
        for c, s in parts:
            for k, fs in s.kids.items():
                for f in fs:
                    kk = raw("f", k, f)
                    if kk not in out.mem and kk not in out.kids:
                        pass
        out.pc = pc
        return out

    def cond(self, e):
        c = self.ev(e)
        return self.tobool(c)

    def tobool(self, c):
        c = lift(self._tb, c)
        return self.simp(atomb(c))

    def nn(self, c):
        return atomb(raw("nonnull", c)) if c.op == "dyncast" else nonnull(c)

    def _tb(self, c):
        if isbool(c):
            return c
        if c.op == "poly" or isint(c):
            return not_(eq0(c))
        if c.op in ("null", "addr", "dyncast", "clo"):
            return nonnull(c) if c.op != "dyncast" else atomb(raw("nonnull", c))
        return atomb(c)

    # -- statements --------------------------------------------------------
    def ex(self, s):
        """execute; returns False when control does not continue"""
        if s is None:
            return True
        self.steps += 1
        if "l" in s:
            self.line = s["l"]
        k = s["k"]
        return getattr(self, "s_" + k, self.s_unknown)(s)

    def s_unknown(self, s):
        self.note("statement " + str(s.get("k")) + str(s.get("c", "")), s)
        return True

    def note(self, what, n=None):
        if not self.dry:
            self.unk.append((what, self.file(), (n or {}).get("l", self.line)))

    def s_block(self, s):
        for x in s["s"]:
            if not self.ex(x):
                return False
        return True

    def s_expr(self, s):
        e = s["e"]
        if isinstance(e, dict) and e.get("k") == "throw":
            self.ev(e)
            return False
        n = len(self.st.pc)
        if e is not None:
            self.evd(e)
        return self.st is not None and not getattr(self.st, "pc", None) is None and not self._dead()

    def _dead(self):
        return any(c is FALSE for c, k in self.st.pc)

    def evd(self, e):
        """evaluate for effect"""
        k = e["k"]
        if k in ("call",):
            self.call(e, want="x")
        elif k == "un" and e["op"] in ("++", "--", "p++", "p--"):
            self.ev(e)
        elif k in ("icast", "xcast"):
            self.evd(e["e"])
        elif k in ("ref",):
            pass
        elif k == "bin" and e["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "%=", "^="):
            self.assign(e)
        else:
            self.ev(e)

    def s_decl(self, s):
        for v in s["v"]:
            self.decl(v)
        return True

    def decl(self, v):
        fr = self.frames[-1]
        t = v.get("t")
        i = v.get("i")
        if v.get("bs"):
            return self.decomp(v)
        if v.get("static"):
            loc = raw("glob", "%s::%s" % (fr.fn.qn, v["n"]))
            fr.env[v["id"]] = loc
            if i is not None and loc not in self.st.mem:
                self.write(loc, self.ev(i), True)
            return
        if t is not None and t.ref:
            if i is None:
                fr.env[v["id"]] = self.fresh(v["n"])
            else:
                u0 = self.uid
                fr.env[v["id"]] = self.lv(i)
                self.bound(v["n"], fr.env[v["id"]], u0)
            return
        loc = self.fresh(v["n"])
        fr.env[v["id"]] = loc
        if i is not None and t is not None and t.ptr:
            u0 = self.uid
            self.construct_into(loc, i, t)
            x = self.st.mem.get(loc)
            if x is not None and x.op in ("addr", "made"):
                self.bound(v["n"], x.a[0] if x.op == "addr" else ptr(x), u0)
            return
        if i is None:
            self.write(loc, raw("undef", loc.a[0]), True)
            return
        self.construct_into(loc, i, t)

    def bound(self, name, loc, u0):
        """a reference or a raw pointer is bound to loc; if loc was made while doing so, does anything keep it?"""
        r = loc
        while r.op in ("f", "el"):
            r = r.a[0]
        p = addr(r)
        n = r.a[1] if r.op == "new" else 0
        if r.op == "ptr" and r.a[0].op == "made" and len(r.a[0].a) > 1 and isinstance(r.a[0].a[1], int):
            p, n = r.a[0], r.a[0].a[1]                     # made by a call known from its specification
        if self.dry or not u0 < n <= self.uid:
            return
        kept = False
        for l, v in self.st.mem.items():
            x = l
            while x.op in ("f", "el"):
                x = x.a[0]
            n = uidof(x)
            if x is r or x.op == "var" and (n > u0 or l.op == "var" and l.a[0].startswith("tmp#")):
                continue
            if x.op == "new" and x.a[1] > u0:
                continue
            if refers(v, r) or p.op == "made" and p in subterms(v):
                kept = True
                break
        self.binds.append((name, r, u0, self.uid, kept, self.file(), self.line))

    def construct_into(self, loc, i, t):
        """initialise loc from expression i (of type t)"""
        if i.get("k") == "ctor":
            f = i.get("fn")
            if f is not None and f.repo and f.body is not None and not (f.dflt and (f.cpy or f.mv)):
                self.dyn[loc] = t.s if t is not None else i["t"].s
                self.ctor_call(f, loc, i["a"], i)
                return
        if i.get("k") == "il" and t is not None and not t.arith:
            v = self.ev(i)
            self.write(loc, v, True)
            return
        n0 = len(self.events)
        v = self.ev(i, t)
        if i.get("k") == "ctor" and len(self.events) > n0 and self.events[-1].kind == "ctor":
            self.ctors[loc] = self.events[-1]
        self.write(loc, v, True)
        if t is not None:
            if t.cls and i.get("k") == "ctor":
                self.dyn[loc] = t.s
            self.markt(v, t)

    def markt(self, v, t):
        if t.isint():
            mark(v, True, bool(t.us))

    def decomp(self, v):
        fr = self.frames[-1]
        t = v["t"]
        if t.ref:
            loc = self.lv(v["i"])
        else:
            loc = self.fresh("dec")
            self.write(loc, self.ev(v["i"]), True)
        for j, b in enumerate(v["bs"]):
            if b.get("f"):
                fr.env[b["id"]] = F(loc, b["f"])
            else:
                l = self.fresh(b["n"])
                self.write(l, get(self.read(loc), j), True)
                fr.env[b["id"]] = l

    def s_if(self, s):
        if s.get("init"):
            self.ex(s["init"])
        if s.get("var"):
            self.decl(s["var"])
        c = self.cond(s["i"])
        return self.branch(c, lambda: self.ex(s["T"]),
                           (lambda: self.ex(s["F"])) if s.get("F") is not None else (lambda: True))

    def branch(self, c, ft, ff):
        if c is TRUE:
            return ft()
        if c is FALSE:
            return ff()
        st0 = self.st
        pc = st0.pc
        fr = self.frames[-1]
        th0 = fr.throws
        nret = len(fr.rets)
        lx = sum(len(x["out"]) for x in fr.loopx)
        st0.pc = pc + ((c, "br"),)
        sT = st0.copy()
        self.st = sT
        okT = ft() and not self._dead()
        sT = self.st
        onlythrowT = fr.throws > th0 and len(fr.rets) == nret and lx == sum(len(x["out"]) for x in fr.loopx)
        nret = len(fr.rets)
        lx = sum(len(x["out"]) for x in fr.loopx)
        th0 = fr.throws
        sF = st0.copy()
        sF.pc = pc + ((not_(c), "br"),)
        self.st = sF
        okF = ff() and not self._dead()
        sF = self.st
        onlythrowF = fr.throws > th0 and len(fr.rets) == nret and lx == sum(len(x["out"]) for x in fr.loopx)
        if okT and okF:
            self.st = self.merge([(c, sT), (None, sF)], pc)
            return True
        if okT:
            self.st = sT
            ex = sT.pc[len(pc) + 1:]
            sT.pc = pc + ((c, "as" if onlythrowF else "br"),) + ex
            return True
        if okF:
            self.st = sF
            ex = sF.pc[len(pc) + 1:]
            sF.pc = pc + ((not_(c), "as" if onlythrowT else "br"),) + ex
            return True
        self.st = st0
        return False

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            if fr.refret:
                v = self.lv(s["e"])
            else:
                e = s["e"]
                rt = fr.fn.ret
                if e.get("k") == "ctor" or (rt is not None and rt.cls and e.get("k") in ("il",)):
                    tmp = self.fresh("ret")
                    self.construct_into(tmp, e, rt)
                    v = self.read(tmp)
                elif rt is not None and rt.s == "void":
                    self.evd(e)
                else:
                    v = self.ev(e, rt)
        if self._dead():
            return False
        fr.rets.append((self.st, v))
        self.st = self.st.copy()
        return False

    def s_break(self, s):
        fr = self.frames[-1]
        if fr.loopx:
            fr.loopx[-1]["out"].append(("break", self.st.copy()))
        return False

    def s_continue(self, s):
        fr = self.frames[-1]
        for x in reversed(fr.loopx):
            if x["kind"] == "loop":
                x["out"].append(("continue", self.st.copy()))
                break
        return False

    def s_switch(self, s):
        v = self.ev(s["i"])
        # collect sections
        body = s["b"]["s"] if s["b"]["k"] == "block" else [s["b"]]
        secs = []   # (labels, stmts)
        cur = None

        def open_(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(None if x["k"] == "default" else self.ev(x["i"]))
                x = x["b"]
            return labels, x
        for x in body:
            if x["k"] in ("case", "default"):
                l, y = open_(x)
                cur = (l, [y] if y is not None else [])
                secs.append(cur)
            elif cur is not None:
                cur[1].append(x)
        fr = self.frames[-1]
        others = not_(or_(*[eq(v, l) for ls, _ in secs for l in ls if l is not None])) if secs else TRUE
        if not secs:
            return True
        hasdef = any(None in ls for ls, _ in secs)

        def run(i):
            while i < len(secs):
                for y in secs[i][1]:
                    if not self.ex(y):
                        return False
                i += 1
            return True
        coll = {"kind": "switch", "out": []}
        fr.loopx.append(coll)
        st0 = self.st
        pc = st0.pc
        done = []
        order = list(range(len(secs)))
        for i in order:
            c = or_(*[eq(v, l) if l is not None else others for l in secs[i][0]])
            self.st = st0.copy()
            c = self.simp(c)
            if c is FALSE:
                continue
            self.st.pc = pc + ((c, "br"),)
            if run(i):
                done.append((c, self.st))
            for kd, s2 in coll["out"]:
                done.append((rel(s2.pc, len(pc)), s2))
            coll["out"] = []
        fr.loopx.pop()
        if not hasdef:
            s2 = st0.copy()
            done.append((others, s2))
        done = [d for d in done if d[0] is not FALSE]
        if not done:
            self.st = st0
            return False
        cov = or_(*[c for c, _ in done])
        self.st = self.merge(done, pc if cov is TRUE else pc + ((cov, "br"),))
        return True

    def s_try(self, s):
        # handlers are analysed after the body, from the state at its entry
        st0 = self.st.copy()
        ok = self.ex(s["b"])
        stn = self.st
        outs = [(None, stn)] if ok else []
        for i, h in enumerate(s.get("h", [])):
            self.st = st0.copy()
            c = atomb(raw("caught", "%s:%s" % (self.file(), s["l"]), num(i)))
            self.st.pc = st0.pc + ((c, "br"),)
            if h.get("v"):
                self.frames[-1].env[h["v"]["id"]] = self.fresh("exc")
            if self.ex(h["b"]):
                outs.insert(0, (c, self.st))
        if not outs:
            return False
        self.st = self.merge(outs, st0.pc)
        return True

    def s_label(self, s):
        return self.ex(s["b"])

    def s_case(self, s):
        return self.ex(s["b"])

    s_default = s_case

    # -- loops -------------------------------------------------------------
    def s_for(self, s):
        if s.get("init"):
            self.ex(s["init"])
        return self.loop(s, lambda: self.cond(s["i"]) if s.get("i") is not None else TRUE,
                         lambda: self.ex(s["b"]),
                         (lambda: self.evd(s["inc"])) if s.get("inc") is not None else None)

    def s_while(self, s):
        def c():
            if s.get("var"):
                self.decl(s["var"])
            return self.cond(s["i"])
        return self.loop(s, c, lambda: self.ex(s["b"]), None)

    def s_do(self, s):
        if not jumps(s["b"]):
            # do S while (c)  ==  S; while (c) S
            if not self.ex(s["b"]):
                return False
            return self.loop(s, lambda: self.cond(s["i"]), lambda: self.ex(s["b"]), None)
        first = self.loop(s, lambda: TRUE, lambda: self.ex(s["b"]), None,
                          tail=lambda: self.cond(s["i"]))
        return first

    def s_rfor(self, s):
        r = s["r"]
        fr = self.frames[-1]
        v = s["v"]
        if r["k"] == "il" or (r["k"] == "ctor" and r["a"] and r["a"][0].get("k") == "il" and s["rt"].cls
                              and "initializer_list" in s["rt"].s):
            il = r if r["k"] == "il" else r["a"][0]
            for e in il["a"]:
                l = self.fresh(v["n"])
                self.construct_into(l, e, v["t"])
                fr.env[v["id"]] = l
                if not self.ex(s["b"]):
                    return False
            return True
        loc = self.lv(r)
        return self.foreach(s, loc, v, lambda: self.ex(s["b"]))

    def foreach(self, node, loc, v, body):
        fr = self.frames[-1]
        dom = self.read(loc)
        N = self.rlen(dom)
        handle = self.handle_range(dom)

        def pre(k):
            if handle:
                el = None
                ev = raw("sel", handle, k) if handle.op not in ("cat", "rep", "sto") else sel(handle, k)
                if v.get("bs"):
                    el = self.fresh("dec")
                    self.write(el, ev, True)
                else:
                    el = self.fresh(v["n"])
                    self.write(el, ev, True)
                    self.dyn_elem(el, v)
            else:
                el = EL(loc, k)
                if v["t"] is not None and not v["t"].ref:
                    x = self.fresh(v["n"])
                    val = self.read(el)
                    self.write(x, val, True)
                    self.markt(val, v["t"])
                    el = x
            if v.get("bs"):
                val = self.read(el)
                for j, b in enumerate(v["bs"]):
                    if b.get("f"):
                        fr.env[b["id"]] = F(el, b["f"])
                    elif v["t"].ref:
                        fr.env[b["id"]] = F(el, b.get("f") or ("first", "second")[j] if j < 2 else str(j))
                    else:
                        l = self.fresh(b["n"])
                        self.write(l, get(val, j), True)
                        fr.env[b["id"]] = l
            else:
                fr.env[v["id"]] = el
        return self.counted(node, N, pre, body, dom)

    def dyn_elem(self, el, v):
        pass

    def handle_range(self, dom):
        """ranges whose elements are handles (cells), not stored objects"""
        if dom.op in ("app", "range"):
            return dom
        return None

    def rlen(self, dom):
        return length(dom)

    def counted(self, node, N, pre, body, dom=None, par=False):
        """loop with a canonical counter 0..N-1"""
        if isconst(N):
            n = int(cval(N))
            if 0 <= n <= 4:
                return self.unrolled(n, pre, body, None)
        return self.loop(node, None, body, None, N=N, pre=pre, dom=dom, par=par)

    def loop(self, node, cond, body, inc, N=None, pre=None, dom=None, par=False, tail=None):
        fr = self.frames[-1]
        # full unrolling of loops with a small constant trip count
        if N is None and tail is None:
            r = self.try_unroll(node, cond, body, inc)
            if r is not None:
                return r
        ckey = (id(node), tuple(id(f.fn) for f in self.frames), tuple(l.uid for l in self.loops))
        st0 = self.st
        pc0 = st0.pc
        uid0 = self.uid
        nev, nunk, nder, nwr, nall, nud, nst, nna = (len(self.events), len(self.unk), len(self.derefs),
                                          len(self.writes), len(self.all_loops), len(self.undef_reads),
                                          len(self.static_writes), len(self.narrow))
        clos0 = None
        ret0 = len(fr.rets)
        th0 = fr.throws
        outs0 = [len(x["out"]) for x in fr.loopx]
        nca = len(self.calls)
        self.uid += 1
        luid = self.uid
        k = raw("k", "%d" % luid)
        M = dict.fromkeys(self.loopcache.get(ckey, (set(), {}))[0])
        forms = dict(self.loopcache.get(ckey, (set(), {}))[1])
        forms = {}
        lp = None
        for attempt in range(8):
            # roll back
            del self.events[nev:], self.unk[nunk:], self.derefs[nder:], self.writes[nwr:]
            del self.calls[nca:]
            del self.all_loops[nall:], self.undef_reads[nud:], self.static_writes[nst:], self.narrow[nna:]
            del fr.rets[ret0:]
            fr.throws = th0
            for x, n in zip(fr.loopx, outs0):
                del x["out"][n:]
            self.uid = luid
            st = st0.copy()
            self.st = st
            lp = Loop()
            lp.uid = luid
            lp.k = k
            lp.N = N
            lp.domain = dom
            lp.line = node.get("l")
            lp.file = self.file()
            lp.par = par
            lp.pc = pc0
            lp.kind = node["k"]
            phis = {}
            for key in M:
                i0 = self.keyread(st0, key)
                p = raw("phi", luid, key, k)
                fm = forms.get(key)
                if fm and fm[0] == "ind":
                    val = add(i0, mul(fm[1], k))
                elif fm and fm[0] == "itr":
                    val = itr(i0.a[0], add(i0.a[1], mul(fm[1], k)))
                elif fm and fm[0] == "same":
                    val = i0
                else:
                    val = p
                    if isint(i0) and (fm is None or fm[0] != "notint"):
                        INT.add(p.id)
                        if fm and fm[0] == "nn":
                            NONNEG.add(p.id)
                    if isvec(i0) or (i0.op == "poly" and any(isvec(a) for m, c in i0.a for a, e in m)):
                        VEC.add(p.id)
                    if fm and fm[0] == "app":
                        KNOWN_LEN[p.id] = add(length(i0), mul(fm[1], k)) if fm[1] is not None else None
                        if fm[1] is None:
                            KNOWN_LEN.pop(p.id, None)
                    elif fm and fm[0] == "samelen":
                        KNOWN_LEN[p.id] = length(i0)
                    else:
                        KNOWN_LEN.pop(p.id, None)
                phis[key] = [p, i0, None, val]
            # havoc
            for key in M:
                if key in st.kids:
                    for f in st.kids[key]:
                        if raw("f", key, f) not in M:
                            self._drop(raw("f", key, f))
                    if not any(raw("f", key, f) in M for f in st.kids[key]):
                        st.kids.pop(key, None)
            for key in sorted(M, key=lambda x: depth(x)):
                self.write(key, phis[key][3], True)
            log = set()
            self.wlogs.append(log)
            self.loops.append(lp)
            self.all_loops.append(lp)
            coll = {"kind": "loop", "out": []}
            fr.loopx.append(coll)
            pcl = len(self.st.pc)
            hd = None
            dead = False
            if cond is not None:
                hd = cond()
                if hd is FALSE:
                    dead = True
                elif hd is not TRUE:
                    self.st.pc = self.st.pc + ((hd, "loop"),)
            if pre is not None:
                pre(k)
            hdstate = self.st.copy() if False else None
            ok = (not dead) and body()
            parts = [(rel(x[1].pc, pcl + (1 if hd not in (None, TRUE) else 0)), x[1])
                     for x in coll["out"] if x[0] == "continue"]
            if ok:
                parts.append((None, self.st))
            brks = [(rel(x[1].pc, pcl + (1 if hd not in (None, TRUE) else 0)), x[1], "break")
                    for x in coll["out"] if x[0] == "break"]
            for s2, v2 in fr.rets[ret0:]:
                brks.append((rel(s2.pc, pcl + (1 if hd not in (None, TRUE) else 0)), s2, "return"))
            fr.loopx.pop()
            if parts:
                self.st = self.merge(parts, parts[-1][1].pc if len(parts) == 1 else self._commonpc(parts, pcl))
                if tail is not None:
                    lp.tailc = self.simp(tail())
                if inc is not None:
                    inc()
            nextst = self.st if parts else None
            self.loops.pop()
            self.wlogs.pop()
            # modified locations that existed before
            newM = {}
            for key in log:
                if self.prior(key, uid0, k):
                    newM[key] = None
            # normalise: a key whose ancestor is in the set is covered
            newM.update(M)
            newM = {key: None for key in newM if not any(a in newM for a in ancestors(key))}
            nf = {}
            if nextst is not None:
                for key in M:
                    if key not in newM:
                        continue
                    n = self.keyread(nextst, key)
                    phis[key][2] = n
                    f = self.form(key, phis, k, lp)
                    nf[key] = f
            else:
                for key in M:
                    phis[key][2] = phis[key][0]
                    nf[key] = None
            same = set(newM) == set(M)
            if same:
                drop = [key for key in M if nf[key] and nf[key][0] == "same" and not brks]
                if drop:
                    for key in drop:
                        pass
                if all(self.fkey(nf[key]) == self.fkey(forms.get(key)) for key in M):
                    break
                # forms only refine from unknown; when a form breaks, mark it
                for key in M:
                    o, n = forms.get(key), nf[key]
                    if self.fkey(o) != self.fkey(n):
                        if o is not None and attempt >= 3:
                            forms[key] = ("opq",)
                        else:
                            forms[key] = n
            else:
                M = newM
                forms = {key: nf.get(key) for key in M if nf.get(key)}
        self.loopcache[ckey] = (set(M), {})
        for key in M:
            lp.phis[key] = phis[key][:3]
        lp.forms = forms
        lp.breaks = brks
        # trip count
        if N is None:
            N = self.trip(lp, hd, k, tail)
        if brks:
            lp.N0 = N
            N = raw("trip", luid)
            mark(N, True, True)
        else:
            lp.N0 = N
        lp.N = N
        # rewrite events: the head condition is implied by 0 <= k < N
        if hd is not None and hd is not TRUE and lp.N0.op != "trip":
            for e in self.events[nev:]:
                e.pc = tuple(x for x in e.pc if not (x[0] is hd and x[1] == "loop"))
            for e in self.calls[nca:]:
                e.pc = tuple(x for x in e.pc if not (x[0] is hd and x[1] == "loop"))
            self.writes[nwr:] = [(a, b, tuple(x for x in c if not (x[0] is hd and x[1] == "loop")), d, e, f, g)
                                 for a, b, c, d, e, f, g in self.writes[nwr:]]
        # exit state
        ex = st0.copy()
        self.st = ex
        ex.pc = pc0
        if nextst is None and not brks:
            # body never completes: the loop runs zero times or does not return
            if dead or cond is None:
                self.st = ex
                return True
            if hd is TRUE:
                return False
            return True
        # universal writes
        if nextst is not None:
            um = list(ex.umem)
            seen = set()
            for key, v in nextst.mem.items():
                if key in log and not self.prior(key, uid0, k) and has(key, k) and root(key).op in ("ptr", "new"):
                    if any(has(x, k) for x in [root(key)]):
                        um.append((key, (k,), self.closek(v, lp, N), luid))
            for pat, ks, v, l2 in nextst.umem[len(ex.umem):]:
                if has(pat, k):
                    um.append((pat, ks + (k,), self.closek(v, lp, N), l2))
                else:
                    um.append((pat, ks, self.closek(v, lp, N), l2))
            ex.umem = um
        for key in M:
            if key in ex.kids:
                for f in list(ex.kids.get(key, ())):
                    self._drop(raw("f", key, f))
                ex.kids.pop(key, None)
        wl = self.wlogs
        for key in sorted(M, key=depth):
            v = self.exitval(key, lp, k, N, phis, forms, brks)
            self.write(key, v, True)
        lp.exit = self.st
        # a return inside the loop: what follows happens only if none returned
        rets = [b for b in brks if b[2] == "return"]
        if rets:
            c = raw("exists", luid, lam(or_(*[b[0] for b in rets]), k))
            self.st.pc = pc0 + ((not_(atomb(c)), "br"),)
            for j in range(ret0, len(fr.rets)):
                s2, v2 = fr.rets[j]
                keep = s2.pc[:len(pc0)]
                s2.pc = keep + ((atomb(c), "br"),) + (() if len(rets) == 1 else s2.pc[len(pc0):])
        if hd is TRUE and not any(b[2] == "break" for b in brks) and tail is None and cond is not None:
            return False
        return True

    def _commonpc(self, parts, n):
        return parts[-1][1].pc[:n] if parts else ()

    def fkey(self, f):
        return f

    def prior(self, key, uid0, k):
        r = root(key)
        if r.op == "var":
            n = r.a[0]
            if "#" in n:
                return int(n.rsplit("#", 1)[1]) <= uid0
            return True
        if r.op == "new":
            return r.a[1] <= uid0 and not has(r, k)
        if has(r, k):
            return False
        if r.op == "ptr":
            # pointer value made inside this iteration?
            for t in subterms(r):
                if t.op == "var" and "#" in str(t.a[0]) and int(t.a[0].rsplit("#", 1)[1]) > uid0:
                    return False
                if t.op == "phi" and t.a[2] is k:
                    return False
                if t.op == "new" and t.a[1] > uid0:
                    return False
        return True

    def keyread(self, st, key):
        s = self.st
        self.st = st
        v = self._read(key)
        self.st = s
        return v

    def form(self, key, phis, k, lp):
        p, i0, n, val = phis[key]
        if n is None:
            return None
        if n is val:
            return ("same",)
        mine = [x[0] for x in phis.values()]

        def free(t):
            return not has(t, k) and not any(has(t, q) for q in mine)
        if val is not p:
            # currently substituted by an induction form: verify
            if val.op == "itr" or (i0.op == "itr"):
                if n.op == "itr":
                    d = sub(n.a[1], val.a[1])
                    if free(d):
                        return ("itr", d)
                return ("opq",)
            if val is i0:
                return ("opq",)      # had been taken for unmodified
            d = sub(n, val)
            if free(d):
                return ("ind", d)
            return ("opq",)
        if n.op == "itr" and i0.op == "itr" and n.a[0] is i0.a[0]:
            return None
        if n.op == "itr_next" or n.op == "adv":
            pass
        d = None
        if (n.op in ("poly", "ite") or isint(n)) and not has(i0, p):
            d = sub(n, p)
            if not has(d, p) and free(d) and not isvec(p):
                return ("ind", d)
            if not has(d, p):
                return ("sum",)
        if i0.op == "itr" and n.op == "adv" and n.a[0] is p and free(n.a[1]):
            return ("itr", n.a[1])
        sfx = self.suffix(n, p)
        if sfx is not None and not has(sfx, p):
            l = length(sfx)
            if free(l):
                return ("app", l)
            return ("app", None)
        if n.op == "sto" and self.storoot(n) is p:
            return ("map",) if n.a[0] is p else ("samelen",)
        if not has(n, p) and all(not has(n, q) for q in mine):
            return ("last",)
        if isint(n) and isnonneg(i0) and isnonneg(n):
            return ("nn",)
        return ("opq",)

    def storoot(self, t):
        while t.op == "sto":
            t = t.a[0]
        return t

    def suffix(self, n, p):
        """n == cat(p, s) -> s"""
        if n is p:
            return EMPTY
        if n.op == "cat" and n.a and n.a[0] is p:
            return cat(*n.a[1:])
        if n.op == "ite":
            a, b = self.suffix(n.a[1], p), self.suffix(n.a[2], p)
            if a is None or b is None:
                return None
            return ite(atomb(n.a[0]), a, b)
        return None

    def trip(self, lp, hd, k, tail):
        if tail is not None or hd is None or hd is TRUE:
            return mark(raw("trip", lp.uid), True, True)
        # hd must be a comparison affine in k
        t = hd
        neg_ = False
        if t is FALSE:
            return ZERO
        if t.op == "ite" and t.a[1] not in (TRUE, FALSE) or t.op == "ite" and (
                t.a[2] not in (TRUE, FALSE)):
            c = t.a[0]
            mine = [x[0] for x in lp.phis.values()]
            if not has(c, k) and not any(has(c, q) for q in mine) and TRUE not in t.a[1:]:
                n = [self.trip(lp, x, k, tail) for x in t.a[1:]]
                if not any(has(x, raw("trip", lp.uid)) for x in n):
                    return ite(c, *n)
        if t.op == "ite" and t.a[1] is TRUE and t.a[2] is FALSE:
            a = t.a[0]
        elif t.op == "ite" and t.a[1] is FALSE and t.a[2] is TRUE:
            a = t.a[0]
            neg_ = True
        else:
            return mark(raw("trip", lp.uid), True, True)
        mine = [x[0] for x in lp.phis.values()]
        if a.op in ("lt0", "eq0", "eq"):
            if a.op == "eq":
                return mark(raw("trip", lp.uid), True, True)
            p = a.a[0]
            d = todict(p)
            kc = d.get(((k, 1),), 0)
            rest = sub(p, mul(num(kc), k))
            if kc == 0 or has(rest, k) or any(has(rest, q) for q in mine):
                return mark(raw("trip", lp.uid), True, True)
            if a.op == "lt0" and not neg_ and kc > 0:
                # rest + kc*k < 0  ->  N = ceil(-rest/kc)
                n = neg(rest)
                N = n if kc == 1 else idiv(add(n, num(kc - 1)), num(kc))
                return mark(N, True, True)
            if a.op == "lt0" and neg_ and kc < 0:
                # not(rest + kc k < 0)  <=>  k <= rest/|kc|   ->  N = floor(rest/|kc|) + 1
                N = add(rest if kc == -1 else idiv(rest, num(-kc)), ONE)
                return mark(N, True, True)
            if a.op == "eq0" and not neg_ and rest is ZERO:
                return ONE
            if a.op == "eq0" and neg_ and abs(kc) == 1:
                return mark(mul(num(-1 / Fraction(kc)), rest), True, True)
        return mark(raw("trip", lp.uid), True, True)

    def closek(self, v, lp, N):
        return v

    def exitval(self, key, lp, k, N, phis, forms, brks):
        p, i0, n, val = phis[key]
        f = forms.get(key)
        if f is None or n is None:
            f = ("opq",)
        if f[0] == "same" and not any(b[2] == "break" and self.keyread(b[1], key) is not i0 for b in brks):
            return i0
        if brks:
            return self.outterm(key, lp, i0)
        if f[0] == "ind":
            return add(i0, mul(f[1], N))
        if f[0] == "itr":
            return itr(i0.a[0], add(i0.a[1], mul(f[1], N)))
        mine = [x[0] for q, x in phis.items()]
        if f[0] in ("sum", "app", "map"):
            n = self.untouched(n, key, phis, forms, k)
        if f[0] == "sum":
            d = sub(n, p)
            if not any(has(d, q) for q in mine):
                r = summ(N, lam(d, k))
                if isvec(p) and r.op == "sum":
                    VEC.add(r.id)
                return add(i0, r)
        if f[0] == "app":
            s = self.suffix(n, p)
            if not any(has(s, q) for q in mine):
                return cat(i0, rep(N, lam(s, k)))
        if f[0] == "map":
            idx, e = n.a[1], n.a[2]
            off = sub(idx, k)
            e = subst(e, {sel(p, idx): sel(i0, idx)})
            if not has(off, k) and not any(has(e, q) for q in mine) and not any(has(off, q) for q in mine):
                if isconst(off) and cval(off) == 0:
                    l = lam(e, k)
                    if length(i0) is N:
                        return rep(N, lam(one(e), k))
                    return raw("stol", i0, N, l)
                return raw("stol", i0, N, lam(raw("tup", idx, e), k))
            # element number idx is the same in every iteration: the loop works on that element
            pe = raw("phi", lp.uid, raw("el", key, idx), k)
            ie = sel(i0, idx)
            ne = subst(n.a[2], {sel(p, idx): pe})
            if not has(idx, k) and not any(has(idx, q) for q in mine) and not any(has(ne, q) for q in mine):
                r = self.elemexit(pe, ie, ne, k, N)
                if r is not None:
                    return sto(i0, idx, r)
        if f[0] == "last":
            m = sub(N, ONE)
            return ite(eq0(N), i0, subst(n, {k: m}))
        return self.outterm(key, lp, i0)

    def untouched(self, n, key, phis, forms, k):
        """entries of other arrays that iteration k is the first to write still have their initial values"""
        for q, x in phis.items():
            f = forms.get(q)
            if q is key or f is None or f[0] != "map" or x[2] is None or not has(n, x[0]):
                continue
            off = sub(x[2].a[1], k)
            if not isconst(off):
                continue
            d = {t: sel(x[1], t.a[1]) for t in subterms(n) if t.op == "sel" and t.a[0] is x[0] and
                 isconst(sub(t.a[1], k)) and cval(sub(t.a[1], k)) >= cval(off)}
            if d:
                n = subst(n, d)
        return n

    def elemexit(self, p, i0, n, k, N):
        """value after N iterations of an element that one iteration takes from p to n"""
        if n.op == "sto" and n.a[0] is p:
            idx = n.a[1]
            off = sub(idx, k)
            e = subst(n.a[2], {sel(p, idx): sel(i0, idx)})
            if isconst(off) and cval(off) == 0 and not has(e, p):
                l = lam(e, k)
                return rep(N, lam(one(e), k)) if length(i0) is N else raw("stol", i0, N, l)
        if not has(n, p) and not has(n, k):
            return ite(eq0(N), i0, n)
        d = sub(n, p) if n.op in ("poly", "ite") else None
        if d is not None and not has(d, p):
            return add(i0, summ(N, lam(d, k)))
        return None

    def outterm(self, key, lp, i0):
        """opaque exit value; when the recurrence involves only itself it is canonical"""
        p, i0, n = lp.phis[key][0], lp.phis[key][1], lp.phis[key][2]
        others = [x[0] for q, x in lp.phis.items() if q is not key]
        if not lp.breaks and n is not None and not any(has(n, q) for q in others) and lp.N.op != "trip":
            h = height(n) + 1
            body = subst(n, {p: raw("bvp", h)})
            body = subst(body, {lp.k: raw("bv", h)})
            t = raw("iter", lp.N, i0, raw("lam", body, h))
        else:
            t = raw("out", lp.uid, key)
        if p.id in VEC:
            VEC.add(t.id)
        if isint(p):
            INT.add(t.id)
            if p.id in NONNEG:
                NONNEG.add(t.id)
        l = KNOWN_LEN.get(p.id)
        if l is not None and not has(l, lp.k):
            KNOWN_LEN[t.id] = l
        return t

    def snapshot(self):
        fr = self.frames[-1]
        return (self.st.copy(), self.uid, [len(x) for x in self.logs()], len(fr.rets), fr.throws,
                [len(x["out"]) for x in fr.loopx], dict(fr.env))

    def logs(self):
        return (self.events, self.unk, self.derefs, self.writes, self.all_loops, self.undef_reads,
                self.static_writes, self.narrow)

    def rollback(self, sn):
        fr = self.frames[-1]
        st, uid, ls, nr, th, outs, env = sn
        self.st = st.copy()
        self.uid = uid
        for x, n in zip(self.logs(), ls):
            del x[n:]
        del fr.rets[nr:]
        fr.throws = th
        for x, n in zip(fr.loopx, outs):
            del x["out"][n:]
        fr.env = dict(env)

    def try_unroll(self, node, cond, body, inc):
        """loops whose head condition stays constant for a few iterations are unrolled"""
        sn = self.snapshot()
        self.dry += 1
        c = cond()
        self.dry -= 1
        self.rollback(sn)
        if c is FALSE:
            cond()
            return True
        if c is not TRUE:
            return None
        r = self.unroll_dyn(cond, body, inc)
        if r is None:
            self.rollback(sn)
        return r

    def unroll_dyn(self, cond, body, inc):
        fr = self.frames[-1]
        pc0 = self.st.pc
        exits = []
        falls = False
        for i in range(7):
            c = cond()
            if c is FALSE:
                exits.append((None, self.st))
                falls = True
                break
            if c is not TRUE or i == 6:
                return None
            coll = {"kind": "loop", "out": []}
            fr.loopx.append(coll)
            pc = self.st.pc
            ok = body() and not self._dead()
            fr.loopx.pop()
            parts = []
            for kd, s2 in coll["out"]:
                (exits if kd == "break" else parts).append((rel(s2.pc, len(pc)), s2))
            if ok:
                parts.append((rel(self.st.pc, len(pc)), self.st))
            if not parts:
                break
            cov = or_(*[c for c, _ in parts])
            self.st = self.merge(parts, pc if cov is TRUE else
                                 parts[0][1].pc if len(parts) == 1 else pc + ((cov, "br"),))
            if inc:
                inc()
        if not exits:
            return False
        outs = [(rel(s2.pc, len(pc0)), s2) for c, s2 in exits]
        if len(outs) == 1:
            self.st = outs[0][1]
            return True
        cov = or_(*[c for c, _ in outs])
        self.st = self.merge(outs, pc0 if cov is TRUE else pc0 + ((cov, "br"),))
        return True

    def unrolled(self, n, pre, body, inc):
        fr = self.frames[-1]
        pc0 = self.st.pc
        exits = []
        for i in range(n):
            coll = {"kind": "loop", "out": []}
            fr.loopx.append(coll)
            pc = self.st.pc
            if pre:
                pre(num(i))
            ok = body() and not self._dead()
            fr.loopx.pop()
            parts = []
            for kd, s2 in coll["out"]:
                (exits if kd == "break" else parts).append((rel(s2.pc, len(pc)), s2))
            if ok:
                parts.append((rel(self.st.pc, len(pc)), self.st))
            if not parts:
                break
            cov = or_(*[c for c, _ in parts])
            self.st = self.merge(parts, pc if cov is TRUE else
                                 parts[0][1].pc if len(parts) == 1 else pc + ((cov, "br"),))
            if inc:
                inc()
        else:
            if not exits:
                return True
            exits.append((None, self.st))
        if not exits:
            return False
        outs = [(rel(s2.pc, len(pc0)), s2) for c, s2 in exits]
        cov = or_(*[c for c, _ in outs])
        self.st = self.merge(outs, pc0 if cov is TRUE else pc0 + ((cov, "br"),))
        return True

    # -- expressions: locations -------------------------------------------
    def lv(self, e):
        k = e["k"]
        fr = self.frames[-1]
        if k == "ref":
            dk = e.get("dk")
            if dk in ("fn", "enum"):
                return self.temp(self.ev(e))
            if dk in ("global", "slocal") and e.get("id") not in fr.env:
                return self.globloc(e)
            loc = fr.env.get(e["id"])
            if loc is None:
                loc = raw("var", "@%s" % e["n"])
                fr.env[e["id"]] = loc
            return loc
        if k == "this":
            return self.temp(addr(fr.this))
        if k == "mem":
            if "fn" in e:
                return self.lv(e["b"])
            if e.get("sm"):
                return raw("glob", e.get("qn", e["n"]))
            b = e["b"]
            if b["k"] == "this":
                base = fr.this
            elif e.get("ar"):
                base = self.derefexpr(b)
            else:
                base = self.lv(b)
            loc = F(base, e["n"])
            if e.get("t") is not None and e["t"].ref or e.get("rf"):
                v = self.read(loc)
                if v.op == "refto":
                    return self.deref(v.a[0], False)
                return ptr(v)
            return loc
        if k == "un":
            op = e["op"]
            if op == "*":
                if e["e"]["k"] == "this":
                    return fr.this
                return self.deref(self.ev(e["e"]))
            if op in ("++", "--"):
                self.ev(e)
                return self.lv(e["e"])
        if k == "idx":
            b = e["b"]
            bt = self.ev(b) if not self.isarray(b) else None
            if bt is not None and bt.op == "itr":
                return EL(bt.a[0], add(bt.a[1], self.ev(e["i"])))
            if bt is not None and bt.op == "addr":
                if bt.a[0].op == "el":
                    return EL(bt.a[0].a[0], add(bt.a[0].a[1], self.ev(e["i"])))
                return EL(bt.a[0], self.ev(e["i"]))
            if bt is not None:
                return EL(ptr(bt), self.ev(e["i"]))
            return EL(self.lv(b), self.ev(e["i"]))
        if k == "call":
            r = self.call(e, want="l")
            return r
        if k == "cond":
            c = self.cond(e["i"])
            if c is TRUE:
                return self.lv(e["T"])
            if c is FALSE:
                return self.lv(e["F"])
            a, b = self.lv(e["T"]), self.lv(e["F"])
            return lift_loc(lambda x: a if x is TRUE else b, c) if a is not b else a
        if k == "bin" and e["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "%=", "^="):
            return self.assign(e)
        if k == "bin" and e["op"] == ",":
            self.evd(e["L"])
            return self.lv(e["R"])
        if k == "xcast":
            t = e.get("t")
            if e["ck"] == "const" or (t is not None and t.ref):
                if e["ck"] == "const" and not self.dry:
                    self.constcast(e)
                loc = self.lv(e["e"])
                self.downcast(e, addr(loc))
                return loc
            return self.temp(self.ev(e))
        if k == "icast":
            return self.temp(self.ev(e))
        if k == "defarg":
            return self.lv(e["e"])
        loc = self.fresh("tmp")
        if not self.dry:
            self.mats.add(loc)
        if k == "ctor":
            self.construct_into(loc, e, e["t"])
            self.dyn[loc] = e["t"].s
        else:
            self.write(loc, self.ev(e), True)
        return loc

    def constcast(self, e):
        self.colls.append(("const_cast", self.file(), self.line, self.st.pc))

    def isarray(self, b):
        t = b.get("t")
        return t is not None and "[" in t.s and b["k"] in ("ref", "mem", "idx")

    def temp(self, v):
        loc = self.fresh("tmp")
        self.write(loc, v, True)
        return loc

    def globloc(self, e):
        return raw("glob", e.get("qn", e["n"]))

    def derefexpr(self, b):
        """location designated by pointer-like expression b"""
        if b["k"] == "this":
            return self.frames[-1].this
        if b["k"] == "call" and b.get("op") == "->":
            return self.call(b, want="d")
        return self.deref(self.ev(b))

    # -- expressions: values ----------------------------------------------
    def ev(self, e, t=None):
        self.steps += 1
        if "l" in e and e["l"]:
            self.line = e["l"]
        return getattr(self, "e_" + EK.get(e["k"], e["k"]), self.e_unknown)(e)

    def e_unknown(self, e):
        self.note("expression " + str(e.get("k")) + ":" + str(e.get("c", "")), e)
        for x in e.get("a", []) if isinstance(e.get("a"), list) else []:
            self.ev(x)
        return raw("unk", "%s:%s:%s" % (self.file(), e.get("l"), e.get("c")))

    def e_int(self, e):
        return num(int(e["v"]))

    def e_flt(self, e):
        try:
            return num(Fraction(e["v"]))
        except Exception:
            return num(Fraction(float(e["v"])))

    def e_bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_null(self, e):
        return raw("null")

    def e_chr(self, e):
        return num(e["v"])

    def e_str(self, e):
        return raw("str", e["v"])

    def e_this(self, e):
        return addr(self.frames[-1].this)

    def e_ref(self, e):
        if "cv" in e:
            return num(int(e["cv"]))
        dk = e.get("dk")
        if dk == "enum":
            return raw("enum", e["qn"])
        if dk == "fn":
            return raw("fnp", e["fn"].base if e["fn"].cls else e["fn"].qn)
        v = self.read(self.lv(e))
        t = e.get("t")
        if t is not None and t.arith:
            self.markt(v, t)
        return v

    def e_mem(self, e):
        if "cv" in e:
            return num(int(e["cv"]))
        v = self.read(self.lv(e))
        t = e.get("t")
        if t is not None and t.arith:
            self.markt(v, t)
        return v

    def e_idx(self, e):
        return self.read(self.lv(e))

    def e_call(self, e):
        return self.call(e, want="v")

    def e_defarg(self, e):
        return self.ev(e["e"])

    def e_zero(self, e):
        t = e["t"]
        if t.arith:
            return ZERO if t.s != "bool" else FALSE
        if t.ptr:
            return raw("null")
        return raw("zero", t.s)

    def e_icast(self, e):
        v = self.ev(e["e"])
        return self.castv(v, e["ft"], e["t"], e)

    def castv(self, v, ft, t, e):
        if t.s == "bool":
            if isbool(v) or v.op == "ite" and self.boolish(v):
                return v
            if ft.ptr:
                return self.simp(lift(self.nn, v))
            return self.tobool(v)
        if ft.s == "bool" or isbool(v):
            return bool2int(v) if (isbool(v) or v.op == "ite" and self.boolish(v) or not isint(v)) else v
        if t.ptr:
            return v
        if t.isint() and ft.arith == "f":
            if isconst(v):
                return num(int(cval(v)))
            x = raw("trunc", v)
            INT.add(x.id)
            return x
        if t.isint() and ft.isint():
            if t.us and not isconst(v):
                self.markt(v, t) if v.op not in ("poly", "ite") else None
            if t.w and ft.w and t.w < ft.w and not isconst(v) and not self.dry:
                self.narrow.append((v, ft.s, t.s, self.file(), self.line))
            if t.us and isconst(v) and cval(v) < 0:
                return num(cval(v) + 2 ** (t.w or 32))
        return v

    def boolish(self, v):
        if isbool(v):
            return True
        if v.op == "ite":
            return self.boolish(v.a[1]) and self.boolish(v.a[2])
        return False

    def e_xcast(self, e):
        t, ft = e["t"], e["ft"]
        ck = e["ck"]
        if ck == "const":
            self.constcast(e)
        if t.s == "void":
            self.evd(e["e"])
            return raw("void")
        if ck == "dynamic":
            v = self.ev(e["e"]) if t.ptr else None
            if v is not None:
                return self.dyncast(t.cls or t.s, v)
        if t.ref:
            return self.read(self.lv(e))
        v = self.ev(e["e"])
        if t.arith and ft.arith:
            return self.castv(v, ft, t, e)
        self.downcast(e, v)
        return v

    def downcast(self, e, v):
        """a narrowing that the language does not check"""
        if e.get("kind") == "BaseToDerived" and e["ck"] != "dynamic" and not self.dry:
            self.derefs.append((raw("sdown", e["t"].cls or e["t"].s, v), self.st.pc, self.file(), self.line,
                                len(self.events)))

    def dyncast(self, tn, v):
        if v.op == "ite":
            return lift(lambda x: self.dyncast(tn, x), v)
        if v.op == "null":
            return v
        if v.op == "dyncast":
            v = v.a[1]
        return raw("dyncast", tn, v)

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--", "p++", "p--"):
            loc = self.lv(e["e"])
            old = self.read(loc)
            d = ONE if "+" in op else num(-1)
            new = self.advance(old, d)
            self.write(loc, new)
            return old if op[0] == "p" else new
        if op == "*":
            return self.read(self.lv(e))
        if op == "&":
            if e["e"]["k"] == "ref" and e["e"].get("dk") == "fn":
                return self.ev(e["e"])
            return addr(self.lv(e["e"]))
        v = self.ev(e["e"])
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return not_(self.tobool(v))
        if op == "~":
            return raw("bnot", v)
        return raw("unk", "un" + op)

    def advance(self, v, d):
        if v.op == "ite":
            return lift(lambda x: self.advance(x, d), v)
        if v.op == "itr":
            return itr(v.a[0], add(v.a[1], d))
        if v.op == "phi" and not isint(v) and v.id not in VEC:
            # iterator-like phi: remember the step
            key = v.a[1]
            return raw("adv", v, d) if not isint(v) else add(v, d)
        if v.op == "adv":
            return raw("adv", v.a[0], add(v.a[1], d))
        if v.op in ("app", "res", "at", "val") and not isint(v):
            return raw("adv", v, d)
        return add(v, d)

    def e_bin(self, e):
        op = e["op"]
        if op in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "%=", "^="):
            return self.read(self.assign(e))
        if op == ",":
            self.evd(e["L"])
            return self.ev(e["R"])
        if op in ("&&", "||"):
            a = self.cond(e["L"])
            if op == "&&" and a is FALSE or op == "||" and a is TRUE:
                return a
            # the right operand is evaluated under the left one
            res = {}

            def right():
                res["b"] = self.cond(e["R"])
                return True
            if self.pure(e["R"]):
                pc = self.st.pc
                self.st.pc = pc + ((a if op == "&&" else not_(a), "br"),)
                b = self.cond(e["R"])
                self.st.pc = pc
            else:
                if op == "&&":
                    self.branch(a, right, lambda: True)
                else:
                    self.branch(a, lambda: True, right)
                b = res.get("b", TRUE)
            return and_(a, b) if op == "&&" else or_(a, b)
        a, b = self.ev(e["L"]), self.ev(e["R"])
        return self.binop(op, a, b, e)

    def pure(self, e):
        k = e["k"]
        if k in ("int", "flt", "bool", "str", "chr", "ref", "this", "null", "zero", "mem", "idx", "icast",
                 "xcast", "un", "bin", "cond", "defarg"):
            if k == "un" and e["op"] in ("++", "--", "p++", "p--"):
                return False
            if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
                return False
            for x in ("e", "b", "i", "L", "R", "T", "F"):
                if isinstance(e.get(x), dict) and not self.pure(e[x]):
                    return False
            return True
        return False

    def binop(self, op, a, b, e):
        if op in ("+", "-"):
            if a.op == "itr" and b.op == "itr" and op == "-":
                return sub(a.a[1], b.a[1])
            if a.op == "itr":
                return itr(a.a[0], add(a.a[1], b if op == "+" else neg(b)))
            if a.op == "addr" and a.a[0].op == "el":
                return addr(EL(a.a[0].a[0], add(a.a[0].a[1], b if op == "+" else neg(b))))
            a, b = self.numv(a), self.numv(b)
            return add(a, b) if op == "+" else sub(a, b)
        if op == "*":
            return mul(self.numv(a), self.numv(b))
        if op == "/":
            t = e.get("t")
            if t is not None and t.isint():
                return idiv(a, b)
            return div(self.numv(a), self.numv(b))
        if op == "%":
            return imod(a, b)
        if op == "==":
            return self.equal(a, b)
        if op == "!=":
            return not_(self.equal(a, b))
        if op in ("<", ">", "<=", ">="):
            if a.op == "itr" and b.op == "itr":
                a, b = a.a[1], b.a[1]
            a, b = self.numv(a), self.numv(b)
            return self.less(op, a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if self.boolish(a) and self.boolish(b) and op in "&|":
                return and_(a, b) if op == "&" else or_(a, b)
            if isconst(a) and isconst(b):
                x, y = int(cval(a)), int(cval(b))
                return num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
            return raw("bit" + op, a, b)
        return raw("unk", "bin" + op)

    def less(self, op, a, b):
        if op == "<":
            return lt0(sub(a, b))
        if op == ">":
            return lt0(sub(b, a))
        d = sub(a, b) if op == "<=" else sub(b, a)
        if isint(d):
            return lt0(sub(d, ONE))
        return not_(lt0(neg(d)))

    def numv(self, v):
        if isbool(v) or (v.op == "ite" and self.boolish(v)):
            return bool2int(v)
        return v

    def equal(self, a, b):
        if a.op == "dyncast" or b.op == "dyncast":
            if a.op == "null" or b.op == "null":
                x = b if a.op == "null" else a
                return not_(atomb(raw("nonnull", x)))
        return eq(a, b)

    def e_cond(self, e):
        c = self.cond(e["i"])
        if c is TRUE:
            return self.ev(e["T"])
        if c is FALSE:
            return self.ev(e["F"])
        if self.pure(e["T"]) and self.pure(e["F"]):
            pc = self.st.pc
            self.st.pc = pc + ((c, "br"),)
            a = self.ev(e["T"])
            self.st.pc = pc + ((not_(c), "br"),)
            b = self.ev(e["F"])
            self.st.pc = pc
            return ite(c, a, b)
        r = {}

        def T_():
            if e["T"]["k"] == "throw":
                self.ev(e["T"])
                return False
            r["a"] = self.ev(e["T"])
            return True

        def F_():
            if e["F"]["k"] == "throw":
                self.ev(e["F"])
                return False
            r["b"] = self.ev(e["F"])
            return True
        self.branch(c, T_, F_)
        if "a" in r and "b" in r:
            return ite(c, r["a"], r["b"])
        return r.get("a", r.get("b", raw("void")))

    def assign(self, e):
        op = e["op"]
        if op == "=":
            v = self.ev(e["R"])
            loc = self.lv(e["L"])
            t = e.get("t")
            self.write(loc, v)
            return loc
        b = self.ev(e["R"])
        loc = self.lv(e["L"])
        a = self.read(loc)
        t = e.get("t")
        v = self.binop(op[:-1], a, b, e)
        self.write(loc, v)
        return loc

    def e_il(self, e):
        t = e["t"]
        c = self.p.classes.get(t.s)
        if c is not None and not t.arith and c.fields is not None and not c.lam:
            its = []
            for f, x in zip(c.fields, e["a"]):
                its.append((f["n"], self.ev(x)))
            return rec(raw("agg", t.s), its)
        if t.arith or t.ptr:
            return self.ev(e["a"][0]) if e["a"] else ZERO
        return cat(*[one(self.ev(x)) for x in e["a"]])

    def e_lambda(self, e):
        caps = {}
        fr = self.frames[-1]
        for c in e["cap"]:
            if c.get("this"):
                caps["this"] = fr.this
            elif c.get("init") is not None:
                if c.get("ref"):
                    caps[c["id"]] = self.lv(c["init"])
                else:
                    l = self.fresh(c["n"])
                    self.construct_into(l, c["init"], c.get("t"))
                    caps[c["id"]] = l
            else:
                src = fr.env.get(c["id"])
                if src is None:
                    src = raw("var", "@" + c["n"])
                if c.get("ref"):
                    caps[c["id"]] = src
                else:
                    l = self.fresh(c["n"])
                    self.write(l, self.read(src), True)
                    caps[c["id"]] = l
        self.uid += 1
        t = raw("clo", self.uid, "%s:%s" % (short(fr.file), e.get("l")))
        self.clos[t] = (e["fns"], caps, fr, e)
        return t

    def e_new(self, e):
        self.uid += 1
        loc = raw("new", e["t"].s, self.uid, tuple(l.k for l in self.loops))
        self.rawnew.add(loc)
        self.dyn[loc] = e["t"].s
        if e.get("e") is not None and not e.get("arr"):
            self.construct_into(loc, e["e"], e["t"])
        elif e.get("arr"):
            n = self.ev(e["n"]) if e.get("n") else ZERO
            self.write(loc, raw("arr", n, raw("undef", loc)), True)
        ev = self.event("new", e["t"].s, None, loc, [], [], e)
        c = e.get("e")
        if c is not None and c.get("k") == "ctor" and not self.dry:
            # objects handed to the constructor by reference
            ev.cargs = [self.lv(a) if a.get("k") in ("ref", "mem") else None for a in c["a"]]
        return addr(loc)

    def e_delete(self, e):
        v = self.ev(e["e"])
        self.event("delete", "delete", None, None, [None], [v], e)
        return raw("void")

    def e_throw(self, e):
        if e.get("e") is not None:
            self.ev(e["e"])
        self.event("throw", "throw", None, None, [], [], e)
        self.frames[-1].throws += 1
        self.st.pc = self.st.pc + ((FALSE, "as"),)
        return raw("void")

    def e_ctor(self, e):
        f = e.get("fn")
        if f is not None and f.repo and f.body is not None and not (f.dflt and (f.cpy or f.mv)):
            loc = self.fresh("obj")
            self.dyn[loc] = e["t"].s
            self.ctor_call(f, loc, e["a"], e)
            return self.read(loc)
        return self.models.ctor(self, e)

    def e_arrcopy(self, e):
        return self.arrcopy if self.arrcopy is not None else raw("unk", "arrcopy")

    # -- calls -------------------------------------------------------------
    def event(self, kind, name, fn, obj, args, argv, node, res=None):
        ev = Event()
        ev.kind = kind
        ev.name = name
        ev.fn = fn
        ev.obj = obj
        ev.objv = self.read(obj) if obj is not None and kind != "new" else None
        ev.args = args
        ev.argv = argv
        ev.pc = self.st.pc
        ev.loops = tuple(self.loops)
        ev.res = res
        ev.file = self.file()
        ev.line = (node or {}).get("l") or self.line
        ev.stack = tuple((f.fn.qn if f.fn else "", f.file) for f in self.frames)
        ev.par = self.par
        ev.mem = self.st.copy() if name.startswith(("MPI_", "LAPACKE_")) or name.endswith(("::set", "::add")) and len(
            argv) >= 4 or any(a is not None and (a.op == "addr" and a.a[0].op == "new" or "trilinos_vector" in chain(a))
            for a in argv) else None
        ev.out = []
        ev.targs = fn.targs if fn is not None else []
        ev.node = node
        ev.phase = self.phase
        ev.objt = None
        ev.argt = None
        self.evseq += 1
        ev.seq = self.evseq
        self.events.append(ev)
        return ev

    def logcall(self, f, e):
        if self.dry:
            return
        c = Call()
        c.fn, c.node = f, e
        c.name = f.base if f.cls else f.qn
        c.pc = self.st.pc
        c.loops = tuple(self.loops)
        c.par, c.phase = self.par, self.phase
        c.file = self.file()
        c.line = (e or {}).get("l") or self.line
        c.inside = self.frames[-1].fn if self.frames else None
        self.calls.append(c)

    def read_at(self, ev, loc):
        """value of a location when the event happened"""
        cur, self.st = self.st, ev.mem.copy()
        try:
            return self.read(loc)
        finally:
            self.st = cur

    def snap(self, ev):
        ev.mem = self.st.copy()

    def retv(self, r, want):
        """r: ('v', value) or ('l', location)"""
        k, x = r
        if want == "x":
            return x
        if want == "v":
            return x if k == "v" else self.read(x)
        if want == "l":
            return x if k == "l" else self.temp(x)
        if want == "d":
            return x if k == "l" else self.deref(x)

    def call(self, e, want):
        if "l" in e and e["l"]:
            self.line = e["l"]
        f = e.get("fn")
        if f is None or not isinstance(f, Fn):
            fe = e.get("f")
            if fe is not None:
                v = self.ev(fe)
                args = e["a"]
                return self.retv(self.callval(v, [lambda x=x: self.lv(x) for x in args],
                                              [lambda x=x: self.ev(x) for x in args], e), want)
            self.note("call without callee", e)
            return self.retv(("v", raw("unk", "call")), want)
        base = f.base
        if f.repo and base not in self.opaque:
            # lambda call operator
            if f.cls and f.cls.startswith("lambda@") and f.name == "operator()":
                v = self.ev(e["o"]) if e.get("o") is not None else None
                if v is not None and v.op == "clo":
                    return self.retv(self.callclo(v, f, e["a"], e), want)
            tgt = f
            oloc = None
            if f.cls and not f.static and e.get("o") is not None:
                oloc = self.objloc(e)
                if f.virtual and not e.get("qual"):
                    tgt = self.resolve(f, oloc)
            elif f.cls and not f.static:
                oloc = self.frames[-1].this
            if tgt is not None and tgt.body is not None and self.contract(f) is not None:
                tgt = None
            if tgt is not None and tgt.body is not None and not self.recursing(tgt):
                return self.retv(self.inline(tgt, oloc, e["a"], e), want)
            return self.retv(self.opaquecall(f, oloc, e, "virt" if tgt is None else "rec"), want)
        return self.retv(self.models.call(self, f, e, want), want)

    def objloc(self, e):
        o = e["o"]
        if e.get("ar"):
            return self.derefexpr(o)
        if o["k"] == "this":
            return self.frames[-1].this
        return self.lv(o)

    def recursing(self, f):
        if len(self.frames) > MAXDEPTH:
            return True
        return any(fr.fn is f for fr in self.frames)

    def dyntype(self, loc):
        t = self.dyn.get(loc)
        if t is None and loc.op == "f":
            pass
        return t

    def resolve(self, f, loc):
        """exact callee of a virtual call, or None"""
        if loc.op == "lite":
            return None
        t = self.dyntype(loc)
        if t is not None:
            o = self.p.overrider(t.replace("const ", ""), f)
            if o is not None:
                return o
        return None if f.virtual else f

    def contract(self, f):
        if not self.contracts:
            return None
        c = self.contracts.get(f.base)
        if c is None and f.overrides:
            for k in f.overrides:
                o = k if isinstance(k, Fn) else self.p.bykey.get(k)
                if o is not None:
                    c = self.contract(o)
                    if c is not None:
                        break
        return c

    def opaquecall(self, f, oloc, e, kind):
        """call that is not looked into: results and reference outputs are opaque"""
        base = f.base
        self.logcall(f, e)
        ct = self.contract(f)
        if ct is None and kind == "rec":
            ct = self.contracts.get("rec")
        locs, vals = self.args(f, e["a"])
        ov = self.read(oloc) if oloc is not None else None
        ev = self.event(kind, base, f, oloc, locs, vals, e)
        if oloc is not None and oloc.op == "ptr":
            oid = oloc.a[0]
        elif oloc is not None:
            oid = addr(oloc)
        else:
            oid = raw("null")
        ev.objt = oid
        self.snap(ev)
        if ct is not None:
            r = ct(self, f, oloc, oid, locs, vals, ev)
            if r is not None:
                ev.res = r[1]
                return r
        tag = (raw("obj", oid) if not f.const else oid,)
        for i, (pt, l, v) in enumerate(zip(f.ptypes, locs, vals)):
            if pt.ref and not pt.const and l is not None:
                o = raw("out_" + base, num(i), oid, *vals)
                if isvec(v) or "Vector" in (pt.cls or ""):
                    VEC.add(o.id)
                self.write(l, o)
                ev.out.append((l, o))
        if oloc is not None and not f.const:
            self.write(oloc, raw("upd_" + base, ov, *vals))
        if f.ret.s == "void":
            return ("v", raw("void"))
        r = raw("res_" + base, oid, *vals)
        if f.ret.arith:
            self.markt(r, f.ret)
        ev.res = r
        if f.ret.ref:
            return ("l", ptr(raw("addrof", r)))
        return ("v", r)

    def args(self, f, args):
        """evaluate arguments: locations for reference parameters, values for all"""
        locs, vals = [], []
        for i, a in enumerate(args):
            pt = f.ptypes[i] if i < len(f.ptypes) else None
            if pt is not None and pt.ref:
                l = self.lv(a)
                locs.append(l)
                vals.append(self.read(l))
            else:
                locs.append(None)
                vals.append(self.ev(a, pt))
        return locs, vals

    def bind(self, fr, f, args):
        for i, p in enumerate(f.params):
            if i < len(args):
                a = args[i]
            else:
                a = None
            t = p["t"]
            if callable(a):
                fr.env[p["id"]] = a(t)
                continue
            if a is None:
                l = self.fresh(p["n"])
                fr.env[p["id"]] = l
                continue
            if t.ref:
                fr.env[p["id"]] = self.lv(a)
            else:
                l = self.fresh(p["n"] or "arg")
                if a.get("k") == "ctor":
                    self.construct_into(l, a, t)
                else:
                    self.write(l, self.ev(a, t), True)
                fr.env[p["id"]] = l

    def inline(self, f, oloc, args, e, env=None):
        """args: expression nodes evaluated in the caller's frame, or callables"""
        fr = Frame(f)
        fr.this = oloc
        if env:
            fr.env.update(env)
        fr.refret = bool(f.ret is not None and f.ret.ref)
        self.bind(fr, f, args)
        return self.run(fr, f, e)

    def run(self, fr, f, e):
        self.visited.add(f)
        pc0 = self.st.pc
        u0, s0, v0 = self.uid, len(self.stores), len(self.events)
        self.frames.append(fr)
        try:
            fr.pc0 = len(pc0)
            if f.inits:
                self.do_inits(fr, f)
            ok = self.ex(f.body) if f.body is not None else True
        finally:
            self.frames.pop()
        if fr.throws and self.frames:
            pass
        outs = []
        for s, v in fr.rets:
            outs.append((rel(s.pc, len(pc0)), s, v))
        if ok and not self._dead():
            outs.append((rel(self.st.pc, len(pc0)), self.st, None))
        if not outs:
            # never returns normally
            self.st.pc = pc0 + ((FALSE, "as"),)
            if self.frames and fr.throws:
                self.frames[-1].throws += 1
            return ("v", raw("void"))
        isref = fr.refret
        # assumption factors: paths that threw
        cov = or_(*[o[0] for o in outs])
        pc = pc0
        if cov is not TRUE and fr.throws:
            pc = pc0 + ((cov, "as"),)
        val = outs[-1][2]
        for c, s, v in reversed(outs[:-1]):
            if v is None or val is None:
                val = v if val is None else val
            elif isref:
                if v is not val:
                    cc = c
                    val = raw("lite", cc, v, val) if cc.op != "ite" else lift_loc2(cc, v, val)
            else:
                val = ite(c, v, val)
        self.st = self.merge([(c, s) for c, s, v in outs], pc)
        if not self.dry:
            byval = {fr.env[p["id"]] for p in f.params if p["id"] in fr.env and not p["t"].ref}
            self.spans.append((f, u0, self.uid, s0, len(self.stores), val, byval, v0, len(self.events)))
        if val is None:
            val = raw("void")
            return ("v", val)
        if not isref and val.op == "ite":
            val = self.simp(val)
        return ("l" if isref else "v", val)

    def do_inits(self, fr, f):
        for i in f.inits:
            e = i.get("e")
            if e is None:
                continue
            if "l" in e and e["l"]:
                self.line = e["l"]
            if i.get("base") is not None or i.get("deleg"):
                if e.get("k") == "ctor":
                    g = e.get("fn")
                    if g is not None and g.repo and g.body is not None:
                        if g.dflt and (g.cpy or g.mv):
                            src = self.lv(e["a"][0])
                            self.copybase(fr.this, src, g)
                        else:
                            self.ctor_call(g, fr.this, e["a"], e)
                    elif g is not None:
                        self.models.basector(self, fr, g, e)
                continue
            loc = F(fr.this, i["f"])
            t = self.ftype(f, i)
            if e.get("k") == "arrcopy":
                self.note("arrcopy", e)
                continue
            if t is not None and t.ref:
                # reference member: binds to an object
                self.write(loc, raw("refto", addr(self.lv(e))), True)
                continue
            if e.get("k") == "ctor" and e["fn"].repo and e["fn"].body is not None and \
                    not (e["fn"].dflt and (e["fn"].cpy or e["fn"].mv)):
                self.dyn[loc] = e["t"].s
                self.ctor_call(e["fn"], loc, e["a"], e)
            else:
                self.write(loc, self.ev(e, t), True)

    def copybase(self, dst, src, g):
        c = self.p.classes.get(g.ct.s) if g.ct else None
        for f in (c.fields if c else []):
            self.write(F(dst, f["n"]), self.read(F(src, f["n"])), True)

    def ftype(self, f, i):
        c = self.p.classes.get(f.ct.s) if f.ct else None
        if c:
            for x in c.fields:
                if x["n"] == i["f"]:
                    return x["t"]
        return None

    def ctor_call(self, f, loc, args, e):
        fr = Frame(f)
        fr.this = loc
        self.bind(fr, f, args)
        if self.recursing(f):
            self.note("recursive constructor", e)
            return
        self.run(fr, f, e)

    def callclo(self, v, f, args, e):
        fns, caps, cfr, node = self.clos[v]
        if f is None or f not in fns:
            f = fns[0] if len(fns) == 1 else f
        if f is None or f.body is None:
            self.note("closure without body", e)
            return ("v", raw("unk", "closure"))
        if self.recursing(f) and sum(1 for x in self.frames if x.fn is f) > 1:
            return ("v", raw("unk", "recursive closure"))
        env = {k: l for k, l in caps.items() if k != "this"}
        fr = Frame(f)
        # by-reference captures of enclosing scopes
        fr.env.update(cfr.env)
        fr.env.update(env)
        fr.this = caps.get("this", cfr.this)
        fr.refret = bool(f.ret is not None and f.ret.ref)
        fr.file = f.file
        self.bind(fr, f, args)
        return self.run(fr, f, e)

    def callval(self, v, locs, vals, e):
        """call through a value: closures, function pointers"""
        if v.op == "clo":
            def mkarg(i):
                def g(t):
                    if t.ref:
                        return locs[i]()
                    l = self.fresh("arg")
                    self.write(l, vals[i](), True)
                    return l
                return g
            fns = self.clos[v][0]
            f = fns[0] if len(fns) == 1 else None
            if f is None:
                f = self.pickfn(fns, len(locs))
            return self.callclo(v, f, [mkarg(i) for i in range(len(locs))], e)
        if v.op == "fnp":
            return ("v", app_(v.a[0], *[x() for x in vals]))
        if v.op == "memfn":
            pass
        xs = [x() for x in vals]
        ev = self.event("indirect", "indirect", None, None, [None] * len(xs), xs, e)
        r = app_("indirect", v, *xs)
        return ("v", r)

    def pickfn(self, fns, n):
        c = [f for f in fns if f.body is not None and len(f.params) == n]
        return c[0] if c else None

    # -- entry -------------------------------------------------------------
    def enter(self, f, this=THIS, args=None, dyn=True):
        """analyse f from an unconstrained initial state; args: optional list of
        values/locations, one per parameter (None: symbolic)"""
        fr = Frame(f)
        if f.cls and not f.static:
            fr.this = this
            if dyn and f.ct is not None:
                self.dyn.setdefault(this, f.ct.s)
        self.syms = {}
        for i, p in enumerate(f.params):
            a = args[i] if args and i < len(args) else None
            t = p["t"]
            n = p["n"] or "arg%d" % i
            if a is not None and a.op in ("var", "ptr", "f", "el", "new", "glob"):
                fr.env[p["id"]] = a
                self.syms[n] = a
                continue
            loc = raw("var", "@" + n)
            fr.env[p["id"]] = loc
            if a is not None:
                self.write(loc, a, True)
            v = self.read(loc)
            if t.isint():
                mark(v, True, bool(t.us))
            if t.cls and "Vector" in t.cls and "std::" not in t.cls:
                VEC.add(v.id)
            self.syms[n] = loc
        fr.refret = bool(f.ret is not None and f.ret.ref)
        fr.entry = True
        r = self.result = self.run(fr, f, {"l": f.line})
        return r


def lift_loc2(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "ite":
        x, y = lift_loc2(c.a[1], a, b), lift_loc2(c.a[2], a, b)
        return x if x is y else raw("lite", c.a[0], x, y)
    return raw("lite", c, a, b)


def depth(x):
    n = 0
    while x.op in ("f", "el"):
        x = x.a[0]
        n += 1
    return n


def ancestors(x):
    while x.op in ("f", "el"):
        x = x.a[0]
        yield x


def rel(pc, n):
    """condition of a path relative to its first n factors"""
    return and_(*[c for c, k in pc[n:]])


def match(pat, t, ks, b):
    """one-sided unification binding the counters ks"""
    if pat in ks:
        if pat in b:
            return b[pat] is t
        b[pat] = t
        return True
    if pat is t:
        return not any(has(pat, k) for k in ks) or all(k not in b for k in ks if has(pat, k)) and bindself(pat, ks, b)
    if pat.op != t.op or len(pat.a) != len(t.a):
        return False
    if pat.op == "poly":
        # affine in one counter with coefficient 1
        for k in ks:
            d = todict(pat)
            if d.get(((k, 1),)) == 1 and k not in b:
                r = sub(pat, k)
                if not any(has(r, q) for q in ks):
                    b[k] = sub(t, r)
                    return True
        return False
    for x, y in zip(pat.a, t.a):
        if isinstance(x, T):
            if not isinstance(y, T) or not match(x, y, ks, b):
                return False
        elif isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if isinstance(p, T):
                    if not match(p, q, ks, b):
                        return False
                elif p != q:
                    return False
        elif x != y:
            return False
    return True


def bindself(pat, ks, b):
    for k in ks:
        if has(pat, k):
            b[k] = k
    return True


def assigned(n, vid):
    """is variable vid assigned in the statement tree n"""
    if isinstance(n, dict):
        k = n.get("k")
        if k == "un" and n.get("op") in ("++", "--", "p++", "p--", "&") and n["e"].get("id") == vid:
            return True
        if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and \
                n["L"].get("id") == vid:
            return True
        for x in n.values():
            if isinstance(x, (dict, list)) and assigned(x, vid):
                return True
    elif isinstance(n, list):
        return any(assigned(x, vid) for x in n)
    return False


EK = {"lambda": "lambda", "?": "unknown"}
