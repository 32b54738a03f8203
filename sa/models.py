"""Meaning of the calls that leave the library: std containers, algorithms and
smart pointers, deal.II vectors, matrices, property trees, Teuchos handles.
Everything not listed is treated as an unknown operation: a const method or free
function yields an uninterpreted value, a non-const method additionally changes its
object; both are recorded as events."""
import re

from terms import *
import vn
from vn import raw, F, EL, addr, ptr

PTRS = ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr",
        "Teuchos::RCP", "std::weak_ptr", "std::__uniq_ptr_impl", "boost::shared_ptr")
VECS = ("dealii::Vector", "dealii::LinearAlgebra::distributed::Vector",
        "dealii::TrilinosWrappers::MPI::Vector", "dealii::LinearAlgebra::Vector",
        "dealii::BlockVector", "dealii::LinearAlgebra::ReadWriteVector")
MAPS = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap",
        "std::unordered_multimap")
ITERS = ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
         "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
         "dealii::IteratorOverIterators", "dealii::TriaRawIterator", "dealii::TriaActiveIterator",
         "dealii::TriaIterator", "dealii::FilteredIterator", "dealii::IndexSet::ElementIterator",
         "dealii::DynamicSparsityPatternIterators::Iterator", "boost::iterators::detail::iterator_facade_base",
         "std::reverse_iterator", "std::move_iterator", "boost::iterator_facade",
         "dealii::SparsityPatternIterators::Iterator", "std::back_insert_iterator")
CELLITERS = ("dealii::TriaRawIterator", "dealii::TriaActiveIterator", "dealii::TriaIterator",
             "dealii::FilteredIterator")


def one_itr(v):
    """positions in the same container, told apart by conditions, as one position"""
    if v.op != "ite":
        return v
    cs = set()

    def w(t):
        if t.op == "ite":
            w(t.a[1])
            w(t.a[2])
        else:
            cs.add(t.a[0] if t.op == "itr" else None)

    def ix(t):
        return ite(t.a[0], ix(t.a[1]), ix(t.a[2])) if t.op == "ite" else t.a[1]
    w(v)
    if len(cs) == 1 and None not in cs:
        return raw("itr", cs.pop(), ix(v))
    return v


class C:
    """one call, operands evaluated on demand"""

    def __init__(self, eng, f, e):
        self.g = eng
        self.f = f
        self.e = e
        self.args = [a for a in e["a"] if a.get("k") != "defarg"]
        self._o = None
        self._v = {}
        self._l = {}

    @property
    def o(self):
        if self._o is None:
            if self.e.get("o") is None:
                self._o = self.g.frames[-1].this
            else:
                self._o = self.g.objloc(self.e)
        return self._o

    @property
    def ov(self):
        return self.g.read(self.o)

    def a(self, i):
        if i not in self._v:
            if i in self._l:
                self._v[i] = self.g.read(self._l[i])
            else:
                self._v[i] = self.g.ev(self.args[i])
            self._v[i] = one_itr(self._v[i])
        return self._v[i]

    def l(self, i):
        if i not in self._l:
            self._l[i] = self.g.lv(self.args[i])
        return self._l[i]

    @property
    def n(self):
        return len(self.args)

    def set(self, v):
        self.g.write(self.o, v)


V = lambda x: ("v", x)
L = lambda x: ("l", x)
VOID = V(raw("void"))


def call(g, f, e, want):
    base = f.base if f.cls else f.qn
    c = C(g, f, e)
    g.logcall(f, e)
    m = EXACT.get(base)
    if m is not None:
        r = m(c)
        if r is not None:
            return r
    cls = f.cls or ""
    if cls in PTRS:
        r = smartptr(c, f.name)
        if r is not None:
            return r
    if cls in VECS:
        r = dvector(c, f.name)
        if r is not None:
            return r
    if cls == "std::vector" or cls == "std::array" or cls == "std::basic_string" or cls == "std::deque" \
            or cls == "std::list":
        r = stdvector(c, f.name, cls)
        if r is not None:
            return r
    if cls in MAPS:
        r = stdmap(c, f.name)
        if r is not None:
            return r
    if cls in ITERS or (f.op and not cls and is_iter_op(c, f)):
        r = iterator(c, f.op or f.name)
        if r is not None:
            return r
    if f.name in ("vmult", "Tvmult", "vmult_add", "Tvmult_add") and f.cls and len(f.ptypes) == 2:
        return vmult(c, f)
    if cls.startswith("boost::property_tree::basic_ptree"):
        r = ptree(c, f.name)
        if r is not None:
            return r
    if cls.startswith("boost::optional") or cls == "std::optional" or cls.startswith("boost::optional_detail"):
        r = optional(c, f.name)
        if r is not None:
            return r
    if cls == "std::function" and f.name == "operator()":
        return g.callval(c.ov, [lambda i=i: c.l(i) for i in range(c.n)],
                         [lambda i=i: c.a(i) for i in range(c.n)], e)
    return default(c)


def is_iter_op(c, f):
    return f.qn.startswith(("__gnu_cxx::operator", "boost::iterators::operator")) or (f.qn in ("std::operator==", "std::operator!=") and
                                                    len(f.ptypes) == 2 and "iterator" in f.ptypes[0].s) or \
        f.qn in ("std::__detail::operator==", "std::__detail::operator!=")


READING = {"std::" + n for n in (
    "distance next prev min_element max_element minmax_element find find_if find_if_not count count_if all_of any_of "
    "none_of equal lower_bound upper_bound equal_range binary_search is_sorted accumulate inner_product mismatch search "
    "adjacent_find for_each").split()}


# -- unknown external calls -------------------------------------------------

def default(c):
    g, f, e = c.g, c.f, c.e
    base = f.base if f.cls else f.qn
    oloc = ov = None
    if f.cls and not f.static and f.kind != "ctor":
        oloc = c.o
    locs, vals = [], []
    k = 0
    for i, a in enumerate(e["a"]):
        if a.get("k") == "defarg":
            locs.append(None)
            try:
                vals.append(g.ev(a["e"]) if a["e"] is not None and a["e"].get("k") in
                            ("int", "flt", "bool", "str", "ref", "null", "icast", "un", "bin") else raw("dflt"))
            except Exception:
                vals.append(raw("dflt"))
            continue
        pt = f.ptypes[i] if i < len(f.ptypes) else None
        if pt is not None and pt.ref:
            l = c.l(k)
            locs.append(l)
            vals.append(g.read(l))
        else:
            locs.append(None)
            vals.append(c.a(k))
        k += 1
    if oloc is not None:
        ov = g.read(oloc)
    ev = g.event("ext", base, f, oloc, locs, vals, e)
    ev.objt = oloc
    pre = () if ov is None else (ov,)
    for i, (pt, l, v) in enumerate(zip(f.ptypes, locs, vals)):
        out = None
        if pt.ref and not pt.const and l is not None and pt.ref != 2:
            out = l
        elif pt.ptr and not pt.pc and v.op in ("addr", "itr", "ptr"):
            out = v.a[0] if v.op in ("addr", "itr") else v
            if v.op == "addr" and out.op == "el":
                out = out.a[0]
        elif v.op == "itr" and pt.cls and "iterator" in pt.cls and not re.search(r"const", pt.s.split(",")[0]) \
                and f.qn not in READING:
            out = v.a[0]
        if out is not None:
            o = raw("out_" + base, num(i), *(pre + tuple(vals)))
            old = g.read(out)
            if isvec(old):
                VEC.add(o.id)
            if pt.ptr:
                KNOWN_LEN.setdefault(o.id, length(old)) if old.op not in ("undef", "sym") else None
            g.write(out, o)
            ev.out.append((out, o))
    ret = f.ret
    if oloc is not None and not f.const:
        nv = raw("upd_" + base, ov, *vals)
        if isvec(ov):
            VEC.add(nv.id)
        g.write(oloc, nv)
    if ret is None or ret.s == "void":
        return VOID
    if oloc is not None and not f.const:
        r = raw("res_" + base, *(pre + tuple(vals)))
    else:
        r = app_(base, *(pre + tuple(vals)))
        if f.targs and ret.arith:
            pass
    if ret.arith:
        g.markt(r, ret)
    ev.res = r
    if ret.ref and not ret.arith:
        return L(ptr(raw("addrof", r)))
    if ret.ref:
        return L(ptr(raw("addrof", r))) if not ret.const else V(r)
    if ret.cls and "Vector" in ret.cls and "std::" not in ret.cls:
        VEC.add(r.id)
    return V(r)


# -- smart pointers ---------------------------------------------------------

def smartptr(c, n):
    g = c.g
    if n == "operator->":
        return V(c.ov)
    if n == "operator*":
        return L(g.deref(c.ov))
    if n in ("get", "getRawPtr", "ptr"):
        return V(c.ov)
    if n == "operator bool":
        return V(g.simp(lift(g.nn, c.ov)))
    if n == "operator=":
        if c.n == 1:
            c.set(c.a(0))
            return L(c.o)
    if n == "reset":
        if c.n and c.f.ptypes and c.f.ptypes[0].ptr:
            owned(c, 0)
        c.set(c.a(0) if c.n else raw("null"))
        return VOID
    if n == "release":
        v = c.ov
        g.event("mem", "release", c.f, None, [None], [v], c.e)
        c.set(raw("null"))
        return V(v)
    if n == "swap":
        a, b = c.ov, g.read(c.l(0))
        c.set(b)
        g.write(c.l(0), a)
        return VOID
    if n in ("is_null",):
        return V(not_(g.simp(lift(g.nn, c.ov))))
    if n == "operator[]":
        return L(EL(g.deref(c.ov), c.a(0)))
    if n == "use_count":
        return V(app_("use_count", c.ov))
    return None


# -- std::vector & friends --------------------------------------------------

def dflt_elem(f):
    t = f.clsT[0] if f.clsT else ""
    t = str(t)
    if t in ("double", "float", "int", "unsigned int", "unsigned long", "long", "char", "unsigned char",
             "short", "long long", "unsigned long long", "unsigned short"):
        return ZERO
    if t == "bool":
        return FALSE
    if t.startswith("std::shared_ptr") or t.startswith("std::unique_ptr") or t.endswith("*"):
        return raw("null")
    if t.startswith("std::vector") or t.startswith("std::basic_string") or t.startswith("std::set") \
            or t.startswith("std::map"):
        return EMPTY
    if t.startswith("dealii::Vector"):
        return raw("arr", ZERO, ZERO)
    return raw("zero", t)


def stdvector(c, n, cls):
    g = c.g
    f = c.f
    if n in ("size", "length"):
        if cls == "std::array" and len(f.clsT) > 1:
            try:
                return V(num(int(str(f.clsT[1]))))
            except ValueError:
                pass
        return V(length(c.ov))
    if n == "empty":
        return V(eq0(length(c.ov)))
    if n in ("operator[]", "at"):
        i = c.a(0)
        return L(EL(c.o, i))
    if n == "front":
        return L(EL(c.o, ZERO))
    if n == "back":
        if cls == "std::array" and len(f.clsT) > 1:
            return L(EL(c.o, num(int(str(f.clsT[1]).rstrip("uUlL")) - 1)))
        return L(EL(c.o, sub(length(c.ov), ONE)))
    if n in ("begin", "cbegin", "data", "c_str"):
        if cls == "std::basic_string" and n in ("c_str", "data"):
            return V(c.ov)
        return V(itr(c.o, ZERO))
    if n in ("end", "cend"):
        return V(itr(c.o, length(c.ov)))
    if n in ("push_back", "emplace_back"):
        if c.n == 1:
            v = c.a(0)
            if n == "emplace_back" and v.op == "poly" and isconst(v) is False and False:
                pass
        else:
            v = raw("made", *[c.a(i) for i in range(c.n)])
        if cls == "std::basic_string":
            c.set(cat(c.ov, raw("chr", v)))
        else:
            c.set(push(c.ov, v))
        if n == "emplace_back":
            return L(EL(c.o, sub(length(c.ov), ONE)))
        return VOID
    if n == "resize":
        m = c.a(0)
        d = c.a(1) if c.n > 1 else dflt_elem(f)
        old = c.ov
        if old is EMPTY or (old.op == "arr" and old.a[0] is ZERO) or \
                (old.op == "arr" and old.a[1] is d) or old.op == "undef":
            c.set(raw("arr", m, d))
        elif length(old) is m:
            pass
        else:
            c.set(raw("resz", old, m, d))
        return VOID
    if n == "assign":
        if c.n == 2 and c.a(0).op == "itr":
            return L2(c, seqof(g, c.a(0), c.a(1)))
        if c.n == 2:
            return L2(c, raw("arr", c.a(0), c.a(1)))
        return L2(c, c.a(0))
    if n in ("reserve", "shrink_to_fit"):
        for i in range(c.n):
            c.a(i)
        return VOID
    if n == "clear":
        c.set(EMPTY)
        return VOID
    if n == "pop_back":
        v = c.ov
        if v.op == "cat" and v.a and v.a[-1].op == "one":
            c.set(cat(*v.a[:-1]))
        else:
            c.set(raw("resz", v, sub(length(v), ONE), raw("dflt")))
        return VOID
    if n == "operator=":
        if c.n == 1:
            v = c.a(0)
            c.set(v)
            return L(c.o)
    if n == "swap":
        a, b = c.ov, g.read(c.l(0))
        c.set(b)
        g.write(c.l(0), a)
        return VOID
    if n == "insert":
        old = c.ov
        p = c.a(0)
        if p.op == "itr" and p.a[1] is length(old) and c.n == 3 and c.a(1).op == "itr":
            c.set(cat(old, seqof(g, c.a(1), c.a(2))))
        elif p.op == "itr" and p.a[1] is length(old) and c.n == 2:
            c.set(push(old, c.a(1)))
        else:
            c.set(raw("ins", old, *[c.a(i) for i in range(c.n)]))
        return V(p)
    if n == "erase":
        old = c.ov
        a = [c.a(i) for i in range(c.n)]
        idx = [x.a[1] if x.op == "itr" else x for x in a]
        if len(idx) == 2 and idx[1] is length(old):
            # erase the tail
            c.set(raw("resz", old, idx[0], raw("dflt")))
        else:
            t = raw("erase", old, *idx)
            KNOWN_LEN[t.id] = sub(length(old), ONE if len(idx) == 1 else sub(idx[1], idx[0]))
            c.set(t)
        return V(a[0])
    if cls == "std::basic_string":
        if n in ("append", "operator+="):
            c.set(cat(c.ov, c.a(0)))
            return L(c.o)
        if n == "compare":
            return V(ite(eq(c.ov, c.a(0)), ZERO, ONE))
        if n in ("find", "rfind", "find_first_of", "substr"):
            return V(app_("string." + n, c.ov, *[c.a(i) for i in range(c.n)]))
    if n == "fill":
        c.set(raw("arr", length(c.ov), c.a(0)))
        return VOID
    return None


def L2(c, v):
    c.set(v)
    return VOID


def seqof(g, b, e):
    """sequence between two iterators"""
    if b.op == "itr" and e.op == "itr" and b.a[0] is e.a[0]:
        cont = g.read(b.a[0])
        n = sub(e.a[1], b.a[1])
        if b.a[1] is ZERO and e.a[1] is length(cont):
            return cont
        g.uid += 1
        k = raw("k", "s%d" % g.uid)
        return rep(n, lam(one(sel(cont, add(b.a[1], k))), k))
    return raw("range2", b, e)


def mapseq(c):
    return F(c.o, "%it")


def stdmap(c, n):
    g = c.g
    if n in ("size",):
        return V(length(fld(c.ov, "%it")) if c.ov.op != "cat" else length(c.ov))
    if n == "empty":
        return V(eq0(length(fld(c.ov, "%it"))))
    if n == "operator[]":
        return L(EL(c.o, c.a(0)))
    if n == "at":
        return L(EL(c.o, c.a(0)))
    if n in ("begin", "cbegin"):
        return V(raw("mbegin", c.ov))
    if n in ("end", "cend"):
        return V(raw("mend", c.ov))
    if n == "count" or n == "contains":
        r = app_("map.count", c.ov, c.a(0))
        INT.add(r.id)
        NONNEG.add(r.id)
        return V(r)
    if n == "find":
        return V(raw("mfind", c.ov, c.a(0)))
    if n in ("insert", "emplace"):
        c.set(raw("mins", c.ov, *[c.a(i) for i in range(c.n)]))
        return V(app_("map.insert", *[c.a(i) for i in range(c.n)]))
    if n == "clear":
        c.set(EMPTY)
        return VOID
    if n == "erase":
        c.set(raw("mera", c.ov, *[c.a(i) for i in range(c.n)]))
        return V(app_("map.erase"))
    if n == "operator=":
        c.set(c.a(0))
        return L(c.o)
    return None


# -- iterators --------------------------------------------------------------

def iterator(c, op):
    g = c.g
    e = c.e
    free = e.get("o") is None
    op = op.replace("operator", "") if op.startswith("operator") else op
    if free:
        a = c.a(0)
        b = c.a(1) if c.n > 1 else None
    else:
        a = c.ov
        b = c.a(0) if c.n > 0 else None
    if op == "*":
        if a.op == "backins":
            return L(c.o)
        if is_cell(c):
            return V(a)
        return L(deref_it(g, a))
    if op == "->":
        if is_cell(c):
            return V(a)
        if a.op == "itr" or a.op in ("mbegin", "mfind", "mend") or True:
            l = deref_it(g, a)
            return V(addr(l)) if l.op != "lite" else V(a)
    if op in ("++", "--"):
        d = ONE if op == "++" else num(-1)
        if a.op == "backins":
            return L(c.o)
        nv = g.advance(a, d)
        g.write(c.o, nv)
        post = len(c.f.ptypes) == 1
        return V(a) if post else L(c.o)
    if op in ("+=", "-="):
        g.write(c.o, g.advance(a, b if op == "+=" else neg(b)))
        return L(c.o)
    if op == "+":
        return V(g.advance(a, b))
    if op == "-":
        if b.op == "itr" or a.op == "itr" and b.op != "poly" and not isint(b):
            if a.op == "itr" and b.op == "itr" and a.a[0] is b.a[0]:
                return V(sub(a.a[1], b.a[1]))
            r = raw("itdiff", a, b)
            INT.add(r.id)
            return V(r)
        return V(g.advance(a, neg(b)))
    if op in ("==", "!="):
        for x, y in ((a, b), (b, a)):
            if x.op == "mfind" and y.op == "mend" and x.a[0] is y.a[0]:     # find(k) == end(): not contained
                r = app_("map.count", x.a[0], x.a[1])
                INT.add(r.id)
                NONNEG.add(r.id)
                return V(eq0(r) if op == "==" else not_(eq0(r)))
        return V(eq(a, b) if op == "==" else not_(eq(a, b)))
    if op == "<" and a.op == "itr" and b.op == "itr":
        return V(lt0(sub(a.a[1], b.a[1])))
    if op == "[]":
        return L(deref_it(g, g.advance(a, b)))
    if op == "=":
        if a.op == "backins" and not is_it_type(c):
            g.write(a.a[0], push(g.read(a.a[0]), b))
            return L(c.o)
        g.write(c.o, b)
        return L(c.o)
    if op == "base":
        return V(a)
    return None


def is_it_type(c):
    t = c.f.ptypes[0] if c.f.ptypes else None
    return t is not None and "back_insert_iterator" in t.s


def is_cell(c):
    return c.f.cls in CELLITERS


def deref_it(g, a):
    if a.op == "ite":
        return vn.lift_loc(lambda x: deref_it(g, x), a)
    if a.op == "itr":
        if a.a[0].op == "handles":
            return ptr(raw("hnd", sel(a.a[0].a[0], a.a[1])))
        return EL(a.a[0], a.a[1])
    if a.op == "addr":
        return a.a[0]
    return ptr(a)


# -- deal.II vectors --------------------------------------------------------

def vec(t):
    if t.op not in ("poly", "ite"):
        VEC.add(t.id)
    return t


def dvector(c, n):
    g, f = c.g, c.f

    def rd(i):
        return vec(c.a(i))

    def cur():
        return vec(c.ov)
    t0 = f.ptypes[0] if f.ptypes else None
    if n == "operator=":
        if t0 is not None and t0.arith:
            s = c.a(0)
            c.set(raw("arr", length(cur()), s))
        else:
            c.set(rd(0))
        return L(c.o)
    if n == "reinit":
        ev = default_event(c)
        if c.n >= 1 and not t0.arith:
            c.set(raw("arr", length(rd(0)), ZERO))
        elif c.n >= 1:
            c.set(raw("arr", c.a(0), ZERO))
        return VOID
    if n == "add":
        if c.n == 1:
            return app(c, add(cur(), rd(0) if not t0.arith else raw("ones", c.a(0))))
        if c.n == 2 and t0.arith and not f.ptypes[1].arith:
            return app(c, add(cur(), mul(c.a(0), rd(1))))
        if c.n == 4 and t0.arith:
            return app(c, add(cur(), add(mul(c.a(0), rd(1)), mul(c.a(2), rd(3)))))
        return None
    if n == "sadd":
        if c.n == 2:
            return app(c, add(mul(c.a(0), cur()), rd(1)))
        if c.n == 3:
            return app(c, add(mul(c.a(0), cur()), mul(c.a(1), rd(2))))
        return None
    if n == "equ" and c.n == 2:
        return app(c, mul(c.a(0), rd(1)))
    if n == "operator+=":
        return app(c, add(cur(), rd(0)), True)
    if n == "operator-=":
        return app(c, sub(cur(), rd(0)), True)
    if n == "operator*=":
        return app(c, mul(cur(), c.a(0)), True)
    if n == "operator/=":
        return app(c, div(cur(), c.a(0)), True)
    if n == "scale" and c.n == 1:
        return app(c, vec(raw("had", cur(), rd(0))))
    if n == "operator*":
        return V(dot(cur(), rd(0)))
    if n == "l2_norm":
        return V(norm(cur()))
    if n == "norm_sqr":
        return V(dot(cur(), cur()))
    if n in ("size", "m"):
        return V(length(cur()))
    if n in ("operator[]", "operator()", "local_element"):
        cur()
        return L(EL(c.o, c.a(0)))
    if n == "begin":
        cur()
        return V(itr(c.o, ZERO))
    if n == "end":
        return V(itr(c.o, length(cur())))
    if n in ("compress", "update_ghost_values", "zero_out_ghosts", "zero_out_ghost_values"):
        default_event(c)
        return VOID
    if n == "swap":
        a, b = c.ov, g.read(c.l(0))
        c.set(b)
        g.write(c.l(0), a)
        return VOID
    return None


def app(c, v, ref=False):
    if v.op not in ("poly", "ite"):
        VEC.add(v.id)
    c.set(v)
    return L(c.o) if ref else VOID


def default_event(c):
    g, f, e = c.g, c.f, c.e
    base = f.base if f.cls else f.qn
    vals = [c.a(i) for i in range(c.n)]
    ev = g.event("ext", base, f, c.o if f.cls and not f.static else None, [None] * len(vals), vals, e)
    ev.objt = ev.obj
    return ev


def vmult(c, f):
    g = c.g
    dst = c.l(0)
    src = vec(c.a(1))
    A = c.ov
    op = A if not f.name.startswith("T") else tr(A)
    v = lin(op, src)
    if f.name.endswith("_add"):
        v = add(vec(g.read(dst)), v)
    ev = default_event(c)
    ev.args = [dst, c._l.get(1)]
    ev.kind = "lin"
    g.write(dst, v)
    ev.res = v
    return VOID


# -- property trees ---------------------------------------------------------

def ptree(c, n):
    g, f = c.g, c.f
    if n == "get":
        key = c.a(0)
        ty = str(f.targs[0]) if f.targs else f.ret.s
        ty = "string" if "basic_string" in ty or ty == "char" else ty
        d = c.a(1) if c.n > 1 else None
        v = sel(c.ov, key)
        if v.op == "sel" and v.a[0].op != "sto":
            v = raw("opt", v.a[0], key, d if d is not None else raw("required"), ty)
            if f.ret.arith:
                g.markt(v, f.ret)
            if v.a[0].op == "made" and len(v.a[0].a) == 1 and d is not None:
                v = d                                   # no entry of that name in the tree made here
            if key.op == "str" and key.a[0] in g.ptvals:
                v = g.ptvals[key.a[0]]
        elif v.op == "ite" and d is not None:
            # entries put on some paths only: elsewhere the tree made here has none
            v = subst(v, {x: d for x in subterms(v) if x.op == "sel" and x.a[1] is key and x.a[0].op == "made" and
                          len(x.a[0].a) == 1})
        ev = g.event("opt", "ptree.get", f, c.o, [], [key, d if d is not None else raw("required"), raw("str", ty)], c.e)
        ev.res = v
        return V(v)
    if n == "put" or n == "put_value" or n == "add":
        key = c.a(0)
        v = c.a(1) if c.n > 1 else raw("void")
        ev = g.event("ext", "boost::property_tree::basic_ptree::put", f, c.o, [None] * c.n,
                     [c.a(i) for i in range(c.n)], c.e)
        ev.objt = c.o
        g.write(c.o, sto(c.ov, key, v))
        return L(c.o)
    if n in ("get_child",):
        key = c.a(0)
        g.event("opt", "ptree.get_child", f, c.o, [], [key] + ([raw("dflt")] if c.n > 1 else [raw("required")]), c.e)
        l = g.temp(raw("child", c.ov, key))
        if f.ret.ref:
            g.inner[l] = c.o
        return L(l)
    if n == "get_child_optional":
        g.event("opt", "ptree.get_child_optional", f, c.o, [], [c.a(0)], c.e)
        return V(raw("optchild", c.ov, c.a(0)))
    if n == "get_optional":
        ty = str(f.targs[0]) if f.targs else "?"
        g.event("opt", "ptree.get_optional", f, c.o, [], [c.a(0), raw("str", ty)], c.e)
        return V(raw("optval", c.ov, c.a(0), ty))
    if n == "get_value_optional":
        ty = str(f.targs[0]) if f.targs else "?"
        ty = "string" if "basic_string" in ty else ty
        return V(raw("optparse", c.ov, ty))
    if n == "data":
        return V(raw("pdata", c.ov))
    if n == "get_value":
        ty = str(f.targs[0]) if f.targs else "?"
        return V(raw("pdata", c.ov) if "basic_string" in ty else raw("pvalue", c.ov, ty))
    if n == "empty":
        return V(eq0(length(fld(c.ov, "%kids"))))
    if n == "size":
        return V(length(fld(c.ov, "%kids")))
    if n in ("begin", "end", "count", "find"):
        if n == "begin":
            return V(itr(c.o if c.ov.op != "sto" else F(c.o, "%kids"), ZERO))
        if n == "end":
            return V(itr(c.o, length(c.ov)) if c.ov.op != "sto" else
                     itr(F(c.o, "%kids"), length(fld(c.ov, "%kids"))))
    if n == "operator=":
        c.set(c.a(0))
        return L(c.o)
    return None


def optional(c, n):
    if n in ("operator bool", "is_initialized", "has_value"):
        return V(has_(c.ov))
    if n == "operator!":
        return V(not_(has_(c.ov)))
    if n in ("operator*", "get", "value"):
        return L(c.g.temp(val_(c.ov)))
    if n == "operator->":
        return V(addr(c.g.temp(val_(c.ov))))
    if n == "value_or" or n == "get_value_or":
        if c.ov.op == "optval":
            v = raw("opt", c.ov.a[0], c.ov.a[1], c.a(0), c.ov.a[2])
            if c.f.ret.arith:
                c.g.markt(v, c.f.ret)
            return V(v)
        return V(ite(has_(c.ov), val_(c.ov), c.a(0)))
    return None


# -- free functions ---------------------------------------------------------

def trip_of(b, e):
    if b.op == "itr" and e.op == "itr" and b.a[0] is e.a[0]:
        return sub(e.a[1], b.a[1])
    r = raw("itdiff", e, b)
    return mark(r, True, True)


def m_for_each(c):
    g = c.g
    b, e, fn = c.a(0), c.a(1), c.a(2)
    N = trip_of(b, e)
    cur = {}

    def pre(k):
        cur["k"] = k

    def body():
        l = deref_it(g, g.advance(b, cur["k"]))
        g.callval(fn, [lambda: l], [lambda: g.read(l)], c.e)
        return True
    g.counted(c.e, N, pre, body, g.read(b.a[0]) if b.op == "itr" else None)
    return V(fn)


def apply_fn(g, fn, vals, e):
    """value of a functor call"""
    if fn.op == "stdop":
        return {"plus": add, "minus": sub, "multiplies": mul, "divides": div}[fn.a[0]](*vals)
    r = g.callval(fn, [lambda v=v: g.temp(v) for v in vals], [lambda v=v: v for v in vals], e)
    return g.retv(r, "v")


def m_transform(c):
    g = c.g
    two = c.n == 5
    b, e = c.a(0), c.a(1)
    b2 = c.a(2) if two else None
    out = c.a(3 if two else 2)
    fn = c.a(4 if two else 3)
    N = trip_of(b, e)
    cur = {}

    def pre(k):
        cur["k"] = k

    def body():
        k = cur["k"]
        vs = [g.read(deref_it(g, g.advance(b, k)))]
        if two:
            vs.append(g.read(deref_it(g, g.advance(b2, k))))
        v = apply_fn(g, fn, vs, c.e)
        store(g, out, k, v)
        return True
    g.counted(c.e, N, pre, body)
    return V(out if out.op == "backins" else g.advance(out, N))


def store(g, out, k, v):
    if out.op == "backins":
        g.write(out.a[0], push(g.read(out.a[0]), v))
    else:
        g.write(deref_it(g, g.advance(out, k)), v)


def m_copy(c):
    g = c.g
    b, e, out = c.a(0), c.a(1), c.a(2)
    if b.op == "itr" and e.op == "itr" and out.op in ("itr", "backins"):
        if out.op == "backins":
            g.write(out.a[0], cat(g.read(out.a[0]), seqof(g, b, e)))
            return V(out)
        dst = g.read(out.a[0])
        N = trip_of(b, e)
        if out.a[1] is ZERO and length(dst) is N:
            g.write(out.a[0], seqof(g, b, e))
            return V(itr(out.a[0], N))
        cur = {}

        def body():
            store(g, out, cur["k"], g.read(deref_it(g, g.advance(b, cur["k"]))))
            return True
        g.counted(c.e, N, lambda k: cur.update(k=k), body)
        return V(g.advance(out, N))
    return None


def m_fill(c):
    g = c.g
    b, e = c.a(0), c.a(1)
    v = c.a(2)
    if b.op == "itr" and e.op == "itr":
        cont = g.read(b.a[0])
        if b.a[1] is ZERO and e.a[1] is length(cont):
            g.write(b.a[0], raw("arr", length(cont), v))
            return VOID
        cur = {}

        def body():
            g.write(deref_it(g, g.advance(b, cur["k"])), v)
            return True
        g.counted(c.e, trip_of(b, e), lambda k: cur.update(k=k), body)
        return VOID
    return None


def m_iota(c):
    g = c.g
    b, e, v = c.a(0), c.a(1), c.a(2)
    if b.op == "itr" and e.op == "itr":
        cur = {}

        def body():
            g.write(deref_it(g, g.advance(b, cur["k"])), add(v, cur["k"]))
            return True
        g.counted(c.e, trip_of(b, e), lambda k: cur.update(k=k), body)
        return VOID
    return None


def m_partial_sum(c):
    """in place or into another array: running sums"""
    g = c.g
    b, e, o = c.a(0), c.a(1), c.a(2)
    if c.n != 3 or b.op != "itr" or e.op != "itr" or o.op != "itr" or b.a[0] is not e.a[0]:
        return None
    src = g.read(b.a[0])
    n = trip_of(b, e)
    g.uid += 1
    if b.a[1] is ZERO and n is length(src) and o.a[1] is ZERO and length(g.read(o.a[0])) is n:
        t = raw("psum", src)
        KNOWN_LEN.setdefault(t.id, n)
        if c.f.ptypes[0].s.find("unsigned") >= 0:
            mark(t, True, True)
        g.write(o.a[0], t)
        return V(raw("itr", o.a[0], n))
    return None


def m_accumulate(c):
    g = c.g
    b, e, v = c.a(0), c.a(1), c.a(2)
    if b.op == "itr" and e.op == "itr":
        N = trip_of(b, e)
        cont = g.read(b.a[0])
        g.uid += 1
        k = raw("k", "a%d" % g.uid)
        x = sel(cont, add(b.a[1], k))
        if c.n == 4:
            op = c.a(3)
            if op.op == "stdop" and op.a[0] == "plus":
                pass
            else:
                cur = {}
                acc = g.temp(v)

                def body():
                    x = g.read(deref_it(g, g.advance(b, cur["k"])))
                    g.write(acc, apply_fn(g, op, [g.read(acc), x], c.e))
                    return True
                g.counted(c.e, N, lambda k: cur.update(k=k), body)
                return V(g.read(acc))
        if isint(v) and c.f.ret.isint():
            mark(x, True, bool(c.f.ret.us))
        return V(add(v, summ(N, lam(x, k))))
    return None


def m_inner_product(c):
    g = c.g
    b, e, b2, v = c.a(0), c.a(1), c.a(2), c.a(3)
    if b.op == "itr" and e.op == "itr" and b2.op == "itr":
        N = trip_of(b, e)
        g.uid += 1
        k = raw("k", "a%d" % g.uid)
        x = sel(g.read(b.a[0]), add(b.a[1], k))
        y = sel(g.read(b2.a[0]), add(b2.a[1], k))
        return V(add(v, summ(N, lam(mul(x, y), k))))
    return None


def m_sort(c):
    g = c.g
    b, e = c.a(0), c.a(1)
    if b.op == "itr":
        old = g.read(b.a[0])
        cmp = c.a(2) if c.n > 2 else raw("less")
        desc = cmp
        if cmp.op == "clo":
            # describe the comparator by its value on two symbolic arguments
            x, y = raw("sym", "%x"), raw("sym", "%y")
            mark(x, True, True)
            mark(y, True, True)
            n = len(g.events)
            desc = apply_fn(g, cmp, [x, y], c.e)
            del g.events[n:]
        if b.a[1] is ZERO and e.op == "itr" and e.a[1] is length(old):
            t = raw("sorted", old, desc)
        else:
            t = raw("sortedpart", old, desc, b.a[1], e.a[1] if e.op == "itr" else e)
        ev = g.event("ext", "std::sort", c.f, b.a[0], [None] * c.n, [b, e, desc], c.e)
        ev.res = t
        g.write(b.a[0], t)
        return VOID
    return None


def m_find_if(c):
    g = c.g
    b, e, fn = c.a(0), c.a(1), c.a(2)
    if b.op == "itr":
        cont = g.read(b.a[0])
        x = raw("sym", "%x")
        n = len(g.events)
        d = apply_fn(g, fn, [x], c.e) if fn.op == "clo" else fn
        del g.events[n:]
        return V(itr(b.a[0], mark(raw("findif", cont, b.a[1], e.a[1] if e.op == "itr" else e, d), True, True)))
    if b.op == "mbegin" and e.op == "mend" and fn.op == "clo":
        x = raw("sym", "%x")
        n = len(g.events)
        d = apply_fn(g, fn, [x], c.e)
        del g.events[n:]
        return V(raw("mfindif", b, e, d))
    return None


def m_find(c):
    g = c.g
    b, e, v = c.a(0), c.a(1), c.a(2)
    if b.op == "itr" and e.op == "itr":
        cont = g.read(b.a[0])
        return V(itr(b.a[0], mark(raw("findval", cont, b.a[1], e.a[1], v), True, True)))
    return None


def m_swap(c):
    g = c.g
    a, b = c.l(0), c.l(1)
    x, y = g.read(a), g.read(b)
    g.write(a, y)
    g.write(b, x)
    return VOID


def m_tie(c):
    return V(raw("tie", *[addr(c.l(i)) for i in range(c.n)]))


def m_tuple_assign(c):
    g = c.g
    o = c.ov
    v = c.a(0)
    if o.op == "tie":
        for i, p in enumerate(o.a):
            g.write(g.deref(p, False), get(v, i))
        return L(c.o)
    c.set(v)
    return L(c.o)


def m_get(c):
    i = int(str(c.f.targs[0]))
    v = c.a(0)
    if v.op == "rec":
        return V(fld(v, ("first", "second")[i]))
    if v.op == "tie":
        return L(c.g.deref(v.a[i], False))
    return V(get(v, i))


def m_workstream(c):
    g = c.g
    b, e = c.a(0), c.a(1)
    if c.n < 6:
        return None
    worker, copier = c.a(2), c.a(3)
    if worker.op != "clo":
        return None
    N = trip_of(b, e)
    cur = {}

    def pre(k):
        cur["k"] = k
        ts, tc = c.f.ptypes[4], c.f.ptypes[5]
        g.uid += 1
        s = raw("new", "scratch", g.uid, (k,))
        g.uid += 1
        d = raw("new", "copy", g.uid, (k,))
        g.dyn[s] = ts.s.replace("const ", "").replace(" &", "")
        g.dyn[d] = tc.s.replace("const ", "").replace(" &", "")
        g.write(s, raw("stale", "scratch", k), True)
        g.write(d, raw("stale", "copy", k), True)
        cur["s"], cur["d"] = s, d

    def body():
        k = cur["k"]
        it = g.temp(g.advance(b, k))
        s, d = cur["s"], cur["d"]
        if not g.dry:
            g.streams[g.loops[-1].uid if g.loops else 0] = (worker, copier, s, d, k)
        old = g.par, g.phase
        g.par = raw("par", g.loops[-1].uid if g.loops else 0)
        g.phase = ("worker", s, d)
        g.callval(worker, [lambda: it, lambda: s, lambda: d],
                  [lambda: g.read(it), lambda: g.read(s), lambda: g.read(d)], c.e)
        g.par = raw("copier", g.loops[-1].uid if g.loops else 0)
        g.phase = ("copier", s, d)
        if copier.op == "clo":
            g.callval(copier, [lambda: d], [lambda: g.read(d)], c.e)
        g.par, g.phase = old
        return True
    ev = g.event("ext", "dealii::WorkStream::run", c.f, None, [None, None], [b, e], c.e)
    for i in range(6, c.n):
        c.a(i)
    g.counted(c.e, N, pre, body, g.read(b.a[0]) if b.op == "itr" else None, par=True)
    return VOID


def m_make_shared(c):
    g = c.g
    t = str(c.f.targs[0])
    t = t[6:] if t.startswith("const ") else t
    return V(make(g, t, c, c.e))


def make(g, t, c, e):
    g.uid += 1
    loc = raw("new", t, g.uid, tuple(l.k for l in g.loops))
    g.dyn[loc] = t
    cl = g.p.classes.get(t)
    if cl is not None and not t.startswith("std::"):
        f = pick_ctor(g, t, c)
        if f is not None and not (f.dflt and (f.cpy or f.mv)):
            g.ctor_call(f, loc, c.args, e)
            ev = g.event("new", t, f, loc, [], [c._v.get(i) for i in range(c.n)], e)
            return addr(loc)
        if c.n == 1:
            v = c.a(0)
            src = c.l(0)
            g.write(loc, g.read(src), True)
            g.event("new", t, None, loc, [src], [v], e)
            return addr(loc)
        if c.n == 0:
            g.write(loc, raw("zero", t), True)
            g.event("new", t, None, loc, [], [], e)
            return addr(loc)
    vals = [c.a(i) for i in range(c.n)]
    v = extctor(g, t.split("<")[0], t, c, vals)
    g.write(loc, v, True)
    ev = g.event("new", t, None, loc, [None] * len(vals), vals, e)
    ev.res = v
    return addr(loc)


def pick_ctor(g, t, c):
    cands = [f for f in g.p.fns if f.kind == "ctor" and f.ct is not None and f.ct.s == t and f.body is not None]
    cands = [f for f in cands if len(f.ptypes) >= c.n and len(f.params) >= c.n]
    if c.n == 1:
        pt = c.f.ptypes[0].s.replace("const ", "").rstrip(" &")
        same = pt == t
        for f in cands:
            if (f.cpy or f.mv) == bool(same):
                if same and f.mv and not c.f.ptypes[0].s.endswith("&&"):
                    continue
                return f
        return None
    exact = [f for f in cands if len(f.ptypes) == c.n and not f.cpy and not f.mv]
    if exact:
        return exact[0]
    cands = [f for f in cands if not f.cpy and not f.mv]
    return cands[0] if cands else None


def extctor(g, cls, t, c, vals):
    """value of an externally defined object constructed from vals"""
    pts = c.f.ptypes if c is not None else []
    n = len(vals)
    if cls in VECS:
        if n == 0:
            return raw("arr", ZERO, ZERO)
        v = vals[0]
        p = pts[0] if pts else None
        if p is not None and p.arith:
            return raw("arr", v, ZERO)
        if p is not None and p.cls and p.cls.split("<")[0] in VECS or (n == 1 and not is_indexset(p)):
            return vec(v) if p is None or "Epetra" not in p.s else vec(app_("vec_from", v))
        return raw("lens", length(v), raw("arr", length(v), ZERO)) if False else raw("arr", length(v), ZERO)
    if cls in ("std::vector", "std::basic_string"):
        if n == 0:
            return EMPTY
        p = pts[0] if pts else None
        if p is not None and p.arith and cls == "std::vector":
            d = vals[1] if n > 1 else dflt_elem_t(t)
            return raw("arr", vals[0], d)
        if n == 2 and vals[0].op == "itr":
            return seqof(g, vals[0], vals[1])
        if cls == "std::basic_string" and p is not None and p.arith:
            return app_("string", *vals)
        return vals[0]
    if cls in MAPS:
        return vals[0] if n == 1 else EMPTY if n == 0 else app_("map", *vals)
    if cls in PTRS:
        return vals[0] if n else raw("null")
    if n == 1 and pts and pts[0].s.replace("const ", "").rstrip(" &") == t.replace("const ", ""):
        return vals[0]
    return raw("made", cls, *vals)


def is_indexset(p):
    return p is not None and "IndexSet" in p.s


def dflt_elem_t(t):
    class X:
        pass
    x = X()
    inner = t[t.find("<") + 1:] if "<" in t else ""
    depth = 0
    out = ""
    for ch in inner:
        if ch == "," and depth == 0:
            break
        if ch == "<":
            depth += 1
        if ch == ">":
            if depth == 0:
                break
            depth -= 1
        out += ch
    x.clsT = [out]
    return dflt_elem(x)


def m_dpc(c):
    t = str(c.f.targs[0])
    t = t[6:] if t.startswith("const ") else t
    return V(c.g.dyncast(t, c.a(0)))


def m_spc(c):
    """std::static_pointer_cast: narrowing is not checked"""
    t = str(c.f.targs[0])
    t = t[6:] if t.startswith("const ") else t
    src = c.f.ptypes[0].s if c.f.ptypes else ""
    g = c.g
    k = g.p.classes.get(t)
    up = k is not None and not any("<" + b.s in src.replace("const ", "")
                                   for b in g.p.all_bases(k))
    if not up and ("<" + t + ">") not in src.replace("const ", "") and not g.dry:
        g.derefs.append((raw("sdown", t, c.a(0)), g.st.pc, g.file(), g.line, len(g.events)))
    return V(c.a(0))


def m_id(c):
    return V(c.a(0))


def m_idref(c):
    return L(c.l(0))


def m_strplus(c):
    a, b = c.a(0), c.a(1)
    t = c.f.ret.s if c.f.ret else ""
    if "basic_string" in t:
        return V(cat(chars(a, c.f.ptypes[0]), chars(b, c.f.ptypes[1])))
    return None


def chars(v, pt):
    if pt is not None and pt.arith:
        if isconst(v):
            return raw("str", chr(int(cval(v))))
        return raw("chr", v)
    return v


def m_opeq(c):
    if c.e.get("o") is not None or c.n < 2:
        return None
    a, b = c.a(0), c.a(1)
    return V(c.g.equal(a, b))


def m_opne(c):
    r = m_opeq(c)
    return V(not_(r[1])) if r else None


def m_shl(c):
    """stream output"""
    g = c.g
    if c.e.get("o") is not None:
        o = c.o
        pt = c.f.ptypes[0]
        v = c.a(0)
    else:
        o = c.l(0)
        pt = c.f.ptypes[1]
        v = c.a(1)
    if pt.arith and pt.s == "char":
        v = chars(v, pt)
    elif pt.arith:
        v = raw("fmt", v)
    elif "(*)" in pt.s or "&(*" in pt.s or (v.op == "fnp"):
        v = raw("str", "\n") if "endl" in show(v) else raw("str", "")
    old = g.read(o)
    if old.op in ("made", "undef", "sym"):
        old = EMPTY if old.op != "sym" else old
    g.write(o, cat(old, v))
    return L(o)


def m_oss_str(c):
    if c.n:
        c.set(c.a(0))
        return VOID
    v = c.ov
    if v.op in ("made", "undef"):
        v = raw("str", "")
    return V(v if v is not EMPTY else raw("str", ""))


def m_tostring(c):
    v = c.a(0)
    if isconst(v):
        return V(raw("str", str(int(cval(v)))))
    return V(raw("tostr", v))


def owned(c, i):
    """a smart pointer takes over the raw pointer argument i"""
    v = c.a(i)
    name = "own"
    if c.n > i + 1:
        d = c.a(i + 1)
        if d is FALSE:
            name = "view"                                  # Teuchos: does not own
        elif d.op == "clo":
            name = "own with deleter"
    ev = c.g.event("mem", name, c.f, None, [None], [v], c.e)
    ev.cls = c.f.cls


def m_rcp(c):
    if c.f.ptypes and c.f.ptypes[0].ptr:
        owned(c, 0)
    return V(c.a(0))


def m_rcpref(c):
    return V(addr(c.l(0)))


def m_sqrt(c):
    return V(power(c.a(0), Fraction(1, 2)))


def m_active_cells(c):
    return V(app_("active_cells", c.ov))


def m_begin_active(c):
    return V(itr(raw("handles", app_("active_cells", c.ov)), ZERO))


def m_end_cells(c):
    a = app_("active_cells", c.ov)
    return V(itr(raw("handles", a), length(a)))


def m_filter(c):
    return V(app_("filter", c.a(0), c.a(1)))


def m_direct_solve(c):
    g = c.g
    if c.n == 2:
        dst = c.l(0)
        b = vec(c.a(1))
        ev = default_event(c)
        ev.args = [dst, c._l.get(1)]
        ev.kind = "lin"
        v = lin(raw("inv", c.ov), b)
        g.write(dst, v)
        ev.res = v
        return VOID
    return None


def m_mmult(c):
    g = c.g
    ev = default_event(c)
    dst = c.l(0)
    B = g.read(c.l(1))
    A = c.ov if not c.f.name.startswith("T") else tr(c.ov)
    v = mprod(A, B)
    if c.n > 2 and c.e["a"][2].get("k") != "defarg":
        v = raw("mprod_diag", v, c.a(2))
    ev.args = [dst, c.l(1)]
    ev.kind = "lin"
    ev.res = v
    g.write(dst, v)
    return VOID


def mprod(A, B):
    return raw("mprod", A, B)


def m_epetra_view(c):
    """the Epetra matrix behind a deal.II matrix wrapper is the same matrix"""
    ev = default_event(c)
    return L(c.o)


def m_epetra_multiply(c):
    g = c.g
    ev = default_event(c)
    ev.kind = "ext"
    A, ta, B, tb = c.a(0), c.a(1), c.a(2), c.a(3)
    dst = c.l(4)

    def op(M, t):
        return ite(t, tr(M), M) if t.op in ("true", "false", "ite") else ite(atomb(t), tr(M), M)
    v = lift(mprod, op(A, ta), op(B, tb))
    ev.out.append((dst, v))
    g.write(dst, v)
    r = app_("EpetraExt::MatrixMatrix::Multiply", A, ta, B, tb)
    INT.add(r.id)
    ev.res = r
    return V(r)


def m_epetra_transpose(c):
    ev = default_event(c)
    p = raw("trans_of", addr(c.o), c.a(0))
    l = ptr(p)
    c.g.write(l, tr(c.a(0)), True)
    return L(l)


def m_matrix_reinit(c):
    """a matrix built from another one is a copy of it"""
    g = c.g
    f = c.f
    if f.ptypes and f.ptypes[0].ref and (f.ptypes[0].cls or "").split("<")[0] in (
            "Epetra_CrsMatrix", "dealii::TrilinosWrappers::SparseMatrix", "dealii::SparseMatrix"):
        ev = default_event(c)
        v = c.a(0)
        for i in range(1, c.n):
            if c.e["a"][i].get("k") != "defarg" and f.ptypes[i].s == "bool" and c.a(i) is FALSE:
                return None
        c.set(v)
        return VOID
    return None


def m_rcp_assign(c):
    c.set(c.a(0))
    return L(c.o)


def m_bitref(c):
    if c.f.name == "operator bool":
        v = c.ov
        return V(v)
    c.set(c.a(0))
    return L(c.o)


def m_min(c):
    if c.n == 2:
        return V(minmax("min", c.a(0), c.a(1)))
    return None


def m_max(c):
    if c.n == 2:
        return V(minmax("max", c.a(0), c.a(1)))
    return None


def m_advance(c):
    g = c.g
    l = c.l(0)
    g.write(l, g.advance(g.read(l), c.a(1)))
    return VOID


def m_diag(c):
    c.ov
    return L(EL(F(c.o, "#diag"), c.a(0)))


def m_dims(c):
    v = c.ov
    while v.op == "rec":
        v = v.a[0]
    return V(app_(c.f.base, v))


def m_table(c):
    return L(EL(c.o, c.a(0))) if c.n == 1 else L(EL(EL(c.o, c.a(0)), c.a(1)))


def m_complex_real(c):
    v = c.ov
    return V(fld(v, "re") if v.op == "rec" else raw("re", v) if not isconst(v) else v)


def m_complex_assign(c):
    """complex numbers as elements of a commutative field containing the reals"""
    v = c.a(0)
    op = c.f.name[len("operator"):]
    if op != "=":
        o = c.ov
        if o.op == "zero":
            o = ZERO
        if v.op == "zero":
            v = ZERO
        v = {"+=": add, "-=": sub, "*=": mul, "/=": div}[op](o, v)
    c.set(v)
    return L(c.o)


def m_complex_bin(c):
    if c.n != 2 or not any("std::complex" in t.s for t in c.f.ptypes):
        return None
    return V({"+": add, "-": sub, "*": mul, "/": div}[c.f.name[len("operator"):]](c.a(0), c.a(1)))


def m_is_owned(c):
    return None


def m_copyassign(c):
    """assignment of an external value-like object"""
    if c.n == 1 and (c.f.cpy or c.f.mv or c.f.name == "operator="):
        v = c.a(0)
        ev = default_event(c)
        c.set(v)
        return L(c.o)
    return None


EXACT = {
    "std::for_each": m_for_each, "std::transform": m_transform, "std::copy": m_copy,
    "std::fill": m_fill, "std::iota": m_iota, "std::partial_sum": m_partial_sum, "std::accumulate": m_accumulate,
    "std::inner_product": m_inner_product, "std::sort": m_sort, "std::stable_sort": m_sort,
    "std::find_if": m_find_if, "std::find": m_find, "std::swap": m_swap,
    "std::tie": m_tie, "std::tuple::operator=": m_tuple_assign, "std::pair::operator=": m_tuple_assign,
    "std::make_tuple": lambda c: V(raw("tup", *[c.a(i) for i in range(c.n)])),
    "std::make_pair": lambda c: V(rec(raw("pair"), [("first", c.a(0)), ("second", c.a(1))])),
    "std::get": m_get,
    "dealii::WorkStream::run": m_workstream,
    "std::make_shared": m_make_shared, "std::make_unique": m_make_shared,
    "std::dynamic_pointer_cast": m_dpc, "std::static_pointer_cast": m_spc, "std::const_pointer_cast": m_id,
    "std::move": m_idref, "std::forward": m_idref, "std::ref": m_idref, "std::cref": m_idref,
    "std::as_const": m_idref,
    "std::operator+": lambda c: m_complex_bin(c) or m_strplus(c), "std::operator==": m_opeq, "std::operator!=": m_opne,
    "std::operator<<": m_shl, "std::basic_ostream::operator<<": m_shl,
    "std::basic_ostringstream::str": m_oss_str, "std::basic_stringstream::str": m_oss_str,
    "std::to_string": m_tostring,
    "Teuchos::rcp": m_rcp, "Teuchos::rcpFromRef": m_rcpref,
    "sqrt": m_sqrt, "std::sqrt": m_sqrt,
    "std::abs": lambda c: V(absv(c.a(0))), "std::fabs": lambda c: V(absv(c.a(0))), "fabs": lambda c: V(absv(c.a(0))),
    "abs": lambda c: V(absv(c.a(0))),
    "std::min": m_min, "std::max": m_max,
    "std::advance": m_advance, "std::next": lambda c: V(c.g.advance(c.a(0), c.a(1) if c.n > 1 else ONE)),
    "std::prev": lambda c: V(c.g.advance(c.a(0), neg(c.a(1)) if c.n > 1 else num(-1))),
    "std::distance": lambda c: V(trip_of(c.a(0), c.a(1))),
    "std::back_inserter": lambda c: V(raw("backins", c.l(0))),
    "std::begin": lambda c: V(itr(c.l(0), ZERO)), "std::end": lambda c: V(itr(c.l(0), length(c.g.read(c.l(0))))),
    "dealii::DoFHandler::active_cell_iterators": m_active_cells,
    "dealii::DoFHandler::begin_active": m_begin_active, "dealii::DoFHandler::end": m_end_cells,
    "dealii::filter_iterators": m_filter,
    "dealii::TrilinosWrappers::SolverDirect::solve": m_direct_solve,
    "dealii::TrilinosWrappers::SparseMatrix::mmult": m_mmult,
    "dealii::TrilinosWrappers::SparseMatrix::Tmmult": m_mmult,
    "dealii::SparseMatrix::mmult": m_mmult,
    "dealii::SparseMatrix::diag_element": m_diag,
    "dealii::SparseMatrix::m": m_dims, "dealii::SparseMatrix::n": m_dims,
    "dealii::TrilinosWrappers::SparseMatrix::trilinos_matrix": m_epetra_view,
    "EpetraExt::MatrixMatrix::Multiply": m_epetra_multiply,
    "EpetraExt::RowMatrix_Transpose::operator()": m_epetra_transpose,
    "dealii::TrilinosWrappers::SparseMatrix::reinit": m_matrix_reinit,
    "std::_Bit_reference::operator bool": m_bitref, "std::_Bit_reference::operator=": m_bitref,
    "dealii::Table::operator[]": m_table, "dealii::Table::operator()": m_table,
    "dealii::internal::TableBaseAccessors::Accessor::operator[]": m_table,
    "Teuchos::SerialDenseMatrix::operator()": m_table,
    "std::complex::real": m_complex_real,
    "std::complex::operator=": m_complex_assign, "std::complex::operator+=": m_complex_assign,
    "std::complex::operator-=": m_complex_assign, "std::complex::operator*=": m_complex_assign,
    "std::complex::operator/=": m_complex_assign,
    "std::operator-": m_complex_bin, "std::operator*": m_complex_bin,
    "std::operator/": m_complex_bin,
    "Teuchos::ParameterList::operator=": m_copyassign,
    "std::pair::pair": None,
}
EXACT = {k: v for k, v in EXACT.items() if v is not None}


# -- constructors ------------------------------------------------------------

def ctor(g, e):
    f = e.get("fn")
    t = e["t"]
    c = C(g, f, e)
    cls = f.cls or (t.cls or "")
    g.logcall(f, e)
    if f.cls and f.cls.startswith("lambda@"):
        return c.a(0)
    if f.cpy or f.mv or e.get("cpy") or e.get("mv"):
        v = c.a(0)
        if cls in VECS:
            vec(v)
        if cls.startswith("dealii::Trilinos") or cls in VECS:
            g.event("ctor", t.s, f, None, [c._l.get(0)], [v], e)
        return v
    if cls in PTRS:
        if c.n and f.ptypes and f.ptypes[0].ptr:
            owned(c, 0)
        if c.n == 2 and len(f.ptypes) == 2 and f.ptypes[1].ptr and not f.ptypes[0].ptr:
            c.a(0)
            return c.a(1)                                  # shares the ownership of another pointer
        return c.a(0) if c.n else raw("null")
    if cls in ITERS:
        return c.a(0) if c.n else raw("null")
    if cls == "boost::property_tree::string_path":
        return c.a(0)
    if cls == "std::basic_string" and c.n >= 1:
        v = c.a(0)
        if c.n == 2 and v.op == "itr":
            return seqof(g, v, c.a(1))
        if f.ptypes and f.ptypes[0].arith:
            return app_("string", v, c.a(1))
        return v
    if cls == "std::tuple":
        return raw("tup", *[c.a(i) for i in range(c.n)]) if c.n != 1 or not (f.ptypes and "tuple" in f.ptypes[0].s) else c.a(0)
    if cls == "std::pair":
        if c.n == 2:
            return rec(raw("pair"), [("first", c.a(0)), ("second", c.a(1))])
        if c.n == 1:
            return c.a(0)
    if cls in ("std::function", "std::reference_wrapper", "boost::optional", "std::optional"):
        v = c.a(0) if c.n else raw("none")
        if "optional" in cls and c.n:
            return raw("some", v) if v.op not in ("optval", "optchild", "optparse", "none") else v
        return v
    if cls in ("std::plus", "std::minus", "std::multiplies", "std::divides"):
        return raw("stdop", cls[5:])
    if cls in ("std::allocator", "std::less", "std::equal_to", "std::hash"):
        return raw("made", cls)
    if cls in ("std::basic_ostringstream", "std::basic_stringstream"):
        return raw("str", "")
    if cls in ("std::vector", "std::basic_string") or cls in MAPS or cls in VECS:
        vals = [c.a(i) for i in range(c.n)]
        v = extctor(g, cls, t.s, c, vals)
        if cls in VECS:
            ev = g.event("ctor", t.s, f, None, [None] * len(vals), vals, e)
            ev.res = v
        return v
    if cls == "std::complex":
        return c.a(0) if c.n else ZERO
    vals = [c.a(i) for i in range(c.n)]
    g.uid += 1
    v = raw("made", cls, *vals)
    ev = g.event("ctor", t.s, f, None, [c._l.get(i) for i in range(c.n)], vals, e)
    ev.name = cls
    ev.res = v
    return v


def basector(g, fr, f, e):
    c = C(g, f, e)
    if f.inl == 0 and False:
        return
    vals = [c.a(i) for i in range(c.n)]
    g.event("basector", f.cls or "", f, fr.this, [None] * len(vals), vals, e)
