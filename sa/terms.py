"""Canonical value terms.

Hash-consed terms with normalising constructors:
  * numbers, vectors: polynomials over atoms (ring normal form);
  * booleans and conditional values: decision diagrams over atoms
    (op 'ite', ordered by atom id), so equal case distinctions are equal terms;
  * containers: cat / one / rep (sequences), sto / sel (stores), rec / fld (records);
  * binders (sums, sequences, loop recurrences) in a locally nameless form.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "id", "_s", "_h")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
NONNEG = set()      # ids of atoms known to be non-negative
INT = set()         # ids of integer atoms


def raw(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._s = None
        t._h = None
        _tab[k] = t
    return t


def mk(op, *a):
    """generic constructor: dispatches to the normalising one"""
    f = _CONS.get(op)
    return f(*a) if f else raw(op, *a)


TRUE = raw("true")
FALSE = raw("false")


def isbool(t):
    return t is TRUE or t is FALSE


# -- polynomials -----------------------------------------------------------

def _fp(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return raw("poly", *sorted(d.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])))


def num(c):
    c = Fraction(c)
    return raw("poly", ((), c)) if c != 0 else raw("poly")


ZERO = raw("poly")
ONE = num(1)


def todict(t):
    if t.op == "poly":
        return dict(t.a)
    return {((t, 1),): Fraction(1)}


def isconst(t):
    return t.op == "poly" and (not t.a or (len(t.a) == 1 and t.a[0][0] == ()))


def cval(t):
    return t.a[0][1] if t.a else Fraction(0)


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


_MAXLIFT = 10


def _itecount(ts):
    s = set()

    def w(t):
        if t.op == "ite" and len(s) <= _MAXLIFT:
            s.add(t.a[0])
            w(t.a[1])
            w(t.a[2])
    for t in ts:
        w(t)
    return len(s)


def lift(f, *ts):
    """apply f to the leaves of decision diagrams"""
    if not any(t.op == "ite" for t in ts):
        return f(*ts)
    memo = {}

    def go(ts):
        r = memo.get(ts)
        if r is None:
            tops = [t.a[0] for t in ts if t.op == "ite"]
            if not tops:
                r = f(*ts)
            else:
                c = min(tops, key=lambda x: x.id)
                hi = tuple(t.a[1] if t.op == "ite" and t.a[0] is c else t for t in ts)
                lo = tuple(t.a[2] if t.op == "ite" and t.a[0] is c else t for t in ts)
                r = node(c, go(hi), go(lo))
            memo[ts] = r
        return r
    return go(tuple(ts))


def node(c, hi, lo):
    if hi is lo:
        return hi
    if hi.op == "iter" or lo.op == "iter":
        r = _refold(c, hi, lo)
        if r is not None:
            return r
    return raw("ite", c, hi, lo)


def _refold(c, hi, lo):
    """N > 0 ? f applied N-1 times to f(x) : x   is f applied N times to x"""
    if c.op == "lt0" and hi.op == "iter":
        N, t, x = neg(c.a[0]), hi, lo
    elif c.op == "eq0" and lo.op == "iter":
        N, t, x = c.a[0], lo, hi
        if t.a[0] is not sub(N, ONE):
            N = neg(N)
    else:
        return None
    n, y, l = t.a
    if n is not sub(N, ONE):
        return None
    h = l.a[1]
    if not has(l.a[0], raw("bv", h)) and subst(l.a[0], {raw("bvp", h): x}) is y:
        r = iterate(N, x, l)
        if t.id in VEC:
            VEC.add(r.id)
        return r
    return None


def _isvz(t):
    return t.op == "arr" and t.a[1] is ZERO


def _add(x, y):
    if _isvz(x) and not isconst(y):
        return y
    if _isvz(y) and not isconst(x):
        return x
    if x.op == "cat" or y.op == "cat":
        pass
    d = todict(x)
    for m, c in todict(y).items():
        d[m] = d.get(m, 0) + c
    return _fp(d)


def add(*ts):
    r = ts[0] if ts else ZERO
    for t in ts[1:]:
        if (r.op == "ite" or t.op == "ite") and _itecount((r, t)) <= _MAXLIFT:
            r = lift(_add, r, t)
        else:
            r = _add(r, t)
    return r


def _mul(x, y):
    if _isvz(x) and isconst(y):
        return x
    if _isvz(y) and isconst(x):
        return y
    if (_isvz(x) and not isconst(y)):
        return x
    if (_isvz(y) and not isconst(x)):
        return y
    d = {}
    for m1, c1 in todict(x).items():
        for m2, c2 in todict(y).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _fp(d)


def mul(x, y):
    if (x.op == "ite" or y.op == "ite") and _itecount((x, y)) <= _MAXLIFT:
        return lift(_mul, x, y)
    return _mul(x, y)


def neg(x):
    return mul(num(-1), x)


def sub(x, y):
    return add(x, neg(y))


def power(x, e):
    e = Fraction(e)
    if x.op == "ite" and _itecount((x,)) <= _MAXLIFT:
        return lift(lambda z: power(z, e), x)
    if isconst(x):
        c = cval(x)
        if c == 0:
            return ZERO if e > 0 else raw("inf")
        if e.denominator == 1:
            return num(c ** int(e))
        if c == 1:
            return ONE
        return _fp({((x, e),): Fraction(1)})
    d = todict(x)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 or e.denominator == 1:
            return _fp({tuple((a, k * e) for a, k in m): c ** int(e) if e.denominator == 1 else Fraction(1)})
    return _fp({((x, e),): Fraction(1)})


def div(x, y):
    return mul(x, power(y, -1))


def poly(*items):
    """rebuild from monomials (used by substitution)"""
    r = ZERO
    for m, c in items:
        t = num(c)
        for a, e in m:
            t = mul(t, power(a, e) if e != 1 else a)
        r = add(r, t)
    return r


def idiv(x, y):
    if x.op == "ite" or y.op == "ite":
        return lift(idiv, x, y)
    if isconst(y) and cval(y) == 1:
        return x
    if isconst(x) and isconst(y) and cval(y) != 0:
        q = cval(x) / cval(y)
        return num(int(q))
    t = raw("idiv", x, y)
    INT.add(t.id)
    if isnonneg(x) and isnonneg(y):
        NONNEG.add(t.id)
    return t


def imod(x, y):
    if x.op == "ite" or y.op == "ite":
        return lift(imod, x, y)
    if isconst(x) and isconst(y) and cval(y) != 0:
        a, b = int(cval(x)), int(cval(y))
        return num(a - b * int(Fraction(a, b)))
    t = raw("imod", x, y)
    INT.add(t.id)
    if isnonneg(x):
        NONNEG.add(t.id)
    return t


def isnonneg(t):
    if t.op == "poly":
        return all(c >= 0 and all(isnonneg(a) or e % 2 == 0 for a, e in m) for m, c in t.a)
    if t.op == "ite":
        return isnonneg(t.a[1]) and isnonneg(t.a[2])
    return t.id in NONNEG or t.op in ("len", "k", "bv")


def isint(t):
    if t.op == "poly":
        return all(c.denominator == 1 and all(isint(a) and e >= 0 for a, e in m) for m, c in t.a)
    if t.op == "ite":
        return isint(t.a[1]) and isint(t.a[2])
    return t.id in INT or t.op in ("len", "k", "bv", "idiv", "imod")


# -- booleans --------------------------------------------------------------

def not_(x):
    return lift(lambda t: FALSE if t is TRUE else TRUE if t is FALSE else node(t, FALSE, TRUE), x)


def atomb(t):
    """boolean atom as a decision diagram"""
    if isbool(t) or t.op == "ite":
        return t
    return node(t, TRUE, FALSE)


def ite(c, a, b):
    """c: boolean diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    c = atomb(c)
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        k = (c.id, a.id, b.id)
        r = memo.get(k)
        if r is None:
            tops = [t.a[0] for t in (c, a, b) if t.op == "ite"]
            v = min(tops, key=lambda x: x.id)

            def co(t, w):
                return t.a[w] if t.op == "ite" and t.a[0] is v else t
            r = node(v, go(co(c, 1), co(a, 1), co(b, 1)), go(co(c, 2), co(a, 2), co(b, 2)))
            memo[k] = r
        return r
    return go(c, a, b)


def and_(*ts):
    r = TRUE
    for t in ts:
        r = ite(atomb(r), atomb(t), FALSE)
    return r


def or_(*ts):
    r = FALSE
    for t in ts:
        r = ite(atomb(r), TRUE, atomb(t))
    return r


def _lead(t):
    return t.a[-1][1] if t.op == "poly" and t.a else 1


def lt0(p):
    """p < 0"""
    if p.op == "ite" and _itecount((p,)) <= _MAXLIFT:
        return lift(lt0, p)
    if isconst(p):
        return TRUE if cval(p) < 0 else FALSE
    if isnonneg(p):
        return FALSE
    n = neg(p)
    if isint(p):
        # p < 0 with p = a - 1, a >= 0   <=>  a == 0
        a1 = add(p, ONE)
        if isnonneg(a1):
            return eq0(a1)
        # -p >= 0, p < 0 <=> p != 0
        if isnonneg(n):
            return not_(eq0(n))
        if _lead(p) < 0:
            # p < 0  <=> not (p >= 0) <=> not (-p - 1 < 0)
            return not_(atomb(raw("lt0", sub(n, ONE))))
        return atomb(raw("lt0", p))
    if isnonneg(n):
        return not_(eq0(n))
    return atomb(raw("lt0", p))


def eq0(p):
    if p.op == "ite" and _itecount((p,)) <= _MAXLIFT:
        return lift(eq0, p)
    if isconst(p):
        return TRUE if cval(p) == 0 else FALSE
    if p.op == "poly" and _lead(p) < 0:
        p = neg(p)
    if p.op == "poly" and len(p.a) == 1 and p.a[0][0]:
        m = p.a[0][0]
        if len(m) == 1 and m[0][1] > 0:
            p = m[0][0]
    if isnonneg(p) and p.op == "poly" and any(m == () for m, c in p.a):
        return FALSE
    return atomb(raw("eq0", p))


def eq(a, b):
    """equality of arbitrary terms"""
    if a is b:
        return TRUE
    if a.op == "ite" or b.op == "ite":
        if _itecount((a, b)) <= _MAXLIFT:
            return lift(eq, a, b)
    if a.op == "cat" and b.op == "str":
        a = strfold(a)
    if b.op == "cat" and a.op == "str":
        b = strfold(b)
    if a.op == "str" and b.op == "str":
        return TRUE if a is b else FALSE
    if isbool(a) or isbool(b):
        return ite(atomb(a), atomb(b), not_(b))
    if a.op == "null" or b.op == "null":
        return not_(nonnull(b if a.op == "null" else a))
    if a.op == "itr" and b.op == "itr" and a.a[0] is b.a[0]:
        return eq0(sub(a.a[1], b.a[1]))
    if a.op == "poly" or b.op == "poly":
        return eq0(sub(a, b))
    if isint(a) and isint(b):
        return eq0(sub(a, b))
    if a.op == "enum" and b.op == "enum":
        return FALSE
    if a.op == "addr" and b.op == "addr":
        return distinct_locs(a, b)
    x, y = (a, b) if a.id < b.id else (b, a)
    return atomb(raw("eq", x, y))


def strfold(a):
    """a sequence of constant characters as a string constant"""
    out = []
    for x in a.a:
        n = cval(x.a[0]) if x.op == "one" and isconst(x.a[0]) else None
        if x.op == "str":
            out.append(x.a[0])
        elif n is not None and 0 < n < 0x110000 and n == int(n):
            out.append(chr(int(n)))
        else:
            return a
    return raw("str", "".join(out))


def distinct_locs(a, b):
    return atomb(raw("eq", *((a, b) if a.id < b.id else (b, a))))


def nonnull(p):
    if p.op == "ite":
        return lift(nonnull, p)
    if p.op == "null":
        return FALSE
    if p.op == "addr" or p.op == "clo":
        return TRUE
    return atomb(raw("nonnull", p))


def bool2int(t):
    return lift(lambda x: ONE if x is TRUE else ZERO if x is FALSE else ite(atomb(x), ONE, ZERO), t)


def restrict(t, lits):
    """simplify a diagram under literals {atom: bool}"""
    if t.op != "ite" or not lits:
        return t
    memo = {}

    def go(t):
        if t.op != "ite":
            return t
        r = memo.get(t.id)
        if r is None:
            b = lits.get(t.a[0])
            if b is None:
                r = node(t.a[0], go(t.a[1]), go(t.a[2]))
            else:
                r = go(t.a[1] if b else t.a[2])
            memo[t.id] = r
        return r
    return go(t)


def literals(c, out=None):
    """literals implied by the boolean diagram c"""
    out = {} if out is None else out
    while c.op == "ite":
        if c.a[2] is FALSE:
            out[c.a[0]] = True
            c = c.a[1]
        elif c.a[1] is FALSE:
            out[c.a[0]] = False
            c = c.a[2]
        else:
            break
    return out


def atoms_of(c):
    s = set()
    seen = set()

    def w(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == "ite":
            s.add(t.a[0])
            w(t.a[1])
            w(t.a[2])
        elif not isbool(t):
            s.add(t)
    w(c)
    return s


# -- records ---------------------------------------------------------------

def fld(v, f):
    if v.op == "ite":
        return lift(lambda x: fld(x, f), v)
    if v.op == "rec":
        for n, x in v.a[1]:
            if n == f:
                return x
        return fld(v.a[0], f)
    return raw("fld", v, f)


def rec(base, items):
    d = {}
    if base.op == "rec":
        d.update(base.a[1])
        base = base.a[0]
    d.update(items)
    for f in list(d):
        if d[f].op == "fld" and d[f].a[0] is base and d[f].a[1] == f:
            del d[f]
    if not d:
        return base
    return raw("rec", base, tuple(sorted(d.items())))


def setf(v, f, x):
    if v.op == "ite" and _itecount((v,)) <= _MAXLIFT:
        return lift(lambda y: setf(y, f, x), v)
    return rec(v, ((f, x),))


# -- containers ------------------------------------------------------------

EMPTY = raw("cat")


def one(e):
    return raw("one", e)


def cat(*ps):
    out = []
    for p in ps:
        if p.op == "cat":
            out += p.a
        elif p.op == "arr" and p.a[0] is ZERO:
            pass
        elif p.op == "str" and p.a[0] == "":
            pass
        elif p.op == "str" and out and out[-1].op == "str":
            out[-1] = raw("str", out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    if len(out) == 1 and out[0].op != "one" and out[0].op != "rep":
        return out[0]
    return raw("cat", *out)


def length(v):
    if v.op == "ite":
        return lift(length, v)
    if v.op == "cat":
        return add(*[length(p) for p in v.a]) if v.a else ZERO
    if v.op == "one":
        return ONE
    if v.op == "rep":
        body = v.a[1].a[0]
        l = length(body)
        if not has_bv(l, v.a[1].a[1]):
            return mul(v.a[0], l)
        return summ(v.a[0], raw("lam", l, v.a[1].a[1]))
    if v.op == "arr":
        return v.a[0]
    if v.op == "sto":
        return length(v.a[0])
    if v.op == "resz":
        return v.a[1]
    if v.op == "map":
        return length(v.a[2])
    if v.op == "str":
        return num(len(v.a[0]))
    if v.op in ("sorted", "sortedpart"):
        return length(v.a[0])
    if v.op == "poly" and v.a:
        for m, c in v.a:
            for a, e in m:
                if a.op in ("len",) or isint(a):
                    continue
                if a.op in ("arr", "sto", "rep", "cat", "lin", "at", "sym", "phi", "vec", "out", "upd", "fld", "sel"):
                    if a.op == "lin":
                        continue
                    return length(a)
    if v.op == "lens":
        return v.a[0]
    k = KNOWN_LEN.get(v.id)
    if k is not None:
        return k
    t = raw("len", v)
    INT.add(t.id)
    NONNEG.add(t.id)
    return t


KNOWN_LEN = {}


def definitely_ne(i, j):
    d = sub(i, j)
    return isconst(d) and cval(d) != 0


def sel(v, i):
    if v.op == "ite" and _itecount((v,)) <= _MAXLIFT:
        return lift(lambda x: sel(x, i), v)
    if i.op == "ite" and _itecount((i,)) <= 4:
        return lift(lambda x: sel(v, x), i)
    if v.op == "sto":
        if v.a[1] is i:
            return v.a[2]
        if definitely_ne(v.a[1], i) or (v.a[1].op == "str" and i.op == "str"):
            return sel(v.a[0], i)
        if i.op not in ("str",) and isint(i) and isint(v.a[1]):
            return ite(eq(i, v.a[1]), v.a[2], sel(v.a[0], i)) if _itecount((v.a[2],)) <= 4 else raw("sel", v, i)
        return raw("sel", v, i)
    if v.op == "arr":
        return v.a[1]
    if v.op == "resz":
        old = v.a[0]
        if old is EMPTY or (old.op == "arr" and old.a[0] is ZERO):
            return v.a[2]
        return raw("sel", v, i)
    if v.op == "map":
        return inst(v.a[1], i)
    if v.op == "cat":
        if len(v.a) == 1:
            return sel(v.a[0], i)
        j = i
        for n, p in enumerate(v.a):
            l = length(p)
            d = sub(j, l)
            if isnonneg(d):
                j = d
                continue
            # j < l surely?
            m = sub(sub(l, j), ONE)
            if isnonneg(m) and isnonneg(j):
                return sel(p, j)
            if n == len(v.a) - 1 and isnonneg(j):
                return sel(p, j)
            break
        return raw("sel", v, i)
    if v.op == "one":
        return v.a[0]
    if v.op == "str" and isconst(i) and 0 <= cval(i) < len(v.a[0]):
        return num(ord(v.a[0][int(cval(i))]))
    if v.op == "rep":
        body = v.a[1].a[0]
        if body.op == "one":
            return inst(raw("lam", body.a[0], v.a[1].a[1]), i)
        if body.op == "cat" and len(body.a) == 1 and body.a[0].op == "one":
            return inst(raw("lam", body.a[0].a[0], v.a[1].a[1]), i)
    return raw("sel", v, i)


def sto(v, i, x):
    if v.op == "ite" and _itecount((v,)) <= _MAXLIFT:
        return lift(lambda y: sto(y, i, x), v)
    if v.op == "sto":
        if v.a[1] is i:
            return sto(v.a[0], i, x)
        if (definitely_ne(v.a[1], i) or (v.a[1].op == "str" and i.op == "str")) and v.a[1].id > i.id:
            return raw("sto", sto(v.a[0], i, x), v.a[1], v.a[2])
    if v.op == "str" and isconst(i) and isconst(x) and 0 <= cval(i) < len(v.a[0]) and 0 < cval(x) < 0x110000:
        k = int(cval(i))
        return raw("str", v.a[0][:k] + chr(int(cval(x))) + v.a[0][k + 1:])
    if v.op == "cat" and isconst(i) and all(p.op == "one" for p in v.a) and 0 <= cval(i) < len(v.a):
        l = list(v.a)
        l[int(cval(i))] = one(x)
        return raw("cat", *l)
    if sel(v, i) is x:
        return v
    return raw("sto", v, i, x)


def push(v, e):
    return lift(lambda x: cat(x, one(e)), v) if v.op == "ite" else cat(v, one(e))


# -- binders ---------------------------------------------------------------

_hmemo = {}


def height(t):
    """largest binder height in t"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return max([height(x) for x in t] + [0])
        return 0
    if t._h is None:
        h = 0
        for x in t.a:
            if isinstance(x, (T, tuple)):
                h = max(h, height(x))
        if t.op == "lam":
            h = max(h, t.a[1])
        t._h = h
    return t._h


def lam(body, k):
    """abstract the loop counter k in body"""
    h = height(body) + 1
    return raw("lam", subst(body, {k: raw("bv", h)}), h)


def inst(l, x):
    return subst(l.a[0], {raw("bv", l.a[1]): x})


def has(t, x):
    """does x occur in t"""
    seen = set()

    def w(t):
        if t is x:
            return True
        if t.id in seen:
            return False
        seen.add(t.id)
        return any(wa(y) for y in t.a)

    def wa(y):
        if isinstance(y, T):
            return w(y)
        if isinstance(y, tuple):
            return any(wa(z) for z in y)
        return False
    return w(t)


def has_bv(t, h):
    return has(t, raw("bv", h))


def subterms(t):
    seen = set()
    out = []

    def w(t):
        if t.id in seen:
            return
        seen.add(t.id)
        out.append(t)
        for y in t.a:
            wa(y)

    def wa(y):
        if isinstance(y, T):
            w(y)
        elif isinstance(y, tuple):
            for z in y:
                wa(z)
    w(t)
    return out


def find_ops(t, *ops):
    return [x for x in subterms(t) if x.op in ops]


def subst(t, m):
    """simultaneous substitution of whole subterms; re-normalises"""
    if not m:
        return t
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t.id)
        if r is None:
            ch = False
            a = []
            for x in t.a:
                y = ga(x)
                ch = ch or y is not x
                a.append(y)
            if not ch:
                r = t
            elif t.op == "ite":
                r = ite(atomb(a[0]), a[1], a[2])
            else:
                r = mk(t.op, *a)
            memo[t.id] = r
        return r

    def ga(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            y = tuple(ga(z) for z in x)
            return x if all(p is q for p, q in zip(x, y)) else y
        return x
    return go(t)


def summ(n, l):
    body = l.a[0]
    bv = raw("bv", l.a[1])
    if body is ZERO:
        return ZERO
    if not has(body, bv):
        return mul(n, body)
    if isconst(n) and 0 <= cval(n) <= 8:
        return add(*[inst(l, num(i)) for i in range(int(cval(n)))]) if cval(n) > 0 else ZERO
    if body.op == "poly":
        # linearity: constants factor out, sums split
        parts = ZERO
        if len(body.a) > 1:
            for m, c in body.a:
                t = _fp({m: Fraction(1)})
                parts = add(parts, mul(num(c), summ(n, raw("lam", t, l.a[1]))))
            return parts
        (m, c), = body.a
        out = []
        inn = []
        for a, e in m:
            (inn if has(a, bv) else out).append((a, e))
        if out or c != 1:
            return mul(_fp({tuple(out): c}) if out else num(c),
                       summ(n, raw("lam", _fp({tuple(inn): Fraction(1)}), l.a[1])))
    return raw("sum", n, l)


def rep(n, l):
    if isconst(n) and 0 <= cval(n) <= 8:
        return cat(*[inst(l, num(i)) for i in range(int(cval(n)))])
    body = l.a[0]
    if body is EMPTY:
        return EMPTY
    if body.op == "cat" and len(body.a) == 1:
        body = body.a[0]
        l = raw("lam", body, l.a[1])
    if body.op == "one":
        e = body.a[0]
        if isconst(n) and n is not ZERO and any(x.op == "sel" and x.a[0].op == "str" for x in subterms(e)):
            cs = [inst(raw("lam", e, l.a[1]), num(i)) for i in range(int(cval(n)))]
            if all(isconst(c) for c in cs):
                return raw("str", "".join(chr(int(cval(c))) for c in cs))
        if e.op == "sel" and e.a[1].op == "bv" and e.a[1].a[0] == l.a[1] \
                and not has(e.a[0], e.a[1]) and length(e.a[0]) is n:
            return e.a[0]
    return cat(raw("rep", n, l))


# -- linear algebra --------------------------------------------------------

def lin(A, x):
    """linear operator A applied to x (distributes over linear combinations)"""
    if x.op == "ite":
        return lift(lambda y: lin(A, y), x)
    if x.op == "poly" or _isvz(x):
        if x is ZERO or _isvz(x):
            return ZERO
        r = ZERO
        for m, c in x.a:
            vs = [(a, e) for a, e in m if e == 1 and isvec(a)]
            if len(vs) != 1:
                return raw("lin", A, x)
            rest = tuple((a, e) for a, e in m if (a, e) != vs[0])
            r = add(r, mul(_fp({rest: c}), lin(A, vs[0][0])))
        return r
    return raw("lin", A, x)


VEC = set()


def isvec(t):
    return t.id in VEC or t.op in ("lin", "arr", "rep", "cat", "sto", "vec", "map")


def dot(x, y):
    if x.op == "ite" or y.op == "ite":
        return lift(dot, x, y)
    if _isvz(x) or _isvz(y) or x is ZERO or y is ZERO:
        return ZERO

    def split(v):
        if v.op != "poly":
            return [(v, ONE)]
        out = []
        for m, c in v.a:
            vs = [(a, e) for a, e in m if e == 1 and isvec(a)]
            if len(vs) != 1:
                return None
            rest = tuple((a, e) for a, e in m if (a, e) != vs[0])
            out.append((vs[0][0], _fp({rest: c})))
        return out
    sx, sy = split(x), split(y)
    if sx is None or sy is None or len(sx) * len(sy) > 30:
        a, b = (x, y) if x.id <= y.id else (y, x)
        t = raw("dot", a, b)
        return t
    r = ZERO
    for u, a in sx:
        for v, b in sy:
            p, q = (u, v) if u.id <= v.id else (v, u)
            r = add(r, mul(mul(a, b), raw("dot", p, q)))
    return r


def norm(x):
    return power(dot(x, x), Fraction(1, 2))


def get(v, i):
    if v.op == "ite":
        return lift(lambda x: get(x, i), v)
    if v.op == "tup":
        return v.a[i]
    return raw("get", v, i)


def has_(v):
    if v.op == "ite":
        return lift(has_, v)
    if v.op == "some":
        return TRUE
    if v.op == "none":
        return FALSE
    return atomb(raw("has", v))


def val_(v):
    if v.op == "ite":
        return lift(val_, v)
    if v.op == "some":
        return v.a[0]
    return raw("val", v)


def itr(c, i):
    if i.op == "ite":
        return lift(lambda x: raw("itr", c, x), i)
    return raw("itr", c, i)


def absv(x):
    if x.op == "ite":
        return lift(absv, x)
    if isconst(x):
        return num(abs(cval(x)))
    if isnonneg(x):
        return x
    if x.op == "poly" and _lead(x) < 0:
        x = neg(x)
    t = raw("abs", x)
    NONNEG.add(t.id)
    if isint(x):
        INT.add(t.id)
    return t


def tr(A):
    """transpose"""
    if A.op == "ite":
        return lift(tr, A)
    if A.op == "tr":
        return A.a[0]
    if A.op == "mprod":
        return raw("mprod", tr(A.a[1]), tr(A.a[0]))
    return raw("tr", A)


def app_(f, *a):
    if f in ("tolower", "toupper", "std::tolower", "std::toupper") and len(a) >= 1:
        x = a[0]
        if x.op == "ite":
            return lift(lambda y: app_(f, y), x)
        if isconst(x):
            c = chr(int(cval(x)))
            return num(ord(c.lower() if "lower" in f else c.upper()))
        return raw("app", f.replace("std::", ""), x)
    return raw("app", f, *a)


def minmax(op, x, y):
    if x is y:
        return x
    if x.op == "ite" or y.op == "ite":
        return lift(lambda a, b: minmax(op, a, b), x, y)
    d = sub(x, y)
    if isconst(d):
        return (x if (cval(d) < 0) == (op == "min") else y)
    if isnonneg(d):
        return y if op == "min" else x
    if isnonneg(neg(d)):
        return x if op == "min" else y
    a, b = (x, y) if x.id < y.id else (y, x)
    t = raw(op, a, b)
    if isint(x) and isint(y):
        INT.add(t.id)
    if isnonneg(x) and isnonneg(y):
        NONNEG.add(t.id)
    return t


def ptr(p):
    """location a pointer term points to"""
    return raw("ptr", p)


def lam_re(body, h):
    return raw("lam", body, h)


def iterate(n, x, l):
    return x if n is ZERO else raw("iter", n, x, l)


_CONS = {
    "iter": iterate,
    "app": app_, "tr": tr,
    "poly": poly, "idiv": idiv, "imod": imod, "lt0": lt0, "eq0": eq0, "eq": eq,
    "nonnull": nonnull, "fld": fld, "rec": rec, "cat": cat, "len": length,
    "sel": sel, "sto": sto, "sum": summ, "rep": rep, "lin": lin, "dot": dot,
    "get": get, "has": has_, "val": val_, "itr": itr, "abs": absv,
    "min": lambda a, b: minmax("min", a, b), "max": lambda a, b: minmax("max", a, b),
}


def mark(t, isint_=False, nonneg=False, vec=False):
    if t.op in ("poly", "ite"):
        return t
    if isint_:
        INT.add(t.id)
    if nonneg:
        NONNEG.add(t.id)
    if vec:
        VEC.add(t.id)
    return t


# -- printing --------------------------------------------------------------

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if t._s is None:
        t._s = _show(t)
    return t._s if len(t._s) < 4000 else t._s[:4000] + "..."


def _q(x):
    if x == int(x):
        return str(int(x))
    return str(x)


def _show(t):
    o = t.op
    if o == "poly":
        if not t.a:
            return "0"
        s = []
        for m, c in t.a:
            f = [show(a) + ("^" + str(e) if e != 1 else "") for a, e in m]
            if c != 1 or not f:
                f.insert(0, _q(c))
            s.append("*".join(f))
        return "(" + " + ".join(s) + ")" if len(s) > 1 else s[0]
    if o == "ite":
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return show(t.a[0])
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return "!" + show(t.a[0])
        return "(%s ? %s : %s)" % tuple(show(x) for x in t.a)
    if o == "str":
        return repr(t.a[0])
    if o in ("sym", "var"):
        return str(t.a[0]) if o == "sym" else "&%s" % (t.a[0],)
    if o == "k":
        return "k%s" % t.a[0]
    if o == "bv":
        return "b%d" % t.a[0]
    if o == "fld":
        return show(t.a[0]) + "." + str(t.a[1])
    if o == "sel":
        return "%s[%s]" % (show(t.a[0]), show(t.a[1]))
    if o == "lam":
        return "\\b%d.%s" % (t.a[1], show(t.a[0]))
    if o == "lt0":
        return show(t.a[0]) + "<0"
    if o == "eq0":
        return show(t.a[0]) + "==0"
    return o + "(" + ",".join(show(x) for x in t.a) + ")"
