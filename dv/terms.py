"""Hash-consed terms over the mathematical reals, integers and booleans.

Values are *mathematical*: Real terms are elements of the reals, Int terms of the
integers.  Constructors keep a light canonical form (rational constant folding,
flattened linear combinations, products of integer powers).  ``inv``-style
negative powers are total functions here; that every divisor met by the code is
non-zero is a separate (well-definedness) obligation, see jx.py.
"""
from fractions import Fraction
import itertools

_TABLE = {}
_counter = itertools.count(1)
_fresh = itertools.count(1)


class Term:
    __slots__ = ("op", "args", "sort", "id", "height", "_fv", "__weakref__")

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    # arithmetic sugar ---------------------------------------------------
    def __add__(self, o):
        return add(self, lift(o, self.sort))

    __radd__ = __add__

    def __neg__(self):
        return scale(-1, self)

    def __sub__(self, o):
        return add(self, scale(-1, lift(o, self.sort)))

    def __rsub__(self, o):
        return add(lift(o, self.sort), scale(-1, self))

    def __mul__(self, o):
        return mul(self, lift(o, self.sort))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o, "R"))

    def __rtruediv__(self, o):
        return div(lift(o, "R"), self)

    def __floordiv__(self, o):
        return idiv(self, lift(o, "I"))

    def __mod__(self, o):
        o = lift(o, "I")
        return self - o * idiv(self, o)

    def __pow__(self, n):
        return ipow(self, n)

    def __lt__(self, o):
        return lt(self, lift(o, self.sort))

    def __gt__(self, o):
        return lt(lift(o, self.sort), self)

    def __le__(self, o):
        return le(self, lift(o, self.sort))

    def __ge__(self, o):
        return le(lift(o, self.sort), self)

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise TypeError("symbolic boolean used as a Python bool: " + show(self))

    def __index__(self):
        if self.op == "const":
            return int(self.args[0])
        raise TypeError("symbolic integer used as an index: " + show(self))

    def __repr__(self):
        return show(self, 400)


def _mk(op, args, sort):
    key = (op, sort, args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_counter)
        h = 0
        for a in args:
            if isinstance(a, Term):
                if a.height > h:
                    h = a.height
        if op == "lam":
            h = args[0] + 1
        t.height = h
        t._fv = None
        _TABLE[key] = t
    return t


# --- leaves ---------------------------------------------------------------
def const(v, sort="R"):
    if sort == "R":
        v = Fraction(v)
    elif sort == "I":
        v = int(v)
    return _mk("const", (v,), sort)


def var(name, sort="R"):
    return _mk("var", (name,), sort)


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def fresh(prefix="k", sort="I"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def lift(v, sort="R"):
    if isinstance(v, Term):
        if v.sort == "I" and sort == "R":
            return i2r(v)
        if v.sort == "B" and sort == "R":
            return ite(v, const(1), const(0))
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if sort == "I":
        return const(int(v), "I")
    if isinstance(v, float):
        from .consts import snap

        return snap(v)
    return const(Fraction(v), "R")


def R(v):
    return lift(v, "R")


def I(v):
    return lift(v, "I")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


# --- sums: ("add", ((coef, term), ...), const) -------------------------------
# stored as op "add", args = (c0, ((c1,t1),...)) flattened in args tuple for hashing
def _lin(t):
    """(const, {term: coef})"""
    if t.op == "const":
        return t.args[0], {}
    if t.op == "add":
        return t.args[0], dict(zip(t.args[1::2], t.args[2::2]))
    if t.op == "mul":
        c = t.args[0]
        if c != 1:
            rest = _mk("mul", (c * 0 + 1,) + t.args[1:], t.sort)
            if len(t.args) == 3 and t.args[2] == 1:
                rest = t.args[1]
            return c * 0, {rest: c}
    z = Fraction(0) if t.sort == "R" else 0
    return z, {t: z + 1}


def _mklin(c0, d, sort):
    items = [(t, c) for t, c in d.items() if c != 0]
    if not items:
        return const(c0, sort)
    if c0 == 0 and len(items) == 1:
        t, c = items[0]
        return _scale_atom(c, t)
    items.sort(key=lambda p: p[0].id)
    args = [c0]
    for t, c in items:
        args.append(t)
        args.append(c)
    return _mk("add", tuple(args), sort)


def _scale_atom(c, t):
    if c == 1:
        return t
    if c == 0:
        return const(0, t.sort)
    if t.op == "mul":
        return _mk("mul", (t.args[0] * c,) + t.args[1:], t.sort)
    if t.op == "const":
        return const(t.args[0] * c, t.sort)
    return _mk("mul", (c, t, 1), t.sort)


def add(*ts):
    sort = "I"
    for t in ts:
        if t.sort == "R":
            sort = "R"
        assert t.sort in "RI", t
    c0 = Fraction(0) if sort == "R" else 0
    d = {}
    for t in ts:
        if t.sort != sort:
            t = i2r(t)
        c, dd = _lin(t)
        c0 += c
        for k, v in dd.items():
            d[k] = d.get(k, 0) + v
    return _mklin(c0, d, sort)


def scale(c, t):
    c = Fraction(c) if t.sort == "R" else int(c)
    if c == 1:
        return t
    c0, d = _lin(t)
    return _mklin(c0 * c, {k: v * c for k, v in d.items()}, t.sort)


def sub(a, b):
    return add(a, scale(-1, b))


# --- products: ("mul", coef, t1, e1, t2, e2, ...) -----------------------------
def _prod(t):
    if t.op == "const":
        return t.args[0], {}
    if t.op == "mul":
        return t.args[0], dict(zip(t.args[1::2], t.args[2::2]))
    if t.op == "add" and t.sort == "R" and t.args[0] == 0:
        # primitive part: pull out leading coefficient so that c*(a+b) == (c*a+c*b)
        c = t.args[2]
        if c != 1:
            return c, {scale(Fraction(1) / c, t): 1}
    elif t.op == "add" and t.sort == "R":
        c = t.args[0]
        if c != 1:
            return c, {scale(Fraction(1) / c, t): 1}
    return (Fraction(1) if t.sort == "R" else 1), {t: 1}


def _mkprod(c, d, sort):
    if c == 0:
        return const(0, sort)
    items = []
    earg = None
    for t, e in d.items():
        if e == 0:
            continue
        if t.op == "exp":
            # merge all exponentials: exp(a)^e * exp(b)^f = exp(e a + f b)
            a = scale(e, t.args[0])
            earg = a if earg is None else add(earg, a)
            continue
        items.append((t, e))
    if earg is not None:
        x = exp(earg)
        if x.op == "exp":
            items.append((x, 1))
        else:
            c2, d2 = _prod(x)
            c = c * c2
            dd = dict(items)
            for k, v in d2.items():
                dd[k] = dd.get(k, 0) + v
            items = [(k, v) for k, v in dd.items() if v != 0]
            if sum(1 for k, v in items if k.op == "exp") > 1:
                return _mkprod(c, dict(items), sort)
    if not items:
        return const(c, sort)
    if len(items) == 1 and items[0][1] == 1:
        t = items[0][0]
        if c == 1:
            return t
        return scale(c, t) if t.op == "add" else _scale_atom(c, t)
    items.sort(key=lambda p: p[0].id)
    args = [c]
    for t, e in items:
        args.append(t)
        args.append(e)
    return _mk("mul", tuple(args), sort)


def mul(*ts):
    sort = "I"
    for t in ts:
        if t.sort == "R":
            sort = "R"
        assert t.sort in "RI", t
    c = Fraction(1) if sort == "R" else 1
    d = {}
    for t in ts:
        if t.sort != sort:
            t = i2r(t)
        if t.op == "ite" and sort == "R" and len(ts) == 2:
            pass
        cc, dd = _prod(t)
        c *= cc
        if c == 0:
            return const(0, sort)
        for k, v in dd.items():
            d[k] = d.get(k, 0) + v
    return _mkprod(c, d, sort)


def ipow(t, n):
    if isinstance(n, Term):
        raise TypeError("use rpow")
    n = int(n)
    if n == 1:
        return t
    if t.op == "const":
        v = t.args[0]
        if v == 0 and n < 0:
            return _mk("mul", (Fraction(1), t, n), t.sort)
        return const(v ** n, t.sort)
    if n == 0:
        return const(1, t.sort)
    if t.sort == "I" and n < 0:
        t = i2r(t)
    c, d = _prod(t)
    return _mkprod(c ** n, {k: v * n for k, v in d.items()}, t.sort)


def div(a, b):
    if a.sort == "I":
        a = i2r(a)
    if b.sort == "I":
        b = i2r(b)
    return mul(a, ipow(b, -1))


def idiv(a, b):
    if is_const(a) and is_const(b):
        return const(a.args[0] // b.args[0], "I")
    if is_const(b) and b.args[0] == 1:
        return a
    return _mk("idiv", (a, b), "I")


def i2r(t):
    if t.sort == "R":
        return t
    if t.op == "const":
        return const(Fraction(t.args[0]), "R")
    if t.op == "add":
        c0, d = _lin(t)
        return _mklin(Fraction(c0), {i2r(k): Fraction(v) for k, v in d.items()}, "R")
    if t.op == "mul":
        c, d = _prod(t)
        return _mkprod(Fraction(c), {i2r(k): v for k, v in d.items()}, "R")
    if t.op == "ite":
        return ite(t.args[0], i2r(t.args[1]), i2r(t.args[2]))
    return _mk("i2r", (t,), "R")


# --- transcendental functions ---------------------------------------------
def exp(t):
    if t.op == "const" and t.args[0] == 0:
        return const(1)
    if t.op == "ln" :
        # exp(ln x) = x : only sound for x > 0 -> done in the contextual simplifier
        pass
    return _mk("exp", (t,), "R")


def ln(t):
    if t.op == "const" and t.args[0] == 1:
        return const(0)
    return _mk("ln", (t,), "R")


def sqrt(t):
    return _mk("sqrt", (t,), "R")


def fn(name, *args):
    """uninterpreted / spec-function application.  The triweight distribution function is
    symmetric, TW(-z) = 1 - TW(z) (lemma `symmetric` of contract tw_cuml): one of the two
    arguments is chosen, by names only, so that the choice survives shifts of indices"""
    if name == "TW" and _tw_sign(args[0]) < 0:
        return sub(const(1), _mk("fn", (name, neg_(args[0])), "R"))
    return _mk("fn", (name,) + tuple(args), "R")


def _skel(t, _c={}):
    """print of a term without the indices of array elements"""
    r = _c.get(t)
    if r is None:
        if t.op in ("var", "sel"):
            r = str(t.args[0]).split("!")[0]
            r = "#" if r.startswith("#") else r
        elif t.op in ("add", "mul"):
            r = t.op + str(sorted(_skel(x) for x in t.args[1::2]))
        else:
            r = t.op + str([_skel(a) if isinstance(a, Term) else str(a) for a in t.args])
        _c[t] = r
    return r


def _tw_sign(z):
    """antisymmetric: _tw_sign(-z) = -_tw_sign(z); 0 when no choice can be made"""
    if z.op == "const":
        return (z.args[0] > 0) - (z.args[0] < 0)
    if z.op == "mul":
        s = 1 if z.args[0] > 0 else -1
        for x, e in zip(z.args[1::2], z.args[2::2]):
            if x.op == "add" and e % 2:
                s *= _tw_sign(x)
        return s
    if z.op == "add":
        ks = sorted((_skel(x), c) for x, c in zip(z.args[1::2], z.args[2::2]))
        k0 = ks[0][0]
        tot = sum(c for k, c in ks if k == k0)
        return (tot > 0) - (tot < 0)
    return 1


def first(n, lm):
    """smallest index < n at which the predicate holds, n if there is none"""
    return _mk("fn", ("first", n, lm), "I")


def log10(t):
    return div(ln(t), ln(const(10)))


def pow10(t):
    return exp(mul(t, ln(const(10))))


def rpow(a, b):
    """a**b for a > 0"""
    if b.op == "const":
        v = b.args[0]
        if v.denominator == 1 and abs(v) <= 16:
            return ipow(a, int(v))
        if v == Fraction(1, 2):
            return sqrt(a)
        if v == Fraction(-1, 2):
            return ipow(sqrt(a), -1)
    return exp(mul(b, ln(a)))


# --- array element ----------------------------------------------------------
def sel(name, idx, sort="R"):
    return _mk("sel", (name,) + tuple(idx), sort)


# --- booleans ---------------------------------------------------------------
_NEG = {}


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le":
        return lt0(neg_(t.args[0]))
    if t.op == "lt":
        return le0(neg_(t.args[0]))
    if t.op in ("and", "or"):
        r = _NEG.get(t)
        if r is None:
            r = _NEG[t] = (or_ if t.op == "and" else and_)(*[not_(a) for a in t.args])
        return r
    return _mk("not", (t,), "B")


def neg_(t):
    return scale(-1, t)


def _nary(op, unit, zero, ts):
    out = {}
    for t in ts:
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            for a in t.args:
                out[a] = 1
        else:
            out[t] = 1
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    for a in out:
        if not_(a) in out:
            return zero
    return _mk(op, tuple(sorted(out, key=lambda a: a.id)), "B")


def and_(*ts):
    return _nary("and", TRUE, FALSE, ts)


def or_(*ts):
    return _nary("or", FALSE, TRUE, ts)


def implies(a, b):
    return or_(not_(a), b)


def _prim(t):
    """scale to a positive-multiple canonical representative"""
    if t.op == "const":
        return t
    if t.op == "add":
        c = abs(t.args[2])
    elif t.op == "mul":
        c = abs(t.args[0])
    else:
        return t
    if t.sort == "R":
        return scale(Fraction(1) / c, t) if c != 1 else t
    from math import gcd

    c0, d = _lin(t)
    g = 0
    for v in d.values():
        g = gcd(g, v)
    return t if g in (0, 1) else t


DIM_LB = {}  # Int variable (array length) -> known lower bound


def _dim_decide(t):
    """sign of an integer linear form in the array lengths only: (min, max) or None"""
    c0, d = _lin(t)
    lo = hi = c0
    for k, c in d.items():
        b = DIM_LB.get(k)
        if b is None:
            return None, None
        if c > 0:
            hi = None
            lo = None if lo is None else lo + c * b
        else:
            lo = None
            hi = None if hi is None else hi + c * b
    return lo, hi


def lt0(t):
    """t < 0"""
    if t.op == "const":
        return TRUE if t.args[0] < 0 else FALSE
    if t.sort == "I":
        return le0(t + 1)
    t = _prim(t)
    return _mk("lt", (t,), "B")


def le0(t):
    if t.op == "const":
        return TRUE if t.args[0] <= 0 else FALSE
    if t.sort == "I":
        lo, hi = _dim_decide(t)
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
    t = _prim(t)
    return _mk("le", (t,), "B")


def _coerce(a, b):
    if a.sort != b.sort:
        if a.sort == "B" or b.sort == "B":
            raise TypeError((a, b))
        return i2r(a), i2r(b)
    return a, b


def lt(a, b):
    a, b = _coerce(a, b)
    return lt0(sub(a, b))


def le(a, b):
    a, b = _coerce(a, b)
    return le0(sub(a, b))


def eq(a, b):
    if not isinstance(a, Term):
        a = lift(a, b.sort)
    if not isinstance(b, Term):
        b = lift(b, a.sort)
    if a.sort == "B":
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _coerce(a, b)
    d = sub(a, b)
    if d.op == "const":
        return TRUE if d.args[0] == 0 else FALSE
    if d.sort == "I":
        lo, hi = _dim_decide(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    if d.op in ("add",) and d.args[2] < 0:
        d = scale(-1, d)
    d = _prim(d)
    if d.op == "mul" and d.args[0] < 0:
        d = scale(-1, d)
    return _mk("eq", (d,), "B")


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if not isinstance(a, Term):
        a = lift(a, b.sort if isinstance(b, Term) else "R")
    if not isinstance(b, Term):
        b = lift(b, a.sort)
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort != b.sort:
        a, b = i2r(a), i2r(b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if (a.op == "interp" or b.op == "interp") and c.op in ("and", "or", "lt", "le"):
        r = ite_interp(c, a, b)
        if r is not None:
            return r
    return _mk("ite", (c, a, b), a.sort)


def ite_interp(c, a, b):
    """an interpolation which is given another value outside of its table has that value as its edge"""
    if a.op == "interp" and c.op in ("and", "le"):
        f, other, conj, parts = a, b, True, (c.args if c.op == "and" else (c,))
    elif b.op == "interp" and c.op in ("or", "lt"):
        f, other, conj, parts = b, a, False, (c.args if c.op == "or" else (c,))
    else:
        return None
    x, n, xp, fp, L, R_ = f.args
    lo, hi = lt(x, open_(xp, const(0, "I"))), lt(open_(xp, n - 1), x)
    if conj:
        lo, hi = not_(lo), not_(hi)
    rest = [p for p in parts if p is not lo and p is not hi]
    if len(rest) == len(parts):
        return None
    f = interp(x, n, xp, fp, other if lo in parts else L, other if hi in parts else R_)
    if not rest:
        return f
    return ite(and_(*rest), f, other) if conj else ite(or_(*rest), other, f)


def b2r(c):
    return ite(c, const(1), const(0))


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(le(a, b), b, a)


# --- binders ----------------------------------------------------------------
# ("lam", k, body): bound variable is var("#k").  k is larger than every lam inside.
def lam(f, prefix="b", sort="I"):
    v = fresh(prefix, sort)
    return close(v, f(v))


def close(v, body):
    k = body.height
    bv = var("#%d" % k, v.sort)
    return _mk("lam", (k, subst(body, {v: bv}, _raw=True)), body.sort)


def open_(l, t):
    return subst(l.args[1], {var("#%d" % l.args[0], t.sort): t})


def summ(lo, hi, f):
    """sum over lo <= i < hi"""
    l = f if isinstance(f, Term) and f.op == "lam" else lam(f)
    lo, hi = I(lo), I(hi)
    if l.args[1].op == "const" and l.args[1].args[0] == 0:
        return const(0)
    return _mk("sum", (lo, hi, l), "R")


def quotient(n, m):
    """q with n = q*m as a structural product of integer terms, or None"""
    if is_const(n):
        return const(n.args[0] // m.args[0], "I") if is_const(m) and m.args[0] > 0 and n.args[0] % m.args[0] == 0 else None
    cn, dn = _prod(n)
    cm, dm = _prod(m)
    if cm <= 0 or cn % cm or any(dn.get(t, 0) < e for t, e in dm.items()):
        return None
    return _mkprod(cn // cm, {t: e - dm.get(t, 0) for t, e in dn.items() if e != dm.get(t, 0)}, "I")


USED = []                                        # lemmas applied while building terms


def flat_sum(n, f):
    """sum over 0 <= k < n of f(k).  When n = q*m and f looks at k through its quotient by m (an
    axis which merges two), it is the double sum over i < q, j < m of f at k = i*m + j, where k // m = i
    (Lean: sum_flatten)"""
    k = fresh("b", "I")
    t = f(k)
    if not is_const(n) or cval(n) > 1:
        ms, seen, todo = [], set(), [t]
        while todo:
            x = todo.pop()
            if x in seen or k not in free_vars(x):
                continue
            seen.add(x)
            if x.op == "idiv" and x.args[0] is k and x.args[1] not in ms and not is_const(x.args[1]):
                ms.append(x.args[1])
            todo.extend(subterms(x))
        for m in ms:
            q = quotient(n, m)
            if q is None:
                continue
            mark = fresh("q", "I")
            USED.append("sum_flatten")

            def inner(i, j, t=t, m=m, mark=mark):
                return subst(replace(t, {idiv(k, m): mark}), {k: i * m + j, mark: i})

            return flat_sum(q, lambda i: summ(I(0), m, lambda j: inner(i, j)))
    return summ(I(0), n, close(k, t))


def forall(lo, hi, f):
    l = f if isinstance(f, Term) and f.op == "lam" else lam(f)
    if l.args[1] is TRUE:
        return TRUE
    lo, hi = I(lo), I(hi)
    if is_const(lo) and is_const(hi) and cval(lo) >= cval(hi):
        return TRUE
    return _mk("forall", (lo, hi, l), "B")


def exists(lo, hi, f):
    l = f if isinstance(f, Term) and f.op == "lam" else lam(f)
    return not_(forall(lo, hi, _mk("lam", (l.args[0], not_(l.args[1])), "B")))


def interp(x, n, xp, fp, left=None, right=None):
    """piecewise-linear interpolation; xp, fp lambdas Int->Real; left/right None = edge value"""
    if not (isinstance(xp, Term) and xp.op == "lam"):
        xp = lam(xp)
    if not (isinstance(fp, Term) and fp.op == "lam"):
        fp = lam(fp)
    n = I(n)
    if left is None:
        left = open_(fp, const(0, "I"))
    if right is None:
        right = open_(fp, n - 1)
    return _mk("interp", (x, n, xp, fp, left, right), "R")


# --- traversal --------------------------------------------------------------
def subterms(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a


def free_vars(t):
    if t._fv is None:
        if t.op == "var":
            s = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, Term):
                    s = s | free_vars(a)
            if t.op == "lam":
                nm = "#%d" % t.args[0]
                s = frozenset(x for x in s if x.args[0] != nm)
        t._fv = s
    return t._fv


def rebuild(t, args):
    """re-apply the smart constructor of t on new args (same layout as t.args)"""
    op = t.op
    if op == "add":
        c0 = args[0]
        parts = [const(c0, t.sort)]
        for x, c in zip(args[1::2], args[2::2]):
            parts.append(scale(c, x))
        return add(*parts)
    if op == "mul":
        parts = [const(args[0], t.sort)]
        for x, e in zip(args[1::2], args[2::2]):
            parts.append(ipow(x, e))
        return mul(*parts)
    if op == "exp":
        return exp(args[0])
    if op == "ln":
        return ln(args[0])
    if op == "i2r":
        return i2r(args[0])
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(args[0])
    if op == "lt":
        return lt0(args[0])
    if op == "le":
        return le0(args[0])
    if op == "eq":
        return eq(args[0], const(0, args[0].sort))
    if op == "idiv":
        return idiv(*args)
    if op == "sum":
        return summ(*args)
    if op == "forall":
        return forall(*args)
    if op == "fn" and args[0] == "TW":
        return fn(*args)
    return _mk(op, tuple(args), t.sort)


def subst(t, m, _raw=False):
    cache = {}
    keys = frozenset(m)

    def go(t):
        if t.op == "var":
            return m.get(t, t)
        if not t.args:
            return t
        fv = free_vars(t)
        if not (fv & keys):
            return t
        r = cache.get(t)
        if r is not None:
            return r
        if t.op == "lam":
            if _raw:
                r = _mk("lam", (t.args[0], go(t.args[1])), t.sort)
            else:
                bv = var("#%d" % t.args[0], "I")
                v = fresh("o", "I")
                body = go(subst(t.args[1], {bv: v}))
                r = close(v, body)
        else:
            r = rebuild(t, [go(a) if isinstance(a, Term) else a for a in t.args])
        cache[t] = r
        return r

    return go(t)


def replace(t, m):
    """replace whole subterms (map Term->Term), outermost first; not below binders
    whose bound variable occurs in the replaced term (terms are ground)."""
    cache = {}

    def go(t):
        if t in m:
            return m[t]
        if not t.args:
            return t
        r = cache.get(t)
        if r is not None:
            return r
        if t.op == "lam":
            bv = var("#%d" % t.args[0], "I")
            v = fresh("o", "I")
            body = subst(t.args[1], {bv: v})
            nb = go(body)
            r = t if nb is body else close(v, nb)
        else:
            r = rebuild(t, [go(a) if isinstance(a, Term) else a for a in t.args])
        cache[t] = r
        return r

    return go(t)


# --- printing ---------------------------------------------------------------
def show(t, limit=2000):
    out = []
    n = [0]

    def go(t):
        if n[0] > limit:
            out.append("...")
            return
        n[0] += 1
        o = t.op
        if o == "const":
            v = t.args[0]
            s = str(v)
            if len(s) > 14:
                s = "%.17g" % float(v)
            out.append(s)
        elif o == "var":
            out.append(t.args[0])
        elif o in ("true", "false"):
            out.append(o)
        elif o == "add":
            out.append("(")
            first = True
            if t.args[0] != 0:
                out.append(show(const(t.args[0], t.sort)))
                first = False
            for x, c in zip(t.args[1::2], t.args[2::2]):
                if not first:
                    out.append(" + ")
                first = False
                if c != 1:
                    out.append(show(const(c, t.sort)) + "*")
                go(x)
            out.append(")")
        elif o == "mul":
            out.append("(")
            first = True
            if t.args[0] != 1:
                out.append(show(const(t.args[0], t.sort)))
                first = False
            for x, c in zip(t.args[1::2], t.args[2::2]):
                if not first:
                    out.append("*")
                first = False
                go(x)
                if c != 1:
                    out.append("^%d" % c)
            out.append(")")
        elif o == "lt":
            go(t.args[0])
            out.append("<0")
        elif o == "le":
            go(t.args[0])
            out.append("<=0")
        elif o == "eq":
            go(t.args[0])
            out.append("==0")
        elif o == "sel":
            out.append(str(t.args[0]) + "[")
            for k, a in enumerate(t.args[1:]):
                if k:
                    out.append(",")
                go(a)
            out.append("]")
        elif o == "lam":
            out.append("(\\#%d. " % t.args[0])
            go(t.args[1])
            out.append(")")
        elif o == "i2r":
            go(t.args[0])
        else:
            out.append(o + "(")
            for k, a in enumerate(t.args):
                if k:
                    out.append(", ")
                if isinstance(a, Term):
                    go(a)
                else:
                    out.append(str(a))
            out.append(")")

    go(t)
    return "".join(out)
