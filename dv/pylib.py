"""Contracts of the library functions met by the plain-Python functions of /repo
(builtins, numpy, os.path, collections), over the symbolic values of dv/pyvc.py."""
import builtins
import collections
import functools
import inspect
import operator
import os
import pathlib
import re
import types
from fractions import Fraction

import numpy as np

from . import terms as T
from . import consts
from .terms import I, R, TRUE, FALSE, and_, or_, not_, ite, eq, lt, le, forall, Term
from .pyvc import (Unsupported, PyRaise, Havoc, SymKw, SymStr, NArr, calc, before_store, PList, PDict, SeqV, SNTClass, SNT, SymObj, PFunc, Bound,
                   Env, as_sym, mkstr, num, is_num, real, is_symbolic, subarr, vite, show, vsubst, code_of_literal, concat_segs)


class MaskSel:
    """positions where a mask holds (np.where / boolean indexing)"""

    def __init__(self, mask, arr=None):
        self.mask, self.arr = mask, arr     # arr None: the positions themselves


def count(mask):
    return T.summ(I(0), mask.shape[0], lambda k: T.b2r(mask.at(k)))


def pick(mask, arr):
    """the element of arr at the only position where the mask holds"""
    def code(k):
        v = arr.at(k)
        return v.code() if isinstance(v, SymStr) else real(v)
    t = T.summ(I(0), mask.shape[0], lambda k: ite(mask.at(k), code(k), R(0)))
    return SymStr.atom(t) if arr.kind == "S" else t


PRIM = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv,
    "Mod": operator.mod, "Pow": operator.pow, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
    "Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge,
}


def tabs(a):
    a = num(a)
    return ite(lt(a, T.const(0, a.sort)), T.neg_(a), a)


def align(a, b):
    a, b = num(a), num(b)
    if a.sort != b.sort:
        a, b = real(a), real(b)
    return a, b


def tmin(a, b):
    a, b = align(a, b)
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b = align(a, b)
    return ite(le(a, b), b, a)


FLIP = {"Eq": "Eq", "NotEq": "NotEq", "Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}


def some_of(op, a, b):
    """how often a condition holds, compared with nought (or one): whether it holds anywhere"""
    if b.op != "const":
        a, b, op = b, a, FLIP[op]
    if b.op != "const" or a.op != "sum":
        return None
    lo, hi, l = a.args
    body = l.args[1]
    if body.op != "ite" or not all(x.op == "const" for x in body.args[1:]) or [x.args[0] for x in body.args[1:]] != [1, 0]:
        return None
    c = b.args[0]
    some = T.exists(lo, hi, T._mk("lam", (l.args[0], body.args[0]), "B"))
    if (op == "Gt" and 0 <= c < 1) or (op == "GtE" and 0 < c <= 1) or (op == "NotEq" and c == 0):
        return some
    if (op == "LtE" and 0 <= c < 1) or (op == "Lt" and 0 < c <= 1) or (op == "Eq" and c == 0):
        return not_(some)
    return None


def scalar_op(op, a, b):
    a, b = num(a), num(b)
    if op in ("BitAnd", "BitOr", "BitXor") and a.sort == b.sort == "B":
        return {"BitAnd": and_, "BitOr": or_, "BitXor": lambda x, y: not_(eq(x, y))}[op](a, b)
    if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
        if a.sort == b.sort == "B" and op in ("Eq", "NotEq"):
            e = or_(and_(a, b), and_(not_(a), not_(b)))
            return e if op == "Eq" else not_(e)
        e = some_of(op, a, b)
        if e is not None:
            return e
        a, b = align(a, b)
        return {"Eq": lambda: eq(a, b), "NotEq": lambda: not_(eq(a, b)), "Lt": lambda: lt(a, b), "LtE": lambda: le(a, b),
                "Gt": lambda: lt(b, a), "GtE": lambda: le(b, a)}[op]()
    if a.sort == "B":
        a = T.b2r(a)
    if b.sort == "B":
        b = T.b2r(b)
    if op == "Div":
        return real(a) / real(b)
    if op == "Pow":
        if b.op == "const" and b.args[0] == int(b.args[0]):
            n = int(b.args[0])
            return T.ipow(a if n >= 0 else real(a), n)
        return T.rpow(real(a), real(b))
    if op in ("FloorDiv", "Mod"):
        if a.sort == b.sort == "I" and b.op == "const" and b.args[0] > 0:
            return a // b if op == "FloorDiv" else a % b
        raise Unsupported("integer division")
    a, b = align(a, b)
    return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b}[op]()


class Lib:
    def __init__(self):
        self.table = {}
        self.build()

    # ---------------------------------------------------------------- arrays
    def arr(self, ex, v, dtype=None):
        """np.asarray"""
        if isinstance(v, NArr):
            r = v
        elif isinstance(v, SymObj) and "asarray" in v.methods:
            r = v.methods["asarray"]()
        elif is_num(v):
            t = num(v)
            r = NArr((), lambda: t, t.sort)
        elif isinstance(v, (SymStr, str, bytes)):
            s = as_sym(v)
            r = NArr((), lambda: s, "S")
        elif isinstance(v, np.ndarray):
            if v.size > 4096:
                raise Unsupported("large constant array")
            r = NArr(v.shape, lambda *i, v=v: self.const_elem(v, i), {"f": "R", "i": "I", "u": "I", "b": "B", "U": "S", "S": "S"}.get(v.dtype.kind, "R"))
        elif isinstance(v, Havoc):
            raise Unsupported("array of values carried between iterations")
        else:
            r = self.stack(ex, ex.segments(v))
        return self.cast(ex, r, dtype)

    def const_elem(self, v, i):
        if all(j.op == "const" for j in i):
            x = v[tuple(int(j.args[0]) for j in i)]
            return as_sym(str(x)) if v.dtype.kind in "US" else num(x.item())
        r = None
        for k in np.ndindex(*v.shape):
            c = and_(*[eq(a, I(b)) for a, b in zip(i, k)])
            x = as_sym(str(v[k])) if v.dtype.kind in "US" else num(v[k].item())
            r = x if r is None else vite(c, x, r)
        return r

    def cast(self, ex, r, dtype):
        if dtype is None:
            return r
        nm = dtype if isinstance(dtype, str) else getattr(dtype, "__name__", str(dtype))
        if nm in ("float", "float64", "f8", "d", "<f8"):
            if r.kind == "S":
                return calc(r.shape, lambda *i: self.to_float(r.at(*i)), "R")
            if r.kind == "R":
                return r
            return calc(r.shape, lambda *i: real(r.at(*i)), "R")
        if nm in ("int", "int64", "i8", "intp", "i4", "int32") and r.kind == "I":
            return r
        if nm == "bool" and r.kind == "B":
            return r
        if r.kind == "S" and (nm[:1] in ("S", "U") or nm in ("str", "bytes", "bytes_", "str_", "object")):
            if re.fullmatch(r"[<|>]?[SU]\d+", nm):
                raise Unsupported("strings cut to a fixed length")
            return r
        raise Unsupported("conversion to %s" % nm)

    def to_float(self, s):
        s = as_sym(s)
        c = s.concrete()
        if c is not None:
            try:
                return num(float(c))
            except ValueError as e:
                raise PyRaise(ValueError, str(e))
        parts = [p for p in s.parts if not (isinstance(p, str) and not p.strip()) and not (not isinstance(p, str) and "ws" in p[1])]
        return T.fn("float", SymStr(parts).code())

    def stack(self, ex, segs):
        if not segs:
            return NArr((0,), lambda i: R(0), "R")
        out = []
        for s in segs:
            if s[0] == "item":
                out.append(("item", self.arr(ex, s[1])))
            else:
                k = T.fresh("p")
                a = self.arr(ex, s[2](k))
                for d in a.shape:
                    if k in T.free_vars(d):
                        k2 = T.fresh("p")
                        c = ex.ctx.assume(le(I(0), k), lt(k, s[1]), le(I(0), k2), lt(k2, s[1]))
                        from . import pyvc
                        if not pyvc.prove(eq(d, T.subst(d, {k: k2})), c):
                            raise Unsupported("rows of different lengths")
                shp = [T.subst(d, {k: I(0)}) for d in a.shape]
                out.append(("seq", s[1], shp, (lambda i, f=s[2]: self.arr(ex, f(i))), a.kind))
        shape = out[0][1].shape if out[0][0] == "item" else out[0][2]
        kinds = {o[1].kind if o[0] == "item" else o[4] for o in out}
        kind = kinds.pop() if len(kinds) == 1 else "R"
        for o in out:
            sh = o[1].shape if o[0] == "item" else o[2]
            if len(sh) != len(shape) or any(a is not b and ex.ctx.decide(eq(a, b)) is not True for a, b in zip(sh, shape)):
                raise Unsupported("rows of different shapes")
        n = I(0)
        for o in out:
            n = n + (I(1) if o[0] == "item" else o[1])
        if len(out) == 1 and out[0][0] == "seq":
            g = out[0][3]
            return calc([n] + list(shape), lambda i, *j: g(i).at(*j), kind)
        if all(o[0] == "item" for o in out):
            rows = [o[1] for o in out]

            def f(i, *j):
                if i.op == "const":
                    return rows[int(i.args[0])].at(*j)
                r = rows[-1].at(*j)
                for m in range(len(rows) - 2, -1, -1):
                    r = vite(eq(i, I(m)), rows[m].at(*j), r)
                return r
            return calc([n] + list(shape), f, kind)
        tot, f = concat_segs([("item", o[1]) if o[0] == "item" else ("seq", o[1], o[3]) for o in out])
        if shape:
            raise Unsupported("mixed rows")
        return calc([tot], lambda i: (lambda v: v.at() if isinstance(v, NArr) else v)(f(i)), kind)

    def bshape(self, ex, shapes):
        nd = max(len(s) for s in shapes)
        out = []
        for d in range(nd):
            cur = I(1)
            for s in shapes:
                j = d - (nd - len(s))
                if j < 0:
                    continue
                x = s[j]
                if x.op == "const" and x.args[0] == 1:
                    continue
                if cur.op == "const" and cur.args[0] == 1:
                    cur = x
                elif cur is not x and ex.ctx.decide(eq(cur, x)) is not True:
                    if not ex.branch(eq(cur, x)):
                        raise PyRaise(ValueError, "shapes do not match")
            out.append(cur)
        return out

    def elementwise(self, ex, f, *args, kind=None):
        if any(isinstance(a, Havoc) for a in args):
            return next(a for a in args if isinstance(a, Havoc))
        if not any(isinstance(a, NArr) for a in args):
            if all(is_num(a) for a in args):
                return f(*args)
            args = [a if is_num(a) else self.arr(ex, a) for a in args]
        arrs = [a if isinstance(a, NArr) else self.arr(ex, a) for a in args]
        shape = self.bshape(ex, [a.shape for a in arrs])
        nd = len(shape)

        def at(a, idx):
            sub = idx[nd - a.ndim:]
            return a.at(*[I(0) if (s.op == "const" and s.args[0] == 1) else i for s, i in zip(a.shape, sub)])
        g = lambda *idx: f(*[at(a, idx) for a in arrs])
        probe = g(*[T.fresh("p") for _ in shape])
        r = calc(shape, g, probe.sort if isinstance(probe, Term) else "S")
        r.born = ex.scope
        return r

    def binop(self, ex, op, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            return a if isinstance(a, Havoc) else b
        if not is_symbolic(a) and not is_symbolic(b) and op in PRIM and not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            return self.native(PRIM[op], a, b)
        if op == "Add" and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return mkstr(SymStr(as_sym(a).parts + as_sym(b).parts))
        if op == "Div" and isinstance(a, (str, SymStr)):
            return self.join(a, b)
        if op == "Mod" and isinstance(a, (str, SymStr)):
            return SymStr.atom(T.fn("str.format", as_sym(a).code()))
        if op == "Add" and isinstance(a, PList) and isinstance(b, (PList,)):
            return PList(ex, ex.segments(a) + ex.segments(b))
        if op == "Add" and isinstance(a, (tuple, SeqV)) and isinstance(b, (tuple, SeqV)):
            n, f = concat_segs(ex.segments(a) + ex.segments(b))
            return SeqV(n, f)
        if op == "Mult" and isinstance(a, PList) and isinstance(b, (int, Term)):
            it = ex.segments(a)
            if len(it) == 1 and it[0][0] == "item" and not isinstance(it[0][1], (PList, PDict)):
                n = num(b)
                if n.op == "const":
                    return PList(ex, it * int(n.args[0]))
                return PList(ex, [("seq", n, lambda i, v=it[0][1]: v)])
            raise Unsupported("list repetition")
        if op in PRIM and (is_num(a) or isinstance(a, (NArr, np.ndarray))) and (is_num(b) or isinstance(b, (NArr, np.ndarray))):
            return self.elementwise(ex, lambda x, y: scalar_op(op, x, y), a, b)
        raise Unsupported("%s of %s and %s" % (op, show(a), show(b)))

    def unbox(self, v):
        if isinstance(v, NArr) and v.ndim == 0:
            return v.at()
        return v

    def unop(self, ex, op, v):
        v = self.unbox(v)
        if isinstance(v, Havoc):
            return v
        if not is_symbolic(v):
            return self.native({"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op], v)
        if op == "USub":
            return self.elementwise(ex, lambda x: T.neg_(x), v)
        if op == "UAdd":
            return v
        if op == "Invert":
            return self.elementwise(ex, lambda x: not_(x), v)
        raise Unsupported(op)

    def compare(self, ex, op, a, b):
        a, b = self.unbox(a), self.unbox(b)
        if op in ("Is", "IsNot"):
            if isinstance(a, Term) and a.sort == "B" and isinstance(b, bool):
                r = ex.branch(a) is b
            elif isinstance(b, Term) and b.sort == "B" and isinstance(a, bool):
                r = ex.branch(b) is a
            elif isinstance(a, Havoc) or isinstance(b, Havoc):
                raise Unsupported("comparison of a value carried between iterations")
            else:
                r = a is b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(ex, b, a)
            return r if op == "In" else (not_(r) if isinstance(r, Term) else not r)
        if isinstance(a, Havoc) or isinstance(b, Havoc):
            raise Unsupported("comparison of a value carried between iterations")
        if not is_symbolic(a) and not is_symbolic(b) and not isinstance(a, np.ndarray):
            return self.native(PRIM[op], a, b)
        if isinstance(a, (SymStr, str, bytes)) and isinstance(b, (SymStr, str, bytes)):
            e = eq(as_sym(a).code(), as_sym(b).code())
            if op in ("Eq", "NotEq"):
                return e if op == "Eq" else not_(e)
            raise Unsupported("ordering of strings")
        if (is_num(a) or isinstance(a, (NArr, np.ndarray))) and (is_num(b) or isinstance(b, (NArr, np.ndarray))):
            return self.elementwise(ex, lambda x, y: scalar_op(op, x, y), a, b)
        if isinstance(a, NArr) and a.kind == "S" and isinstance(b, (str, SymStr)) and op in ("Eq", "NotEq"):
            c = as_sym(b).code()
            g = (lambda *i: eq(as_sym(a.at(*i)).code(), c)) if op == "Eq" else (lambda *i: not_(eq(as_sym(a.at(*i)).code(), c)))
            return calc(a.shape, g, "B")
        if op in ("Eq", "NotEq") and (a is None or b is None):
            return (a is b) == (op == "Eq")
        raise Unsupported("comparison of %s and %s" % (show(a), show(b)))

    def contains(self, ex, c, x):
        if isinstance(c, SymObj) and c.contains:
            return c.contains(x)
        if isinstance(c, PDict):
            ex.read(c)
            d = c.concrete()
            if d is not None and not is_symbolic(x):
                return x in d
        if isinstance(c, (PList, SeqV, SNT, NArr, PDict)):
            cs = []
            for s in ex.segments(c):
                if s[0] == "item":
                    cs.append(self.equal(s[1], x))
                else:
                    cs.append(T.exists(I(0), s[1], lambda i, f=s[2]: self.equal(f(i), x)))
            return or_(*cs)
        if isinstance(c, (tuple, list, frozenset)) and is_symbolic(x):
            return or_(*[self.equal(v, x) for v in c])
        if not is_symbolic(c) and not is_symbolic(x):
            return self.native(operator.contains, c, x)
        raise Unsupported("%s in %s" % (show(x), show(c)))

    def equal(self, a, b):
        if isinstance(a, (SymStr, str, bytes)) and isinstance(b, (SymStr, str, bytes)):
            return eq(as_sym(a).code(), as_sym(b).code())
        if is_num(a) and is_num(b):
            return scalar_op("Eq", a, b)
        if (a is None) != (b is None):
            return FALSE
        raise Unsupported("equality of %s and %s" % (show(a), show(b)))

    def native(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as ex:
            raise PyRaise(type(ex), str(ex))

    # ---------------------------------------------------------------- indexing
    def position(self, ex, j, n):
        """index into an axis of length n"""
        j = self.unbox(j)
        j = num(j)
        if j.sort != "I":
            raise PyRaise(IndexError, "index is not an integer")
        if j.op == "const" and j.args[0] < 0:
            j = n + j
        elif j.op != "const" and ex.ctx.decide(le(I(0), j)) is not True:
            if not ex.branch(le(I(0), j)):
                j = n + j
        ok = and_(le(I(0), j), lt(j, n))
        if ex.ctx.decide(ok) is not True and not ex.branch(ok):
            raise PyRaise(IndexError, "index out of range")
        return j

    def index(self, ex, o, k):
        o_ = o
        o = self.unbox(o) if not (isinstance(o, NArr) and o.ndim == 0) else o
        if isinstance(o, Havoc) or isinstance(k, Havoc):
            raise Unsupported("index of a value carried between iterations")
        if isinstance(o, SymObj):
            if o.getitem is None:
                raise Unsupported("index of %s" % show(o))
            return o.getitem(k)
        if isinstance(o, PDict):
            return self.dict_get(ex, o, k)
        if isinstance(o, MaskSel):
            return self.mask_index(ex, o, k)
        if isinstance(o, NArr):
            return self.arr_index(ex, o, k)
        if isinstance(o, (PList, SeqV, SNT)) or (isinstance(o, (tuple, list)) and (is_symbolic(o) or is_symbolic(k))):
            if isinstance(k, slice):
                return self.seq_slice(ex, o, k)
            segs = ex.segments(o)
            if all(s[0] == "item" for s in segs):
                j = num(k)
                if j.op == "const":
                    return self.native(operator.getitem, [s[1] for s in segs], int(j.args[0]))
            n = ex.length(o)
            j = self.position(ex, k, n)
            if len(segs) == 1 and segs[0][0] == "seq":
                return segs[0][2](j)
            return concat_segs(segs)[1](j)
        if isinstance(o, (str, SymStr)):
            raise Unsupported("characters of a string")
        if isinstance(o, dict) and is_symbolic(k):
            raise Unsupported("symbolic dictionary key")
        if isinstance(o, np.ndarray):
            return self.arr_index(ex, self.arr(ex, o), k)
        if isinstance(k, Term) and k.op == "const":
            k = int(k.args[0])
        return self.native(operator.getitem, o, k)

    def dict_get(self, ex, d, k, default=None, strict=True):
        ex.read(d)
        segs = d.segs
        for s in reversed(segs):
            if s[0] == "item":
                if not is_symbolic(s[1]) and not is_symbolic(k):
                    if s[1] == k:
                        return s[2]
                    continue
                c = self.equal(s[1], k)
                if ex.branch(c):
                    return s[2]
            else:
                n, kf = s[1], s[2]
                if ex.branch(T.exists(I(0), n, lambda i: self.equal(kf(i), k))):
                    if self.distinct(ex, n, kf):
                        return s[3](T.first(n, T.lam(lambda i: self.equal(kf(i), k))))
                    j = T.first(n, T.lam(lambda i: self.equal(kf(n - 1 - i), k)))
                    return s[3](n - 1 - j)
        if strict:
            raise PyRaise(KeyError, show(k))
        return default

    def distinct(self, ex, n, kf):
        """are the keys kf(0..n-1) provably pairwise different"""
        from . import pyvc
        a, b = T.fresh("a"), T.fresh("b")
        c = ex.ctx.assume(le(I(0), a), lt(a, b), lt(b, n))
        try:
            return pyvc.prove(not_(self.equal(kf(a), kf(b))), c)
        except Unsupported:
            return False

    def seq_slice(self, ex, o, k):
        segs = ex.segments(o)
        if all(s[0] == "item" for s in segs):
            items = [s[1] for s in segs]
            r = items[slice(*[None if x is None else int(num(x).args[0]) for x in (k.start, k.stop, k.step)])]
            return PList(ex, [("item", x) for x in r]) if isinstance(o, PList) else tuple(r)
        if k.step not in (None, 1):
            raise Unsupported("stepped slice")
        n = ex.length(o)
        lo, m = self.range_of(ex, k, n)
        f = segs[0][2] if len(segs) == 1 else concat_segs(segs)[1]
        return PList(ex, [("seq", m, lambda i: f(lo + i))]) if isinstance(o, PList) else SeqV(m, lambda i: f(lo + i))

    def range_of(self, ex, k, n):
        def norm(x, default):
            if x is None:
                return default
            x = num(self.unbox(x))
            if x.sort != "I":
                raise PyRaise(TypeError, "slice")
            if x.op == "const":
                x = n + x if x.args[0] < 0 else x
            elif ex.ctx.decide(le(I(0), x)) is not True:
                x = ite(lt(x, I(0)), n + x, x)
            if ex.ctx.decide(and_(le(I(0), x), le(x, n))) is True:
                return x
            return T.imax(I(0), T.imin(x, n))
        lo, hi = norm(k.start, I(0)), norm(k.stop, n)
        if ex.ctx.decide(le(lo, hi)) is True:
            return lo, hi - lo
        return lo, T.imax(I(0), hi - lo)

    def arr_index(self, ex, a, k):
        if not isinstance(k, tuple):
            k = (k,)
        k = [self.arr(ex, x) if isinstance(x, (PList, SeqV, np.ndarray)) or (isinstance(x, list)) else self.unbox(x) for x in k]
        if isinstance(k[0], NArr) and k[0].kind == "B":
            if len(k) != 1 or a.ndim != 1 or k[0].ndim != 1:
                raise Unsupported("boolean index")
            return MaskSel(k[0], a)
        k = [x.methods["asarray"]() if isinstance(x, SymObj) and "asarray" in x.methods else x for x in k]
        nreal = sum(1 for x in k if x is not None and x is not Ellipsis)
        if nreal > a.ndim:
            raise PyRaise(IndexError, "too many indices")
        if any(x is Ellipsis for x in k):
            p = [j for j, x in enumerate(k) if x is Ellipsis][0]
            k = k[:p] + [slice(None)] * (a.ndim - nreal) + k[p + 1:]
        else:
            k = k + [slice(None)] * (a.ndim - nreal)
        shape, plan, ax = [], [], 0
        nf = 0
        for x in k:
            if x is None:
                shape.append(I(1))
                plan.append(("new", None))
                continue
            n = a.shape[ax]
            if isinstance(x, slice):
                st = x.step
                if st not in (None, 1):
                    if st == -1 and x.start is None and x.stop is None:
                        plan.append(("rev", n))
                        shape.append(n)
                        ax += 1
                        continue
                    raise Unsupported("stepped slice")
                lo, m = self.range_of(ex, x, n)
                plan.append(("slice", lo))
                shape.append(m)
            elif isinstance(x, MaskSel) and x.arr is None:
                plan.append(("mask", x.mask))
            elif isinstance(x, NArr) and x.ndim == 1 and x.kind == "I":
                nf += 1
                if nf > 1:
                    raise Unsupported("several index arrays")
                from . import pyvc
                i = T.fresh("i")
                ci = ex.ctx.assume(le(I(0), i), lt(i, x.shape[0]))
                if not (pyvc.prove(le(I(0), x.at(i)), ci) and pyvc.prove(lt(x.at(i), n), ci)) and not ex.branch(
                        forall(I(0), x.shape[0], lambda i: and_(le(I(0), x.at(i)), lt(x.at(i), n)))):
                    raise Unsupported("index array that may be out of range")
                plan.append(("fancy", x))
                shape.append(x.shape[0])
            elif is_num(x):
                plan.append(("int", self.position(ex, x, n)))
            else:
                raise Unsupported("index %s" % show(x))
            ax += 1
        if nf and any(p[0] in ("int",) for p in plan):
            # advanced and integer indices together: adjacent ones only
            ks = [j for j, p in enumerate(plan) if p[0] in ("int", "fancy")]
            if ks != list(range(ks[0], ks[-1] + 1)):
                raise Unsupported("separated integer and array indices")
        if any(p[0] == "mask" for p in plan):
            if len(plan) != 1:
                raise Unsupported("mask index")
            return self.unique(ex, plan[0][1], a)

        def f(*idx):
            out, it = [], iter(idx)
            for kind, p in plan:
                if kind == "new":
                    next(it)
                elif kind == "int":
                    out.append(p)
                elif kind == "slice":
                    out.append(p + next(it))
                elif kind == "rev":
                    out.append(p - 1 - next(it))
                else:
                    out.append(p.at(next(it)))
            return a.at(*out)
        if not shape:
            return f()
        if any(p[0] == "fancy" for p in plan):
            return calc(shape, f, a.kind)
        return self.view(a, shape, f)

    def view(self, a, shape, f):
        r = NArr(shape, f, a.kind)
        r.given, r.view = getattr(a, "given", None), True
        return r

    def unique(self, ex, mask, arr):
        c = eq(count(mask), R(1))
        if ex.ctx.decide(c) is not True and not ex.branch(c):
            raise Unsupported("element selected by a mask that may hold at no or several positions")
        return pick(mask, arr)

    def mask_index(self, ex, m, k):
        if is_num(k) and num(k).op == "const" and num(k).args[0] in (0, -1):
            some = T.exists(I(0), m.mask.shape[0], lambda i: m.mask.at(i))
            if ex.ctx.decide(eq(count(m.mask), R(1))) is not True and not ex.branch(eq(count(m.mask), R(1))):
                if not ex.branch(some):
                    raise PyRaise(IndexError, "no match")
                raise Unsupported("first of several matches")
            return pick(m.mask, m.arr) if m.arr is not None else m
        raise Unsupported("index of selected positions")

    def setitem(self, ex, o, k, v):
        if isinstance(o, PDict):
            ex.do_dict(o, k, v)
        elif isinstance(o, SymObj) and o.setitem:
            o.setitem(k, v)
        elif isinstance(o, NArr):
            self.store(ex, o, k, v)
        elif isinstance(o, PList):
            self.list_store(ex, o, k, v)
        else:
            raise Unsupported("item assignment to %s" % show(o))

    def list_store(self, ex, o, k, v):
        before_store(o)
        old = o.segs
        if o.items is not None and not is_symbolic(k):
            items = list(o.items)
            if isinstance(k, slice):
                raise Unsupported("slice store")
            try:
                items[k] = v
            except IndexError as e:
                raise PyRaise(IndexError, str(e))
            o.segs = [("item", x) for x in items]
        elif len(old) == 1 and old[0][0] == "seq" and (isinstance(k, int) or is_num(k)):
            n, f = old[0][1], old[0][2]
            j = self.position(ex, k, n)
            o.segs = [("seq", n, lambda i: v if ex.ctx.decide(eq(I(i), j)) is True else vite(eq(I(i), j), v, f(i)))]
        else:
            raise Unsupported("item assignment to %s" % show(o))
        ex.log(("store", o, (num(k) if is_num(k) else k,), v), lambda: setattr(o, "segs", old))

    def store(self, ex, a, k, v):
        before_store(a)
        if not hasattr(a, "born"):
            a.born = 0
        kk = k if isinstance(k, tuple) else (k,)
        kk = [x for x in kk if x is not Ellipsis and not (isinstance(x, slice) and x == slice(None))]
        if len(kk) != 1 or (isinstance(k, tuple) and k[0] is not kk[0]):
            raise Unsupported("array store")
        j = kk[0]
        v = v if is_num(v) else self.unbox(self.arr(ex, v))
        if isinstance(j, NArr) and j.kind == "B":
            old = a.f
            if not is_num(v):
                raise Unsupported("masked store of an array")
            if ex.scope > a.born:
                raise Unsupported("a loop updates an array as a whole")
            a.f = lambda *i: vite(j.at(*i), num(v), old(*i))
            ex.log(("store*", a), lambda: setattr(a, "f", old))
            return
        if isinstance(j, slice):
            raise Unsupported("slice store")
        j = self.position(ex, j, a.shape[0])
        old = a.f
        a.f = lambda i, *r: vite(eq(i, j), v.at(*r) if isinstance(v, NArr) else num(v), old(i, *r))
        ex.log(("store", a, (j,), v), lambda: setattr(a, "f", old))

    # ---------------------------------------------------------------- attributes
    def getattr(self, ex, o, name):
        if isinstance(o, NArr):
            return self.arr_attr(ex, o, name)
        if isinstance(o, (SymStr, str, bytes)):
            return self.str_attr(ex, o, name)
        if isinstance(o, PList):
            return self.list_attr(ex, o, name)
        if isinstance(o, PDict):
            return self.dict_attr(ex, o, name)
        if isinstance(o, MaskSel):
            if name == "item":
                return Bound(lambda: self.unique(ex, o.mask, o.arr))
            if name == "size":
                return count(o.mask)
            raise Unsupported("attribute %s of a selection" % name)
        if isinstance(o, SymObj):
            if name in o.attrs:
                return o.attrs[name]
            if name in o.has:
                c = o.has[name]
                if not ex.branch(c):
                    raise PyRaise(AttributeError, name)
                return o.methods["attr:" + name]()
            if name in o.methods:
                return Bound(o.methods[name], name)
            raise Unsupported("attribute %s of %s" % (name, show(o)))
        if isinstance(o, SNT):
            if name == "_fields":
                return o.cls.fields
            if name == "index":
                return Bound(lambda x: self.seq_find(ex, o, x))
            raise Unsupported("attribute %s of a named tuple" % name)
        if isinstance(o, SNTClass):
            if name == "_fields":
                return o.fields
            if name == "_make":
                return Bound(lambda v: self.make_snt(ex, o, [("*sym", x) for x in [self.seqv(ex, v)]]))
            raise Unsupported("attribute %s" % name)
        if isinstance(o, SeqV):
            if name == "index":
                return Bound(lambda x: self.seq_find(ex, o, x))
            if name == "count":
                raise Unsupported("count")
            raise Unsupported("attribute %s of a sequence" % name)
        if isinstance(o, PyRaise):
            raise Unsupported("exception attribute")
        if isinstance(o, tuple) and hasattr(o, "_fields"):
            if name == "_replace":
                return Bound(lambda **kw: self.native(o._replace, **kw))
            if name == "_asdict":
                return Bound(lambda: PDict(ex, [("item", f, v) for f, v in zip(o._fields, o)]))
            return self.native(getattr, o, name)
        if isinstance(o, tuple) and name == "index":
            return Bound(lambda x: self.seq_find(ex, o, x))
        if isinstance(o, Term):
            if name == "item":
                return Bound(lambda: o)
            if name in ("size",):
                return 1
            if name == "astype":
                return Bound(lambda dt: real(o))
            if name == "shape":
                return ()
            raise Unsupported("attribute %s of a number" % name)
        if isinstance(o, Havoc):
            raise Unsupported("attribute of a value carried between iterations")
        if isinstance(o, SymKw):
            raise Unsupported("attribute %s of unknown keyword arguments" % name)
        return ex.ext(self.native(getattr, o, name))

    def seqv(self, ex, v):
        segs = ex.segments(v)
        if len(segs) == 1 and segs[0][0] == "seq":
            return SeqV(segs[0][1], segs[0][2])
        n, f = concat_segs(segs) if segs else (I(0), lambda i: None)
        return SeqV(n, f)

    def seq_find(self, ex, s, x):
        """position of the first entry equal to x; ValueError if there is none"""
        if isinstance(s, tuple) and not is_symbolic(s) and not is_symbolic(x):
            return self.native(s.index, x)
        s = self.seqv(ex, s)
        # structurally an entry of a sequence of distinct entries: its own position
        c = T.exists(I(0), s.n, lambda i: self.equal(s.f(i), x))
        if not ex.branch(c):
            raise PyRaise(ValueError, "not in sequence")
        return T.first(s.n, T.lam(lambda i: self.equal(s.f(i), x)))

    def arr_attr(self, ex, a, name):
        if name == "shape":
            return tuple(a.shape)
        if name == "size":
            n = I(1)
            for s in a.shape:
                n = n * s
            return n
        if name == "ndim":
            return a.ndim
        if name == "T":
            return self.view(a, a.shape[::-1], lambda *i: a.at(*i[::-1]))
        if name == "dtype":
            return SymObj("dtype", {"kind": {"R": "f", "I": "i", "B": "b", "S": "S"}[a.kind]})
        ops = {"min": self.np_min, "max": self.np_max, "sum": self.np_sum, "any": self.np_any, "all": self.np_all,
               "copy": lambda ex, x: self.copy(ex, x), "clip": self.np_clip, "astype": lambda ex, x, dt, copy=True: self.copy(ex, self.cast(ex, x, dt)) if copy else self.cast(ex, x, dt), "item": self.np_item,
               "tolist": lambda ex, x: PList(ex, ex.segments(x)), "flatten": lambda ex, x: self.copy(ex, self.ravel(ex, x)), "ravel": self.ravel,
               "take": lambda ex, x, i, axis=None: self.take(ex, x, i, axis), "nonzero": lambda ex, x: (MaskSel(x),),
               "__len__": lambda ex, x: ex.length(x), "reshape": self.reshape}
        if name in ops:
            return Bound(functools.partial(ops[name], ex, a), name)
        raise Unsupported("array attribute %s" % name)

    def ravel(self, ex, a):
        if a.ndim <= 1:
            return a
        raise Unsupported("ravel")

    def reshape(self, ex, a, *shape):
        if a.ndim == 1 and shape in ((-1,), ((-1,),)):
            return a
        raise Unsupported("reshape")

    def copy(self, ex, a):
        f = a.f
        return self.newarr(ex, a.shape, f, a.kind)

    def newarr(self, ex, shape, f, kind="R"):
        r = calc(shape, f, kind)
        r.born = ex.scope
        return r

    def np_item(self, ex, a, *k):
        if k:
            return self.arr_index(ex, a, tuple(k))
        if a.ndim == 0:
            return a.at()
        raise Unsupported("item of an array")

    def reduce_extreme(self, ex, v, sign):
        a = self.arr(ex, v)
        if a.ndim != 1:
            raise Unsupported("extreme over several axes")
        n = a.shape[0]
        if n.op == "const" and int(n.args[0]) <= 32:
            xs = [a.at(I(j)) for j in range(int(n.args[0]))]
            if not xs:
                raise PyRaise(ValueError, "empty")
            r = xs[0]
            for x in xs[1:]:
                r = (tmin if sign < 0 else tmax)(r, x)
            return r
        if not ex.branch(lt(I(0), n)):
            raise PyRaise(ValueError, "zero-size array")
        if a.kind == "I":
            if ex.scope:
                raise Unsupported("integer extreme inside a loop")
            m, w = T.fresh("m"), T.fresh("w")
            ex.ctx = ex.ctx.assume(le(I(0), w), lt(w, n), eq(a.at(w), m),
                                   forall(I(0), n, lambda j: le(m, a.at(j)) if sign < 0 else le(a.at(j), m)))
            return m
        if a.kind != "R":
            raise Unsupported("extreme of %s" % a.kind)
        if sign > 0:
            return T._mk("rmax", (I(0), n, T.lam(lambda j: a.at(j))), "R")
        return T.neg_(T._mk("rmax", (I(0), n, T.lam(lambda j: T.neg_(a.at(j)))), "R"))

    def np_min(self, ex, v, axis=None):
        return self.reduce_extreme(ex, v, -1)

    def np_max(self, ex, v, axis=None):
        return self.reduce_extreme(ex, v, 1)

    def np_sum(self, ex, v, axis=None):
        if isinstance(v, MaskSel):
            raise Unsupported("sum of a selection")
        a = self.arr(ex, v)
        if a.ndim != 1:
            raise Unsupported("sum over several axes")
        return T.summ(I(0), a.shape[0], lambda j: real(a.at(j)))

    def quant(self, ex, v, allq):
        a = self.arr(ex, v)
        if a.kind != "B":
            raise Unsupported("any/all of numbers")

        def go(d, idx):
            if d == a.ndim:
                return a.at(*idx)
            return (forall if allq else T.exists)(I(0), a.shape[d], lambda i: go(d + 1, idx + [i]))
        return go(0, [])

    def np_any(self, ex, v, axis=None):
        return self.quant(ex, v, False)

    def np_all(self, ex, v, axis=None):
        return self.quant(ex, v, True)

    def np_clip(self, ex, a, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None, out=None):
        lo = next((x for x in (lo, a_min, min) if x is not None), None)
        hi = next((x for x in (hi, a_max, max) if x is not None), None)
        if out is not None:
            raise Unsupported("out argument")
        r = a
        if lo is not None:
            r = self.elementwise(ex, tmax, r, lo)
        if hi is not None:
            r = self.elementwise(ex, tmin, r, hi)
        return r

    def take(self, ex, a, idx, axis=None):
        a = self.arr(ex, a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("take")
            axis = 0
        axis = int(num(axis).args[0])
        if axis < 0:
            axis += a.ndim
        return self.arr_index(ex, a, tuple([slice(None)] * axis + [idx]))

    # strings
    def str_attr(self, ex, s, name):
        if name in ("item", "tolist") and isinstance(s, SymStr):
            return Bound(lambda: s)     # an element of an array of strings
        if name == "is_file":
            return Bound(lambda: self.call(ex, os.path.isfile, [s], {}))
        if name == "is_dir":
            return Bound(lambda: self.call(ex, os.path.isdir, [s], {}))
        if name == "exists":
            return Bound(lambda: self.call(ex, os.path.exists, [s], {}))
        if name == "glob":
            return Bound(lambda pat: self.call(ex, __import__("glob").glob, [self.join(s, pat)], {}))
        if name == "joinpath":
            return Bound(lambda *p: functools.reduce(self.join, p, s))

        def m(*args, **kw):
            if isinstance(s, (str, bytes)) and not any(is_symbolic(a) for a in args) and not is_symbolic(kw):
                return self.native(getattr(s, name), *args, **kw)
            h = getattr(self, "str_" + name, None)
            if h is None:
                raise Unsupported("string method %s" % name)
            r = h(ex, as_sym(s), *args, **kw)
            return mkstr(r) if not any(not isinstance(p, str) and "bytes" in p[1] for p in as_sym(s).parts) else r
        return Bound(m, name)

    def str_decode(self, ex, s, *a, **k):
        if any(isinstance(x, str) and x.lower() not in ("utf-8", "utf8", "ascii", "strict") for x in list(a) + list(k.values())):
            raise Unsupported("decode")
        return SymStr([p if isinstance(p, str) else (p[0], p[1] - {"bytes"}, p[2]) for p in s.parts])

    def str_encode(self, ex, s, *a, **k):
        raise Unsupported("encode")

    def str_replace(self, ex, s, a, b, count=-1):
        if not isinstance(a, str) or not isinstance(b, str) or len(a) != 1:
            raise Unsupported("replace")
        return s.mapchars([(a, b)])

    def str_translate(self, ex, s, table):
        if isinstance(table, PDict):
            table = table.concrete()
        m = {}
        for k, v in table.items():
            m[chr(k) if isinstance(k, int) else k] = "" if v is None else (chr(v) if isinstance(v, int) else v)
        return s.mapchars(m.items())

    def str_strip(self, ex, s, chars=None, left=True, right=True):
        if chars is not None and (not isinstance(chars, str) or chars.strip()):
            return SymStr.atom(T.fn("str.strip:" + repr((chars, left, right)), s.code()))
        if chars is not None:
            raise Unsupported("strip of some white space only")
        parts = list(s.parts)

        def trim(j, end):
            while parts:
                p = parts[j]
                if isinstance(p, str):
                    q = p.lstrip() if end == "l" else p.rstrip()
                    if q:
                        parts[j] = q
                        return
                    parts.pop(j)
                elif "ws" in p[1]:
                    parts.pop(j)
                else:
                    if ("nolws" if end == "l" else "norws") not in p[1]:
                        parts[j] = (T.fn("str.strip" + end, SymStr([p]).code()), frozenset(p[1] & {"nocomma"}), ())
                    return
        if left:
            trim(0, "l")
        if right:
            trim(-1, "r")
        return SymStr(parts)

    def str_lstrip(self, ex, s, chars=None):
        return self.str_strip(ex, s, chars, True, False)

    def str_rstrip(self, ex, s, chars=None):
        return self.str_strip(ex, s, chars, False, True)

    def str_split(self, ex, s, sep=None, maxsplit=-1):
        if sep != ",":
            raise Unsupported("split on %r" % (sep,))
        cur, out = [], []
        for p in s.parts:
            if isinstance(p, str):
                bits = p.split(",")
                cur.append(bits[0])
                for b in bits[1:]:
                    if 0 <= maxsplit <= len(out):
                        cur.append("," + b)
                        continue
                    out.append(SymStr(cur))
                    cur = [b]
            else:
                if "nocomma" not in p[1] and not (0 <= maxsplit <= len(out)):
                    raise Unsupported("split of a string that may hold the separator")
                cur.append(p)
        out.append(SymStr(cur))
        return PList(ex, [("item", mkstr(x)) for x in out])

    def str_partition(self, ex, s, sep):
        r = self.str_split(ex, s, sep, 1).items
        return (r[0], sep, r[1]) if len(r) == 2 else (r[0], "", "")

    def str_rpartition(self, ex, s, sep):
        r = self.str_split(ex, s, sep).items
        if len(r) != 2:
            raise Unsupported("rpartition")
        return (r[0], sep, r[1])

    def str_format(self, ex, s, *a, **k):
        c = s.concrete()
        if c is not None and re.fullmatch(r"(?:[^{}]|\{\d*\})*", c):
            out, auto = SymStr([]), 0
            for lit, ref in re.findall(r"([^{}]+)|(\{\d*\})", c):
                if lit:
                    out = SymStr(out.parts + (lit,))
                else:
                    j = int(ref[1:-1]) if ref[1:-1] else auto
                    auto += 1
                    out = SymStr(out.parts + self.to_str(ex, a[j]).parts)
            return out
        return SymStr.atom(T.fn("str.format", s.code()))

    def str_join(self, ex, s, seq):
        it = ex.segments(seq)
        if any(x[0] != "item" for x in it):
            raise Unsupported("join")
        out = []
        for j, x in enumerate(it):
            out += ([] if j == 0 else list(s.parts)) + list(as_sym(x[1]).parts)
        return SymStr(out)

    def str_splitlines(self, ex, s):
        raise Unsupported("splitlines")

    def str_startswith(self, ex, s, x):
        raise Unsupported("startswith")

    def to_str(self, ex, v):
        if isinstance(v, (SymStr, str)):
            v = as_sym(v)
            if any(not isinstance(p, str) and "bytes" in p[1] for p in v.parts):
                return SymStr.atom(T.fn("str.repr", v.code()))
            return v
        if isinstance(v, Term):
            return SymStr.atom(T.fn("str.num", real(v) if v.sort != "B" else T.b2r(v)))
        if is_symbolic(v):
            return SymStr.atom(T.var("str.repr!%d" % id(v)))
        return SymStr([str(v)])

    def join(self, a, *rest):
        a = as_sym(a)
        for b in rest:
            b = as_sym(b)
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                a = SymStr([os.path.join(ca, cb)])
            else:
                a = SymStr.atom(T.fn("path.join", a.code(), b.code()))
        return mkstr(a)

    # lists and dictionaries
    def list_attr(self, ex, l, name):
        def extend(v):
            for s in ex.segments(v):
                if s[0] == "item":
                    ex.do_append(l, s[1])
                else:
                    ex.do_append_seq(l, s[1], s[2])

        def pop(*a):
            raise Unsupported("list.pop")
        t = {"append": lambda v: ex.do_append(l, v), "extend": extend, "index": lambda x: self.seq_find(ex, l, x),
             "copy": lambda: PList(ex, ex.segments(l))}
        if name in t:
            return Bound(t[name], name)
        raise Unsupported("list method %s" % name)

    def dict_attr(self, ex, d, name):
        def update(*a, **k):
            for src in list(a) + [k]:
                if isinstance(src, dict):
                    segs = [("item", x, y) for x, y in src.items()]
                else:
                    segs = (src if isinstance(src, PDict) else self.table[dict](ex, src)).segs
                for s in segs:
                    if s[0] == "item":
                        ex.do_dict(d, s[1], s[2])
                    else:
                        ex.do_dict_seq(d, s[1], s[2], s[3])

        def view(kind):
            def g():
                ex.read(d)
                out = []
                for s in d.segs:
                    if s[0] == "item":
                        out.append(("item", s[1] if kind == "k" else (s[2] if kind == "v" else (s[1], s[2]))))
                    else:
                        out.append(("seq", s[1], s[2] if kind == "k" else (s[3] if kind == "v" else (lambda i, s=s: (s[2](i), s[3](i))))))
                return PList(ex, out)
            return g
        t = {"update": update, "get": lambda k, dflt=None: self.dict_get(ex, d, k, dflt, False), "keys": view("k"), "values": view("v"),
             "items": view("i"), "copy": lambda: PDict(ex, list(d.segs))}

        def setdefault(k, v=None):
            r = self.dict_get(ex, d, k, Unsupported, False)
            if r is Unsupported:
                ex.do_dict(d, k, v)
                return v
            return r

        def pop(k, *dflt):
            c = d.concrete()
            if c is None or is_symbolic(k):
                raise Unsupported("dict.pop")
            if k in c:
                old = list(d.segs)
                d.segs = [s for s in d.segs if s[1] != k]
                ex.log(("dict*", d), lambda: setattr(d, "segs", old))
                return c[k]
            if dflt:
                return dflt[0]
            raise PyRaise(KeyError, k)
        t["setdefault"], t["pop"] = setdefault, pop
        if name in t:
            return Bound(t[name], name)
        raise Unsupported("dictionary method %s" % name)

    # ---------------------------------------------------------------- calls
    def make_snt(self, ex, cls, args):
        if len(args) == 1 and isinstance(args[0], tuple) and len(args[0]) == 2 and args[0][0] == "*sym":
            v = args[0][1]
        elif any(isinstance(a, tuple) and len(a) == 2 and a[0] == "*sym" for a in args):
            raise Unsupported("mixed arguments")
        else:
            v = self.seqv(ex, tuple(args))
        if v.n is not cls.fields.n and not ex.branch(eq(v.n, cls.fields.n)):
            raise PyRaise(TypeError, "wrong number of fields")
        return SNT(cls, v)

    def call(self, ex, f, args, kwargs, rest=None):
        w = ex.world
        if isinstance(f, Bound):
            if rest is not None or any(isinstance(a, tuple) and len(a) == 2 and a[0] == "*sym" for a in args):
                raise Unsupported("unpacked arguments of %s" % f.name)
            try:
                return f.f(*args, **kwargs)
            except TypeError as e:
                if "argument" in str(e):
                    raise Unsupported("%s: %s" % (f.name, e))
                raise
        if isinstance(f, PFunc):
            node = f.node
            env = Env(f.env.glob, f.env)
            ev = __import__("dv.pyvc", fromlist=["Eval"]).Eval(ex, f.env)
            dflt = tuple(ev.expr(d) for d in node.args.defaults)
            kd = {a.arg: ev.expr(d) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
            return ex.run_function(node, env, dflt, kd, args, kwargs, rest)
        if isinstance(f, SNTClass):
            if kwargs or rest:
                raise Unsupported("keyword fields")
            return self.make_snt(ex, f, args)
        if isinstance(f, SymObj):
            if "__call__" in f.methods:
                return f.methods["__call__"](*args, **dict(kwargs, **({"**": rest} if rest is not None else {})))
            raise Unsupported("call of %s" % show(f))
        if w is not None:
            try:
                h = w.table.get(f)
            except TypeError:
                h = None
            if h is not None:
                return h(ex, *args, **dict(kwargs, **({"**": rest} if rest is not None else {})))
        if isinstance(f, (types.FunctionType,)) or hasattr(f, "__wrapped__"):
            g = inspect.unwrap(f)
            if isinstance(g, types.FunctionType) and ex.interpret(g):
                return ex.call_py(g, args, kwargs, rest)
        if rest is not None:
            raise Unsupported("unknown keyword arguments passed to %s" % getattr(f, "__name__", f))
        try:
            h = self.table.get(f)
        except TypeError:
            h = None
        if h is not None:
            try:
                return h(ex, *args, **kwargs)
            except TypeError as e:
                if "argument" in str(e):
                    raise Unsupported("%s: %s" % (getattr(f, "__name__", f), e))
                raise
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyRaise(f)
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
            if any(isinstance(a, tuple) and len(a) == 2 and a[0] == "*sym" for a in args):
                raise Unsupported("unpacking a symbolic sequence into %s" % f.__name__)
            return self.native(f, *args, **kwargs)
        if isinstance(f, types.MethodType) and isinstance(f.__self__, type) and f.__name__ == "_make":
            segs = ex.segments(args[0])
            if any(s[0] != "item" for s in segs):
                raise Unsupported("_make of a symbolic sequence")
            return self.native(f, [s[1] for s in segs])
        if not is_symbolic(args) and not is_symbolic(kwargs) and getattr(f, "__module__", None) in (
                "builtins", "math", "posixpath", "operator", "itertools", "re", "string", "numpy", "_operator", None):
            return self.native(f, *args, **kwargs)
        raise Unsupported("call of %s" % (getattr(f, "__qualname__", None) or f,))

    def build(self):
        t = self.table
        ew = self.elementwise

        def b_len(ex, v):
            if isinstance(v, MaskSel):
                return count(v.mask)
            n = ex.length(v)
            return int(n.args[0]) if n.op == "const" else n

        def b_range(ex, *a):
            a = [num(x) for x in a]
            if any(x.sort != "I" for x in a):
                raise PyRaise(TypeError, "range")
            lo, hi = (I(0), a[0]) if len(a) == 1 else (a[0], a[1])
            step = a[2] if len(a) > 2 else I(1)
            if step.op != "const" or step.args[0] not in (1, -1):
                if all(x.op == "const" for x in a):
                    return range(*[int(x.args[0]) for x in a])
                raise Unsupported("range with a step")
            if all(x.op == "const" for x in a):
                return range(*[int(x.args[0]) for x in a])
            if step.args[0] == -1:
                n = lo - hi
                f = lambda i: lo - i
            else:
                n = hi - lo
                f = lambda i: lo + i
            if ex.ctx.decide(le(I(0), n)) is not True:
                n = T.imax(I(0), n)
            return SeqV(n, f, True)

        def b_enumerate(ex, v, start=0):
            out, pos = [], num(start)
            for s in ex.segments(v):
                if s[0] == "item":
                    out.append(("item", (int(pos.args[0]) if pos.op == "const" else pos, s[1])))
                    pos = pos + 1
                else:
                    out.append(("seq", s[1], lambda i, s=s, pos=pos: (pos + i, s[2](i))))
                    pos = pos + s[1]
            return PList(ex, out)

        def b_zip(ex, *vs):
            segs = [ex.segments(v) for v in vs]
            if all(all(s[0] == "item" for s in sg) for sg in segs):
                return [tuple(x[1] for x in r) for r in zip(*segs)]
            seqs = []
            for v, sg in zip(vs, segs):
                q = self.seqv(ex, v)
                seqs.append(q)
            n = seqs[0].n
            for q in seqs[1:]:
                if q.n is n or ex.ctx.decide(eq(q.n, n)) is True:
                    continue
                n = q.n if ex.branch(le(q.n, n)) else n
            return SeqV(n, lambda i: tuple(q.f(i) for q in seqs))

        def b_map(ex, f, *vs):
            l = PList(ex)
            src = vs[0] if len(vs) == 1 else b_zip(ex, *vs)
            ex.for_each(ex.segments(src), lambda x: ex.do_append(l, self.call(ex, f, [x] if len(vs) == 1 else list(x), {})))
            return l

        def only_asked(v):
            """a collection of which the contract says only what it contains"""
            return v and isinstance(v[0], SymObj) and v[0].contains and not v[0].iterate

        def b_set(ex, *v):
            if only_asked(v):
                return v[0]
            if v and is_symbolic(v[0]):
                segs = ex.segments(v[0])
                if any(s[0] != "item" or is_symbolic(s[1]) for s in segs):
                    raise Unsupported("set of unknown elements")
                return frozenset(s[1] for s in segs)
            return frozenset(*v)

        def b_list(ex, *v):
            if only_asked(v):
                return v[0]
            return PList(ex, ex.segments(v[0]) if v else [])

        def b_tuple(ex, *v):
            if not v:
                return ()
            segs = ex.segments(v[0])
            if all(s[0] == "item" for s in segs):
                return tuple(s[1] for s in segs)
            return self.seqv(ex, v[0])

        def b_dict(ex, *a, **k):
            d = PDict(ex)
            for src in a:
                if isinstance(src, PDict):
                    ex.read(src)
                    d.segs += list(src.segs)
                elif isinstance(src, dict):
                    d.segs += [("item", x, y) for x, y in src.items()]
                else:
                    for s in ex.segments(src):
                        if s[0] == "item":
                            kk, vv = [x[1] for x in ex.segments(s[1])]
                            ex.do_dict(d, kk, vv)
                        else:
                            ex.do_dict_seq(d, s[1], lambda i, s=s: s[2](i)[0], lambda i, s=s: s[2](i)[1])
            for x, y in k.items():
                ex.do_dict(d, x, y)
            return d

        def b_float(ex, v=0.0):
            v = self.unbox(v)
            if isinstance(v, Havoc):
                return v
            if isinstance(v, (str, SymStr, bytes)):
                return self.to_float(v)
            return real(v)

        def b_int(ex, v=0):
            v = self.unbox(v)
            if isinstance(v, Term):
                if v.sort == "I":
                    return v
                raise Unsupported("int of a real")
            return self.native(int, v)

        def b_str(ex, v="", *a):
            if a and isinstance(v, SymStr):
                return self.str_decode(ex, v, *a)
            return mkstr(self.to_str(ex, v))

        def b_hasattr(ex, o, name):
            if isinstance(o, SymObj):
                if name in o.has:
                    return o.has[name]
                return name in o.attrs or name in o.methods
            if is_symbolic(o):
                raise Unsupported("hasattr")
            return hasattr(o, name)

        def b_getattr(ex, o, name, *dflt):
            if isinstance(name, SymStr):
                if isinstance(o, SNT):
                    j = self.seq_find(ex, o.cls.fields, name)
                    return o.values.f(j)
                raise Unsupported("getattr with a symbolic name")
            try:
                return self.getattr(ex, o, name)
            except PyRaise as e:
                if dflt and e.exc is AttributeError:
                    return dflt[0]
                raise

        def b_isinstance(ex, v, cls):
            cl = cls if isinstance(cls, tuple) else (cls,)
            pt = {SymStr: str, NArr: np.ndarray, PList: list, PDict: dict, SNT: tuple}.get(type(v))
            if isinstance(v, Term):
                pt = {"R": float, "I": int, "B": bool}[v.sort]
            if isinstance(v, (SeqV, SymObj, Havoc)):
                raise Unsupported("isinstance of %s" % show(v))
            return any(issubclass(pt, c) for c in cl) if pt else isinstance(v, cl)

        def b_fold(two, np_red):
            def g(ex, *a, default=None, key=None):
                if key is not None or default is not None:
                    raise Unsupported("min/max with key")
                if len(a) == 1:
                    segs = ex.segments(a[0])
                    if all(s[0] == "item" for s in segs):
                        a = [s[1] for s in segs]
                    else:
                        return np_red(ex, a[0])
                r = a[0]
                for x in a[1:]:
                    if isinstance(r, Havoc) or isinstance(x, Havoc):
                        return r if isinstance(r, Havoc) else x
                    r, x = self.unbox(r), self.unbox(x)
                    if not is_symbolic(r) and not is_symbolic(x):
                        r = (min if two is tmin else max)(r, x)
                    else:
                        r = two(r, x)
                return r
            return g

        def b_sum(ex, v, start=0):
            segs = ex.segments(v)
            if all(s[0] == "item" for s in segs):
                r = start
                for s in segs:
                    r = self.binop(ex, "Add", r, s[1])
                return r
            r = real(start)
            for s in segs:
                r = r + (real(s[1]) if s[0] == "item" else T.summ(I(0), s[1], lambda j, s=s: real(s[2](j))))
            return r

        def b_quant(allq):
            def g(ex, v):
                cs = []
                for s in ex.segments(v):
                    if s[0] == "item":
                        cs.append(s[1] if isinstance(s[1], Term) else (TRUE if ex.truth(s[1]) else FALSE))
                    else:
                        cs.append((forall if allq else T.exists)(I(0), s[1], lambda i, s=s: num(s[2](i))))
                return (and_ if allq else or_)(*cs)
            return g

        def b_open(ex, *a, **k):
            raise Unsupported("open")

        def b_reversed(ex, v):
            segs = ex.segments(v)
            return PList(ex, [s if s[0] == "item" else ("seq", s[1], lambda i, s=s: s[2](s[1] - 1 - i)) for s in reversed(segs)])

        def b_sorted(ex, v, key=None, reverse=False):
            segs = ex.segments(v)
            if all(s[0] == "item" and not is_symbolic(s[1]) for s in segs) and key is None:
                return PList(ex, [("item", x) for x in sorted((s[1] for s in segs), reverse=reverse)])
            if len(segs) == 1 and segs[0][0] == "item":
                return PList(ex, segs)
            if len(segs) == 1 and segs[0][1] is not None:
                # a permutation: nothing is said about it beyond its length, unless there is one element only
                n, f = segs[0][1], segs[0][2]

                def at(i):
                    if __import__("dv.pyvc", fromlist=["prove"]).prove(eq(n, I(1)), ex.ctx):
                        return f(i)
                    raise Unsupported("element of a sorted list")
                return PList(ex, [("seq", n, at)])
            raise Unsupported("sorted")

        t.update({len: b_len, sorted: b_sorted, set: b_set, frozenset: b_set, range: b_range, enumerate: b_enumerate, zip: b_zip, map: b_map, list: b_list, tuple: b_tuple, dict: b_dict,
                  collections.OrderedDict: b_dict, float: b_float, int: b_int, str: b_str, hasattr: b_hasattr, getattr: b_getattr,
                  isinstance: b_isinstance, min: b_fold(tmin, self.np_min), max: b_fold(tmax, self.np_max), sum: b_sum,
                  any: b_quant(False), all: b_quant(True), open: b_open, reversed: b_reversed,
                  print: lambda ex, *a, **k: None, abs: lambda ex, v: ew(ex, tabs, v),
                  bool: lambda ex, v=False: ex.truth(v), repr: lambda ex, v: mkstr(self.to_str(ex, v))})

        def namedtuple(ex, name, fields, **k):
            if isinstance(fields, (str, tuple, list)) and not is_symbolic(fields):
                return self.native(collections.namedtuple, name, fields, **k)
            segs = ex.segments(fields)
            if all(s[0] == "item" and isinstance(s[1], str) for s in segs):
                return self.native(collections.namedtuple, name, [s[1] for s in segs], **k)
            return SNTClass(self.seqv(ex, fields))
        t[collections.namedtuple] = namedtuple
        t[os.path.join] = lambda ex, *a: self.join(*a)
        t[os.fspath] = lambda ex, p: p
        t[pathlib.Path] = lambda ex, *a: functools.reduce(self.join, a[1:], a[0])
        t[os.path.abspath] = lambda ex, p: p
        t[str.maketrans] = lambda ex, *a: self.native(str.maketrans, *[x.concrete() if isinstance(x, PDict) else x for x in a])

        def re_sub(ex, pat, rep, s, **k):
            if k or not isinstance(rep, str) or "\\" in rep or not isinstance(pat, str):
                raise Unsupported("re.sub")
            import re._parser as sp
            tree = list(sp.parse(pat))
            if len(tree) != 1 or str(tree[0][0]) not in ("LITERAL", "IN"):
                raise Unsupported("re.sub with a pattern of several characters")
            m = {chr(c): rep for c in range(128) if re.fullmatch(pat, chr(c))}
            if re.fullmatch(pat, "\u00e9"):
                raise Unsupported("re.sub beyond ascii")
            return mkstr(as_sym(s).mapchars(m.items()))
        t[re.sub] = re_sub

        def asarray(ex, v, dtype=None, copy=None, ndmin=0):
            r = self.arr(ex, v, dtype)
            return self.copy(ex, r) if r.ndim else r

        def alias(ex, v, dtype=None, copy=None, **kw):
            if copy:
                return asarray(ex, v, dtype)
            r = self.arr(ex, v, dtype)
            return r if isinstance(v, NArr) or not r.ndim else self.copy(ex, r)
        for g in (np.array, np.copy):
            t[g] = asarray
        for g in (np.asarray, np.atleast_1d, np.ascontiguousarray):
            t[g] = alias

        def stack(ex, v, axis=0):
            if axis not in (0,):
                raise Unsupported("stack along another axis")
            return self.arr(ex, v)
        t[np.stack] = stack
        t[np.vstack] = lambda ex, v: (lambda r: r if r.ndim == 2 else _uns("vstack"))(self.arr(ex, v))

        def full(val):
            def g(ex, shape, dtype=None, *a):
                sh = shape if isinstance(shape, (tuple, list)) else (ex.segments(shape) if isinstance(shape, PList) else (shape,))
                sh = [x[1] if isinstance(x, tuple) and x[0] == "item" else x for x in sh]
                return self.newarr(ex, [num(x) for x in sh], lambda *i: R(val))
            return g
        t[np.zeros], t[np.ones], t[np.empty] = full(0), full(1), full(0)
        t[np.empty] = lambda ex, shape, dtype=None: full(0)(ex, shape) if False else self.newarr(
            ex, [num(x) for x in (shape if isinstance(shape, (tuple, list)) else (shape,))], lambda *i: T.fn("uninitialised", *[real(j) for j in i]) if i else R(0))
        t[np.zeros_like] = lambda ex, a, dtype=None: (lambda b: self.newarr(ex, b.shape, lambda *i: R(0)))(self.arr(ex, a))
        t[np.empty_like] = lambda ex, a, dtype=None: (lambda b: self.newarr(ex, b.shape, lambda *i: T.fn("uninitialised", *[real(j) for j in i])))(self.arr(ex, a))

        def arange(ex, *a, dtype=None):
            return self.arr(ex, b_range(ex, *a))
        t[np.arange] = arange
        for nm in ("abs", "absolute", "fabs"):
            t[getattr(np, nm)] = lambda ex, v: ew(ex, tabs, v)
        t[np.log10] = lambda ex, v: ew(ex, lambda x: T.log10(real(x)), v)
        t[np.log] = lambda ex, v: ew(ex, lambda x: T.ln(real(x)), v)
        t[np.exp] = lambda ex, v: ew(ex, lambda x: T.exp(real(x)), v)
        t[np.sqrt] = lambda ex, v: ew(ex, lambda x: T.sqrt(real(x)), v)
        t[np.minimum] = lambda ex, a, b: ew(ex, tmin, a, b)
        t[np.maximum] = lambda ex, a, b: ew(ex, tmax, a, b)
        t[np.clip] = self.np_clip
        for nm, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("power", "Pow"), ("less", "Lt"),
                       ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq")):
            t[getattr(np, nm)] = lambda ex, a, b, op=op: self.binop(ex, op, a, b) if op not in ("Lt", "LtE", "Gt", "GtE", "Eq") else self.compare(ex, op, a, b)
        t[np.logical_and] = lambda ex, a, b: self.binop(ex, "BitAnd", a, b)
        t[np.logical_or] = lambda ex, a, b: self.binop(ex, "BitOr", a, b)
        t[np.logical_not] = lambda ex, a: self.unop(ex, "Invert", a)
        for nm in ("min", "amin"):
            t[getattr(np, nm)] = self.np_min
        for nm in ("max", "amax"):
            t[getattr(np, nm)] = self.np_max
        t[np.sum] = self.np_sum
        t[np.count_nonzero] = lambda ex, v: T.summ(I(0), v.shape[0], lambda j: T.b2r(v.at(j)))
        t[np.any], t[np.all] = self.np_any, self.np_all
        t[np.take] = self.take
        t[np.size] = lambda ex, v: self.arr_attr(ex, self.arr(ex, v), "size")
        t[np.shape] = lambda ex, v: tuple(self.arr(ex, v).shape)
        t[np.where] = lambda ex, c, *ab: (MaskSel(c),) if not ab else ew(ex, lambda m, x, y: vite(m, *align(x, y)), c, *ab)
        t[np.nonzero] = lambda ex, c: (MaskSel(c),)
        t[np.flatnonzero] = lambda ex, c: MaskSel(c)

        def argmax(ex, c):
            c = self.arr(ex, c)
            if c.kind != "B" or c.ndim != 1:
                raise Unsupported("position of the largest value")
            return self.mask_index(ex, MaskSel(c), 0)       # the first position where it holds
        t[np.argmax] = argmax

        def isclose(ex, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
            rt, at = real(rtol), real(atol)
            return ew(ex, lambda x, y: le(tabs(real(x) - real(y)), at + rt * tabs(real(y))), a, b)
        t[np.isclose] = isclose

        def linspace(ex, lo, hi, num_=None, **k):
            n = num(self.unbox(k.pop("num", num_) if num_ is None else num_)) if (num_ is not None or "num" in k) else I(50)
            if k.pop("endpoint", True) is not True or k:
                raise Unsupported("linspace options")
            lo, hi = real(self.unbox(lo)), real(self.unbox(hi))
            if n.sort != "I":
                raise PyRaise(TypeError, "linspace")
            return self.newarr(ex, (n,), lambda i: ite(le(n, I(1)), lo, lo + (hi - lo) * T.i2r(i) / T.i2r(n - 1)))
        t[np.linspace] = linspace

        def interp(ex, x, xp, fp, left=None, right=None, period=None):
            if period is not None:
                raise Unsupported("period")
            xp, fp = self.arr(ex, xp), self.arr(ex, fp)
            if not ex.branch(eq(xp.shape[0], fp.shape[0])):
                raise PyRaise(ValueError, "lengths differ")
            g = lambda v: T.interp(real(v), xp.shape[0], lambda j: real(xp.at(j)), lambda j: real(fp.at(j)),
                                   None if left is None else real(left), None if right is None else real(right))
            return ew(ex, g, x)
        t[np.interp] = interp
        # the functions of jax.numpy of the same name
        import jax.numpy as jnp
        for f in [f for f in t if np.__dict__.get(getattr(f, "__name__", "?")) is f]:
            g = getattr(jnp, f.__name__, None)
            if callable(g) and g not in t:
                t[g] = t[f]


def _uns(s):
    raise Unsupported(s)


