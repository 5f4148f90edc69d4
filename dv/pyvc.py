"""Verification-condition generator for plain Python functions.

The function under contract is taken as it stands in /repo (inspect.getsource of the
imported function, parsed on every run) and executed symbolically, statement by statement,
over all paths: arrays have symbolic lengths, strings are symbolic, a loop over a sequence of
symbolic length is run once for a generic iteration k (no bound: the effect of the loop is the
family of its effects for all k; a value carried from one iteration to the next is unknown).
Functions of /repo that are called are executed the same way; library functions have
contracts (class Lib).  Anything else raises Unsupported (the obligation fails)."""
import ast
import builtins
import collections
import inspect
import os
import re
import textwrap
import typing
import weakref
from fractions import Fraction

from . import terms as T
from . import consts
from . import prover as P
from .terms import I, R, TRUE, FALSE, and_, or_, not_, ite, eq, lt, le, forall, Term


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, msg=""):
        self.exc, self.msg = exc, msg
        Exception.__init__(self, "%s: %s" % (getattr(exc, "__name__", exc), msg))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values
class Havoc:
    """unknown value (carried between iterations of an unbounded loop)"""

    def __init__(self, why):
        self.why = why


class SymKw:
    """unknown further keyword arguments, passed through"""

    def __init__(self, name):
        self.name = name


LITS = {}


def code_of_literal(s):
    if s not in LITS:
        LITS[s] = len(LITS) + 1
    return T.const(LITS[s])


class SymStr:
    """concatenation of literals and symbolic pieces; a piece is (term, props, char map)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @staticmethod
    def atom(term, props=(), cmap=()):
        return SymStr([(term, frozenset(props), tuple(cmap))])

    def mapchars(self, pairs):
        """replace single characters, simultaneously"""
        m = dict(pairs)
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append("".join(m.get(c, c) for c in p))
                continue
            t, props, cm = p
            d = dict(cm)
            new = {c: "".join(m.get(x, x) for x in r) for c, r in d.items()}
            for c, r in m.items():
                if c not in d:
                    new[c] = r
            new = tuple(sorted((c, r) for c, r in new.items() if r != c))
            keep = frozenset(q for q in props if q == "ws0")
            if "nocomma" in props and not any("," in r for r in m.values()):
                keep |= {"nocomma"}
            out.append((t, keep if new else props, new))
        return SymStr(out)

    def code(self):
        cs = []
        for p in self.parts:
            if isinstance(p, str):
                cs.append(code_of_literal(p))
            else:
                t = T.fn("bytes", p[0]) if "bytes" in p[1] else p[0]
                cs.append(T.fn("str.map:" + repr(p[2]), t) if p[2] else t)
        if not cs:
            return code_of_literal("")
        if len(cs) == 1:
            return cs[0]
        return T.fn("str.cat%d" % len(cs), *cs)

    def concrete(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None


def mkstr(v):
    """SymStr that is fully literal -> str"""
    if isinstance(v, SymStr):
        c = v.concrete()
        return v if c is None else c
    return v


def as_sym(v):
    if isinstance(v, SymStr):
        return v
    if isinstance(v, (str, bytes)):
        return SymStr([v if isinstance(v, str) else v.decode("utf-8")])
    raise Unsupported("string expected: %r" % (v,))


class NArr:
    """numpy array: shape of integer terms, element function, kind R I B S"""

    def __init__(self, shape, f, kind="R"):
        self.shape = tuple(I(s) for s in shape)
        self.f = f
        self.kind = kind

    def at(self, *idx):
        return self.f(*[I(i) for i in idx])

    @property
    def ndim(self):
        return len(self.shape)

    def freeze(self):
        """evaluate once: later stores to the arrays it was computed from do not change it"""
        idx = [T.fresh("z") for _ in self.shape]
        t = self.f(*idx)
        self.f = lambda *i: vsubst(t, dict(zip(idx, i)))


LIVE = weakref.WeakSet()     # computed arrays that still read their operands lazily


def calc(shape, f, kind="R"):
    """a computed array (no view): its values are those of its operands at this moment"""
    r = NArr(shape, f, kind)
    LIVE.add(r)
    return r


def given(a, name):
    """an array (list, ...) of the caller: it may not be modified"""
    a.given = name
    return a


def before_store(a):
    nm = getattr(a, "given", None)
    if nm:
        raise Mismatch("the argument %s is modified in place" % nm)
    if getattr(a, "view", False):
        raise Unsupported("store through a view")
    freeze_all()


def freeze_all():
    for r in list(LIVE):
        LIVE.discard(r)
        r.freeze()


class PList:
    """Python list: concrete items and families of symbolic length, in order"""

    def __init__(self, ex, segs=()):
        self.segs = list(segs)          # ("item", v) | ("seq", n, f)
        self.born = ex.scope if ex else 0

    @property
    def items(self):
        return [s[1] for s in self.segs] if all(s[0] == "item" for s in self.segs) else None


class PDict:
    distinct = False                    # the keys of its one family are known to differ

    def __init__(self, ex, segs=()):
        self.segs = list(segs)          # ("item", key, v) | ("seq", n, kf, vf)
        self.born = ex.scope if ex else 0

    def concrete(self):
        if any(s[0] != "item" for s in self.segs):
            return None
        return {k: v for _, k, v in self.segs}


class SeqV:
    """immutable sequence of symbolic length (tuple, fields, lines of a file)"""

    def __init__(self, n, f, distinct=False):
        self.n, self.f, self.distinct = I(n), f, distinct


class SNTClass:
    """namedtuple class whose fields are a sequence of symbolic length"""

    def __init__(self, fields):
        self.fields = fields            # SeqV


class SNT:
    def __init__(self, cls, values):
        self.cls, self.values = cls, values     # values: SeqV


class SymObj:
    """external object: attributes and methods given by its contract"""

    def __init__(self, kind, attrs=None, methods=None, enter=None, has=None, ident=None):
        self.kind, self.attrs, self.methods = kind, attrs or {}, methods or {}
        self.enter = enter
        self.has = has or {}
        self.ident = ident
        self.getitem = self.setitem = self.contains = self.iterate = None


class PFunc:
    def __init__(self, node, env, name):
        self.node, self.env, self.name = node, env, name


class Bound:
    def __init__(self, f, name=""):
        self.f, self.name = f, name


SYMBOLIC = (Term, SymStr, NArr, PList, PDict, SeqV, SNTClass, SNT, SymObj, PFunc, Havoc, SymKw, Bound)


def is_symbolic(v):
    if isinstance(v, SYMBOLIC):
        return True
    if isinstance(v, (tuple, list)):
        return any(is_symbolic(x) for x in v)
    if isinstance(v, dict):
        return any(is_symbolic(x) for x in v.values())
    return False


def vsubst(v, m):
    """substitute index variables in a value"""
    if isinstance(v, Term):
        return T.subst(v, m)
    if isinstance(v, SymStr):
        return SymStr([p if isinstance(p, str) else (T.subst(p[0], m), p[1], p[2]) for p in v.parts])
    if isinstance(v, NArr):
        return NArr([T.subst(s, m) for s in v.shape], lambda *i: vsubst(v.f(*i), m), v.kind)
    if isinstance(v, SeqV):
        return SeqV(T.subst(v.n, m), lambda i: vsubst(v.f(i), m), v.distinct)
    if isinstance(v, SNT):
        return SNT(vsubst(v.cls, m), vsubst(v.values, m))
    if isinstance(v, SNTClass):
        return SNTClass(vsubst(v.fields, m))
    if isinstance(v, PList):
        r = PList(None)
        r.born = v.born
        r.segs = [("item", vsubst(s[1], m)) if s[0] == "item" else ("seq", T.subst(s[1], m), (lambda i, f=s[2]: vsubst(f(i), m))) for s in v.segs]
        return r
    if isinstance(v, tuple):
        w = [vsubst(x, m) for x in v]
        return type(v)(*w) if hasattr(v, "_fields") else tuple(w)
    if isinstance(v, SymObj):
        o = SymObj(v.kind, {k: vsubst(x, m) for k, x in v.attrs.items()}, v.methods, v.enter, v.has, vsubst(v.ident, m))
        o.getitem, o.setitem, o.contains, o.iterate = v.getitem, v.setitem, v.contains, v.iterate
        if v.kind == "factory":
            return o.methods["rebuild"](m)
        return o
    if isinstance(v, (Havoc,)):
        return v
    return v


def iterate(init, k, st, nxt, j):
    """the state before iteration j of a loop that starts in init and goes from st to nxt in iteration k"""
    if nxt is st:
        return init
    return T._mk("fn", ("iterate", init, T.close(k, T.close(st, nxt)), I(j)), "I")


def num(v):
    """numeric value -> Term"""
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return T.const(v, "I")
    if isinstance(v, float):
        return consts.snap(v)
    if isinstance(v, Fraction):
        return T.const(v)
    if type(v).__module__ == "numpy" and getattr(v, "ndim", 1) == 0:
        return num(v.item())
    raise Unsupported("number expected: %s" % (type(v).__name__,))


def is_num(v):
    return isinstance(v, (Term, bool, int, float, Fraction)) or (type(v).__module__ == "numpy" and getattr(v, "ndim", 1) == 0 and hasattr(v, "item"))


def real(t):
    t = num(t)
    return T.b2r(t) if t.sort == "B" else (T.i2r(t) if t.sort == "I" else t)


# ------------------------------------------------------------------ proof support
def extremes(ts):
    """facts about the maxima occurring in the given terms"""
    out, seen = [], set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "rmax" and not any(str(v.args[0]).startswith("#") for v in T.free_vars(t)):
            lo, hi, lm = t.args
            w = T.fresh("w")
            out.append(or_(le(hi, lo), and_(le(lo, w), lt(w, hi), eq(T.open_(lm, w), t))))
            out.append(forall(lo, hi, lambda j: le(T.open_(lm, j), t)))
        if t.op == "fn" and t.args[0] == "first" and not any(str(v.args[0]).startswith("#") for v in T.free_vars(t)):
            n, lm = t.args[1:]
            none = forall(I(0), n, lambda i: not_(T.open_(lm, i)))
            out.append(le(I(0), t))
            out.append(or_(and_(lt(t, n), T.open_(lm, t), forall(I(0), t, lambda i: not_(T.open_(lm, i)))), and_(none, eq(t, n))))
        for a in t.args:
            if isinstance(a, Term):
                go(a)
    for t in ts:
        go(t)
    return out


def skolem(f):
    """existential facts get a witness"""
    if f.op == "not" and f.args[0].op == "forall":
        lo, hi, lm = f.args[0].args
        w = T.fresh("w")
        return [le(lo, w), lt(w, hi), not_(T.open_(lm, w))]
    if f.op == "and":
        return [g for a in f.args for g in skolem(a)]
    return [f]


def strengthen(ctx, goals=()):
    facts = [g for f in ctx.facts for g in skolem(f)] + extremes(list(ctx.facts) + list(goals))
    c = P.Ctx([])
    c = c.assume(*facts)
    # instances of the quantified facts at the index variables and end points
    idx = {}
    for f in facts + list(goals):
        for v in T.free_vars(f):
            if v.sort == "I" and not v.args[0].startswith("#"):
                idx[v] = 1
    extra = []
    for f in facts:
        if f.op == "forall":
            for v in list(idx)[:12]:
                extra.append(T.implies(and_(le(f.args[0], v), lt(v, f.args[1])), T.open_(f.args[2], v)))
            for e in (f.args[0], f.args[1] - 1):
                extra.append(T.implies(lt(f.args[0], f.args[1]), T.open_(f.args[2], e)))
    return saturate(c.assume(*extra))


def saturate(c):
    """unit propagation through the propositional structure (quantified formulas are atoms)"""
    for _ in range(5):
        new = []
        for f in c.facts:
            if not_(f) in c.factset:
                return c.assume(FALSE)
            if f.op != "or":
                continue
            left = []
            for a in f.args:
                d = c.decide(a)
                if d is True:
                    left = None
                    break
                if d is None:
                    left.append(a)
            if left is None:
                continue
            if not left:
                return c.assume(FALSE)
            if len(left) == 1:
                new += [g for g in skolem(left[0]) if g not in c.factset]
        if not new:
            break
        c = c.assume(*new)
    return c


def prove(goal, ctx):
    r = P.prove(goal, ctx)
    if r:
        return r
    return P.prove(goal, strengthen(ctx, [goal]))


def infeasible(ctx):
    if ctx.dead:
        return True
    c = strengthen(ctx)
    try:
        if c.dead or c.infeasible():
            return True
        return bool(P.entails(c, FALSE))
    except P.GiveUp:
        return False


class Mismatch(Exception):
    pass


def same(a, b, ctx, path="value"):
    """prove that two values are equal; raises Mismatch"""
    if isinstance(a, Havoc) or isinstance(b, Havoc):
        raise Mismatch("%s: value carried between loop iterations (%s)" % (path, (a if isinstance(a, Havoc) else b).why))
    a, b = plain(a), plain(b)
    if a is None or b is None or isinstance(a, (type,)):
        if a is not b:
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        return
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if not isinstance(a, (SymStr, str, bytes)) or not isinstance(b, (SymStr, str, bytes)):
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        a, b = as_sym(a), as_sym(b)
        if len(a.parts) == len(b.parts) and all(isinstance(x, str) == isinstance(y, str) and (x == y if isinstance(x, str) else (x[2] == y[2] and ("bytes" in x[1]) == ("bytes" in y[1]))) for x, y in zip(a.parts, b.parts)):
            for x, y in zip(a.parts, b.parts):
                if not isinstance(x, str):
                    _eq(x[0], y[0], ctx, path)
            return
        _eq(a.code(), b.code(), ctx, path)
        return
    if is_num(a) or is_num(b):
        if not (is_num(a) and is_num(b)):
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        a, b = num(a), num(b)
        if a.sort == "B" or b.sort == "B":
            for g in ([or_(not_(a), b), or_(a, not_(b))] if a.sort == b.sort else [FALSE]):
                if not prove(g, ctx):
                    raise Mismatch("%s: %s, contract says %s" % (path, T.show(a, 200), T.show(b, 200)))
            return
        _eq(real(a), real(b), ctx, path)
        return
    if isinstance(a, NArr) or isinstance(b, NArr):
        if not isinstance(a, NArr) or not isinstance(b, NArr):
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        if a.ndim != b.ndim:
            raise Mismatch("%s: %d dimensions, contract says %d" % (path, a.ndim, b.ndim))
        for k, (s, t) in enumerate(zip(a.shape, b.shape)):
            if s is not t and not prove(eq(s, t), ctx):
                raise Mismatch("%s: length %s on axis %d, contract says %s" % (path, T.show(s), k, T.show(t)))
        idx = [T.fresh("i") for _ in a.shape]
        c = ctx
        for i, s in zip(idx, b.shape):
            c = c.assume(le(I(0), i), lt(i, s)).inst(i, I(0), s)
        same(a.at(*idx), b.at(*idx), c, path + "[]")
        return
    if isinstance(a, SNT) and isinstance(b, SNT):
        same(a.cls.fields, b.cls.fields, ctx, path + "._fields")
        same(a.values, b.values, ctx, path)
        return
    if isinstance(a, tuple) and hasattr(a, "_fields") or isinstance(b, tuple) and hasattr(b, "_fields"):
        if getattr(a, "_fields", 1) != getattr(b, "_fields", 2):
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        for f, x, y in zip(a._fields, a, b):
            same(x, y, ctx, path + "." + f)
        return
    if isinstance(a, SeqV) or isinstance(b, SeqV):
        for x in (a, b):
            if isinstance(x, (tuple, list)) and not hasattr(x, "_fields"):
                y = b if x is a else a
                if not prove(eq(y.n, I(len(x))), ctx):
                    raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
                for j, v in enumerate(x):
                    same(*((v, y.f(I(j))) if x is a else (y.f(I(j)), v)), ctx, "%s[%d]" % (path, j))
                return
        if not isinstance(a, SeqV) or not isinstance(b, SeqV):
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        if a.n is not b.n and not prove(eq(a.n, b.n), ctx):
            raise Mismatch("%s: length %s, contract says %s" % (path, T.show(a.n), T.show(b.n)))
        k = T.fresh("k")
        c = ctx.assume(le(I(0), k), lt(k, b.n)).inst(k, I(0), b.n)
        same(a.f(k), b.f(k), c, path + "[]")
        return
    if isinstance(a, PDict) and isinstance(b, PDict):
        if len(a.segs) != len(b.segs):
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        for s, t in zip(a.segs, b.segs):
            if s[0] != t[0]:
                raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
            if s[0] == "item":
                same(s[1], t[1], ctx, path + " key")
                same(s[2], t[2], ctx, path + "[%r]" % (s[1],))
            else:
                same(SeqV(s[1], s[2]), SeqV(t[1], t[2]), ctx, path + " keys")
                same(SeqV(s[1], s[3]), SeqV(t[1], t[3]), ctx, path + " values")
        return
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            raise Mismatch("%s: %d entries, contract says %d" % (path, len(a), len(b)))
        for k, (x, y) in enumerate(zip(a, b)):
            same(x, y, ctx, path + "[%d]" % k)
        return
    if isinstance(a, SymObj) and isinstance(b, SymObj) and a.ident is not None:
        same(a.ident, b.ident, ctx, path)
        return
    if isinstance(a, SymKw) or isinstance(b, SymKw):
        if a is not b:
            raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))
        return
    try:
        ok = type(a) is type(b) and bool(a == b)
    except Exception:
        ok = a is b
    if not ok:
        raise Mismatch("%s: %s, contract says %s" % (path, show(a), show(b)))


def _eq(x, y, ctx, path):
    if x is y:
        return
    x, y = resolve_firsts(x, y, ctx)
    x, y = resolve_extremes(x, y, ctx)
    r = x is y or P.prove_eq(x, y, ctx)
    if not r:
        g = strengthen(ctx, [eq(x, y)] if x.sort == y.sort else [])
        r = P.prove_eq(x, y, g)
    if not r:
        raise Mismatch("%s: %s, contract says %s" % (path, T.show(x, 300), T.show(y, 300)))


def firsts(t, out, seen):
    """the 'first index' terms of a term"""
    if t in seen:
        return
    seen.add(t)
    if t.op == "fn" and t.args[0] == "first" and not any(str(v.args[0]).startswith("#") for v in T.free_vars(t)):
        out[t] = 1
    for a in t.args:
        if isinstance(a, Term):
            firsts(a, out, seen)


def instances(f, terms):
    """instances of a (nested) forall at the given index terms"""
    if f.op != "forall":
        return [f]
    return [T.implies(and_(le(f.args[0], t), lt(t, f.args[1])), g) for t in terms for g in instances(T.open_(f.args[2], t), terms)]


def resolve_firsts(x, y, ctx):
    """replace a search for an entry by the index it is provably found at"""
    fs = {}
    firsts(x, fs, set())
    firsts(y, fs, set())
    if not fs:
        return x, y
    fx, fy = T.free_vars(x), T.free_vars(y)
    idx = [v for v in sorted(fx | fy, key=lambda v: ((v in fx) == (v in fy), v.args[0])) if v.sort == "I" and not v.args[0].startswith("dim:")]
    for q in fs:
        for v in idx:
            c = ctx
            for f in ctx.facts:
                if f.op == "forall" and T.open_(f.args[2], v).op == "forall":
                    c = c.assume(*instances(f, [q, v]))
            if prove(eq(q, v), c):
                x, y = T.replace(x, {q: v}), T.replace(y, {q: v})
                break
    return x, y


def resolve_extremes(x, y, ctx):
    """a maximum that is provably attained at an end point"""
    out = {}

    def go(t, seen):
        if t in seen:
            return
        seen.add(t)
        if t.op == "rmax" and not any(str(v.args[0]).startswith("#") for v in T.free_vars(t)):
            out[t] = 1
        for a in t.args:
            if isinstance(a, Term):
                go(a, seen)
    go(x, set())
    go(y, set())
    for r in out:
        lo, hi, lm = r.args
        j = T.fresh("j")
        c = ctx.assume(le(lo, j), lt(j, hi))
        if not P.entails(c, lt(lo, hi), linear=True):
            continue
        for e in (lo, hi - 1):
            if P.entails(c, le(T.open_(lm, j), T.open_(lm, e)), linear=True):
                v = T.open_(lm, e)
                x, y = T.replace(x, {r: v}), T.replace(y, {r: v})
                break
    return x, y


def plain(v):
    """lists with one family -> SeqV; all-concrete -> list"""
    if isinstance(v, PList):
        it = v.items
        if it is not None:
            return it
        if len(v.segs) == 1:
            return SeqV(v.segs[0][1], v.segs[0][2])
        return SeqV(*concat_segs(v.segs))
    if isinstance(v, (list, dict)) and False:
        return v
    return v


def concat_segs(segs):
    """length and element function of a mixed list (elements must be scalars)"""
    pos = I(0)
    parts = []
    for s in segs:
        n = I(1) if s[0] == "item" else s[1]
        parts.append((pos, pos + n, (lambda i, v=s[1]: v) if s[0] == "item" else s[2]))
        pos = pos + n

    def f(i):
        r = parts[-1][2](i - parts[-1][0])
        for lo, hi, g in reversed(parts[:-1]):
            r = vite(lt(i, hi), g(i - lo), r)
        return r
    return pos, f


def vite(c, a, b):
    """conditional value"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b):
        a, b = num(a), num(b)
        if a.sort != b.sort:
            a, b = real(a), real(b)
        return ite(c, a, b) if a.sort != "B" else or_(and_(c, a), and_(not_(c), b))
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return SymStr.atom(ite(c, as_sym(a).code(), as_sym(b).code()))
    if isinstance(a, NArr) and isinstance(b, NArr) and a.ndim == b.ndim and all(x is y for x, y in zip(a.shape, b.shape)):
        return NArr(a.shape, lambda *i: vite(c, a.f(*i), b.f(*i)), a.kind)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
        w = [vite(c, x, y) for x, y in zip(a, b)]
        return type(a)(*w) if hasattr(a, "_fields") else tuple(w)
    raise Unsupported("values %s and %s on different paths of a loop body" % (show(a), show(b)))


def show(v, n=120):
    if isinstance(v, Term):
        return T.show(v, n)
    if isinstance(v, SymStr):
        return "+".join(repr(p) if isinstance(p, str) else "str(%s%s)" % (T.show(p[0], 60), dict(p[2]) or "") for p in v.parts)
    if isinstance(v, NArr):
        return "array of shape %s" % ([T.show(s) for s in v.shape],)
    if isinstance(v, SymObj):
        return "<%s>" % v.kind
    if isinstance(v, (PList, SeqV)):
        return "<sequence>"
    return repr(v)[:n]


# ------------------------------------------------------------------ the executor
class Ex:
    """one path of one exploration"""

    def __init__(self, ctx, lib, world=None, interpret=None):
        self.ctx = ctx
        self.lib = lib
        self.world = world              # external state given by the contract
        self.dec, self.pos, self.pending = [], 0, []
        self.scope = 0
        self.journal = []
        self.reads = set()
        self.conds = []
        self.depth = 0
        self.functions = {}
        self.nfresh = 0
        self.interpret = interpret or (lambda f: (getattr(inspect.getmodule(f), "__file__", "") or "").startswith("/repo/"))

    # -- branching
    def branch(self, c, note=""):
        if isinstance(c, bool):
            return c
        if isinstance(c, Havoc):
            raise Unsupported("branch on a value carried between loop iterations (%s)" % c.why)
        if c is TRUE or c is FALSE:
            return c is TRUE
        d = self.ctx.decide(c)
        if d is not None:
            return d
        if self.pos < len(self.dec):
            r = self.dec[self.pos]
        else:
            # prune infeasible sides
            t_ok = f_ok = True
            if c.op in ("lt", "le", "eq") and P.entails(self.ctx, c, linear=True):
                f_ok = False
            else:
                t_ok = not infeasible(self.ctx.assume(c))
                f_ok = not infeasible(self.ctx.assume(not_(c)))
            if t_ok and f_ok:
                self.pending.append(self.dec[: self.pos] + [False])
                r = True
            elif t_ok or f_ok:
                r = t_ok
            else:
                r = True
            self.dec = self.dec[: self.pos] + [r]
        self.pos += 1
        f = c if r else not_(c)
        self.conds.append(f)
        self.ctx = self.ctx.assume(*skolem(f)) if f.op == "not" and f.args[0].op == "forall" else self.ctx.assume(f)
        return r

    def fresh(self, p):
        return T.fresh(p)

    def ext(self, v):
        """objects outside the program that the contract gives a meaning to"""
        w = self.world
        if w is not None and w.attrs and not isinstance(v, SYMBOLIC):
            return w.attrs.get(id(v), v)
        return v

    # -- journal
    def log(self, entry, undo):
        self.journal.append((entry, undo))

    def read(self, o):
        self.reads.add(id(o))

    def truth(self, v):
        v = mkstr(v)
        if isinstance(v, Havoc):
            raise Unsupported("branch on a value carried between loop iterations (%s)" % v.why)
        if isinstance(v, Term):
            if v.sort == "B":
                return self.branch(v)
            return self.branch(self.lib.compare(self, "NotEq", v, 0))
        if isinstance(v, SymStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return self.branch(not_(eq(v.code(), code_of_literal(""))))
        if isinstance(v, PList):
            self.read(v)
            if v.items is not None:
                return bool(v.items)
            return self.branch(lt(I(0), self.length(v)))
        if isinstance(v, PDict):
            self.read(v)
            d = v.concrete()
            if d is not None:
                return bool(d)
            raise Unsupported("truth of a dictionary")
        if isinstance(v, SeqV):
            return self.branch(lt(I(0), v.n))
        if isinstance(v, NArr):
            if v.ndim == 0:
                return self.truth(v.at())
            raise Unsupported("truth of an array")
        if isinstance(v, (SymObj, SNT, SNTClass, PFunc, Bound)):
            return True
        if isinstance(v, SymKw):
            raise Unsupported("truth of unknown keyword arguments")
        return bool(v)

    def length(self, v):
        if isinstance(v, PList):
            self.read(v)
            n = I(0)
            for s in v.segs:
                n = n + (I(1) if s[0] == "item" else s[1])
            return n
        if isinstance(v, SeqV):
            return v.n
        if isinstance(v, SNT):
            return v.values.n
        if isinstance(v, NArr):
            return v.shape[0]
        if isinstance(v, SymObj) and v.iterate:
            return v.iterate()[0]
        if isinstance(v, PDict) and v.concrete() is not None:
            return I(len(v.concrete()))
        if isinstance(v, PDict) and v.distinct and len(v.segs) == 1:
            self.read(v)
            return v.segs[0][1]
        if isinstance(v, (tuple, list, dict, str)):
            return I(len(v))
        raise Unsupported("len of %s" % show(v))

    # -- iteration
    def segments(self, v):
        """iterable -> list of ("item", v) / ("seq", n, f)"""
        if isinstance(v, PList):
            self.read(v)
            return list(v.segs)
        if isinstance(v, SeqV):
            return self._seg(v.n, v.f)
        if isinstance(v, SNT):
            return self._seg(v.values.n, v.values.f)
        if isinstance(v, NArr):
            if v.ndim == 0:
                raise PyRaise(TypeError, "iteration over a 0-d array")
            return self._seg(v.shape[0], lambda k: subarr(v, k))
        if isinstance(v, PDict):
            self.read(v)
            return [("item", s[1]) if s[0] == "item" else ("seq", s[1], s[2]) for s in v.segs]
        if isinstance(v, SymObj):
            if v.iterate:
                n, f = v.iterate()
                return self._seg(n, f)
            raise Unsupported("iteration over %s" % show(v))
        if isinstance(v, Havoc):
            raise Unsupported("iteration over a value carried between iterations")
        if isinstance(v, SymStr):
            raise Unsupported("iteration over the characters of a string")
        try:
            return [("item", x) for x in v]
        except TypeError as ex:
            raise PyRaise(TypeError, str(ex))

    def _seg(self, n, f):
        n = I(n)
        if n.op == "const":
            return [("item", f(I(j))) for j in range(int(n.args[0]))]
        return [("seq", n, f)]

    def for_each(self, segs, body, assigned=(), env=None):
        """run body(element) for every element"""
        for s in segs:
            if s[0] == "item":
                try:
                    body(s[1])
                except _Continue:
                    continue
                except _Break:
                    return "break"
            else:
                r = self.generic_loop(s[1], s[2], body, assigned, env)
                if r == "break":
                    return r
        return "done"

    def generic_loop(self, n, f, body, assigned, env):
        d = self.branch(lt(I(0), n))
        if not d:
            return "done"
        k = self.fresh("k")
        self.scope += 1
        outer = dict(dec=self.dec, pos=self.pos, pending=self.pending, ctx=self.ctx, conds=self.conds,
                     journal=self.journal, reads=self.reads)
        base = self.ctx.assume(le(I(0), k), lt(k, n)).inst(k, I(0), n)
        normal, breaks, rets, raises = [], [], [], []
        stack = [[]]
        # opaque states (random keys) that each iteration passes on to the next
        carried = {nm: (env[nm], self.fresh("state")) for nm in assigned
                   if nm in env and isinstance(env[nm], SymObj) and isinstance(env[nm].ident, Term)} if env is not None else {}
        while stack:
            self.dec, self.pos, self.pending = stack.pop(), 0, []
            self.ctx, self.conds, self.journal, self.reads = base, [], [], set()
            saved = {}
            if env is not None:
                for nm in assigned:
                    if nm in env:
                        saved[nm] = env[nm]
                        env[nm] = SymObj(carried[nm][0].kind, ident=carried[nm][1]) if nm in carried else Havoc("variable %s" % nm)
            kind, val = "normal", None
            try:
                try:
                    body(f(k))
                except _Continue:
                    pass
                except _Break:
                    kind = "break"
                except _Return as ex:
                    kind, val = "return", ex.v
                except PyRaise as ex:
                    kind, val = "raise", ex
                stack += self.pending
                if len(stack) > 64:
                    raise Unsupported("too many paths through a loop body")
                if any(e[0].startswith("store") for e, _ in self.journal):
                    freeze_all()
                eff = []
                final = {}
                for e, undo in self.journal:
                    eff.append(e)
                if env is not None:
                    final = {nm: env[nm] for nm in assigned if nm in env}
                mutated = {id(e[1]) for e in eff if e[0] in ("append", "dict", "store")}
                outerm = {id(e[1]) for e in eff if e[0] in ("append", "dict", "store") and e[1].born < self.scope}
                if outerm & self.reads:
                    raise Unsupported("a container filled by the loop is read inside it")
                rec = (list(self.conds), eff, final, val)
                {"normal": normal, "break": breaks, "return": rets, "raise": raises}[kind].append(rec)
                facts = [g for g in self.ctx.facts if g not in base.factset]
            finally:
                for e, undo in reversed(self.journal):
                    undo()
                if env is not None:
                    for nm in assigned:
                        if nm in saved:
                            env[nm] = saved[nm]
                        else:
                            env.pop(nm, None)
        self.scope -= 1
        for a, b in outer.items():
            setattr(self, a, b)
        after = {}
        if carried:
            recs, seqs = normal + breaks + rets + raises, {}
            for nm, (o, st) in carried.items():
                nxt = None
                for c, e, fin, v in normal[::-1]:
                    x = fin.get(nm)
                    if not (isinstance(x, SymObj) and x.kind == o.kind and isinstance(x.ident, Term)):
                        raise Unsupported("state %s of a loop" % nm)
                    nxt = x.ident if nxt is None else ite(and_(*c), x.ident, nxt)
                nxt = st if nxt is None else nxt
                if any(s2 in T.free_vars(nxt) for n2, (_, s2) in carried.items() if n2 != nm):
                    raise Unsupported("states of a loop that depend on each other")
                seqs[nm] = lambda j, o=o, st=st, nxt=nxt: iterate(o.ident, k, st, nxt, j)
            m = {st: seqs[nm](k) for nm, (o, st) in carried.items()}
            for rs in (normal, breaks, rets, raises):
                rs[:] = [([T.subst(g, m) for g in c], [tuple(x if j < 2 else vsubst(x, m) for j, x in enumerate(q)) for q in e],
                          {a: vsubst(b, m) for a, b in fin.items()}, v if rs is raises else vsubst(v, m)) for c, e, fin, v in rs]
            after = {nm: SymObj(o.kind, ident=seqs[nm](n)) for nm, (o, st) in carried.items()}
        for c, e, fin, v in raises:
            cond = and_(*c)
            if self.branch(T.exists(I(0), n, lambda i: T.subst(cond, {k: i})) if cond is not TRUE else TRUE):
                raise v
        if breaks or rets:
            return self.first_exit(n, k, normal, breaks, rets)
        self.apply_effects(n, k, normal, env, assigned)
        for nm, v in after.items():
            self.setvar(env, nm, v)
        return "done"

    def first_exit(self, n, k, normal, breaks, rets):
        """leave the loop at the first iteration that breaks or returns"""
        for recs in (normal, breaks, rets):
            for c, e, fin, v in recs:
                if any(x[0] in ("append", "dict", "store") and x[1].born <= self.scope for x in e):
                    raise Unsupported("a loop that ends early and fills a container")
        ex = or_(*[and_(*c) for c, e, fin, v in breaks + rets])
        if self.branch(T.exists(I(0), n, lambda i: T.subst(ex, {k: i})) if ex is not TRUE else TRUE):
            w = self.fresh("first")
            self.ctx = self.ctx.assume(le(I(0), w), lt(w, n), T.subst(ex, {k: w}),
                                       forall(I(0), w, lambda i: not_(T.subst(ex, {k: i}))))
            if breaks:
                raise Unsupported("break out of an unbounded loop")
            r = rets[-1]
            v = vsubst(r[3], {k: w})
            for c, e, fin, x in rets[:-1]:
                v = vite(T.subst(and_(*c), {k: w}), vsubst(x, {k: w}), v)
            raise _Return(v)
        return "done"

    def apply_effects(self, n, k, normal, env, assigned):
        if not normal:
            return
        # containers
        order, per = [], []
        for c, eff, fin, v in normal:
            d = {}
            for e in eff:
                if e[0] in ("append", "dict", "store") and e[1].born <= self.scope:
                    d.setdefault(id(e[1]), []).append(e)
                    if all(o is not e[1] for o in order):
                        order.append(e[1])
            per.append(d)
        for o in order:
            lists = [d.get(id(o), []) for d in per]
            if any(len(x) != len(lists[0]) for x in lists):
                # paths told apart by a condition that is the same in every iteration
                for g in sorted({x for c, *_ in normal for x in c}, key=lambda x: x.id):
                    if k not in T.free_vars(g) and self.ctx.decide(g) is None:
                        self.branch(g)
                        keep = [r for r in normal if self.ctx.decide(and_(*r[0])) is not False]
                        return self.apply_effects(n, k, keep, env, assigned)
        for o in order:
            lists = [d.get(id(o), []) for d in per]
            if any(len(x) != len(lists[0]) for x in lists):
                raise Unsupported("loop paths that fill a container differently")
            if len(lists[0]) != 1:
                raise Unsupported("a container is filled more than once per iteration")
            es = [x[0] for x in lists]
            if any(e[0] != es[0][0] for e in es):
                raise Unsupported("loop paths that fill a container differently")

            def merged(col):
                v = es[-1][col]
                for (c, *_), e in list(zip(normal, es))[-2::-1]:
                    v = vite(and_(*c), e[col], v)
                return v
            if es[0][0] == "append":
                v = merged(2)
                self.do_append_seq(o, n, lambda i, v=v: vsubst(v, {k: I(i)}))
            elif es[0][0] == "dict":
                kk, vv = merged(2), merged(3)
                if not is_symbolic(kk):
                    raise Unsupported("the same key is set in every iteration")
                self.do_dict_seq(o, n, lambda i, kk=kk: vsubst(kk, {k: I(i)}), lambda i, vv=vv: vsubst(vv, {k: I(i)}))
            elif isinstance(o, PList):
                ix, vv = es[0][2], merged(3)
                if any(e[2] != ix for e in es) or ix[0] is not k:
                    raise Unsupported("list store at an index other than the loop counter")
                if len(o.segs) != 1 or o.segs[0][0] != "seq" or self.ctx.decide(eq(o.segs[0][1], n)) is not True:
                    raise Unsupported("list store covers only part of the list")
                old = o.segs
                o.segs = [("seq", n, lambda i, vv=vv: vsubst(vv, {k: I(i)}))]
                self.log(("store*", o), lambda o=o, old=old: setattr(o, "segs", old))
            else:
                ix, vv = es[0][2], merged(3)
                if any(e[2] != ix for e in es) or ix[0] is not k:
                    raise Unsupported("array store at an index other than the loop counter")
                old = o.f
                rest = ix[1:]
                if rest:
                    raise Unsupported("array store at several indices")
                if not (o.shape[0] is n or self.ctx.decide(eq(o.shape[0], n)) is True):
                    raise Unsupported("array store covers only part of the array")
                if isinstance(vv, NArr):
                    o.f = lambda i, *j, vv=vv: vsubst(vv, {k: i}).at(*j)
                else:
                    if o.ndim != 1:
                        raise Unsupported("scalar stored in a row")
                    o.f = lambda i, vv=vv: vsubst(num(vv), {k: i})
                self.log(("store*", o), lambda o=o, old=old: setattr(o, "f", old))
        # variables: value of the last iteration
        if env is not None:
            for nm in assigned:
                vals = [fin.get(nm, Havoc("unassigned %s" % nm)) for c, e, fin, v in normal]
                try:
                    v = vals[-1]
                    for (c, *_), x in list(zip(normal, vals))[-2::-1]:
                        if isinstance(x, Havoc) or isinstance(v, Havoc):
                            v = Havoc("variable %s after the loop" % nm)
                        else:
                            v = vite(and_(*c), x, v)
                    v = vsubst(v, {k: n - 1})
                except Unsupported:
                    v = Havoc("variable %s after the loop" % nm)
                self.setvar(env, nm, v)

    def do_append(self, l, v):
        before_store(l)
        l.segs.append(("item", v))
        self.log(("append", l, v), lambda: l.segs.pop())

    def do_append_seq(self, l, n, f):
        before_store(l)
        if self.scope > l.born:
            raise Unsupported("nested loops fill one list")
        l.segs.append(("seq", n, f))
        self.log(("append*", l), lambda: l.segs.pop())

    def do_dict(self, d, k, v):
        before_store(d)
        c = d.concrete()
        old = list(d.segs)
        if c is not None and not is_symbolic(k) and k in c:
            d.segs = [("item", a, v if a == k else b) for _, a, b in d.segs]
        else:
            d.segs.append(("item", k, v))
        self.log(("dict", d, k, v), lambda: setattr(d, "segs", old))

    def do_dict_seq(self, d, n, kf, vf):
        before_store(d)
        if self.scope > d.born:
            raise Unsupported("nested loops fill one dictionary")
        d.segs.append(("seq", n, kf, vf))
        self.log(("dict*", d), lambda: d.segs.pop())

    def setvar(self, env, name, v):
        had, old = name in env, env.get(name)
        env[name] = v
        if isinstance(env, Env):
            def undo():
                if had:
                    env[name] = old
                else:
                    env.pop(name, None)
            self.log(("var", env, name), undo)

    # -- functions
    def call_py(self, fn, args, kwargs, kwrest=None):
        fn = inspect.unwrap(fn)
        key = "%s:%s" % (fn.__module__, fn.__qualname__)
        self.functions[key] = self.functions.get(key, 0) + 1
        node = fn_ast(fn)
        glob = fn.__globals__
        over = (self.world.glob if self.world is not None else {}).get(fn.__module__)
        if over:
            glob = collections.ChainMap(over, glob)
        return self.run_function(node, Env(glob, closure_env(fn)), fn.__defaults__, fn.__kwdefaults__, args, kwargs, kwrest)

    def run_function(self, node, env, defaults, kwdefaults, args, kwargs, kwrest):
        if self.depth > 40:
            raise Unsupported("recursion")
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args, kwargs = list(args), dict(kwargs)
        if any(isinstance(x, tuple) and len(x) == 2 and x[0] == "*sym" for x in args):
            raise Unsupported("unpacking a sequence of symbolic length into arguments")
        nd = len(defaults or ())
        for j, nm in enumerate(names):
            if j < len(args):
                if nm in kwargs:
                    raise PyRaise(TypeError, "multiple values for " + nm)
                env[nm] = args[j]
            elif nm in kwargs:
                env[nm] = kwargs.pop(nm)
            elif j >= len(names) - nd:
                env[nm] = defaults[j - (len(names) - nd)]
                if isinstance(env[nm], (list, dict)):
                    raise Unsupported("mutable default argument")
            else:
                raise PyRaise(TypeError, "missing argument " + nm)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, "too many arguments")
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif kwdefaults and x.arg in kwdefaults:
                env[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(TypeError, "missing argument " + x.arg)
        if a.kwarg is not None:
            if kwrest is not None:
                env[a.kwarg.arg] = kwrest if not kwargs else ("kw+", kwargs, kwrest)
            else:
                env[a.kwarg.arg] = PDict(self, [("item", k, v) for k, v in kwargs.items()])
        elif kwargs or kwrest is not None:
            raise PyRaise(TypeError, "unexpected keyword argument")
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return Eval(self, env).expr(node.body)
            Eval(self, env).block(node.body)
        except _Return as ex:
            return ex.v
        finally:
            self.depth -= 1
        return None


class Env(dict):
    """local variables; globals and enclosing scopes are read through"""

    def __init__(self, glob, outer=None):
        dict.__init__(self)
        self.glob, self.outer = glob, outer

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e:
                return e[name]
            e = getattr(e, "outer", None)
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, name)


def closure_env(fn):
    if not fn.__closure__:
        return None
    return dict(zip(fn.__code__.co_freevars, [c.cell_contents for c in fn.__closure__]))


_AST = {}


def fn_ast(fn):
    if fn not in _AST:
        src = textwrap.dedent(inspect.getsource(fn))
        try:
            tree = ast.parse(src)
            node = next(n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda)))
        except (SyntaxError, StopIteration):
            raise Unsupported("source of %s" % fn)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node)):
            raise Unsupported("generator %s" % fn.__qualname__)
        _AST[fn] = node
    return _AST[fn]


def assigned_names(nodes):
    out = []
    for nd in nodes:
        for n in ast.walk(nd):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.append(n.name)
            if isinstance(n, (ast.FunctionDef,)):
                out.append(n.name)
    return out


class Eval:
    """statements and expressions in one scope"""

    def __init__(self, ex, env):
        self.ex, self.env = ex, env

    # ---- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        P._check_deadline()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        raise _Return(self.expr(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise _Break()

    def s_Continue(self, s):
        raise _Continue()

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            old = self.env.lookup(s.target.id)
            v = self.expr(s.value)
            if isinstance(old, PList) and isinstance(s.op, ast.Add):
                for seg in self.ex.segments(v):
                    if seg[0] == "item":
                        self.ex.do_append(old, seg[1])
                    else:
                        self.ex.do_append_seq(old, seg[1], seg[2])
                return
            if isinstance(old, NArr):
                nv = self.ex.lib.binop(self.ex, type(s.op).__name__, old, v)
                nv.freeze()
                before_store(old)
                if self.ex.scope > getattr(old, "born", 0):
                    raise Unsupported("a loop updates an array as a whole")
                of = old.f
                old.f = nv.f
                self.ex.log(("store*", old), lambda: setattr(old, "f", of))
                return
            self.assign(s.target, self.ex.lib.binop(self.ex, type(s.op).__name__, old, v))
        else:
            ld = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
            self.assign(s.target, self.ex.lib.binop(self.ex, type(s.op).__name__, self.expr(ld), self.expr(s.value)))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_If(self, s):
        self.block(s.body if self.ex.truth(self.expr(s.test)) else s.orelse)

    def s_For(self, s):
        segs = self.ex.segments(self.expr(s.iter))
        names = assigned_names(s.body + [s.target])
        aug = {n.target.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        aug -= {n.id for b in s.body + [s.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))
                and not any(isinstance(q, ast.AugAssign) and q.target is n for c in s.body for q in ast.walk(c))}
        # l += [x] changes the list, not the variable
        names = [nm for nm in names if not (nm in aug and isinstance(self.env.get(nm), PList))]

        def body(x):
            self.assign(s.target, x)
            self.block(s.body)
        r = self.ex.for_each(segs, body, names, self.env)
        if r != "break":
            self.block(s.orelse)

    def s_While(self, s):
        n = 0
        while self.ex.truth(self.expr(s.test)):
            n += 1
            if n > 200:
                raise Unsupported("while loop")
            try:
                self.block(s.body)
            except _Continue:
                continue
            except _Break:
                return
        self.block(s.orelse)

    def s_With(self, s):
        for item in s.items:
            c = self.expr(item.context_expr)
            if isinstance(c, SymObj):
                v = c.enter() if c.enter else c
            else:
                raise Unsupported("context manager %s" % show(c))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except PyRaise as ex:
                for h in s.handlers:
                    types = (BaseException,) if h.type is None else self.expr(h.type)
                    types = types if isinstance(types, tuple) else (types,)
                    if isinstance(ex.exc, type) and any(isinstance(t, type) and issubclass(ex.exc, t) for t in types):
                        if h.name:
                            self.ex.setvar(self.env, h.name, ex)
                        saved = getattr(self, "cur", None)
                        self.cur = ex
                        try:
                            self.block(h.body)
                        finally:
                            self.cur = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        finally:
            self.block(s.finalbody)

    def s_Raise(self, s):
        if s.exc is None:
            c = getattr(self, "cur", None)
            if c is None:
                raise Unsupported("bare raise")
            raise c
        v = self.expr(s.exc)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v)
        if isinstance(v, BaseException) and not isinstance(v, PyRaise):
            raise PyRaise(type(v), str(v))
        if isinstance(v, PyRaise):
            raise v
        raise Unsupported("raise %s" % show(v))

    def s_Assert(self, s):
        if not self.ex.truth(self.expr(s.test)):
            raise PyRaise(AssertionError)

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        self.ex.setvar(self.env, s.name, PFunc(s, self.env, s.name))

    def s_Import(self, s):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.ex.setvar(self.env, a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        import importlib
        pk = self.env.glob.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pk)
        for a in s.names:
            self.ex.setvar(self.env, a.asname or a.name, getattr(m, a.name))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.ex.setvar(self.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Havoc):
                vals = [Havoc(v.why)] * len(t.elts)
            elif any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            else:
                segs = self.ex.segments(v)
                if any(x[0] != "item" for x in segs):
                    n = self.ex.length(v)
                    if not self.ex.branch(eq(n, I(len(t.elts)))):
                        raise PyRaise(ValueError, "unpack")
                    segs = [("item", self.ex.lib.index(self.ex, v, j)) for j in range(len(t.elts))]
                if len(segs) != len(t.elts):
                    raise PyRaise(ValueError, "unpack %d values into %d" % (len(segs), len(t.elts)))
                vals = [x[1] for x in segs]
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.slice(t.slice)
            self.ex.lib.setitem(self.ex, o, k, v)
        else:
            raise Unsupported("assignment to %s" % type(t).__name__)

    # ---- expressions
    def expr(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.ex.ext(self.env.lookup(e.id))

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return tuple(self.seq_elts(e.elts))

    def e_List(self, e):
        l = PList(self.ex)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for s in self.ex.segments(self.expr(x.value)):
                    l.segs.append(s)
            else:
                l.segs.append(("item", self.expr(x)))
        return l

    def e_Set(self, e):
        return frozenset(self.expr(x) for x in e.elts)

    def seq_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                for s in self.ex.segments(self.expr(x.value)):
                    if s[0] != "item":
                        raise Unsupported("unpacking a sequence of symbolic length")
                    out.append(s[1])
            else:
                out.append(self.expr(x))
        return out

    def e_Dict(self, e):
        d = PDict(self.ex)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.expr(v)
                if isinstance(src, PDict):
                    d.segs += src.segs
                elif isinstance(src, dict):
                    d.segs += [("item", a, b) for a, b in src.items()]
                else:
                    raise Unsupported("** of %s" % show(src))
            else:
                self.ex.do_dict(d, self.expr(k), self.expr(v))
        return d

    def e_BinOp(self, e):
        return self.ex.lib.binop(self.ex, type(e.op).__name__, self.expr(e.left), self.expr(e.right))

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Term) and v.sort == "B":
                return not_(v)
            return not self.ex.truth(v)
        return self.ex.lib.unop(self.ex, op, v)

    def e_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.expr(x)
            t = self.ex.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not (isinstance(v, Term) and v.sort == "B") else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, Term) and v.sort == "B") else True
        return v if not (isinstance(v, Term) and v.sort == "B") else self.ex.truth(v)

    def e_Compare(self, e):
        left = self.expr(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            c = self.ex.lib.compare(self.ex, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.ex.truth(c):
                return False
            res, left = True, right
        return res

    def e_IfExp(self, e):
        return self.expr(e.body if self.ex.truth(self.expr(e.test)) else e.orelse)

    def e_Lambda(self, e):
        return PFunc(e, self.env, "<lambda>")

    def e_JoinedStr(self, e):
        out = SymStr([])
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = SymStr(out.parts + (v.value,))
            else:
                out = SymStr(out.parts + self.ex.lib.to_str(self.ex, self.expr(v.value)).parts)
        return mkstr(out)

    def e_Attribute(self, e):
        return self.ex.lib.getattr(self.ex, self.expr(e.value), e.attr)

    def slice(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.expr(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.slice(x) for x in s.elts)
        return self.expr(s)

    def e_Subscript(self, e):
        return self.ex.lib.index(self.ex, self.expr(e.value), self.slice(e.slice))

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def comp(self, gens, emit):
        def go(j, ev):
            if j == len(gens):
                emit(ev)
                return
            g = gens[j]
            segs = ev.ex.segments(ev.expr(g.iter))

            def body(x):
                ev.assign(g.target, x)
                for c in g.ifs:
                    if not ev.ex.truth(ev.expr(c)):
                        raise _Continue()
                go(j + 1, ev)
            ev.ex.for_each(segs, body, assigned_names([g.target]), ev.env)
        go(0, Eval(self.ex, Env(self.env.glob, self.env)))

    def e_ListComp(self, e):
        l = PList(self.ex)
        self.comp(e.generators, lambda ev: ev.ex.do_append(l, ev.expr(e.elt)))
        return l

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        d = PDict(self.ex)
        self.comp(e.generators, lambda ev: ev.ex.do_dict(d, ev.expr(e.key), ev.expr(e.value)))
        return d

    def e_Call(self, e):
        f = self.expr(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.ex.segments(self.expr(a.value))
                if all(s[0] == "item" for s in segs):
                    args += [s[1] for s in segs]
                elif len(segs) == 1:
                    args.append(("*sym", SeqV(segs[0][1], segs[0][2])))
                else:
                    raise Unsupported("unpacking a mixed sequence into arguments")
            else:
                args.append(self.expr(a))
        kwargs, rest = {}, None
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is not None:
                if k.arg in kwargs:
                    raise PyRaise(TypeError, "repeated keyword")
                kwargs[k.arg] = v
            elif isinstance(v, SymKw):
                rest = v
            elif isinstance(v, tuple) and len(v) == 3 and v[0] == "kw+":
                kwargs.update(v[1])
                rest = v[2]
            else:
                d = v.concrete() if isinstance(v, PDict) else v
                if d is None and isinstance(f, SNTClass) and not args and len(e.keywords) == 1 and len(v.segs) == 1:
                    s, i = v.segs[0], T.fresh("i")
                    same = eq(as_sym(s[2](i)).code(), as_sym(f.fields.f(i)).code())
                    cx = self.ex.ctx.assume(le(I(0), i), lt(i, f.fields.n))
                    if s[1] is f.fields.n and (same is TRUE or prove(same, cx)):
                        return SNT(f, SeqV(s[1], s[3]))
                if not isinstance(d, dict):
                    raise Unsupported("** of %s" % show(v))
                for a in d:
                    if a in kwargs:
                        raise PyRaise(TypeError, "repeated keyword")
                kwargs.update(d)
        return self.ex.lib.call(self.ex, f, args, kwargs, rest)


def subarr(v, k):
    """row k of an array"""
    if v.ndim == 1:
        return v.at(k)
    return NArr(v.shape[1:], lambda *i: v.at(k, *i), v.kind)


# ------------------------------------------------------------------ exploration
class Path:
    def __init__(self, kind, value, ctx, conds, ex):
        self.kind, self.value, self.ctx, self.conds, self.ex = kind, value, ctx, conds, ex


def explore(run, ctx, lib, max_paths=200, world=None):
    """all paths of run(ex): list of Path"""
    out = []
    stack = [[]]
    while stack:
        P._check_deadline()
        ex = Ex(ctx, lib)
        ex.dec = stack.pop()
        if world is not None:
            ex.world = world(ex)
        try:
            v = run(ex)
            kind = "return"
        except PyRaise as e:
            kind, v = "raise", e
        stack += ex.pending
        out.append(Path(kind, v, ex.ctx, ex.conds, ex))
        if len(out) > max_paths:
            raise Unsupported("more than %d paths" % max_paths)
    return out
