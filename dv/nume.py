"""Numeric evaluation of terms (used for replay and the bounded cross-check only).

Bound variables become leading numpy axes, so that a whole output array is
evaluated at once.  Arithmetic is 80-bit extended precision by default."""
import math

import numpy as np

from . import terms as T

LD = np.longdouble


NOISY = {"add", "mul", "exp", "ln", "sqrt", "sum", "interp", "fn"}


class Undef(Exception):
    pass


class Scope:
    __slots__ = ("parent", "var", "val", "depth", "cache")

    def __init__(self, parent, var, val):
        self.parent, self.var, self.val = parent, var, val
        self.depth = 0 if parent is None else parent.depth + 1
        self.cache = {}


class Eval:
    """env: arrays {name: ndarray}, scalars {name: number}, funcs {name: callable}"""

    def __init__(self, arrays, scalars, funcs=None, dtype=LD, noise=None):
        self.dt = dtype
        self.noise = noise  # random generator: every operation is rounded at random (relative 4e-16)
        self.extreme = False  # some intermediate value leaves the range of double precision
        self.arrays = {}
        for k, v in arrays.items():
            v = np.asarray(v)
            self.arrays[k] = v.astype(dtype) if v.dtype.kind == "f" else v
        self.scalars = dict(scalars)
        self.scalars.setdefault("pi", dtype(np.pi) if dtype is np.float64 else LD("3.14159265358979323846264338327950288"))
        self.funcs = funcs or {}
        self.root = Scope(None, None, None)

    def term(self, t, **binds):
        return self.ev(t, self.root)

    def over(self, f, shape):
        """evaluate f(*idx terms) over a whole index box -> ndarray of given shape"""
        vs = [T.fresh("e") for _ in shape]
        t = f(*vs)
        sc = self.root
        n = len(shape)
        for k, (v, s) in enumerate(zip(vs, shape)):
            # innermost (last) index is bound first: trailing axis
            pass
        for k in range(n - 1, -1, -1):
            d = sc.depth
            val = np.arange(shape[k]).reshape((shape[k],) + (1,) * d)
            sc = Scope(sc, vs[k], val)
        r = np.asarray(self.ev(t, sc))
        return np.broadcast_to(r, tuple(shape)) if n else r.reshape(())

    # ------------------------------------------------------------------
    def scope_for(self, t, sc):
        fv = T.free_vars(t)
        s = sc
        while s.parent is not None and s.var not in fv:
            s = s.parent
        return s

    def ev(self, t, sc):
        o = t.op
        if o == "const":
            v = t.args[0]
            if t.sort == "I":
                return v
            if v.denominator == 1 and abs(v.numerator) < 2**62:
                return self.dt(v.numerator)
            if self.dt is np.float64:
                return np.float64(v.numerator / v.denominator)
            hi = float(v)
            from fractions import Fraction
            return self.dt(hi) + self.dt(float(v - Fraction(hi)))
        if o == "true":
            return True
        if o == "false":
            return False
        s = self.scope_for(t, sc)
        r = s.cache.get(t)
        if r is None:
            r = self._ev(t, s)
            if t.sort == "R" and not self.extreme and o in ("exp", "mul", "add"):
                with np.errstate(all="ignore"):
                    a = np.abs(r)
                    if np.any((a > 1e200) & ((a < np.inf) | (o == "exp"))) or np.any((a < 1e-200) & (a > 0)):
                        self.extreme = True
                    elif o == "exp" and t.args[0].op == "add":
                        # the factors of a product of exponentials
                        for x, c in zip(t.args[0].args[1::2], t.args[0].args[2::2]):
                            if np.any(np.abs(self.ev(x, s) * float(c)) > 460):
                                self.extreme = True
            if self.noise is not None and t.sort == "R" and t.op in NOISY:
                r = np.asarray(r, self.dt)
                r = r * (1 + self.noise.uniform(-4e-16, 4e-16, r.shape))
                if t.op == "fn" and t.args[0] == "TW":  # a polynomial with terms of order one
                    r = r + self.noise.uniform(-2e-16, 2e-16, r.shape)
            s.cache[t] = r
        return r

    def bind(self, v, lo, n, sc):
        val = lo + np.arange(n).reshape((n,) + (1,) * sc.depth)
        return Scope(sc, v, val)

    def _range(self, t, sc):
        lo = np.asarray(self.ev(t.args[0], sc))
        hi = np.asarray(self.ev(t.args[1], sc))
        a, b = int(lo.min()), int(hi.max())
        l = t.args[2]
        bv = T.var("#%d" % l.args[0], "I")
        return lo, hi, a, max(b - a, 0), bv, l.args[1]

    def _ev(self, t, sc):
        o = t.op
        if o == "var":
            s = sc
            while s is not None:
                if s.var is t:
                    return s.val
                s = s.parent
            nm = t.args[0]
            if nm in self.scalars:
                v = self.scalars[nm]
                return self.dt(v) if t.sort == "R" else v
            raise Undef("unbound " + nm)
        ev = lambda x: self.ev(x, sc)
        with np.errstate(all="ignore"):
            if o == "add":
                r = ev(T.const(t.args[0], t.sort))
                mag = abs(r)
                for x, c in zip(t.args[1::2], t.args[2::2]):
                    v = ev(T.const(c, t.sort)) * ev(x)
                    r = r + v
                    if self.noise is not None and t.sort == "R":
                        mag = mag + np.abs(v)
                if self.noise is not None and t.sort == "R":
                    r = r + mag * self.noise.uniform(-2e-16, 2e-16, np.shape(r))
                return r
            if o == "mul":
                r = ev(T.const(t.args[0], t.sort))
                for x, e in zip(t.args[1::2], t.args[2::2]):
                    v = ev(x)
                    if t.sort == "R":
                        v = np.asarray(v, self.dt)
                        r = r * v ** int(e) if e >= 0 else r / v ** int(-e)
                    else:
                        r = r * v ** int(e)
                return r
            if o == "exp":
                return np.exp(np.asarray(ev(t.args[0]), self.dt))
            if o == "ln":
                return np.log(np.asarray(ev(t.args[0]), self.dt))
            if o == "sqrt":
                return np.sqrt(np.asarray(ev(t.args[0]), self.dt))
            if o == "i2r":
                return np.asarray(ev(t.args[0])).astype(self.dt)
            if o == "r2i":
                return np.trunc(np.asarray(ev(t.args[0]))).astype(int)
            if o == "idiv":
                return np.asarray(ev(t.args[0])) // np.asarray(ev(t.args[1]))
            if o == "ite":
                c = np.asarray(ev(t.args[0]))
                if c.all():
                    return ev(t.args[1])
                if not c.any():
                    return ev(t.args[2])
                return np.where(c, ev(t.args[1]), ev(t.args[2]))
            if o == "and":
                r = True
                for a in t.args:
                    r = np.logical_and(r, ev(a))
                return r
            if o == "or":
                r = False
                for a in t.args:
                    r = np.logical_or(r, ev(a))
                return r
            if o == "not":
                return np.logical_not(ev(t.args[0]))
            if o == "lt":
                return self.cmp(t.args[0], sc, np.less)
            if o == "le":
                return self.cmp(t.args[0], sc, np.less_equal)
            if o == "eq":
                return self.cmp(t.args[0], sc, np.equal)
            if o == "sel":
                a = self.arrays.get(t.args[0])
                if a is None:
                    raise Undef("unbound array " + str(t.args[0]))
                if len(t.args) == 1:
                    return a[()]
                idx = []
                ok = True
                for k, i in enumerate(t.args[1:]):
                    i = np.asarray(ev(i))
                    inb = np.logical_and(i >= 0, i < a.shape[k])
                    ok = np.logical_and(ok, inb)
                    idx.append(np.clip(i, 0, a.shape[k] - 1))
                idx = np.broadcast_arrays(*idx) if len(idx) > 1 else idx
                r = a[tuple(idx)]
                if not np.all(ok) and a.dtype.kind == "f":
                    r = np.where(ok, r, np.nan)
                return r
            if o in ("sum", "forall", "rmax"):
                lo, hi, a, n, bv, body = self._range(t, sc)
                if n == 0:
                    return {"sum": self.dt(0), "forall": True, "rmax": -np.inf}[o]
                s2 = self.bind(bv, a, n, sc)
                v = np.asarray(self.ev(body, s2))
                rng = s2.val
                mask = np.logical_and(rng >= lo, rng < hi)
                d = max(v.ndim, mask.ndim, s2.depth)
                v = v.reshape((1,) * (d - v.ndim) + v.shape) if v.ndim < d else v
                mask = mask.reshape((1,) * (d - mask.ndim) + mask.shape) if mask.ndim < d else mask
                # axis of the bound variable = position -(sc.depth+1)
                ax = d - (sc.depth + 1)
                v, mask = np.broadcast_arrays(v, mask)
                if v.shape[ax] != n:
                    sh = list(v.shape)
                    sh[ax] = n
                    v, mask = np.broadcast_to(v, sh), np.broadcast_to(mask, sh)
                if o == "sum":
                    return np.where(mask, v, self.dt(0)).sum(axis=ax)
                if o == "forall":
                    return np.logical_or(v, ~mask).all(axis=ax)
                return np.where(mask, v, -np.inf).max(axis=ax)
            if o == "interp":
                return self.interp(t, sc)
            if o == "fn":
                f = self.funcs.get(t.args[0])
                if f is None:
                    if t.args[0].startswith("round:"):
                        return np.asarray(ev(t.args[1])).astype(t.args[0][6:]).astype(self.dt)
                    raise Undef("no numeric meaning for " + t.args[0])
                return np.asarray(f(*[ev(a) for a in t.args[1:]]), np.int64 if t.sort == "I" else self.dt)
            if o == "lstsq":
                return self.lstsq(t, sc)
        raise Undef(o)

    def cmp(self, d, sc, op):
        """compare l and r of d = l - r separately, to avoid rounding of the difference"""
        if d.op == "add" and d.sort == "R":
            l = self.ev(T.const(d.args[0]), sc) if d.args[0] > 0 else self.dt(0)
            r = self.ev(T.const(-d.args[0]), sc) if d.args[0] < 0 else self.dt(0)
            for x, c in zip(d.args[1::2], d.args[2::2]):
                v = self.ev(T.const(abs(c)), sc) * self.ev(x, sc)
                if c > 0:
                    l = l + v
                else:
                    r = r + v
            return op(l, r)
        return op(self.ev(d, sc), 0)

    def interp(self, t, sc):
        x, n, xp, fp, L, R = t.args
        x = np.asarray(self.ev(x, sc), self.dt)
        n = int(np.asarray(self.ev(n, sc)).max())
        bx = T.var("#%d" % xp.args[0], "I")
        bf = T.var("#%d" % fp.args[0], "I")

        def tab(bv, body):
            s2 = self.bind(bv, 0, n, sc)
            v = np.asarray(self.ev(body, s2), self.dt)
            D = sc.depth + 1
            v = v.reshape((1,) * (D - v.ndim) + v.shape) if v.ndim < D else v
            return np.broadcast_to(v, (n,) + v.shape[1:]) if v.shape[0] != n else v

        X, F = tab(bx, xp.args[1]), tab(bf, fp.args[1])
        if n > 1 and np.any(np.abs(np.diff(X, axis=0)) < 1e-28):
            self.extreme = True  # jnp.interp treats such steps as zero
        L, R = np.asarray(self.ev(L, sc), self.dt), np.asarray(self.ev(R, sc), self.dt)
        # segment number
        if n == 1:
            r = F[0] + 0 * x
        else:
            k = (X <= x[None]).sum(axis=0) - 1 if x.ndim or X.ndim > 1 else int((X <= x).sum()) - 1
            k = np.clip(k, 0, n - 2)
            rr = np.zeros(np.broadcast(x, X[0], F[0]).shape, self.dt)
            k = np.broadcast_to(k, rr.shape)
            XX = np.broadcast_to(X, (n,) + rr.shape) if X.ndim <= 1 + len(rr.shape) else X
            FF = np.broadcast_to(F, (n,) + rr.shape)
            tk = lambda A, k: np.take_along_axis(A, k[None], axis=0)[0]
            x0, x1 = tk(XX, k), tk(XX, k + 1)
            f0, f1 = tk(FF, k), tk(FF, k + 1)
            r = f0 + (f1 - f0) * ((x - x0) / (x1 - x0))
        r = np.where(x < X[0], L, r)
        r = np.where(x > X[-1], R, r)
        return r

    def lstsq(self, t, sc):
        k, n, p, M, Y = t.args
        if sc.depth > 1:
            raise Undef("lstsq below binders")
        n = int(self.ev(n, sc)); p = int(self.ev(p, sc))
        A = np.zeros((n, p)); y = np.zeros(n)
        for i in range(n):
            y[i] = float(np.asarray(self.ev(T.open_(Y, T.const(i, "I")), self.root)))
            row = T.open_(M, T.const(i, "I"))
            for j in range(p):
                A[i, j] = float(np.asarray(self.ev(T.open_(row, T.const(j, "I")), self.root)))
        s = np.linalg.lstsq(A, y, rcond=None)[0]
        return self.dt(1) * s[np.asarray(self.ev(k, sc))]
