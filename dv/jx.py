"""Mechanical extraction: jaxpr (traced from the real functions of /repo on every
run, with symbolic array lengths) -> arrays of terms.

Every intermediate array is (shape, element function, well-definedness function).
Nothing is dropped from the traced program except (listed in DESIGN.md):
float64 arithmetic is read as real arithmetic; jnp.interp, jnp.linalg.lstsq and
jax.random.uniform are intercepted and represented by their assumed contracts."""
import sys
import itertools
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import TRUE, FALSE, I, and_, or_, not_, ite, eq, lt, le, forall

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Arr:
    __slots__ = ("shape", "dtype", "_at", "_wd", "_m", "_mw")

    def __init__(self, shape, dtype, at, wd=None):
        self.shape = tuple(T.I(s) for s in shape)
        self.dtype = np.dtype(dtype) if not isinstance(dtype, str) else dtype
        self._at, self._wd = at, wd
        self._m, self._mw = {}, {}

    def at(self, *idx):
        idx = tuple(T.I(i) for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        r = self._m.get(idx)
        if r is None:
            r = self._at(*idx)
            self._m[idx] = r
        return r

    def wd(self, *idx):
        if self._wd is None:
            return TRUE
        idx = tuple(T.I(i) for i in idx)
        r = self._mw.get(idx)
        if r is None:
            r = self._wd(*idx)
            self._mw[idx] = r
        return r

    @property
    def ndim(self):
        return len(self.shape)


def sort_of(dtype):
    if isinstance(dtype, str):
        return "R"
    k = np.dtype(dtype).kind
    return {"f": "R", "i": "I", "u": "I", "b": "B"}.get(k, "R")


# ---------------------------------------------------------------------------
# jax set-up
_patched = {}


def setup_jax(repo="/repo"):
    """import jax and patch the intercepted dependencies, before dsps is imported"""
    if _patched:
        return
    import os

    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    import jax

    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp
    from jax.extend.core import Primitive
    from jax.interpreters import batching
    from jax._src import core as jcore

    def is_sym(*xs):
        for x in xs:
            if x is None:
                continue
            if _patched.get("concrete") and isinstance(x, jcore.Tracer):
                return True             # a program traced for given lengths
            for d in np.shape(x):
                if not isinstance(d, int):
                    return True
        return False

    # --- interp ---
    interp_p = Primitive("dv_interp")

    def interp_abs(x, xp, fp, left, right, *, nb, has_left, has_right):
        return jcore.ShapedArray(x.shape, np.dtype("float64"))

    interp_p.def_abstract_eval(interp_abs)

    def _bcast_front(arg, bd, size):
        if bd is None:
            return jnp.broadcast_to(arg, (size,) + tuple(arg.shape))
        return jnp.moveaxis(arg, bd, 0)

    def _size(args, dims):
        for a, d in zip(args, dims):
            if d is not None:
                return a.shape[d]

    def interp_batch(args, dims, *, nb, has_left, has_right):
        size = _size(args, dims)
        args = [_bcast_front(a, d, size) for a, d in zip(args, dims)]
        return interp_p.bind(*args, nb=nb + 1, has_left=has_left, has_right=has_right), 0

    batching.primitive_batchers[interp_p] = interp_batch
    orig_interp = jnp.interp

    def interp(x, xp, fp, left=None, right=None, period=None):
        if period is None and is_sym(x, xp, fp):
            f = lambda a: jnp.asarray(a, dtype="float64")
            if isinstance(left, str) or isinstance(right, str):
                raise Unsupported("interp extrapolate")
            return interp_p.bind(
                f(x), f(xp), f(fp),
                f(0.0 if left is None else left), f(0.0 if right is None else right),
                nb=0, has_left=left is not None, has_right=right is not None)
        return orig_interp(x, xp, fp, left=left, right=right, period=period)

    jnp.interp = interp

    # --- insert: one place of a vector ---
    orig_insert = jnp.insert

    def insert(arr, obj, values, axis=None, **kw):
        if is_sym(arr) and isinstance(obj, (int, np.integer)) and np.ndim(arr) == 1 and axis in (None, 0, -1) and np.ndim(values) < 2:
            arr = jnp.asarray(arr)
            k = int(obj) if obj >= 0 else arr.shape[0] + int(obj)
            return jnp.concatenate((arr[:k], jnp.atleast_1d(jnp.asarray(values, dtype=arr.dtype)), arr[k:]))
        return orig_insert(arr, obj, values, axis=axis, **kw)

    jnp.insert = insert

    # --- lstsq ---
    lstsq_p = Primitive("dv_lstsq")

    def lstsq_abs(a, b, *, nb):
        return jcore.ShapedArray(a.shape[:nb] + (a.shape[-1],), np.dtype("float64"))

    lstsq_p.def_abstract_eval(lstsq_abs)

    def lstsq_batch(args, dims, *, nb):
        size = _size(args, dims)
        args = [_bcast_front(a, d, size) for a, d in zip(args, dims)]
        return lstsq_p.bind(*args, nb=nb + 1), 0

    batching.primitive_batchers[lstsq_p] = lstsq_batch
    orig_lstsq = jnp.linalg.lstsq

    def lstsq(a, b, rcond=None, **kw):
        if is_sym(a, b):
            if b.ndim != 1:
                raise Unsupported("lstsq with matrix rhs")
            x = lstsq_p.bind(a, b, nb=0)
            z = jnp.zeros(())
            return x, z, z, z
        return orig_lstsq(a, b, rcond=rcond, **kw)

    jnp.linalg.lstsq = lstsq

    # --- prefix sums written as an associative scan ---
    orig_ascan = jax.lax.associative_scan

    def plain_add(fn):
        try:
            j = jax.make_jaxpr(fn)(np.float64(1), np.float64(2)).jaxpr
            while len(j.eqns) == 1 and "jaxpr" in j.eqns[0].params and list(j.eqns[0].invars) == list(j.invars) and list(
                    j.outvars) == list(j.eqns[0].outvars):
                j = j.eqns[0].params["jaxpr"].jaxpr
            return len(j.eqns) == 1 and j.eqns[0].primitive.name == "add" and set(j.eqns[0].invars) == set(
                j.invars) and len(j.invars) == 2 and list(j.outvars) == list(j.eqns[0].outvars)
        except Exception:
            return False

    def associative_scan(fn, elems, reverse=False, axis=0):
        if _patched.get("tracing") and hasattr(elems, "shape") and is_sym(elems) and plain_add(fn):
            return jax.lax.cumsum(elems, axis=axis % np.ndim(elems), reverse=reverse)
        return orig_ascan(fn, elems, reverse=reverse, axis=axis)

    jax.lax.associative_scan = associative_scan

    # --- random numbers: U(key, shape, index) in [0, 1), split(key, i) ---
    unif_p = Primitive("dv_uniform")

    def unif_abs(key, lo, hi, *, shape):
        return jcore.ShapedArray(shape, np.dtype("float64"))

    unif_p.def_abstract_eval(unif_abs)
    orig_unif = jax.random.uniform
    split_p = Primitive("dv_split")
    split_p.def_abstract_eval(lambda key, *, num: jcore.ShapedArray((num, 2), np.dtype("uint32")))
    orig_split = jax.random.split

    def raw(key):
        if np.shape(key) != (2,):
            raise Unsupported("only a single raw PRNG key")
        return key

    def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0, **kw):
        if _patched.get("tracing"):
            if dtype not in (None, float, np.float64, jnp.float64, "float64"):
                raise Unsupported("uniform deviates of type %r" % (dtype,))
            f = lambda a: jnp.asarray(a, dtype="float64")
            return unif_p.bind(raw(key), f(minval), f(maxval), shape=tuple(shape))
        if dtype is not None:
            kw["dtype"] = dtype
        return orig_unif(key, shape, minval=minval, maxval=maxval, **kw)

    def split(key, num=2):
        if _patched.get("tracing"):
            return split_p.bind(raw(key), num=int(num))
        return orig_split(key, num)

    jax.random.uniform = uniform
    jax.random.split = split
    patch_lengths(repo)
    _patched["on"] = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import dsps  # noqa

    assert os.path.realpath(dsps.__file__).startswith(os.path.realpath(repo)), dsps.__file__


_scopes = {}


def symdims(names, constraints=()):
    from jax import export

    if not names:
        return {}
    ds = export.symbolic_shape(",".join(names), constraints=tuple(constraints))
    return dict(zip(names, ds))


def dim2term(d, env=None):
    """jax dimension expression -> Int term"""
    if isinstance(d, T.Term):
        return d
    if isinstance(d, (int, np.integer)):
        return T.const(int(d), "I")
    tot = T.const(0, "I")
    for t, k in d._sorted_terms:
        p = T.const(int(k), "I")
        for f, e in t._factors:
            if f.var is not None:
                v = T.var("dim:" + f.var, "I")
            else:
                ops = [dim2term(o) for o in f.operands]
                if f.operation == "floordiv":
                    v = T.idiv(*ops)
                elif f.operation == "mod":
                    v = ops[0] - ops[1] * T.idiv(*ops)
                elif f.operation == "max":
                    v = T.imax(*ops)
                elif f.operation == "min":
                    v = T.imin(*ops)
                else:
                    raise Unsupported("dim op " + str(f.operation))
            p = T.mul(p, T.ipow(v, e))
        tot = T.add(tot, p)
    return tot


class Forks:
    """branches of the program on array lengths that the constraints on the lengths leave
    open.  A trace follows one path (list of choices; True where it is exhausted); the
    conditions met are recorded, and every path is traced and proved (contract.py)"""

    def __init__(self):
        self.start([], None)

    def start(self, path, ctx):
        self.path, self.ctx, self.taken, self.facts = list(path), ctx, [], []

    def decide(self, cond):
        from . import prover as P
        ctx = self.ctx.assume(*self.facts) if self.facts else self.ctx
        r = ctx.decide(cond)
        if r is None:
            k = len(self.taken)
            r = self.path[k] if k < len(self.path) else True
            self.taken.append((cond, r))
            self.facts.append(cond if r else not_(cond))
        return r


FORKS = Forks()


def _from_repo(repo):
    """is the comparison of lengths asked by the code under verification (not by jax)?"""
    f = sys._getframe(2)
    while f is not None and (f.f_code.co_filename == __file__ or f.f_code.co_name in ("__ge__", "__gt__", "__le__", "__lt__")
                             and f.f_code.co_filename.endswith("shape_poly.py")):
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(repo)


def patch_lengths(repo):
    import os
    from jax._src.export import shape_poly as sp

    repo = os.path.join(os.path.realpath(repo), "")
    D = sp._DimExpr
    geq, deq = sp._geq_decision, D.__eq__
    def active():
        return _patched.get("tracing") and FORKS.ctx is not None

    def geq2(e1, e2, cmp_str):
        try:
            return geq(e1, e2, cmp_str)
        except sp.InconclusiveDimensionOperation:
            if active() and _from_repo(repo):
                return FORKS.decide(le(dim2term(e2), dim2term(e1)))
            raise

    def eq2(self, other):
        r = deq(self, other)
        if r or not active() or not (isinstance(other, (D, int, np.integer)) and not isinstance(other, bool)):
            return r
        if not _from_repo(repo):
            return r
        if isinstance(other, D) and other.scope is not self.scope:
            return r
        return FORKS.decide(eq(dim2term(self), dim2term(other)))

    def ne2(self, other):
        return not eq2(self, other)

    def bool2(self):
        if active() and _from_repo(repo):
            return not FORKS.decide(eq(dim2term(self), I(0)))
        return True

    # x[n - 1] on an axis of length n: the index is that many from the end
    from jax._src.numpy import array_methods as am

    def from_end(arr, idx):
        many = isinstance(idx, tuple)
        ix = idx if many else (idx,)
        if not _patched.get("tracing") or not any(isinstance(i, D) for i in ix) or any(
                not isinstance(i, (D, int, np.integer, slice)) for i in ix) or len(ix) > len(np.shape(arr)):
            return idx
        out = []
        for i, n in zip(ix, np.shape(arr)):
            if isinstance(i, D):
                k = i - n
                if isinstance(k, int) and k < 0:
                    i = k
            out.append(i)
        return tuple(out) if many else out[0]

    take, upd = am.indexing.rewriting_take, am._IndexUpdateHelper.__getitem__
    am.indexing.rewriting_take = lambda arr, idx, *a, **kw: take(arr, from_end(arr, idx), *a, **kw)
    am._IndexUpdateHelper.__getitem__ = lambda self, idx: upd(self, from_end(self.array, idx))
    sp._geq_decision = geq2
    D.__eq__, D.__ne__, D.__bool__ = eq2, ne2, bool2


def trace(f, *args):
    import jax

    import sys

    _patched["tracing"] = True
    # len() of an array with a symbolic first dimension is that dimension (Python insists on an int)
    mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "dsps" and m is not None and "len" not in m.__dict__]
    for m in mods:
        m.__dict__["len"] = sym_len
    try:
        jax.clear_caches()
        return jax.make_jaxpr(f)(*args)
    finally:
        for m in mods:
            m.__dict__.pop("len", None)
        _patched["tracing"] = False
        jax.clear_caches()


def map_body(eqn, nconst):
    """the body of a scan without carried values as a program on batches, or None"""
    import jax

    p = eqn.params
    body = jax.extend.core.jaxpr_as_fun(p["jaxpr"])
    axes = [None] * nconst + [0] * (len(eqn.invars) - nconst)
    try:
        return trace(jax.vmap(body, in_axes=axes, axis_size=p["length"]), *[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars])
    except Exception:
        return None


def sym_len(x):
    sh = getattr(x, "shape", None)
    if sh and not isinstance(sh[0], int):
        return sh[0]
    return len(x)


# ---------------------------------------------------------------------------
def lit(val, dtype):
    s = sort_of(dtype)
    if s == "R":
        v = float(val)
        if v != v:
            return T.var("nan!")
        if v in (np.inf, -np.inf):
            return T.var("inf!") if v > 0 else T.neg_(T.var("inf!"))
        return T.lift(v, "R")
    if s == "I":
        return T.const(int(val), "I")
    return TRUE if bool(val) else FALSE


def nonfinite(t):
    """NaN and infinities are not real numbers: a value that depends on one is not well defined,
    except that a (finite) number can be compared with an infinity"""
    return t.op == "var" and t.args[0] in ("nan!", "inf!") or t is T.neg_(T.var("inf!"))


def infinity(t):
    return 1 if t is T.var("inf!") else -1 if t is T.neg_(T.var("inf!")) else 0


def progression(v):
    """a literal table that is a grid of equal steps (linspace, arange) or equal ratios (logspace), to the
    precision of a literal: element function, else None"""
    n = v.shape[0]
    if n < 5 or v.dtype.kind not in "fiu":
        return None
    i = np.arange(n)
    if v.dtype.kind != "f":
        d = int(v[1]) - int(v[0])
        return (lambda k: I(int(v[0])) + I(d) * k) if all(int(v[j]) == int(v[0]) + j * d for j in range(n)) else None
    eps = {8: 4e-15, 4: 1e-30}.get(v.dtype.itemsize, 0)
    a, b = float(v[0]), float(v[-1])
    if np.all(np.abs(v - (a + (b - a) * i / (n - 1))) <= eps * np.max(np.abs(v))):
        a, b = lit(a, v.dtype), lit(b, v.dtype)
        return lambda k: a + T.i2r(k) * (b - a) / (n - 1)
    if np.all(v > 0) or np.all(v < 0):
        la, lb = np.log10(abs(a)), np.log10(abs(b))
        if np.all(np.abs(np.abs(v) / 10 ** (la + (lb - la) * i / (n - 1)) - 1) <= 4 * eps * (1 + max(abs(la), abs(lb)))):
            ta, tb = lit(la, v.dtype), lit(lb, v.dtype)
            s = 1 if a > 0 else -1
            return lambda k: T.scale(s, T.pow10(ta + T.i2r(k) * (tb - ta) / (n - 1)))
    return None


def const_arr(v):
    v = np.asarray(v)
    if v.dtype.kind == "f" and not np.all(np.isfinite(v)):
        raise Unsupported("non-finite literal array")
    flat = {}
    law = progression(v) if v.ndim == 1 else None
    if law is not None:
        return Arr(v.shape, v.dtype, lambda i: law(i))

    def at(*idx):
        if all(T.is_const(i) for i in idx):
            k = tuple(T.cval(i) for i in idx)
            if all(0 <= a < b for a, b in zip(k, v.shape)):
                return lit(v[k], v.dtype)
        # symbolic index into a literal table: nested ite (last value for out of range)
        if v.size > 4096:
            raise Unsupported("large literal array")
        if v.ndim == 1:
            r = lit(v[-1], v.dtype)
            for k in range(v.shape[0] - 2, -1, -1):
                r = ite(eq(idx[0], I(k)), lit(v[k], v.dtype), r)
            return r

        def go(pre, rest):
            if not rest:
                return lit(v[pre], v.dtype)
            n = v.shape[len(pre)]
            if T.is_const(rest[0]) and 0 <= T.cval(rest[0]) < n:
                return go(pre + (T.cval(rest[0]),), rest[1:])
            r = go(pre + (n - 1,), rest[1:])
            for k in range(n - 2, -1, -1):
                r = ite(eq(rest[0], I(k)), go(pre + (k,), rest[1:]), r)
            return r

        return go((), idx)

    return Arr(v.shape, v.dtype, at)


def zero_of(dtype):
    return lit(0, dtype)


# callee contracts used as summaries: name -> (number of arguments, specification,
# summary term); see contracts/folds.py
FOLDS = {}
FOLD_CACHE = {}


def det(m):
    """determinant (Laplace expansion)"""
    if len(m) == 1:
        return m[0][0]
    r = T.const(0)
    for k in range(len(m)):
        sub = [[row[c] for c in range(len(m)) if c != k] for row in m[1:]]
        r = T.add(r, T.scale((-1) ** k, T.mul(m[0][k], det(sub))))
    return r


class Interp:
    def __init__(self):
        self.notes = []          # unsupported primitives met (made opaque)
        self.loops = []          # inferred loop invariants
        self.narrow = []         # float narrowing conversions
        self.dtypes = set()
        self.prims = {}
        self.funcs = {}          # (name, source) of nested functions met
        self.neqn = 0
        self.folds = {}
        self.fold_ok = True
        self.matcher = None
        self._k = itertools.count()

    # -- main ----------------------------------------------------------------
    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if type(v).__name__ == "Literal":
                if np.ndim(v.val):
                    return const_arr(np.asarray(v.val, v.aval.dtype))
                t = lit(v.val, v.aval.dtype)
                return Arr((), v.aval.dtype, lambda: t, lambda: FALSE if nonfinite(t) else TRUE)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if isinstance(c, Arr) else const_arr(c)
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            self.neqn += 1
            nm = eqn.primitive.name
            self.prims[nm] = self.prims.get(nm, 0) + 1
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if self.matcher is not None:
                outs = [self.matcher(o) if isinstance(o, Arr) else o for o in outs]
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
                d = getattr(v.aval, "dtype", None)
                if d is not None and str(d).startswith("float"):
                    self.dtypes.add(str(d))
        return [read(v) for v in jaxpr.outvars]

    def run_closed(self, cj, args):
        return self.run(cj.jaxpr, cj.consts, args)

    def eqn(self, eqn, ins):
        nm = eqn.primitive.name
        h = getattr(self, "p_" + nm.replace("-", "_"), None)
        try:
            if h is not None:
                return h(eqn, ins)
            if nm in ELEM:
                return self.elementwise(eqn, ins, ELEM[nm])
        except Unsupported as ex:
            self.notes.append("%s: %s" % (nm, ex))
            return self.opaque(eqn, ins)
        self.notes.append(nm)
        return self.opaque(eqn, ins)

    def fold(self, cj, ins, nargs, explicit, summary):
        """replace a call by the contract of the callee, after proving the contract
        for the very sub-program that is called"""
        from . import prover as P

        inner = cj.jaxpr if hasattr(cj, "consts") else cj
        if len(ins) != nargs or len(inner.outvars) != 1:
            return None
        key = (id(inner),)
        pre = "fold%d." % nargs
        c = FOLD_CACHE.get(key)
        if c is None:
            sub = Interp()
            sub.fold_ok = False
            fresh = [Arr(a.shape, a.dtype, lambda *i, k=k: T.sel(pre + str(k), i)) for k, a in enumerate(ins)]
            out = sub._call(cj, fresh)[0]
            idx = [T.fresh("f") for _ in out.shape]
            t = out.at(*idx)
            sels = {}
            for s in P.atoms_of([t], ("sel",)):
                if s.args[0].startswith(pre):
                    sels.setdefault(int(s.args[0][len(pre):]), []).append(s)
            ok = not sub.notes and not sub.loops and not sub.narrow and all(len(sels.get(k, ())) == 1 for k in range(nargs))
            if ok:
                args = [sels[k][0] for k in range(nargs)]
                ctx = P.Ctx([and_(le(I(0), i), lt(i, n)) for i, n in zip(idx, out.shape)])
                try:
                    ok = bool(P.prove_eq(t, explicit(*args), ctx))
                except P.GiveUp:
                    ok = False
            c = (ok, idx, args if ok else None, inner)
            FOLD_CACHE[key] = c
        ok, idx, args, _ = c
        if not ok:
            return None
        real = self.run(inner, cj.consts if hasattr(cj, "consts") else [], ins)[0]

        def at(*i):
            m = dict(zip(idx, i))
            vals = [a.at(*[T.subst(x, m) for x in s.args[1:]]) for a, s in zip(ins, args)]
            return summary(*vals)

        return [Arr(real.shape, real.dtype, at, real.wd)]

    def opaque(self, eqn, ins):
        k = next(self._k)
        outs = []
        for j, v in enumerate(eqn.outvars):
            d = getattr(v.aval, "dtype", None)
            s = "R"
            try:
                s = sort_of(d)
            except Exception:
                pass
            name = "opaque:%s.%d.%d" % (eqn.primitive.name, k, j)
            shape = [dim2term(x) for x in getattr(v.aval, "shape", ())]
            if s == "B":
                at = lambda *idx, name=name: T._mk("sel", (name,) + idx, "B")
            else:
                at = lambda *idx, name=name, s=s: T.sel(name, idx, s)
            outs.append(Arr(shape, d if not str(d).startswith("key") else "key", at))
        return outs

    def oshape(self, eqn, k=0):
        return [dim2term(d) for d in eqn.outvars[k].aval.shape]

    def elementwise(self, eqn, ins, f):
        sh = self.oshape(eqn)
        dt = eqn.outvars[0].aval.dtype
        ranks = [a.ndim for a in ins]
        n = len(sh)

        def pick(a, idx):
            return idx if a.ndim == n else ()

        assert all(r in (0, n) for r in ranks), (eqn.primitive.name, ranks)

        def at(*idx):
            return f(eqn.params, *[a.at(*pick(a, idx)) for a in ins])[0]

        def wd(*idx):
            vals = [a.at(*pick(a, idx)) for a in ins]
            w = f(eqn.params, *vals)[1]
            return and_(w, *[a.wd(*pick(a, idx)) for a in ins])

        return [Arr(sh, dt, at, wd)]

    # -- calls -----------------------------------------------------------------
    def _call(self, cj, ins, name=None):
        if name:
            try:
                src = cj.jaxpr.debug_info.func_src_info
            except Exception:
                src = ""
            self.funcs[(name, src)] = self.funcs.get((name, src), 0) + 1
            if name in FOLDS and self.fold_ok:
                r = self.fold(cj, ins, *FOLDS[name])
                if r is not None:
                    self.folds[name] = self.folds.get(name, 0) + 1
                    return r
        if hasattr(cj, "consts"):
            return self.run(cj.jaxpr, cj.consts, ins)
        return self.run(cj, [], ins)

    def p_jit(self, eqn, ins):
        return self._call(eqn.params["jaxpr"], ins, eqn.params.get("name"))

    p_pjit = p_jit

    def p_closed_call(self, eqn, ins):
        return self._call(eqn.params["call_jaxpr"], ins)

    p_core_call = p_closed_call
    p_remat = lambda self, eqn, ins: self._call(eqn.params["jaxpr"], ins)
    p_checkpoint = p_remat
    p_remat2 = p_remat

    # -- primitives of recent JAX versions -------------------------------------
    def p_stack(self, eqn, ins):
        ax = eqn.params["axis"]

        def walk(idx, get):
            rest = idx[:ax] + idx[ax + 1:]
            r = get(ins[-1], rest)
            for k in range(len(ins) - 2, -1, -1):
                c = eq(idx[ax], I(k))
                r = get(ins[k], rest) if c is TRUE else r if c is FALSE else ite(c, get(ins[k], rest), r)
            return r
        return [Arr(self.oshape(eqn), ins[0].dtype, lambda *i: walk(i, lambda a, ii: a.at(*ii)),
                    lambda *i: walk(i, lambda a, ii: a.wd(*ii)))]

    def p_tile(self, eqn, ins):
        a = ins[0]
        reps = eqn.params["reps"]
        if len(reps) != a.ndim:
            raise Unsupported("tile of a different rank")

        def src(idx):
            return [i if r == 1 else i - a.shape[d] * T.idiv(i, a.shape[d]) for d, (i, r) in enumerate(zip(idx, reps))]
        return [Arr(self.oshape(eqn), a.dtype, lambda *i: a.at(*src(i)), lambda *i: a.wd(*src(i)))]

    def p_polynomial(self, eqn, ins):
        """polynomial x c0 c1 ... = c0 + x (c1 + x (...))"""
        x, cs = ins[0], ins[1:]
        if any(c.ndim not in (0, x.ndim) for c in cs):
            raise Unsupported("polynomial with array coefficients")
        pick = lambda c, i: i if c.ndim else ()

        def at(*i):
            r = T.R(0)
            for c in reversed(cs):
                r = T.add(T.mul(r, x.at(*i)), c.at(*pick(c, i)))
            return r
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at,
                    lambda *i: and_(x.wd(*i), *[c.wd(*pick(c, i)) for c in cs]))]

    def p_argmax(self, eqn, ins):
        """first position of the maximum along an axis of known length"""
        a, axes = ins[0], eqn.params["axes"]
        if len(axes) != 1 or not T.is_const(a.shape[axes[0]]) or T.cval(a.shape[axes[0]]) > 16:
            raise Unsupported("argmax over a symbolic axis")
        ax, n = axes[0], T.cval(a.shape[axes[0]])

        def at(*idx):
            v = [a.at(*(idx[:ax] + (I(k),) + idx[ax:])) for k in range(n)]
            if v[0].sort == "B":
                r = I(0)
                for k in range(n - 1, -1, -1):
                    r = ite(v[k], I(k), r)
                return r
            r = I(n - 1)
            for k in range(n - 2, -1, -1):
                # k is the first maximum of those from k on
                r = ite(and_(*[le(v[j], v[k]) for j in range(k + 1, n)]), I(k), r)
            return r
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at,
                    lambda *idx: and_(*[a.wd(*(idx[:ax] + (I(k),) + idx[ax:])) for k in range(n)]))]

    def p_reduce_prod(self, eqn, ins):
        a, axes = ins[0], eqn.params["axes"]
        if any(not T.is_const(a.shape[d]) for d in axes) or np.prod([T.cval(a.shape[d]) for d in axes]) > 32:
            raise Unsupported("product over a symbolic axis")

        def full(idx):
            out = []
            for cs in itertools.product(*[range(T.cval(a.shape[d])) for d in axes]):
                it = iter(idx)
                m = dict(zip(axes, cs))
                out.append(tuple(I(m[d]) if d in m else next(it) for d in range(a.ndim)))
            return out
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, lambda *i: T.mul(T.R(1), *[a.at(*j) for j in full(i)]),
                    lambda *i: and_(*[a.wd(*j) for j in full(i)]))]

    def p_cumprod(self, eqn, ins):
        a, ax, rev = ins[0], eqn.params["axis"], eqn.params["reverse"]
        if not T.is_const(a.shape[ax]) or T.cval(a.shape[ax]) > 16:
            raise Unsupported("cumulative product over a symbolic axis")
        n = T.cval(a.shape[ax])

        def sel(idx, get, comb):
            pre, acc = [], None
            for k in (range(n - 1, -1, -1) if rev else range(n)):
                v = get(*(idx[:ax] + (I(k),) + idx[ax + 1:]))
                acc = v if acc is None else comb(acc, v)
                pre.append((k, acc))
            r = pre[-1][1]
            for k, v in reversed(pre[:-1]):
                r = ite(eq(idx[ax], I(k)), v, r)
            return r
        return [Arr(self.oshape(eqn), a.dtype, lambda *i: sel(i, a.at, T.mul), lambda *i: sel(i, a.wd, and_))]

    def p_custom_jvp_call(self, eqn, ins):
        return self._call(eqn.params["call_jaxpr"], ins)

    def p_custom_vjp_call(self, eqn, ins):
        p = eqn.params
        return self._call(p.get("call_jaxpr") or p.get("fun_jaxpr"), ins)

    p_custom_vjp_call_jaxpr = p_custom_vjp_call

    # -- select / conversions --------------------------------------------------
    def p_select_n(self, eqn, ins):
        w, cases = ins[0], ins[1:]
        sh = self.oshape(eqn)
        wi = (lambda idx: idx) if w.ndim == len(sh) else (lambda idx: ())

        def choose(sel, vals):
            if sel.sort == "B":
                return ite(sel, vals[1], vals[0])
            if T.is_const(sel):
                return vals[min(max(T.cval(sel), 0), len(vals) - 1)]
            if sel.op == "ite":
                return ite(sel.args[0], choose(sel.args[1], vals), choose(sel.args[2], vals))
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = ite(eq(sel, I(k)), vals[k], r)
            return r

        def at(*idx):
            s = w.at(*wi(idx))
            if s is TRUE:
                return cases[1].at(*idx)
            if s is FALSE:
                return cases[0].at(*idx)
            return choose(s, [c.at(*idx) for c in cases])

        def wd(*idx):
            s = w.at(*wi(idx))
            ws = w.wd(*wi(idx))
            if s is TRUE:
                return and_(ws, cases[1].wd(*idx))
            if s is FALSE:
                return and_(ws, cases[0].wd(*idx))
            return and_(ws, choose(s, [c.wd(*idx) for c in cases]))

        return [Arr(sh, eqn.outvars[0].aval.dtype, at, wd)]

    def p_convert_element_type(self, eqn, ins):
        a = ins[0]
        new = np.dtype(eqn.params["new_dtype"])
        old = a.dtype
        so, sn = sort_of(old), sort_of(new)
        if so == sn:
            if so == "R" and new.itemsize < np.dtype(old).itemsize:
                self.narrow.append("%s->%s" % (old, new))
                return [Arr(a.shape, new, lambda *i: T.fn("round:" + str(new), a.at(*i)), a.wd)]
            return [Arr(a.shape, new, a.at, a.wd)]
        if sn == "R":
            if new.itemsize < 8:
                self.narrow.append("%s->%s" % (old, new))
            return [Arr(a.shape, new, lambda *i: T.lift(a.at(*i), "R"), a.wd)]
        if so == "B" and sn == "I":
            return [Arr(a.shape, new, lambda *i: ite(a.at(*i), I(1), I(0)), a.wd)]
        if so == "I" and sn == "B":
            return [Arr(a.shape, new, lambda *i: T.ne(a.at(*i), I(0)), a.wd)]
        if so == "R" and sn == "B":
            return [Arr(a.shape, new, lambda *i: T.ne(a.at(*i), T.R(0)), a.wd)]
        raise Unsupported("convert %s->%s" % (old, new))

    def ident(self, eqn, ins):
        return [ins[0]]

    p_stop_gradient = p_copy = p_copy_p = p_optimization_barrier = p_reduce_precision = p_device_put = (
        lambda self, eqn, ins: list(ins))
    p_sharding_constraint = p_copy

    # -- shape ops ---------------------------------------------------------------
    def p_broadcast_in_dim(self, eqn, ins):
        a = ins[0]
        sh = self.oshape(eqn)
        bd = eqn.params["broadcast_dimensions"]

        def m(idx):
            out = []
            for k, d in enumerate(bd):
                s = a.shape[k]
                if T.is_const(s) and T.cval(s) == 1 and not (T.is_const(sh[d]) and T.cval(sh[d]) == 1):
                    out.append(I(0))
                else:
                    out.append(idx[d])
            return out

        return [Arr(sh, a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

    def p_squeeze(self, eqn, ins):
        a = ins[0]
        dims = [d % a.ndim for d in eqn.params["dimensions"]]

        def m(idx):
            it = iter(idx)
            return [I(0) if k in dims else next(it) for k in range(a.ndim)]

        return [Arr(self.oshape(eqn), a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

    def p_expand_dims(self, eqn, ins):
        a = ins[0]
        dims = eqn.params["dimensions"]
        m = lambda idx: [x for k, x in enumerate(idx) if k not in dims]
        return [Arr(self.oshape(eqn), a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

    def p_reshape(self, eqn, ins):
        a = ins[0]
        new = self.oshape(eqn)
        one = lambda s: T.is_const(s) and T.cval(s) == 1
        old = list(a.shape)
        # match ignoring unit dims; else constant row-major fallback
        o2 = [k for k, s in enumerate(old) if not one(s)]
        n2 = [k for k, s in enumerate(new) if not one(s)]
        if len(o2) == len(n2) and all(old[x] is new[y] for x, y in zip(o2, n2)):
            mp = dict(zip(o2, n2))

            def m(idx):
                return [idx[mp[k]] if k in mp else I(0) for k in range(len(old))]

            return [Arr(new, a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

        # general: row-major, where equal leading and trailing dims keep their index and what is
        # between them is flattened (the first index of the rest needs no remainder)
        lead = 0
        while lead < min(len(o2), len(n2)) and old[o2[lead]] is new[n2[lead]]:
            lead += 1
        tail = 0
        while tail < min(len(o2), len(n2)) - lead and old[o2[-1 - tail]] is new[n2[-1 - tail]]:
            tail += 1
        om, nm_ = o2[lead:len(o2) - tail], n2[lead:len(n2) - tail]

        def m(idx):
            out = [I(0)] * len(old)
            for x, y in list(zip(o2[:lead], n2[:lead])) + (list(zip(o2[-tail:], n2[-tail:])) if tail else []):
                out[x] = idx[y]
            lin = I(0)
            for y in nm_:
                lin = lin * new[y] + idx[y]
            for x in reversed(om[1:]):
                q = T.idiv(lin, old[x])
                out[x], lin = lin - old[x] * q, q
            if om:
                out[om[0]] = lin
            return out

        def m_split(idx):
            # splitting (a*b) -> (a,b) is a pure linear map when old has one non unit dim
            lin = I(0)
            for s, x in zip(new, idx):
                lin = lin * s + x
            out = [I(0)] * len(old)
            out[o2[0]] = lin
            return out

        if len(o2) == 1:
            m = m_split
        return [Arr(new, a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

    def p_transpose(self, eqn, ins):
        a = ins[0]
        p = eqn.params["permutation"]

        def m(idx):
            out = [None] * len(p)
            for k, d in enumerate(p):
                out[d] = idx[k]
            return out

        return [Arr(self.oshape(eqn), a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

    def p_rev(self, eqn, ins):
        a = ins[0]
        dims = eqn.params["dimensions"]
        m = lambda idx: [a.shape[k] - 1 - x if k in dims else x for k, x in enumerate(idx)]
        return [Arr(a.shape, a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

    def p_slice(self, eqn, ins):
        a = ins[0]
        st = [dim2term(x) for x in eqn.params["start_indices"]]
        sd = eqn.params["strides"] or [1] * a.ndim
        sd = [dim2term(x) for x in sd]
        m = lambda idx: [s + x * k for s, x, k in zip(st, idx, sd)]
        return [Arr(self.oshape(eqn), a.dtype, lambda *i: a.at(*m(i)), lambda *i: a.wd(*m(i)))]

    def p_concatenate(self, eqn, ins):
        d = eqn.params["dimension"]

        def walk(idx, get, n=0):
            off = idx[d]
            # nested ite on thresholds
            def go(k, off):
                a = ins[k]
                ii = idx[:d] + (off,) + idx[d + 1:]
                if k == len(ins) - 1:
                    return get(a, ii)
                c = lt(off, a.shape[d])
                if c is TRUE:
                    return get(a, ii)
                if c is FALSE:
                    return go(k + 1, off - a.shape[d])
                return ite(c, get(a, ii), go(k + 1, off - a.shape[d]))

            return go(0, off)

        return [Arr(self.oshape(eqn), ins[0].dtype,
                    lambda *i: walk(i, lambda a, ii: a.at(*ii)),
                    lambda *i: walk(i, lambda a, ii: a.wd(*ii)))]

    def p_pad(self, eqn, ins):
        a, pv = ins
        cfg = eqn.params["padding_config"]
        for lo, hi, it in cfg:
            if it != 0:
                raise Unsupported("interior pad")
        lo = [dim2term(c[0]) for c in cfg]

        def split(idx):
            ii = [x - l for x, l in zip(idx, lo)]
            c = and_(*[and_(le(I(0), x), lt(x, s)) for x, s in zip(ii, a.shape)])
            return c, ii

        def at(*idx):
            c, ii = split(idx)
            return ite(c, a.at(*ii), pv.at())

        def wd(*idx):
            c, ii = split(idx)
            return and_(ite(c, a.wd(*ii), pv.wd()))

        return [Arr(self.oshape(eqn), a.dtype, at, wd)]

    def p_split(self, eqn, ins):
        a = ins[0]
        ax = eqn.params["axis"]
        outs, off = [], I(0)
        for k, s in enumerate(eqn.params["sizes"]):
            o = off

            def m(idx, o=o):
                return [x + o if j == ax else x for j, x in enumerate(idx)]

            outs.append(Arr(self.oshape(eqn, k), a.dtype, lambda *i, m=m: a.at(*m(i)), lambda *i, m=m: a.wd(*m(i))))
            off = off + dim2term(s)
        return outs

    def p_unstack(self, eqn, ins):
        a = ins[0]
        ax = eqn.params.get("axis", 0)
        outs = []
        for k in range(len(eqn.outvars)):
            def m(idx, k=k):
                idx = list(idx)
                return idx[:ax] + [I(k)] + idx[ax:]

            outs.append(Arr(self.oshape(eqn, k), a.dtype, lambda *i, m=m: a.at(*m(i)), lambda *i, m=m: a.wd(*m(i))))
        return outs

    def p_iota(self, eqn, ins):
        d = eqn.params["dimension"]
        dt = eqn.params["dtype"]
        sh = self.oshape(eqn)
        s = sort_of(dt)
        return [Arr(sh, dt, lambda *i: T.lift(i[d], s) if s == "I" else T.i2r(i[d]))]

    def p_dim_as_value(self, eqn, ins):
        t = dim2term(eqn.params["dim"])
        return [Arr((), eqn.outvars[0].aval.dtype, lambda: t)]

    # -- indexing ----------------------------------------------------------------
    @staticmethod
    def _clamp(x, hi):
        c1 = lt(x, I(0))
        if c1 is TRUE:
            return I(0)
        c2 = le(x, hi)
        r = ite(c2, x, hi)
        return ite(c1, I(0), r)

    def p_dynamic_slice(self, eqn, ins):
        a, st = ins[0], ins[1:]
        sz = [dim2term(s) for s in eqn.params["slice_sizes"]]

        def m(idx):
            return [x + self._clamp(s.at(), d - z) for x, s, d, z in zip(idx, st, a.shape, sz)]

        return [Arr(sz, a.dtype, lambda *i: a.at(*m(i)),
                    lambda *i: and_(a.wd(*m(i)), *[s.wd() for s in st]))]

    def p_dynamic_update_slice(self, eqn, ins):
        a, u, st = ins[0], ins[1], ins[2:]

        def split(idx):
            s0 = [self._clamp(s.at(), d - z) for s, d, z in zip(st, a.shape, u.shape)]
            ii = [x - s for x, s in zip(idx, s0)]
            c = and_(*[and_(le(I(0), x), lt(x, z)) for x, z in zip(ii, u.shape)])
            return c, ii

        def at(*idx):
            c, ii = split(idx)
            return ite(c, u.at(*ii), a.at(*idx))

        def wd(*idx):
            c, ii = split(idx)
            return and_(*[s.wd() for s in st], ite(c, u.wd(*ii), a.wd(*idx)))

        return [Arr(a.shape, a.dtype, at, wd)]

    def p_gather(self, eqn, ins):
        a, ix = ins
        p = eqn.params
        dn = p["dimension_numbers"]
        sz = [dim2term(s) for s in p["slice_sizes"]]
        mode = str(p["mode"])
        sh = self.oshape(eqn)
        off = list(dn.offset_dims)
        coll = set(dn.collapsed_slice_dims)
        obd = list(dn.operand_batching_dims)
        sbd = list(dn.start_indices_batching_dims)
        sim = list(dn.start_index_map)
        batch = [k for k in range(len(sh)) if k not in off]
        window = [k for k in range(a.ndim) if k not in coll and k not in obd]

        def m(idx):
            bi = [idx[k] for k in batch]  # batch coordinates of start_indices (minus last)
            full = [I(0)] * a.ndim
            inb = []
            for k, d in enumerate(sim):
                s = ix.at(*bi, I(k))
                hi = a.shape[d] - sz[d]
                ok = and_(le(I(0), s), le(s, hi))
                if "CLIP" in mode.upper():
                    s = self._clamp(s, hi)
                else:
                    inb.append(ok)
                full[d] = s
            for d, b in zip(obd, sbd):
                full[d] = bi[b]
            for w, o in zip(window, off):
                full[w] = full[w] + idx[o]
            wdi = [ix.wd(*bi, I(k)) for k in range(len(sim))]
            return full, and_(*inb, *wdi)

        def at(*idx):
            return a.at(*m(idx)[0])

        def wd(*idx):
            f, c = m(idx)
            return and_(c, a.wd(*f))

        return [Arr(sh, a.dtype, at, wd)]

    def _scatter(self, eqn, ins, addmode):
        a, ix, u = ins
        p = eqn.params
        dn = p["dimension_numbers"]
        uwd = list(dn.update_window_dims)
        iwd = list(dn.inserted_window_dims)
        obd = list(dn.operand_batching_dims)
        sbd = list(dn.scatter_indices_batching_dims)
        s2o = list(dn.scatter_dims_to_operand_dims)
        ubatch = [k for k in range(u.ndim) if k not in uwd]
        # number of batch dims in indices (all but last)
        nb = ix.ndim - 1
        extra = [b for b in range(nb) if b not in sbd]
        for b in extra:
            if not (T.is_const(ix.shape[b]) and T.cval(ix.shape[b]) == 1):
                raise Unsupported("scatter with several index vectors")
        window = [k for k in range(a.ndim) if k not in iwd and k not in obd]

        def split(idx):
            bi = [I(0)] * nb
            for d, b in zip(obd, sbd):
                bi[b] = idx[d]
            start = [I(0)] * a.ndim
            for k, d in enumerate(s2o):
                start[d] = ix.at(*bi, I(k))
            wsz = {d: u.shape[uwd[j]] for j, d in enumerate(window)}
            conds, inb = [], []
            ui = [None] * u.ndim
            for k, b in zip(ubatch, range(nb)):
                ui[k] = bi[b]
            for j, d in enumerate(window):
                rel = idx[d] - start[d]
                ui[uwd[j]] = rel
                conds += [le(I(0), rel), lt(rel, wsz[d])]
            for d in iwd:
                conds.append(eq(idx[d], start[d]))
            # FILL_OR_DROP: whole window must be in bounds
            for d in s2o:
                z = wsz.get(d, I(1))
                inb += [le(I(0), start[d]), le(start[d] + z, a.shape[d])]
            return and_(*conds, *inb), ui

        def at(*idx):
            c, ui = split(idx)
            if c is FALSE:
                return a.at(*idx)
            if addmode == "add":
                return ite(c, T.add(a.at(*idx), u.at(*ui)), a.at(*idx))
            if addmode == "mul":
                return ite(c, T.mul(a.at(*idx), u.at(*ui)), a.at(*idx))
            return ite(c, u.at(*ui), a.at(*idx))

        def wd(*idx):
            c, ui = split(idx)
            if c is FALSE:
                return a.wd(*idx)
            w = u.wd(*ui) if addmode is None else and_(u.wd(*ui), a.wd(*idx))
            return ite(c, w, a.wd(*idx))

        return [Arr(a.shape, a.dtype, at, wd)]

    def p_scatter(self, eqn, ins):
        return self._scatter(eqn, ins, None)

    def p_scatter_add(self, eqn, ins):
        return self._scatter(eqn, ins, "add")

    def p_scatter_mul(self, eqn, ins):
        return self._scatter(eqn, ins, "mul")

    # -- reductions -----------------------------------------------------------
    def _reduce(self, eqn, ins, combine):
        a = ins[0]
        axes = list(eqn.params["axes"])

        def go(idx, leaf, comb):
            it = iter(idx)
            base = [None if k in axes else next(it) for k in range(a.ndim)]

            def rec(k, cur):
                if k == len(axes):
                    return leaf(a, cur)
                ax = axes[k]

                def body(v):
                    c2 = list(cur)
                    c2[ax] = v
                    return rec(k + 1, c2)

                return comb(a.shape[ax], body)

            return rec(0, base)

        return (lambda *idx: go(idx, lambda a, i: a.at(*i), combine),
                lambda *idx: go(idx, lambda a, i: a.wd(*i), lambda n, f: forall(I(0), n, f)))

    def p_reduce_sum(self, eqn, ins):
        if sort_of(ins[0].dtype) == "B":
            raise Unsupported("sum of bool")

        def comb(n, f):
            if T.is_const(n) and T.cval(n) <= 12:
                return T.add(T.const(0), *[f(I(k)) for k in range(T.cval(n))])
            return T.summ(I(0), n, f)

        at, wd = self._reduce(eqn, ins, comb)
        if sort_of(ins[0].dtype) == "I":
            a0 = ins[0]
            ins = [Arr(a0.shape, "float64", lambda *i: T.i2r(a0.at(*i)), a0.wd)]
            at, wd = self._reduce(eqn, ins, comb)

            # integer sum kept as real-valued term, tagged through an opaque r2i
            return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype,
                        lambda *i: T._mk("r2i", (at(*i),), "I"), wd)]
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at, wd)]

    def p_reduce_and(self, eqn, ins):
        at, wd = self._reduce(eqn, ins, lambda n, f: forall(I(0), n, f))
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at, wd)]

    def p_reduce_or(self, eqn, ins):
        at, wd = self._reduce(eqn, ins, lambda n, f: T.exists(I(0), n, f))
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at, wd)]

    def p_reduce_max(self, eqn, ins):
        comb = lambda n, f: T._mk("rmax", (I(0), n, T.lam(f)), "R")
        at, wd = self._reduce(eqn, ins, comb)
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at, wd)]

    def p_reduce_min(self, eqn, ins):
        comb = lambda n, f: T.neg_(T._mk("rmax", (I(0), n, T.lam(lambda k: T.neg_(f(k)))), "R"))
        at, wd = self._reduce(eqn, ins, comb)
        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at, wd)]

    def p_cumsum(self, eqn, ins):
        a = ins[0]
        ax, rev = eqn.params["axis"], eqn.params["reverse"]

        def body(idx):
            def f(v):
                ii = list(idx)
                ii[ax] = v
                return ii
            lo, hi = (idx[ax], a.shape[ax]) if rev else (I(0), idx[ax] + 1)
            return f, lo, hi

        def at(*idx):
            f, lo, hi = body(idx)
            return T.summ(lo, hi, lambda v: a.at(*f(v)))

        def wd(*idx):
            f, lo, hi = body(idx)
            return forall(lo, hi, lambda v: a.wd(*f(v)))

        return [Arr(a.shape, a.dtype, at, wd)]

    def p_dot_general(self, eqn, ins):
        a, b = ins
        (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
        ca, cb, ba, bb = map(list, (ca, cb, ba, bb))
        fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
        fb = [k for k in range(b.ndim) if k not in cb and k not in bb]

        def mk(idx, leaf, comb):
            nb = len(ba)
            ia, ib = [None] * a.ndim, [None] * b.ndim
            for j in range(nb):
                ia[ba[j]] = idx[j]
                ib[bb[j]] = idx[j]
            for j, k in enumerate(fa):
                ia[k] = idx[nb + j]
            for j, k in enumerate(fb):
                ib[k] = idx[nb + len(fa) + j]

            def rec(j):
                if j == len(ca):
                    return leaf(list(ia), list(ib))

                def body(v):
                    ia[ca[j]] = v
                    ib[cb[j]] = v
                    return rec(j + 1)

                return comb(a.shape[ca[j]], body)

            return rec(0)

        def at(*idx):
            return mk(idx, lambda x, y: T.mul(a.at(*x), b.at(*y)), T.flat_sum)

        def wd(*idx):
            return mk(idx, lambda x, y: and_(a.wd(*x), b.wd(*y)), lambda n, f: forall(I(0), n, f))

        return [Arr(self.oshape(eqn), eqn.outvars[0].aval.dtype, at, wd)]

    # -- intercepted dependencies -----------------------------------------------
    def p_dv_interp(self, eqn, ins):
        x, xp, fp, left, right = ins
        p = eqn.params
        nb = p["nb"]
        n = xp.shape[-1]

        def mk(idx):
            b = list(idx[:nb])
            xl = T.lam(lambda j: xp.at(*b, j))
            fl = T.lam(lambda j: fp.at(*b, j))
            L = left.at(*b) if p["has_left"] else None
            Rr = right.at(*b) if p["has_right"] else None
            return b, xl, fl, L, Rr

        def at(*idx):
            b, xl, fl, L, Rr = mk(idx)
            return T.interp(x.at(*idx), n, xl, fl, L, Rr)

        def wd(*idx):
            b, xl, fl, L, Rr = mk(idx)
            pre = forall(I(0), n - 1, lambda j: lt(xp.at(*b, j), xp.at(*b, j + 1)))
            return and_(x.wd(*idx), pre,
                        forall(I(0), n, lambda j: and_(xp.wd(*b, j), fp.wd(*b, j))),
                        left.wd(*b), right.wd(*b))

        return [Arr(self.oshape(eqn), "float64", at, wd)]

    def p_dv_lstsq(self, eqn, ins):
        a, y = ins
        nb = eqn.params["nb"]
        n, p = a.shape[-2], a.shape[-1]

        if not T.is_const(p) or T.cval(p) > 4:
            raise Unsupported("least squares with more than 4 unknowns")
        p = T.cval(p)

        def gram(b):
            G = [[T.summ(I(0), n, lambda i: T.mul(a.at(*b, i, I(r)), a.at(*b, i, I(c)))) for c in range(p)] for r in range(p)]
            return G, [T.summ(I(0), n, lambda i: T.mul(a.at(*b, i, I(r)), y.at(*b, i))) for r in range(p)]

        # contract of lstsq: for independent columns, the unique solution of the
        # normal equations A'A c = A'y (Cramer's rule)
        def at(*idx):
            G, h = gram(idx[:nb])
            d = det(G)
            sol = [T.div(det([[h[r] if c == k else G[r][c] for c in range(p)] for r in range(p)]), d) for k in range(p)]
            k = idx[-1]
            if T.is_const(k):
                return sol[T.cval(k)]
            r = sol[p - 1]
            for q in range(p - 2, -1, -1):
                r = ite(eq(k, I(q)), sol[q], r)
            return r

        def wd(*idx):
            b = list(idx[:nb])
            return and_(T.not_(eq(det(gram(b)[0]), T.const(0))),
                        forall(I(0), n, lambda i: and_(y.wd(*b, i), *[a.wd(*b, i, I(j)) for j in range(p)])))

        return [Arr(self.oshape(eqn), "float64", at, wd)]

    def p_dv_uniform(self, eqn, ins):
        key, lo, hi = ins
        sh = self.oshape(eqn)
        k = (key.at(I(0)), key.at(I(1)))

        def at(*i):
            u = T.fn("U", *k, *sh, *i)
            return T.add(lo.at(), T.mul(T.sub(hi.at(), lo.at()), u))

        return [Arr(sh, "float64", at, lambda *i: and_(key.wd(I(0)), lo.wd(), hi.wd()))]

    def p_dv_split(self, eqn, ins):
        key, = ins
        return [Arr(self.oshape(eqn), "uint32",
                    lambda i, j: T._mk("fn", ("split", key.at(I(0)), key.at(I(1)), I(eqn.params["num"]), i, j), "I"))]

    # -- loops ------------------------------------------------------------------
    def p_scan(self, eqn, ins):
        p = eqn.params
        jaxpr = p["jaxpr"]
        n = dim2term(p["length"])
        rev = p["reverse"]
        # split the operands
        nout = len(eqn.outvars)
        body_in = len(jaxpr.in_avals if hasattr(jaxpr, "in_avals") else jaxpr.invars)
        nconst, ncarry = self._scan_split(eqn)
        consts, init, xs = ins[:nconst], ins[nconst:nconst + ncarry], ins[nconst + ncarry:]
        if ncarry == 0:
            # a map: every iteration on its own, the same as the function applied along a batch axis
            batched = map_body(eqn, nconst)
            if batched is not None:
                return self._call(batched, ins)
        sid = next(self._k)
        it = T.var("scan!%d" % sid, "I")
        pos = (lambda i: n - 1 - i) if rev else (lambda i: i)

        def mk_marker(c):
            a = init[c]
            nm = "scan%d.%d" % (sid, c)
            s = sort_of(a.dtype)
            return Arr(a.shape, a.dtype, lambda *i: T._mk("sel", (nm, it) + i, s))

        markers = [mk_marker(c) for c in range(ncarry)]
        xel = [Arr(x.shape[1:], x.dtype, lambda *i, x=x: x.at(pos(it), *i), lambda *i, x=x: x.wd(pos(it), *i))
               for x in xs]
        outs = self._call(jaxpr, list(consts) + markers + xel)
        newc, ys = outs[:ncarry], outs[ncarry:]
        closed, kinds, resolve, names = self._close(sid, it, init, newc, n)
        if len(closed) < ncarry:
            if T.is_const(n) and T.cval(n) <= 64:
                return self._unroll(eqn, jaxpr, T.cval(n), rev, consts, init, xs)
            raise Unsupported("scan carry without an inferred invariant")
        self._record(closed, kinds, resolve, it, n, init, newc)

        def fin(arr, i_of):
            def at(*idx):
                i, rest = i_of(idx)
                return T.subst(resolve(arr.at(*rest)), {it: i})

            def wd(*idx):
                i, rest = i_of(idx)
                w = resolve(arr.wd(*rest))
                # every iteration up to i must be well defined
                j = T.fresh("j")
                return forall(I(0), n, lambda v: T.subst(w, {it: v}))

            return at, wd

        res = []
        allwd = []
        for c in range(ncarry):
            def atc(*idx, c=c):
                return closed[c](n, idx)

            def wdc(*idx, c=c):
                w = resolve(newc[c].wd(*idx))
                return and_(init[c].wd(*idx), forall(I(0), n, lambda v: T.subst(w, {it: v})))

            res.append(Arr(init[c].shape, init[c].dtype, atc, wdc))
        for k, y in enumerate(ys):
            at, wd = fin(y, lambda idx: (pos(idx[0]), idx[1:]))
            res.append(Arr(self.oshape(eqn, ncarry + k), y.dtype, at, wd))
        return res

    def _close(self, sid, it, init, newc, n=None):
        """closed forms of the carried values of a loop before iteration i (where one is recognised)"""
        ncarry = len(init)
        names = ["scan%d.%d" % (sid, c) for c in range(ncarry)]
        closed = {}  # c -> function(i, idx) -> term

        def mentions(t, nm):
            return any_sel(t, nm)

        def resolve(t):
            """replace resolved carries in a term about iteration `it`"""
            for c, f in closed.items():
                t = map_sel(t, names[c], lambda args, f=f: f(args[0], args[1:]))
            return t

        kinds = {}
        progress = True
        while progress and len(closed) < ncarry:
            progress = False
            for c in range(ncarry):
                if c in closed:
                    continue
                sk = [T.fresh("sc") for _ in init[c].shape]
                t = resolve(newc[c].at(*sk))
                left = [x for x in names if mentions(t, x)]
                me = T._mk("sel", (names[c], it) + tuple(sk), sort_of(init[c].dtype))
                if t is me:
                    closed[c] = lambda i, idx, c=c: init[c].at(*idx)
                    kinds[c] = "invariant"
                elif not left:
                    def f(i, idx, c=c, t=t, sk=tuple(sk)):
                        m = dict(zip(sk, idx))
                        prev = T.subst(t, {**m, it: i - 1})
                        return ite(eq(i, I(0)), init[c].at(*idx), prev)
                    closed[c] = f
                    kinds[c] = "last element"
                elif t.sort == "I" and left == [names[c]] and T.is_const(T.sub(t, me)):
                    closed[c] = lambda i, idx, c=c, g=T.sub(t, me): T.add(init[c].at(*idx), g * i)
                    kinds[c] = "counter"
                elif t.sort == "R" and left == [names[c]] and not mentions(T.sub(t, me), names[c]):
                    g = T.sub(t, me)

                    def f(i, idx, c=c, g=g, sk=tuple(sk)):
                        m = dict(zip(sk, idx))
                        return T.add(init[c].at(*idx),
                                     T.summ(I(0), i, lambda j: T.subst(g, {**m, it: j})))
                    closed[c] = f
                    kinds[c] = "prefix sum"
                else:
                    w = self._written(t, me, sk, it, n, init[c]) if n is not None and sk else None
                    if w is None or any(mentions(x, nm) for x in w for nm in names):
                        continue

                    def f(i, idx, c=c, w=w, sk=tuple(sk)):
                        m = dict(zip(sk, idx))
                        e, rest, v = (T.subst(x, m) for x in w)
                        return ite(and_(le(I(0), e), lt(e, i), rest), v, init[c].at(*idx))
                    closed[c] = f
                    kinds[c] = "written element by element"
                progress = True
        return closed, kinds, resolve, names

    def _written(self, t, me, sk, it, n, init):
        """an array of which iteration i writes the elements with e(index) = i: (e, other condition, value)"""
        from . import prover as P
        ctx = FORKS.ctx.assume(*FORKS.facts) if FORKS.ctx is not None else P.Ctx()
        t = P.simp(t, ctx.assume(le(I(0), it), lt(it, n), *[b for i, s in zip(sk, init.shape) for b in (le(I(0), i), lt(i, s))]))
        if t.op != "ite" or t.args[2] is not me:
            return None
        e, rest = None, []
        for a in (t.args[0].args if t.args[0].op == "and" else (t.args[0],)):
            if e is None and a.op == "eq" and a.args[0].sort == "I":
                b = T.subst(a.args[0], {it: I(0)})
                d = T.sub(a.args[0], b)
                if d is it or d is T.neg_(it):
                    e = T.neg_(b) if d is it else b
                    continue
            rest.append(a)
        if e is None:
            return None
        at = {it: e}
        v = T.subst(t.args[1], at)
        own = (e,) + tuple(sk)                          # written once: it was the initial value before
        v = map_sel(v, me.args[0], lambda args: init.at(*sk) if tuple(args) == own else T._mk("sel", (me.args[0],) + tuple(args), me.sort))
        if v.sort == "R" and any_sel(v, me.args[0]):
            # a recurrence along one axis: element k is element k-1 plus an increment
            for d, k in enumerate(sk):
                prev = T._mk("sel", (me.args[0], e) + tuple(i - 1 if j == d else i for j, i in enumerate(sk)), "R")
                g = T.sub(v, prev)
                first = T.sub(k, e)                      # the element written first
                if not any_sel(g, me.args[0]) and k not in T.free_vars(first):
                    v = T.add(init.at(*[first - 1 if j == d else i for j, i in enumerate(sk)]),
                              T.summ(first, k + 1, lambda q: T.subst(g, {k: q})))
                    break
        return e, T.subst(and_(*rest) if rest else TRUE, at), v

    def _record(self, closed, kinds, resolve, it, n, init, newc):
        # record the invariant with its two proof obligations
        for c in range(len(init)):
            sk = tuple(T.fresh("sc") for _ in init[c].shape)
            i = T.fresh("it")
            f = closed[c]
            step = T.subst(resolve(newc[c].at(*sk)), {it: i})
            self.loops.append(dict(kind=kinds[c], length=n, i=i,
                                   base=(f(I(0), sk), init[c].at(*sk)),
                                   step=(f(i + 1, sk), step), idx=sk, shape=init[c].shape))

    def p_while(self, eqn, ins):
        """a loop whose condition compares a counter with a bound it does not change: as many iterations as the
        condition holds for (fori_loop over a symbolic length is one)"""
        p = eqn.params
        nc, nb = p["cond_nconsts"], p["body_nconsts"]
        ccon, bcon, init = ins[:nc], ins[nc:nc + nb], ins[nc + nb:]
        sid = next(self._k)
        it = T.var("scan!%d" % sid, "I")

        def mk_marker(c):
            a = init[c]
            nm = "scan%d.%d" % (sid, c)
            s = sort_of(a.dtype)
            return Arr(a.shape, a.dtype, lambda *i: T._mk("sel", (nm, it) + i, s))

        markers = [mk_marker(c) for c in range(len(init))]
        newc = self._call(p["body_jaxpr"], list(bcon) + markers)
        closed, kinds, resolve, names = self._close(sid, it, init, newc)
        cout = self._call(p["cond_jaxpr"], list(ccon) + markers)[0]
        cond, cwd = resolve(cout.at()), resolve(cout.wd())
        n = None
        if cond.op in ("lt", "le") and cond.args[0].sort == "I" and not any(any_sel(cond, x) for x in names):
            t = cond.args[0]
            b = T.subst(t, {it: I(0)})
            if T.sub(t, b) is it:          # it + b < 0, it + b <= 0
                n = T.sub(I(0), b) if cond.op == "lt" else T.sub(I(1), b)
        if n is None:
            raise Unsupported("loop condition that does not count iterations")
        from . import prover as P
        ctx = FORKS.ctx.assume(*FORKS.facts) if FORKS.ctx is not None else P.Ctx()
        if ctx.decide(le(I(0), n)) is not True:
            raise Unsupported("loop that may start beyond its bound")
        if len(closed) < len(init):
            closed, kinds, resolve, names = self._close(sid, it, init, newc, n)
        if len(closed) < len(init):
            raise Unsupported("loop carry without an inferred invariant")
        self._record(closed, kinds, resolve, it, n, init, newc)
        res = []
        for c in range(len(init)):
            def wdc(*idx, c=c):
                w = and_(cwd, resolve(newc[c].wd(*idx)))
                return and_(init[c].wd(*idx), forall(I(0), n, lambda v: T.subst(w, {it: v})))

            res.append(Arr(init[c].shape, init[c].dtype, lambda *idx, c=c: closed[c](n, idx), wdc))
        return res

    def _unroll(self, eqn, jaxpr, n, rev, consts, carry, xs):
        """a loop with a literal number of iterations"""
        ncarry = len(carry)
        ys = {}
        for k in (range(n - 1, -1, -1) if rev else range(n)):
            xel = [Arr(x.shape[1:], x.dtype, lambda *i, x=x, k=k: x.at(I(k), *i), lambda *i, x=x, k=k: x.wd(I(k), *i)) for x in xs]
            outs = self._call(jaxpr, list(consts) + list(carry) + xel)
            carry, ys[k] = outs[:ncarry], outs[ncarry:]
        self.notes_ok = getattr(self, "notes_ok", [])
        self.notes_ok.append("loop of %d iterations unrolled" % n)
        res = list(carry)
        for j in range(len(eqn.outvars) - ncarry):
            def walk(idx, get, j=j):
                r = get(ys[n - 1][j], idx[1:])
                for k in range(n - 2, -1, -1):
                    c = eq(idx[0], I(k))
                    r = get(ys[k][j], idx[1:]) if c is TRUE else r if c is FALSE else ite(c, get(ys[k][j], idx[1:]), r)
                return r
            res.append(Arr(self.oshape(eqn, ncarry + j), eqn.outvars[ncarry + j].aval.dtype,
                           lambda *i, w=walk: w(i, lambda a, ii: a.at(*ii)), lambda *i, w=walk: w(i, lambda a, ii: a.wd(*ii))))
        return res

    def _scan_split(self, eqn):
        p = eqn.params
        if "num_consts" in p:
            return p["num_consts"], p["num_carry"]
        parts = list(p["ft_in"].unpack())
        cnt = lambda x: len(list(x.vals)) if hasattr(x, "vals") else len(x)
        return cnt(parts[0]), cnt(parts[1])

    def p_cond(self, eqn, ins):
        pred, ops = ins[0], ins[1:]
        br = eqn.params["branches"]
        results = [self._call(b, ops) for b in br]
        outs = []
        for k, v in enumerate(eqn.outvars):
            def pick(idx, get, k=k):
                s = pred.at()
                r = get(results[-1][k], idx)
                for j in range(len(br) - 2, -1, -1):
                    c = eq(s, I(j)) if s.sort == "I" else (not_(s) if j == 0 else s)
                    if j == 0:
                        c = le(s, I(0)) if s.sort == "I" else not_(s)
                    r = ite(c, get(results[j][k], idx), r)
                return r
            outs.append(Arr(self.oshape(eqn, k), v.aval.dtype,
                            lambda *i, pick=pick: pick(i, lambda a, ii: a.at(*ii)),
                            lambda *i, pick=pick: and_(pred.wd(), pick(i, lambda a, ii: a.wd(*ii)))))
        return outs


def any_sel(t, name, _cache=None):
    cache = {}

    def go(t):
        r = cache.get(t)
        if r is None:
            r = (t.op == "sel" and t.args[0] == name) or any(go(a) for a in t.args if isinstance(a, T.Term))
            cache[t] = r
        return r

    return go(t)


def map_sel(t, name, f):
    """replace every element access of array `name`"""
    cache = {}

    def go(t):
        if not t.args:
            return t
        r = cache.get(t)
        if r is not None:
            return r
        if t.op == "lam":
            bv = T.var("#%d" % t.args[0], "I")
            v = T.fresh("o", "I")
            body = T.subst(t.args[1], {bv: v})
            nb = go(body)
            r = t if nb is body else T.close(v, nb)
        else:
            args = [go(a) if isinstance(a, T.Term) else a for a in t.args]
            if t.op == "sel" and t.args[0] == name:
                r = f(tuple(args[1:]))
            else:
                r = T.rebuild(t, args)
        cache[t] = r
        return r

    return go(t)


# ---------------------------------------------------------------------------
# elementwise primitives: f(params, *values) -> (value, wd)
def _cmp(f):
    def g(p, a, b):
        ia, ib = infinity(a), infinity(b)
        if ia or ib:
            # any finite number against an infinity: +1 > x > -1
            return f(T.R(ia), T.R(ib)), TRUE
        return f(a, b), TRUE
    return g


def _pow(p, a, b):
    if b.sort == "I":
        b = T.i2r(b)
    if T.is_const(b) and T.cval(b).denominator == 1 and abs(T.cval(b)) <= 64:
        n = int(T.cval(b))
        return T.ipow(a, n), (TRUE if n >= 0 else T.ne(a, T.R(0)))
    if b.op == "ite":
        x, wx = _pow(p, a, b.args[1])
        y, wy = _pow(p, a, b.args[2])
        return ite(b.args[0], x, y), ite(b.args[0], wx, wy)
    return T.rpow(a, b), lt(T.R(0), a)


def _ipow(p, a):
    n = p["y"]
    return T.ipow(a, n), (TRUE if n >= 0 else T.ne(a, T.R(0)))


def _div(p, a, b):
    if a.sort == "I":
        # lax.div on integers truncates
        if T.is_const(a) and T.is_const(b) and T.cval(b) != 0:
            q = abs(T.cval(a)) // abs(T.cval(b))
            return I(q if (T.cval(a) < 0) == (T.cval(b) < 0) else -q), TRUE
        raise Unsupported("integer division")
    return T.div(a, b), T.ne(b, T.R(0))


def _mulp(p, a, b):
    return T.mul(a, b), TRUE


def _max(p, a, b):
    return ite(le(a, b), b, a), TRUE


def _min(p, a, b):
    return ite(le(a, b), a, b), TRUE


def _abs(p, a):
    return ite(lt(a, T.lift(0, a.sort)), T.neg_(a), a), TRUE


def _sign(p, a):
    z = T.lift(0, a.sort)
    one = T.lift(1, a.sort)
    return ite(lt(a, z), T.neg_(one), ite(eq(a, z), z, one)), TRUE


def _logistic(p, a):
    return T.ipow(T.add(T.R(1), T.exp(T.neg_(a))), -1), TRUE


def _tanh(p, a):
    return T.sub(T.scale(2, T.ipow(T.add(T.R(1), T.exp(T.scale(-2, a))), -1)), T.R(1)), TRUE


def _clampp(p, lo, x, hi):
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x)), TRUE


def _bool2(fb, fi=None):
    def f(p, a, b):
        if a.sort != "B":
            return _bits(fi, a, b)
        return fb(a, b), TRUE
    return f


def _bits(fi, *args):
    """bitwise integer operation on literals (the exponent of an integer power)"""
    if fi is None or any(a.sort != "I" or not T.is_const(a) or a.args[0] < 0 for a in args):
        raise Unsupported("bitwise integer op")
    return T.const(fi(*[int(a.args[0]) for a in args]), "I"), TRUE


def _xor(p, a, b):
    if a.sort != "B":
        raise Unsupported("bitwise integer op")
    return not_(eq(a, b)), TRUE


def _notp(p, a):
    if a.sort != "B":
        raise Unsupported("bitwise integer op")
    return not_(a), TRUE


def _log(p, a):
    return T.ln(a), lt(T.R(0), a)


def _sqrt(p, a):
    return T.sqrt(a), le(T.R(0), a)


def _isfinite(p, a):
    return TRUE, TRUE


ELEM = {
    "add": lambda p, a, b: (T.add(a, b), TRUE),
    "add_any": lambda p, a, b: (T.add(a, b), TRUE),
    "sub": lambda p, a, b: (T.sub(a, b), TRUE),
    "mul": _mulp,
    "div": _div,
    "neg": lambda p, a: (T.neg_(a), TRUE),
    "pow": _pow,
    "integer_pow": _ipow,
    "square": lambda p, a: (T.ipow(a, 2), TRUE),
    "sqrt": _sqrt,
    "rsqrt": lambda p, a: (T.ipow(T.sqrt(a), -1), lt(T.R(0), a)),
    "exp": lambda p, a: (T.exp(a), TRUE),
    "exp2": lambda p, a: (T.exp(T.mul(a, T.ln(T.const(2)))), TRUE),
    "log": _log,
    "log1p": lambda p, a: (T.ln(T.add(T.R(1), a)), lt(T.R(-1), a)),
    "log2": lambda p, a: (T.div(T.ln(a), T.ln(T.const(2))), lt(T.R(0), a)),
    "cbrt": lambda p, a: (T.exp(T.scale(T.Fraction(1, 3), T.ln(a))), lt(T.R(0), a)),
    "sinh": lambda p, a: (T.scale(T.Fraction(1, 2), T.sub(T.exp(a), T.exp(T.neg_(a)))), TRUE),
    "cosh": lambda p, a: (T.scale(T.Fraction(1, 2), T.add(T.exp(a), T.exp(T.neg_(a)))), TRUE),
    "expm1": lambda p, a: (T.sub(T.exp(a), T.R(1)), TRUE),
    "logistic": _logistic,
    "tanh": _tanh,
    "max": _max,
    "min": _min,
    "abs": _abs,
    "sign": _sign,
    "clamp": _clampp,
    "eq": _cmp(lambda a, b: eq(a, b)),
    "ne": _cmp(lambda a, b: T.ne(a, b)),
    "lt": _cmp(lt),
    "le": _cmp(le),
    "gt": _cmp(lambda a, b: lt(b, a)),
    "ge": _cmp(lambda a, b: le(b, a)),
    "and": _bool2(and_, lambda a, b: a & b),
    "or": _bool2(or_, lambda a, b: a | b),
    "shift_right_logical": lambda p, a, b: _bits(lambda a, b: a >> b, a, b),
    "xor": _xor,
    "not": _notp,
    "is_finite": _isfinite,
}
