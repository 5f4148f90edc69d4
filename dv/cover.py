"""Search for inputs that take the branches sampling does not take.

Used only after an obligation has failed, to find an input for the report: the comparisons
of the traced real code are instrumented with branch distances (how far the operands are
from the other outcome; sums over conjunctions, minima over disjunctions), and the distance
of every outcome that sampling never produced is minimised by moves that keep `requires`
(shift, scale or spread an array, move its head or tail, set one element), with secant steps
along each move.  Nothing here decides a property."""
import time

import numpy as np

TINY = 1e-13


def _subs(eqn):
    p = eqn.params
    for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
        q = p.get(k)
        if q is not None:
            return q
    return None


INLINE = {"pjit", "jit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "remat", "checkpoint",
          "custom_vjp_call_jaxpr", "remat2"}
STRUCT = {"broadcast_in_dim", "reshape", "squeeze", "expand_dims", "transpose", "slice", "rev", "concatenate", "copy",
          "copy_p", "gather", "dynamic_slice"}
CMP = {"lt", "gt", "le", "ge", "eq", "ne"}


class Instr:
    """the traced real code with branch distances"""

    def __init__(self, c, dims):
        import jax

        f = c.resolve()
        avals = []
        for k in c.args:
            sh = c.shape_of(k, dims)
            avals.append(jax.eval_shape(lambda: jax.random.PRNGKey(0)) if sh is None else jax.ShapeDtypeStruct(sh, np.float64))
        self.names = list(c.args)
        self.closed = jax.make_jaxpr(lambda *x: c.apply(f, dict(zip(c.args, x))))(*avals)
        self.fn = jax.jit(self._run)

    def dist(self, V):
        r = np.asarray(self.fn(*[V[k] for k in self.names]), float)
        return np.where(np.isfinite(r), r, 1e30)

    def _run(self, *args):
        import jax.numpy as jnp

        acc = []
        self._eval(self.closed.jaxpr, self.closed.consts, args, [None] * len(args), acc)
        rows = []
        for d in acc:
            t, f = d[:2]
            e = jnp.min(d[2]) if len(d) > 2 else 0.0  # 0: not a target
            rows.append(jnp.stack([jnp.min(t), jnp.min(f), e]) if t.size else jnp.zeros(3))
        return jnp.stack(rows) if rows else jnp.zeros((0, 3))

    def _eval(self, jp, consts, args, dargs, acc):
        import jax
        import jax.numpy as jnp
        from jax.extend import core

        env, dn = {}, {}
        read = lambda v: v.val if isinstance(v, core.Literal) else env[v]
        rd = lambda v: None if isinstance(v, core.Literal) else dn.get(v)
        for v, x in zip(jp.constvars, consts):
            env[v] = x
        for v, x, d in zip(jp.invars, args, dargs):
            env[v] = x
            if d is not None:
                dn[v] = d

        def bd(v):
            d = rd(v)
            if d is None:
                x = jnp.asarray(read(v))
                d = (jnp.where(x, 0.0, 1.0), jnp.where(x, 1.0, 0.0))
            return d

        def cmp(name, a, b):
            a, b = jnp.asarray(a), jnp.asarray(b)
            if a.dtype == bool or not (jnp.issubdtype(a.dtype, jnp.floating) or jnp.issubdtype(a.dtype, jnp.integer)):
                return None
            a, b = a.astype(float), b.astype(float)
            up = jnp.where(a < b, 0.0, a - b + TINY)      # a < b
            uq = jnp.where(a <= b, 0.0, a - b)            # a <= b
            vp = jnp.where(a > b, 0.0, b - a + TINY)
            vq = jnp.where(a >= b, 0.0, b - a)
            e, ne = jnp.abs(a - b), jnp.where(a == b, 1.0, 0.0)
            return {"lt": (up, vq, e), "ge": (vq, up, e), "gt": (vp, uq, e), "le": (uq, vp, e), "eq": (e, ne), "ne": (ne, e)}[name]

        for e in jp.eqns:
            n = e.primitive.name
            iv = [read(v) for v in e.invars]
            sub = _subs(e)
            if n in INLINE and sub is not None:
                q, cs = (sub.jaxpr, sub.consts) if hasattr(sub, "jaxpr") else (sub, ())
                outs, douts = self._eval(q, cs, iv, [rd(v) for v in e.invars], acc)
                for v, x, d in zip(e.outvars, outs, douts):
                    env[v] = x
                    if d is not None:
                        dn[v] = d
                continue
            sf, bp = (), e.primitive.get_bind_params(e.params)
            out = e.primitive.bind(*sf, *iv, **bp)
            outs = out if e.primitive.multiple_results else [out]
            for v, x in zip(e.outvars, outs):
                env[v] = x
            o = e.outvars[0] if e.outvars else None
            isb = o is not None and getattr(o.aval, "dtype", None) == bool
            d = None
            if n in CMP:
                d = cmp(n, iv[0], iv[1])
            elif n in ("max", "min") and not isb:
                d = cmp("lt", iv[0], iv[1])
                if d is not None:
                    acc.append(d)
                continue
            elif n in ("sign", "abs"):
                d = cmp("lt", iv[0], jnp.zeros_like(iv[0]))
                if d is not None:
                    acc.append(d)
                continue
            elif n == "clamp":
                acc.append(cmp("lt", iv[1], jnp.broadcast_to(iv[0], jnp.shape(iv[1]))))
                acc.append(cmp("gt", iv[1], jnp.broadcast_to(iv[2], jnp.shape(iv[1]))))
                continue
            elif not isb:
                continue
            elif n == "and":
                (a, b), (p, q) = bd(e.invars[0])[:2], bd(e.invars[1])[:2]
                d = (a + p, jnp.minimum(b, q))
            elif n == "or":
                (a, b), (p, q) = bd(e.invars[0])[:2], bd(e.invars[1])[:2]
                d = (jnp.minimum(a, p), b + q)
            elif n == "not":
                a, b = bd(e.invars[0])[:2]
                dn[o] = (b, a)
                continue
            elif n == "reduce_and":
                a, b = bd(e.invars[0])[:2]
                ax = tuple(e.params["axes"])
                d = (jnp.sum(a, axis=ax), jnp.min(b, axis=ax) if a.size else jnp.ones(o.aval.shape))
            elif n == "reduce_or":
                a, b = bd(e.invars[0])[:2]
                ax = tuple(e.params["axes"])
                d = (jnp.min(a, axis=ax) if a.size else jnp.ones(o.aval.shape), jnp.sum(b, axis=ax))
            elif n in STRUCT:
                ds = [bd(v) if getattr(v.aval, "dtype", None) == bool else None for v in e.invars]
                try:
                    dn[o] = tuple(e.primitive.bind(*sf, *[x if q is None else q[k] for x, q in zip(iv, ds)], **bp) for k in (0, 1))
                except Exception:
                    pass
                continue
            else:
                continue
            if d is not None and isb:
                dn[o] = d
                acc.append(d)
        return [read(v) for v in jp.outvars], [rd(v) for v in jp.outvars]


def moves(c, V, rng):
    """-> list of functions (s, V) -> V' (s = 0: V), mostly the smallest changes first"""
    out, whole = [], []

    def mk(k, f):
        def g(s, base):
            W = dict(base)
            W[k] = np.asarray(f(np.array(base[k], float, copy=True), s))
            return W
        return g
    for k in c.args:
        if c.args[k] == "key":
            continue
        v = np.asarray(V[k])
        if v.ndim == 0:
            out.append(mk(k, lambda x, s: x + s))
            continue
        if not v.size:
            continue
        whole.append(mk(k, lambda x, s: x + s))
        whole.append(mk(k, lambda x, s: x * np.exp(s)))
        whole.append(mk(k, lambda x, s: x.mean() + (x - x.mean()) * np.exp(s)))
        whole.append(mk(k, lambda x, s: x.min() + (x - x.min()) * np.exp(s)))
        whole.append(mk(k, lambda x, s: x.max() + (x - x.max()) * np.exp(s)))
        ext = [np.unravel_index(np.argmin(v), v.shape), np.unravel_index(np.argmax(v), v.shape)]
        ext += [tuple(rng.integers(n) for n in v.shape) for _ in range(2)]
        for i in ext:
            def one(x, s, i=i):
                x[i] += s
                return x
            out.append(mk(k, one))
        if v.shape[0] > 1:
            i = int(rng.integers(1, v.shape[0]))

            def tail(x, s, i=i):
                x[i:] += s
                return x

            def head(x, s, i=i):
                x[:i] += s
                return x
            out += [mk(k, tail), mk(k, head)]
    rng.shuffle(out)
    rng.shuffle(whole)
    return out + whole if rng.random() < 0.7 else whole + out


def snap(V, lits):
    W = {}
    hit = False
    for k, v in V.items():
        v = np.array(v, copy=True)
        if v.dtype.kind == "f":
            for L in lits:
                m = (np.abs(v - L) <= 1e-7 * max(1.0, abs(L))) & (v != L)
                if np.any(m):
                    hit = True
                    v = np.where(m, L, v)
        W[k] = v
    return W if hit else None


def reach(c, ins, V, dims, target, ok, rng, lits, stop):
    """minimise the distance of one outcome from V; -> V' or None"""
    i, o = target
    d = ins.dist(V)[i, o]
    for rnd in range(4):
        if d == 0:
            return V
        start = d
        for g in moves(c, V, rng):
            if time.time() > stop:
                return None
            best = None
            for s0 in (1e-2, -1e-2):
                W = g(s0, V)
                d1 = ins.dist(W)[i, o]
                if not d1 < d:
                    continue
                s, ds, dd = s0, s0, d1
                # along this move: secant step, then doubling, then small overshoots
                sec = s0 * d / (d - d1)
                tried = [sec, sec * (1 + 1e-9), sec * (1 + 1e-3), sec * 1.02, sec * 1.2]
                st = s0
                for _ in range(12):
                    st *= 2
                    tried.append(st)
                tried.append(s0)
                for t in tried:
                    if abs(t) > 1e6:
                        continue
                    W = g(t, V)
                    dt = ins.dist(W)[i, o]
                    if dt > 0:
                        S = snap(W, lits)
                        if S is not None:
                            d2 = ins.dist(S)[i, o]
                            if d2 < dt:
                                W, dt = S, d2
                    if dt < (best[0] if best else d) and ok(W):
                        best = (dt, W)
                        if dt == 0:
                            break
            if best:
                d, V = best
                if d == 0:
                    return V
        if d >= start * (1 - 1e-6):
            return None
    return None


def candidates(c, rng, sample, ok, choices, lits, tmax, maxdims=2):
    """yield (V, dims) that take outcomes not seen in sampling"""
    stop = time.time() + tmax
    for dims in choices[:maxdims]:
        try:
            ins = Instr(c, dims)
        except Exception:
            continue
        base = []
        seen = None
        lo = hi = None
        for _ in range(24):
            V = sample(rng, dims)
            if not ok(V, dims):
                continue
            try:
                d = ins.dist(V)
            except Exception:
                break
            if d.shape[0] == 0:
                break
            seen = d if seen is None else np.minimum(seen, d)
            lo = d if lo is None else np.minimum(lo, d)
            hi = d if hi is None else np.maximum(hi, d)
            base.append((V, d))
            if time.time() > stop - tmax / 2:
                break
        if not base:
            continue
        tg = [(i, o) for i in range(seen.shape[0]) for o in (0, 1, 2) if seen[i, o] > 0 and hi[i, o] > lo[i, o]]
        rng.shuffle(tg)
        tg.sort(key=lambda t: t[1] == 2)
        for attempt in range(3):
            left = []
            for t in tg:
                t = (int(t[0]), int(t[1]))
                if time.time() > stop:
                    return
                order = sorted(base, key=lambda b: b[1][t])
                V = order[attempt % len(order)][0] if attempt else order[int(rng.integers(len(order)))][0]
                try:
                    W = reach(c, ins, V, dims, t, lambda x: ok(x, dims), rng, lits, min(stop, time.time() + tmax / 4))
                except Exception:
                    W = None
                if W is not None:
                    yield W, dims
                    for b in order[:3]:  # the same outcome from elsewhere
                        try:
                            W = reach(c, ins, b[0], dims, t, lambda x: ok(x, dims), rng, lits, min(stop, time.time() + tmax / 12))
                        except Exception:
                            W = None
                        if W is not None:
                            yield W, dims
                else:
                    left.append(t)
            tg = left
            if not tg:
                break
