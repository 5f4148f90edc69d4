"""Replay of failed obligations on the real code, and the bounded cross-check of the
extraction (sampling; never counted as proof)."""
import json
import time

import numpy as np

from . import terms as T
from . import nume
from . import contract as C
from . import jx


class Mismatch(Exception):
    pass


def dims_choices(c):
    return usual_dims(c) + [d for d in getattr(c, "path_dims", []) if d not in usual_dims(c)]


def usual_dims(c):
    if c.concrete_dims:
        return list(c.concrete_dims)
    if not c.dims:
        return [{}]
    a = {d: max(lb, 1) + 1 + j for j, (d, lb) in enumerate(c.dims.items())}
    b = {d: max(lb, 2) + 4 - j % 3 for j, (d, lb) in enumerate(c.dims.items())}
    return [a, b]


def build(c, V, dims, dtype=nume.LD, noise=None):
    arrays, scalars = {}, {}
    for k in c.args:
        v = V[k]
        if c.args[k] == "key":
            arrays[k] = np.asarray(v).astype(np.int64)
            continue
        v = np.asarray(v)
        if v.ndim == 0:
            scalars[k] = dtype(v) if dtype is not np.float64 else float(v)
        else:
            arrays[k] = v if v.dtype.kind == "f" else v.astype(np.float64)
    for d, v in dims.items():
        scalars["dim:" + d] = int(v)
    fs = dict(tw_funcs(dtype))
    fs.update(c.numfuncs)
    ev = nume.Eval(arrays, scalars, fs, dtype, noise)
    if c.lets:
        for name, sh, idx, t in let_terms(c):
            shape = tuple(int(np.asarray(ev.term(s))) for s in sh)
            if idx:
                v = np.array(ev.over(lambda *i: T.subst(t, dict(zip(idx, i))), shape))
                ev.arrays["let:" + name] = v
            else:
                ev.scalars["let:" + name] = dtype(np.asarray(ev.term(t)))
    return ev


def tw_funcs(dtype):
    def tw(z):
        z = np.asarray(z, dtype)
        b = dtype(1) / 2 + dtype(35) / 96 * (z - z**3 / 9 + z**5 / 135 - z**7 / 5103)
        return np.where(z > 3, dtype(1), np.where(z < -3, dtype(0), b))
    return {"TW": tw, "U": rand_u, "split": rand_split}


_rand = {}


def _cached(f, *k):
    r = _rand.get((f, k))
    if r is None:
        import jax
        key = np.array(k[:2], np.uint32)
        r = np.asarray(jax.random.uniform(key, k[2:], dtype=np.float64) if f == "U" else jax.random.split(key, k[2]))
        _rand[f, k] = r
    return r


def rand_u(k0, k1, *rest):
    """U(key, shape, index): jax.random.uniform"""
    n = len(rest) // 2
    f = lambda *a: _cached("U", int(a[0]), int(a[1]), *map(int, a[2:2 + n]))[tuple(map(int, a[2 + n:]))]
    return np.vectorize(f, otypes=[float])(k0, k1, *rest)


def rand_split(k0, k1, num, i, j):
    f = lambda a, b, n, i, j: int(_cached("split", int(a), int(b), int(n))[int(i), int(j)])
    return np.vectorize(f, otypes=[np.int64])(k0, k1, num, i, j)


_let_cache = {}


def let_terms(c):
    r = _let_cache.get(c.id)
    if r is None:
        from contracts import spec as S
        old, S.OPAQUE[0] = S.OPAQUE[0], True
        try:
            E = c.env(c.dimterms())
            r = []
            for n, (sh, f) in E.lets.defs.items():
                idx = [T.fresh("e") for _ in sh]
                r.append((n, sh, idx, f(*idx)))
        finally:
            S.OPAQUE[0] = old
        _let_cache[c.id] = r
    return r


def requires_hold(c, V, dims):
    if c.sample_ok is not None and not c.sample_ok(V):
        return False
    if not c.requires:
        return True
    T.DIM_LB.clear()
    dt = c.dimterms()
    E = c.env(dt)
    ev = build(c, V, dims)
    for r in list(c.requires(E)) + (list(c.wd_requires(E)) if c.wd_requires else []):
        if not np.all(ev.term(r)):
            return False
    return True


_spec_cache = {}


def spec_terms(c):
    r = _spec_cache.get(c.id)
    if r is None:
        T.DIM_LB.clear()
        dt = c.dimterms()
        from contracts import spec as S
        old, S.OPAQUE[0] = S.OPAQUE[0], True  # (the triweight distribution function is evaluated as a unit)
        try:
            E, spec = C.spec_outs(c, dt)
            r = []
            for sh, f in spec:
                idx = [T.fresh("e") for _ in sh]
                r.append((sh, idx, f(*idx)))
        finally:
            S.OPAQUE[0] = old
        _spec_cache[c.id] = r
    return r


def spec_eval(c, V, dims, dtype=nume.LD, noise=None):
    ev = build(c, V, dims, dtype, noise)
    outs = []
    for sh, idx, t in spec_terms(c):
        shape = tuple(int(np.asarray(ev.term(s))) for s in sh)
        m = lambda *i: T.subst(t, dict(zip(idx, i))) if idx else t
        sc = ev.root
        n = len(shape)
        for k in range(n - 1, -1, -1):
            val = np.arange(shape[k]).reshape((shape[k],) + (1,) * sc.depth)
            sc = nume.Scope(sc, idx[k], val)
        with np.errstate(all="ignore"):
            r = np.asarray(ev.ev(t, sc))
        outs.append(np.array(np.broadcast_to(r, shape)) if n else np.array(r).reshape(()))
    EXTREME[0] = ev.extreme
    return outs


EXTREME = [False]


def real_eval(c, V):
    import jax

    f = c.resolve()
    out = c.apply(f, {k: (v if c.args[k] == "key" else np.asarray(v)) for k, v in V.items()})
    leaves = jax.tree_util.tree_leaves(out)
    return [np.asarray(x) for x in leaves]


def compare(c, real, spec, spec64, slack=None):
    """-> None or description of the mismatch"""
    if len(real) != len(spec):
        return dict(why="%d outputs instead of %d" % (len(real), len(spec)))
    for k, (r, s, s6) in enumerate(zip(real, spec, spec64)):
        if r.shape != s.shape:
            return dict(why="output %d has shape %s, contract says %s" % (k, r.shape, s.shape))
        if r.dtype.kind == "f" and r.dtype != np.float64:
            return dict(why="output %d has dtype %s" % (k, r.dtype))
        if r.size == 0:
            continue
        rf = r.astype(nume.LD)
        with np.errstate(all="ignore"):
            fin = np.isfinite(s.astype(float))
            sc = np.abs(s[fin]).max() if fin.any() else 0
            tol = c.rtol * np.abs(s) + c.scale_tol * sc + c.atol
            if slack is not None:
                tol = tol + 300 * slack[k]
            bad = ~(np.abs(rf - s) <= tol) & fin
            # either rounding of the specification is accepted (ties)
            ok6 = (np.abs(rf - s6) <= c.rtol * np.abs(s6) + c.scale_tol * sc + c.atol)
            bad &= ~ok6
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.abs(rf - s) / (tol + 1e-300), -1)), r.shape) if r.ndim else ()
            return dict(why="output %d at index %s: real code %.17g, specification %.17g" % (
                k, tuple(int(x) for x in i), float(r[i]), float(s[i])),
                output=k, index=[int(x) for x in i], real=float(r[i]), spec=float(s[i]))
    return None


def mined_literals(c):
    """float literals of the traced program (to aim the search at thresholds)"""
    out = set()
    try:
        import jax

        dims = dims_choices(c)[0]
        f = c.resolve()
        avals = []
        for k in c.args:
            sh = c.shape_of(k, dims)
            avals.append(jax.eval_shape(lambda: jax.random.PRNGKey(0)) if sh is None else jax.ShapeDtypeStruct(sh, np.float64))
        j = jax.make_jaxpr(lambda *x: c.apply(f, dict(zip(c.args, x))))(*avals)

        def walk(jp):
            for e in jp.eqns:
                for v in e.invars:
                    if type(v).__name__ == "Literal" and np.ndim(v.val) == 0:
                        x = float(v.val)
                        if np.isfinite(x):
                            out.add(x)
                for p in e.params.values():
                    for q in (p if isinstance(p, (tuple, list)) else (p,)):
                        if hasattr(q, "jaxpr"):
                            walk(q.jaxpr if hasattr(q.jaxpr, "eqns") else q.jaxpr.jaxpr)
                        elif hasattr(q, "eqns"):
                            walk(q)
        walk(j.jaxpr)
    except Exception:
        pass
    return sorted(out)


def mutate(c, V, rng, lits):
    V = {k: np.array(v, copy=True) for k, v in V.items()}
    names = [k for k in V if c.args[k] != "key"]
    if not names:
        return V
    for _ in range(1 + rng.integers(3)):
        k = names[rng.integers(len(names))]
        x = lits[rng.integers(len(lits))] if lits and rng.random() < 0.75 else rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 100.0, 1e-3])
        x = [x, x * (1 + 1e-3), x - 1e-3, x * 1.05, x * 0.95, -x, x + 1, 2 * x, x / 2][rng.integers(9)]
        v = V[k]
        if v.ndim == 0:
            V[k] = np.asarray(x)
        else:
            i = tuple(rng.integers(s) for s in v.shape)
            if rng.random() < 0.5:
                v[i] = x
            elif rng.random() < 0.5:
                v += x - v[i]
            elif v[i] != 0:
                v *= x / v[i]
    return V


def search(c, seed, n, tmax, hard=False, extra=()):
    """sample inputs satisfying `requires`; compare the real code with the contract.
    -> (samples run, mismatch or None)"""
    rng = np.random.default_rng([seed, sum(map(ord, c.id))])
    t0 = time.time()
    done = 0
    lits = mined_literals(c) if hard else []
    ch = dims_choices(c)
    cands = list(extra)
    k = 0
    gen = iter(())
    if hard:
        from . import cover

        def smp(r, dims):
            V = c.sample(r, dims)
            return {kk: (v if c.args[kk] == "key" else np.asarray(v, float)) for kk, v in V.items() if kk in c.args}
        gen = cover.candidates(c, np.random.default_rng([seed, 77]), smp, lambda V, dims: requires_hold(c, V, dims), ch, lits, 0.7 * tmax)
    while done < n and time.time() - t0 < tmax and k < 6 * n + 20:
        W = None
        if hard and not cands and k % 2:
            try:
                W = next(gen, None)
            except Exception:
                gen = iter(())
        if cands:
            V, dims = cands.pop(0)
            V = {kk: (v if c.args[kk] == "key" else np.asarray(v, float)) for kk, v in V.items() if kk in c.args}
        elif W is not None:
            V, dims = W
        else:
            dims = ch[k % len(ch)] if not hard else ch[(k // 3) % len(ch)]
            V = c.sample(rng, dims)
            V = {kk: (v if c.args[kk] == "key" else np.asarray(v, float)) for kk, v in V.items() if kk in c.args}
            if hard and k % 3:
                V = mutate(c, V, rng, lits)
        k += 1
        try:
            if not requires_hold(c, V, dims):
                continue
        except nume.Undef:
            raise
        m = run_one(c, V, dims, hard)
        done += 1
        if m is not None:
            return done, m
    return done, None


def search_ints(c, seed, sets, tmax, n=40):
    """integer types for the given sets of arguments; the specification sees the same numbers"""
    rng = np.random.default_rng([seed, 5])
    t0, done = time.time(), 0
    ch = dims_choices(c)
    k = 0
    while time.time() - t0 < tmax and done < n * len(sets) and k < 40 * n:
        s = sets[k % len(sets)]
        dims = ch[(k // len(sets)) % len(ch)]
        k += 1
        V = c.sample(rng, dims)
        V = {kk: (v if c.args[kk] == "key" else np.asarray(v, float)) for kk, v in V.items() if kk in c.args}
        for x in s:
            v = np.round(V[x] * [1, 3, 10, -1][rng.integers(4)])
            if v.ndim == 1 and rng.random() < 0.6:
                v = np.round(V[x]) + np.cumsum(rng.integers(1, 4, v.shape))
            V[x] = v
        if not requires_hold(c, V, dims):
            continue
        V = {kk: (v.astype(np.int64) if kk in s else v) for kk, v in V.items()}
        done += 1
        m = run_one(c, V, dims, True)
        if m is not None:
            m["why"] = "integer %s: %s" % (", ".join(s), m["why"])
            return done, m
    return done, None


def search_history(c, seed, tmax, n=300):
    """the same calls again and again (every call traced anew): does the result drift away from
    the contract?"""
    import jax

    rng = np.random.default_rng([seed, 6])
    t0, done = time.time(), 0
    ch = dims_choices(c)
    pool = []
    for k in range(40):
        dims = ch[k % len(ch)]
        V = c.sample(rng, dims)
        V = {kk: (v if c.args[kk] == "key" else np.asarray(v, float)) for kk, v in V.items() if kk in c.args}
        if requires_hold(c, V, dims):
            pool.append((V, dims, spec_eval(c, V, dims)))
        if len(pool) == 3:
            break
    hist = []
    while pool and time.time() - t0 < tmax and done < n:
        V, dims, spec = pool[done % len(pool)]
        jax.clear_caches()
        done += 1
        hist.append({k: np.asarray(v).tolist() for k, v in V.items()})
        try:
            real = real_eval(c, V)
        except Exception:
            real = None
        if real is None or compare(c, real, spec, spec) is not None:
            m = run_one(c, V, dims)
            if m is not None:
                m["why"] = "after %d calls: %s" % (done, m["why"])
                m["history"] = hist[-3:]
                return done, m
    return done, None


def run_one(c, V, dims, hard=False):
    try:
        real = real_eval(c, V)
    except Exception as ex:
        m = dict(why="the real code raised %s: %s" % (type(ex).__name__, str(ex)[:300]))
        m["input"] = {k: np.asarray(v).tolist() for k, v in V.items()}
        m["dims"] = dims
        return m
    spec = spec_eval(c, V, dims)
    if hard and EXTREME[0]:
        return None  # an artificial input beyond the range of double precision decides nothing
    m = compare(c, real, spec, spec)
    if m is not None:
        m = compare(c, real, spec, spec_eval(c, V, dims, np.float64))
    if m is not None and m.get("index") is not None and c.ties:
        # ill-conditioned input, or a discontinuity crossed by rounding?  how much does the
        # specification itself move under relative perturbations of 2e-13 of the input, or
        # when every operation of it is rounded?
        rs = np.random.default_rng(0)
        slack = [np.zeros(s.shape) for s in spec]
        for trial in range(12):
            V2 = {k: (v if c.args[k] == "key" else np.asarray(v) * (1 + rs.uniform(-2e-13, 2e-13, np.shape(v)))) for k, v in V.items()} if trial % 2 else V
            try:
                s2 = spec_eval(c, V2, dims, noise=None if trial % 2 else rs)
            except Exception:
                continue
            if compare(c, real, s2, s2) is None:
                return None
            with np.errstate(all="ignore"):
                slack = [np.fmax(a, np.abs((x - y).astype(float))) for a, x, y in zip(slack, s2, spec)]
        if compare(c, real, spec, spec, slack) is None:
            return None
        if not np.isfinite(m.get("real", 0.0)):
            # nan or inf: a denominator that rounding alone can turn into zero proves nothing
            for a, s in zip(slack, spec):
                with np.errstate(all="ignore"):
                    sc = np.abs(s[np.isfinite(s)]).max() if np.isfinite(s).any() else 0
                    if np.any(~np.isfinite(a)) or np.any(a > 1e-5 * sc):
                        return None
    if m is not None:
        m["input"] = {k: np.asarray(v).tolist() for k, v in V.items()}
        m["dims"] = dims
        m["real_output"] = [np.asarray(r, float).tolist() for r in real]
        m["spec_output"] = [np.asarray(s, float).tolist() for s in spec]
    return m
