"""Candidate failing inputs from a failed obligation: (1) solver model of the failing
branch, (2) numeric search for inputs that take the failing branch.  Candidates are
only ever replayed on the real code."""
import time

import numpy as np
import z3

from . import terms as T
from . import prover as P
from . import nume
from . import replay
from .terms import I, and_, or_, not_, le, lt


def concretise(t, m):
    t = T.subst(t, m)

    def go(t):
        if t.op == "forall":
            lo, hi = t.args[0], t.args[1]
            if T.is_const(lo) and T.is_const(hi) and T.cval(hi) - T.cval(lo) <= 12:
                return and_(*[go(T.open_(t.args[2], I(k))) for k in range(T.cval(lo), T.cval(hi))])
            return T.TRUE
        if t.op in ("and", "or", "not"):
            return T.rebuild(t, [go(a) for a in t.args])
        return t

    return go(t)


def _val(m, e):
    v = m.eval(e, model_completion=False)
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    return None


def solver_models(c, obl, dims, n=3):
    r = obl.res
    if r is None or getattr(r, "ctx", None) is None:
        return
    lb = dict(T.DIM_LB)
    T.DIM_LB.clear()
    m = {T.var("dim:" + d, "I"): T.const(v, "I") for d, v in dims.items()}
    facts = [concretise(f, m) for f in r.ctx.facts]
    goals = []
    if r.goal is not None:
        goals.append(not_(concretise(r.goal, m)))
    goals.append(T.TRUE)
    rng = np.random.default_rng(5)
    for g in goals:
        z = P.Z()
        s = z3.Solver()
        s.set("timeout", 2500)
        try:
            cs = [z(f) for f in facts] + [z(g)]
            cs += P.function_axioms(z, None) + z.inv_axioms()
            s.add(*cs)
        except Exception:
            continue
        for _ in range(n):
            if s.check() != z3.sat:
                break
            mod = s.model()
            V = c.sample(rng, dims)
            V = {k: (v if c.args[k] == "key" else np.array(v, float)) for k, v in V.items() if k in c.args}
            block = []
            for k in c.args:
                if c.args[k] == "key":
                    continue
                if V[k].ndim == 0:
                    e = z3.Real(k)
                    v = _val(mod, e)
                    if v is not None:
                        V[k] = np.asarray(float(v))
                        block.append(z3.Or(e > mod.eval(e) + 1, e < mod.eval(e) - 1))
                else:
                    f = z.fn.get(("sel:" + k, tuple(["I"] * V[k].ndim), "R"))
                    if f is None:
                        continue
                    for idx in np.ndindex(V[k].shape):
                        v = _val(mod, f(*[z3.IntVal(i) for i in idx]))
                        if v is not None:
                            V[k][idx] = float(v)
            yield V, dims
            if not block:
                break
            s.add(z3.Or(block))
    T.DIM_LB.update(lb)


def _violation(ev, f, scope_vars):
    """how far a ground fact is from holding, vectorised over the index variables"""
    if f.op == "and":
        return sum(_violation(ev, a, scope_vars) for a in f.args)
    if f.op == "or":
        vs = [_violation(ev, a, scope_vars) for a in f.args]
        r = vs[0]
        for v in vs[1:]:
            r = np.minimum(r, v)
        return r
    sc = scope_vars
    if f.op in ("lt", "le") and f.args[0].sort in "RI":
        v = np.asarray(ev.ev(f.args[0], sc), float)
        ok = np.asarray(ev.ev(f, sc))
        with np.errstate(all="ignore"):
            r = np.where(ok, 0.0, 1e-6 + np.minimum(np.abs(v), 1e6) / (1 + np.minimum(np.abs(v), 1e6)))
        return np.where(np.isnan(v), 2.0, r)
    if f.op == "eq" and f.args[0].sort in "RI":
        v = np.asarray(ev.ev(f.args[0], sc), float)
        a = np.abs(v)
        with np.errstate(all="ignore"):
            r = np.where(a == 0, 0.0, 1e-6 + a / (1 + a))
        return np.where(np.isnan(v), 2.0, r)
    ok = np.asarray(ev.ev(f, sc))
    return np.where(ok, 0.0, 1.0)


def guided(c, obl, dims, tmax=6.0, seed=0):
    r = obl.res
    if r is None or getattr(r, "ctx", None) is None:
        return
    T.DIM_LB.clear()
    rng = np.random.default_rng(seed + 17)
    req = set(c.requires(c.env(c.dimterms()))) if c.requires else set()
    facts = [f for f in r.ctx.facts if f not in req and not any(
        x.args[0].startswith(("wit!", "q!")) for x in T.free_vars(f))]
    dimv = {T.var("dim:" + d, "I") for d in dims}
    names = {T.var(k, "R") for k in c.args}
    free = sorted({v for f in facts for v in T.free_vars(f)} - dimv - names, key=lambda v: v.id)
    free = [v for v in free if v.sort == "I"]
    if len(free) > 4:
        return
    dmax = max(dims.values(), default=1) + 1

    def score(V):
        ev = replay.build(c, V, dims)
        sc = ev.root
        for v in free:
            val = np.arange(dmax).reshape((dmax,) + (1,) * sc.depth)
            sc = nume.Scope(sc, v, val)
        tot = np.zeros(())
        for f in facts:
            try:
                tot = tot + _violation(ev, f, sc)
            except nume.Undef:
                pass
        return float(np.nanmin(tot))

    t0 = time.time()
    found = 0
    lits = replay.mined_literals(c)
    while time.time() - t0 < tmax and found < 12:
        V = c.sample(rng, dims)
        V = {k: (v if c.args[k] == "key" else np.array(v, float)) for k, v in V.items() if k in c.args}
        best = score(V)
        for _ in range(60):
            if best == 0 or time.time() - t0 > tmax:
                break
            W = replay.mutate(c, V, rng, lits) if rng.random() < 0.4 else tweak(c, V, rng)
            try:
                if not replay.requires_hold(c, W, dims):
                    continue
                s = score(W)
            except Exception:
                continue
            if s <= best:
                V, best = W, s
        if best == 0:
            found += 1
            yield V, dims
            # neighbours in the same branch
            for _ in range(3):
                yield tweak(c, V, rng), dims


def tweak(c, V, rng):
    W = {k: np.array(v, copy=True) for k, v in V.items() if k in c.args}
    ks = [k for k in W if c.args[k] != "key"]
    k = ks[rng.integers(len(ks))]
    s = 10.0 ** rng.uniform(-3, 0.5)
    if W[k].ndim == 0:
        W[k] = W[k] * (1 + s * rng.normal()) if rng.random() < 0.5 else W[k] + s * rng.normal()
    elif rng.random() < 0.6:
        i = tuple(rng.integers(q) for q in W[k].shape)
        W[k][i] = W[k][i] * (1 + s * rng.normal()) if rng.random() < 0.5 else W[k][i] + s * rng.normal()
    else:
        W[k] = W[k] * (1 + s * rng.normal()) if rng.random() < 0.5 else W[k] + s * rng.normal()
    return W


def candidates(c, obl):
    out = []
    for dims in replay.dims_choices(c)[:2]:
        out += list(solver_models(c, obl, dims))
    for dims in replay.dims_choices(c)[:1]:
        out += list(guided(c, obl, dims))
    return out
