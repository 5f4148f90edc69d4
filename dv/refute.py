"""Numerical refutation: goals that are false on sampled data satisfying all the facts in force
are not worth a proof attempt.  (Only ever used to give up: nothing is accepted because of it.)"""
import numpy as np

from . import terms as T
from . import nume

EVALS = []      # evaluators of sampled inputs of the contract in hand (they satisfy its precondition)
STAT = dict(asked=0, refuted=0)


def setup(c, dims, facts=(), conds=()):
    from . import replay, contract as C
    del EVALS[:]
    if c.sample is None:
        return
    rng = np.random.default_rng(17)
    ch = [dims] if dims else C.dims_of_path(c, list(conds), list(facts)) or replay.dims_choices(c)[:1]
    lb = dict(T.DIM_LB)
    try:
        for _ in range(40):
            V = c.sample(rng, ch[0])
            V = {k: (v if c.args[k] == "key" else np.asarray(v, float)) for k, v in V.items() if k in c.args}
            if replay.requires_hold(c, V, ch[0]):
                # the same data evaluated exactly, and twice with every operation rounded at random
                EVALS.append([replay.build(c, V, ch[0])] + [replay.build(c, V, ch[0], noise=np.random.default_rng(k)) for k in (1, 2)])
                if len(EVALS) == 4:
                    break
    except Exception:
        del EVALS[:]
    finally:
        T.DIM_LB.clear()
        T.DIM_LB.update(lb)


def consts_of(t, out, depth=0):
    if t.op == "lam" or depth > 4:
        return
    for a in t.args:
        if isinstance(a, T.Term):
            consts_of(a, out, depth + 1)
        elif not isinstance(a, str) and a == int(a) and 1 < abs(a) < 5000:
            out.add(abs(int(a)))


def refuted(d, op, ctx, e=None):
    """is `d op 0` (`d op e`) false somewhere on the sampled data?  (on at least two of the samples)"""
    if len(EVALS) < 2 or d.sort != "R":
        return False
    STAT["asked"] += 1
    facts = [f for f in ctx.facts if f.op != "forall"]
    hits = 0
    for ev in EVALS:
        r = one(ev, d, op, facts, e)
        if r is None:
            return False
        hits += r
        if hits >= 2:
            STAT["refuted"] += 1
            return True
    return False


def value(ev, d, e, fv, cs):
    """-> (value of d - e, sum of the magnitudes) on the grid of values of the index variables"""
    sc = scope(ev, fv, cs)
    val = np.asarray(ev.ev(d, sc), nume.LD)
    if e is not None:
        w = np.asarray(ev.ev(e, sc), nume.LD)
        return val - w, np.abs(val) + np.abs(w)
    if d.op != "add":
        return val, np.abs(val)
    mag = np.asarray(abs(float(d.args[0])), nume.LD)
    for x, c in zip(d.args[1::2], d.args[2::2]):
        mag = mag + abs(float(c)) * np.abs(np.asarray(ev.ev(x, sc), nume.LD))
    return val, mag


def scope(ev, fv, cs):
    sc = ev.root
    for v in fv:
        sc = nume.Scope(sc, v, np.array(cs).reshape((len(cs),) + (1,) * sc.depth))
    return sc


def one(evs, d, op, facts, e=None):
    ev = evs[0]
    fv = set(T.free_vars(d)) | set(T.free_vars(e) if e is not None else ())
    for f in facts:
        fv |= T.free_vars(f)
    fv = [v for v in sorted(fv, key=lambda v: v.id) if v.args[0] not in ev.scalars]
    if any(v.sort != "I" or v.args[0].startswith("dim:") for v in fv) or len(fv) > 4:
        return None
    cs = {0, 1, 2, 3}
    for k, v in ev.scalars.items():
        if k.startswith("dim:"):
            cs |= {int(v) - 2, int(v) - 1}
    more = set()
    for f in facts:
        if T.free_vars(f) & set(fv):
            consts_of(f, more)
    more = sorted(more, reverse=True)
    cs |= set(more[:3]) | {k - 1 for k in more[:2]} | {k // 2 for k in more[:1]}
    cs = sorted(c for c in cs if c >= 0)
    if len(fv) > 2 and len(cs) > 8:
        cs = cs[:6] + cs[-2:]
    try:
        with np.errstate(all="ignore"):
            sc = scope(ev, fv, cs)
            ok = np.asarray(True)
            for f in facts:
                ok = np.logical_and(ok, ev.ev(f, sc))
                if not ok.any():
                    return 0
            val, mag = value(ev, d, e, fv, cs)
            bad = ok & np.isfinite(val) & np.isfinite(mag) & (mag > 1e-250)
            bad = bad & ({"eq": np.abs(val), "lt": val, "le": val}[op] > 1e-6 * mag)
            for other in evs[1:]:
                if not np.any(bad):
                    return 0
                v2, _ = value(other, d, e, fv, cs)
                bad = bad & np.isfinite(v2) & (np.abs(val) > 1e5 * np.abs(v2 - val))
            return int(bool(np.any(bad)))
    except (nume.Undef, ValueError, IndexError, TypeError, OverflowError, ZeroDivisionError):
        return None
