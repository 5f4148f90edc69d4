"""Contracts: random draws of relation parameters (dsps/metallicity/umzr.py)"""
import numpy as np

from dv.contract import Contract
from dv import terms as T
from dv.terms import I, and_, lt, le
from . import spec as S
from . import gen as G


def split(key, num, i):
    return tuple(T._mk("fn", ("split", key[0], key[1], I(num), I(i), I(j)), "I") for j in (0, 1))


KEY = lambda: tuple(T.sel("key", (I(j),), "I") for j in (0, 1))
uniform = lambda key: T.fn("U", *key)

# ---------------------------------------------------------------- metallicity relation
T0_BOUNDS = (("-1", "0.25"), ("10.25", "10.75"), ("0.5", "2"), ("0.1", "1"), ("0", "0.3"))


def t0_draws(E):
    key, out = KEY(), []
    for lo, hi in T0_BOUNDS:
        key, own = split(key, 2, 0), split(key, 2, 1)
        out.append(S.c(lo) + (S.c(hi) - S.c(lo)) * uniform(own))
    return out


def t0_inside(E, P):
    for (lo, hi), v in zip(T0_BOUNDS, E.out):
        P.show(and_(le(S.c(lo), v), lt(v, S.c(hi))))


Contract("ran_t0", "dsps.metallicity.umzr:get_ran_t0_params", dict(key="key"), ensures=t0_draws, sample=lambda r, d: dict(key=G.key(r)),
         call=lambda f, V: tuple(f(V.key)), lemmas=dict(inside_bounds=t0_inside))
