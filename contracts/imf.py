"""Contracts: surviving and remnant mass fractions (dsps/imf)"""
import importlib

import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, lt, le
from . import spec as S
from . import gen as G

SURV = "dsps.imf.surviving_mstar"
REMN = "dsps.imf.remnant_mass"
# documented calibrations
SURV_P = dict(a="0.225", b="8", lgk1="-0.5", d="0.145", e="0.08", f="6.5", lgk2="0.7", h="0.005")
SURV_IMF = dict(SALPETER=dict(a="0.13", d="0.055"), CHABRIER=dict(a="0.225", d="0.145"),
                KROUPA=dict(a="0.211", d="0.13"), VAN_DOKKUM=dict(a="0.238", d="0.156"))
REMN_P = dict(a="-1.42", b="7", lgk1="1", d="1.3", e="0.2")
REMN_IMF = dict(SALPETER=dict(a="-1.67"), CHABRIER=dict(a="-1.42"), KROUPA=dict(a="-1.45"), VAN_DOKKUM=dict(a="-1.4"))


def surviving(x, p):
    z = S.sig_slope(x, p["b"], p["a"], p["b"], T.pow10(p["lgk1"]), p["d"], p["e"])
    return 1 - S.sigmoid(x, p["f"], T.pow10(p["lgk2"]), p["h"], z)


def remnant(x, p):
    return T.pow10(S.sig_slope(x, p["b"], p["a"], p["b"], T.pow10(p["lgk1"]), p["d"], p["e"]))


def consts(p):
    return {k: S.c(v) for k, v in p.items()}


def s_par(names):
    def sample(r, d):
        v = {k: float(r.normal()) for k in names}
        v["lg"] = r.uniform(4, 12, d["n"])
        return v
    return sample


def s_lg(r, d):
    return dict(lg=r.choice([r.uniform(4, 12, d["n"]), r.uniform(5.5, 7.5, d["n"])]))


def unit_interval(p):
    def go(E, P):
        x = T.var("x")
        y = surviving(x, p)
        P.box(and_(lt(R(0), y), lt(y, R(1))), {x: (4, 12)})
        i = T.fresh("i")
        P.sub(P.ctx.assume(le(I(0), i), lt(i, E.n))).show(T.eq(E.out[0][i], surviving(E.lg(i), p)))
    return go


def below_one(p):
    def go(E, P):
        x = T.var("x")
        y = remnant(x, p)
        P.show(lt(R(0), y))
        P.box(lt(y, R(1)), {x: (0, 12)})        # every age from one year to 10^12 yr
        i = T.fresh("i")
        P.sub(P.ctx.assume(le(I(0), i), lt(i, E.n))).show(T.eq(E.out[0][i], remnant(E.lg(i), p)))
    return go


for kind, mod, P0, imfs, f, lem in [("surviving", SURV, SURV_P, SURV_IMF, surviving, unit_interval),
                                    ("remnant", REMN, REMN_P, REMN_IMF, remnant, below_one)]:
    fn = dict(surviving="surviving_mstar", remnant="remnant_mass")[kind]
    Contract(kind, mod + ":" + fn, dict(lg=("n",), **{k: () for k in P0}), dims=dict(n=1),
             ensures=lambda E, f=f, P0=P0: SArr((E.n,), lambda i: f(E.lg(i), {k: getattr(E, k) for k in P0})), sample=s_par(list(P0)))
    Contract(kind + "_scalar", mod + ":" + fn, dict(lg=(), **{k: () for k in P0}),
             ensures=lambda E, f=f, P0=P0: f(E.lg, {k: getattr(E, k) for k in P0}),
             sample=lambda r, d, P0=P0: {k: float(r.normal()) for k in ["lg"] + list(P0)})
    dflt = consts(P0)
    Contract(kind + "_default", mod + ":" + fn, dict(lg=("n",)), dims=dict(n=1),
             ensures=lambda E, f=f, p=dflt: SArr((E.n,), lambda i: f(E.lg(i), p)), sample=s_lg,
             lemmas={"in_range": lem(dflt)})
    for imf, upd in imfs.items():
        p = consts(dict(P0, **upd))

        def call(g, V, mod=mod, imf=imf):
            return g(V.lg, **getattr(importlib.import_module(mod), imf + "_PARAMS"))
        Contract("%s_%s" % (kind, imf.lower()), mod + ":" + fn, dict(lg=("n",)), dims=dict(n=1), call=call,
                 ensures=lambda E, f=f, p=p: SArr((E.n,), lambda i: f(E.lg(i), p)), sample=s_lg, lemmas={"in_range": lem(p)})
