"""Contracts: mass-metallicity relation (dsps/metallicity)"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, log10
from . import spec as S
from . import gen as G
from . import lemmas as L

M, U = "dsps.metallicity.mzr:", "dsps.metallicity.umzr:"
SOLAR = log10(S.c("0.012"))
T0, K_EVOL, TLC = S.c("12.5"), S.c("1.6"), S.c("8.44")


# ---------------------------------------------------------------- the relation
def today(x, ytp, x0, k, lo, hi, pivot):
    """log10(Z) at the present day"""
    return S.sig_slope(x, pivot, ytp, x0, k, lo, hi) + SOLAR


def reduction(x, t, c0, c1, tc, e0, e1):
    """change of log10(Z) relative to the present day: never positive"""
    look = T0 - t
    look = ite(lt(look, R(0)), R(0), look)
    y = c0 + c1 * x
    early = e0 + e1 * x
    dz = S.sig_slope(look, tc, y, tc, K_EVOL, y / tc, early)
    return ite(lt(R(0), dz), R(0), dz)


T0P = ("ytp", "x0", "k", "lo", "hi")
EVP = ("c0", "c1", "e0", "e1")


def s_mzr(r, d):
    n = d.get("n")
    V = dict(x=G.pick(r, 6, 12, n), t=r.choice([r.uniform(0.1, 14), 12.5, 14.0]) if n is None else np.where(
        r.random(n) < 0.3, 13.0, r.uniform(0.1, 14, n)))
    V.update(ytp=r.uniform(-1, 0.25), x0=r.uniform(10, 11), k=G.posv(r, 0.3, 3), lo=r.uniform(0.1, 1), hi=r.uniform(0, 0.3),
             c0=r.uniform(-2, -1), c1=r.uniform(0, 0.5), e0=r.uniform(-1.5, -0.5), e1=r.uniform(0, 0.5), tc=r.uniform(4, 11))
    if r.random() < 0.3:
        V.update(c0=2.0, e0=1.0)
    return V


ARGS = {k: () for k in ("x", "t") + T0P + ("c0", "c1", "tc", "e0", "e1")}
UARGS = {k: () for k in ("x", "t") + T0P + EVP}
vec = lambda A: dict(A, x=("n",), t=("n",))
tcpos = lambda E: [lt(R(0), E.tc)]


def spec1(x, t, E):
    return today(x, E.ytp, E.x0, E.k, E.lo, E.hi, E.x0) + reduction(x, t, E.c0, E.c1, E.tc, E.e0, E.e1)


def spec2(x, t, E):
    return today(x, E.ytp, E.x0, E.k, E.lo, E.hi, S.c("10.5")) + reduction(x, t, E.c0, E.c1, TLC, E.e0, E.e1)


def _tc(E):
    return getattr(E, "tc", TLC)


def never_above_today(E, P):
    P.show(le(reduction(E.x, E.t, E.c0, E.c1, _tc(E), E.e0, E.e1), R(0)))


def frozen(E, P):
    """no evolution after 12.5 Gyr"""
    P = P.suppose(le(T0, E.t))
    P.show(eq(reduction(E.x, E.t, E.c0, E.c1, _tc(E), E.e0, E.e1), reduction(E.x, T0, E.c0, E.c1, _tc(E), E.e0, E.e1)))


def slopes(E, P):
    """the local slope stays between the two limits: the relation is a line through the
    pivot with a slope between lo and hi"""
    P = P.suppose(le(E.hi, E.lo))
    f = S.sigmoid(E.x, E.x0, E.k, E.lo, E.hi)
    u = L.sig_frac(E.k * (E.x - E.x0))
    P.have(and_(lt(R(0), u), lt(u, R(1))))
    P.have(eq(f, E.lo + (E.hi - E.lo) * u))
    P.have(le(R(0), (E.lo - E.hi) * u)).have(le(R(0), (E.lo - E.hi) * (1 - u)))
    P.show(and_(le(E.hi, E.lo + (E.hi - E.lo) * u), le(E.lo + (E.hi - E.lo) * u, E.lo)))


LEM = dict(never_above_today=never_above_today, frozen_after_12p5_gyr=frozen)
Contract("mzr", M + "mzr_model", ARGS, requires=tcpos, ensures=lambda E: spec1(E.x, E.t, E), sample=s_mzr, lemmas=LEM)
Contract("mzr_arr", M + "mzr_model", vec(ARGS), dims=dict(n=1), requires=tcpos,
         ensures=lambda E: SArr((E.n,), lambda i: spec1(E.x(i), E.t(i), E)), sample=s_mzr)
Contract("umzr", U + "mzr_model", UARGS, ensures=lambda E: spec2(E.x, E.t, E), sample=s_mzr, lemmas=LEM)
Contract("umzr_arr", U + "mzr_model", vec(UARGS), dims=dict(n=1),
         ensures=lambda E: SArr((E.n,), lambda i: spec2(E.x(i), E.t(i), E)), sample=s_mzr)
T0A = {k: () for k in ("x",) + T0P}
Contract("mzr_t0", M + "mzr_model_t0", T0A, ensures=lambda E: today(E.x, E.ytp, E.x0, E.k, E.lo, E.hi, E.x0),
         sample=s_mzr, lemmas=dict(slope_between_limits=slopes))
Contract("umzr_t0", U + "mzr_model_t0", T0A, ensures=lambda E: today(E.x, E.ytp, E.x0, E.k, E.lo, E.hi, S.c("10.5")),
         sample=s_mzr, lemmas=dict(slope_between_limits=slopes))
EVA = {k: () for k in ("x", "t", "c0", "c1", "tc", "e0", "e1")}
Contract("mzr_evol", M + "mzr_evolution_model", EVA, requires=tcpos,
         ensures=lambda E: reduction(E.x, E.t, E.c0, E.c1, E.tc, E.e0, E.e1), sample=s_mzr)
Contract("umzr_evol", U + "mzr_evolution_model", {k: v for k, v in EVA.items() if k != "tc"},
         ensures=lambda E: reduction(E.x, E.t, E.c0, E.c1, TLC, E.e0, E.e1), sample=s_mzr)
Contract("maiolino", M + "maiolino08_metallicity_evolution", dict(x=(), m0=(), k0=()),
         ensures=lambda E: R(-12) - S.c("0.0864") * (E.x - E.m0) * (E.x - E.m0) + E.k0,
         sample=lambda r, d: dict(x=G.pick(r, 7, 12), m0=r.uniform(10, 13), k0=r.uniform(8, 10)),
         lemmas=dict(peak=lambda E, P: P.show(le(E.out[0], R(-12) + E.k0))))

# ---------------------------------------------------------------- bounded/unbounded parameters
BOUNDS = dict(ytp=("-1", "0.25"), x0=("10.25", "10.75"), k=("0.5", "2"), lo=("0.1", "1"), hi=("0", "0.3"),
              c0=("-2", "-1"), c1=("0", "0.5"), e0=("-1.5", "-0.5"), e1=("0", "0.5"))
PN = T0P + EVP
FIELDS = ("mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi", "c0_y_at_tlook_c",
          "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope")
KB = S.c("0.1")


def lohi(k):
    return S.c(BOUNDS[k][0]), S.c(BOUNDS[k][1])


def bounded(E):
    out = {}
    for k in PN:
        lo, hi = lohi(k)
        if k == "hi":
            out[k] = S.sigmoid(E.hi, R(0), KB, R(0), out["lo"])
        else:
            out[k] = S.sigmoid(getattr(E, k), (lo + hi) / 2, KB, lo, hi)
    return [out[k] for k in PN]


def unbounded(E):
    out = {}
    for k in PN:
        lo, hi = lohi(k)
        if k == "hi":
            out[k] = S.inv_sigmoid(E.hi, R(0), KB, R(0), E.lo)
        else:
            out[k] = S.inv_sigmoid(getattr(E, k), (lo + hi) / 2, KB, lo, hi)
    return [out[k] for k in PN]


def in_bounds(E):
    r = []
    for k in PN:
        lo, hi = lohi(k)
        if k == "hi":
            hi = E.lo
        r += [lt(lo, getattr(E, k)), lt(getattr(E, k), hi)]
    return r


def strictly_inside(E, P):
    outs = dict(zip(PN, E.out))
    for k in PN:
        lo, hi = lohi(k)
        if k == "hi":
            lo, hi, z = R(0), outs["lo"], KB * E.hi
        else:
            z = KB * (getattr(E, k) - (lo + hi) / 2)
        L.sig_inside(P, outs[k], z, lo, hi)


def s_u(r, d):
    return {k: float(r.normal() * 10 ** r.uniform(0, 1.5)) + sum(float(b) for b in BOUNDS[k]) / 2 for k in PN}


def s_b(r, d):
    V = {}
    for k in PN:
        lo, hi = map(float, BOUNDS[k])
        if k == "hi":
            hi = V["lo"]
        V[k] = lo + (hi - lo) * r.uniform(0.001, 0.999)
    return V


def _call(cls):
    def call(f, V):
        import dsps.metallicity.umzr as m
        return f(getattr(m, cls)(*[getattr(V, k) for k in PN]))
    return call


def roundtrip_b(E, P):
    """bounded -> unbounded -> bounded is the identity"""
    for k in PN:
        lo, hi = lohi(k)
        x0 = (lo + hi) / 2
        if k == "hi":
            lo, hi, x0 = R(0), E.lo, R(0)
        L.sig_roundtrip(P.sub(), getattr(E, k), x0, KB, lo, hi)


def roundtrip_u(E, P):
    outs = dict(zip(PN, E.out))
    for k in PN:
        lo, hi = lohi(k)
        x0 = (lo + hi) / 2
        if k == "hi":
            lo, hi, x0 = R(0), outs["lo"], R(0)
            L.sig_inside(P, hi, KB * (E.lo - (lohi("lo")[0] + lohi("lo")[1]) / 2), *lohi("lo"))
        L.sig_roundtrip_inv(P.sub(), getattr(E, k), x0, KB, lo, hi)


PA = {k: () for k in PN}
Contract("bounded_mzr", U + "get_bounded_mzr_params", PA, ensures=bounded, sample=s_u, call=_call("MZRUParams"),
         outnames=FIELDS, lemmas=dict(strictly_inside_bounds=strictly_inside, inverse=roundtrip_u), budget=60)
Contract("unbounded_mzr", U + "get_unbounded_mzr_params", PA, requires=in_bounds, ensures=unbounded, sample=s_b,
         call=_call("MZRParams"), outnames=tuple("u_" + f for f in FIELDS), lemmas=dict(inverse=roundtrip_b), budget=60)


# ---------------------------------------------------------------- packaged defaults
def _umod():
    import dsps.metallicity.umzr as m
    return m


class _Env:
    pass


def _defaults(E):
    D = _Env()
    for k, v in zip(PN, _umod().DEFAULT_MZR_PARAMS):
        setattr(D, k, S.c(repr(float(v))))
    return unbounded(D)


Contract("mzr_defaults", U + "get_unbounded_mzr_params", {}, ensures=_defaults, call=lambda f, V: _umod().DEFAULT_MZR_U_PARAMS,
         outnames=tuple("u_" + f for f in FIELDS), sample=lambda r, d: {})
