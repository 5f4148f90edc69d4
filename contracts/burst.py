"""Contracts: bursty star formation (dsps/sfh/diffburst.py)"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, pow10
from . import spec as S
from . import gen as G
from . import lemmas as L

B = "dsps.sfh.diffburst:"
K = S.c("0.1")
FB = (R(-8), R(-1), R(-2))            # bounds and centre of the log burst fraction
PEAK = (R(5), R(8), S.c("6.5"))


def _mod():
    import dsps.sfh.diffburst as m
    return m


# ---------------------------------------------------------------- parameters
def to_fb(u):
    return S.sigmoid(u, FB[2], K, FB[0], FB[1])


def to_peak(u):
    return S.sigmoid(u, PEAK[2], K, PEAK[0], PEAK[1])


def to_max(peak, u):
    return S.sigmoid(u, (peak + 10) / 2, K, peak + 1, R(9))


def from_fb(y):
    return S.inv_sigmoid(y, FB[2], K, FB[0], FB[1])


def from_peak(y):
    return S.inv_sigmoid(y, PEAK[2], K, PEAK[0], PEAK[1])


def from_max(peak, y):
    return S.inv_sigmoid(y, (peak + 10) / 2, K, peak + 1, R(9))


NAMES = ("lgfburst", "lgyr_peak", "lgyr_max")
UN = dict(u_fb=(), u_peak=(), u_max=())
BN = dict(fb=(), peak=(), mx=())
in_range = lambda E: [lt(R(-8), E.fb), lt(E.fb, R(-1))] + peak_range(E)
peak_range = lambda E: [lt(R(5), E.peak), lt(E.peak, R(8)), lt(E.peak + 1, E.mx), lt(E.mx, R(9))]


def s_u(r, d):
    g = lambda c: c + r.normal() * 10 ** r.uniform(0, 1.7)
    V = dict(u_fb=g(-2), u_peak=g(6.5), u_max=g(8))
    return {k: float(v) for k, v in V.items()}


def s_b(r, d):
    peak = r.uniform(5.001, 7.999)
    return dict(fb=r.uniform(-7.999, -1.001), peak=peak, mx=peak + 1 + (8 - peak) * r.uniform(0.001, 0.999))


def _inside(E, P, fb=None, peak=None, mx=None):
    if fb is not None:
        L.sig_inside(P, fb, K * (E.u_fb - FB[2]), FB[0], FB[1])
    if peak is not None:
        L.sig_inside(P, peak, K * (E.u_peak - PEAK[2]), PEAK[0], PEAK[1])
    if mx is not None:
        p = to_peak(E.u_peak) if peak is None else peak
        L.sig_inside(P, mx, K * (E.u_max - (p + 10) / 2), p + 1, R(9))


def allowed(E, P):
    fb, peak, mx = E.out
    _inside(E, P, fb, peak, mx)
    P.show(and_(lt(R(-8), fb), lt(fb, R(-1)), lt(R(5), peak), lt(peak, R(8)), lt(peak + 1, mx), lt(mx, R(9))))


def rt_u(E, P):
    """unbounded -> bounded -> unbounded"""
    L.sig_roundtrip_inv(P.sub(), E.u_fb, FB[2], K, FB[0], FB[1])
    L.sig_roundtrip_inv(P.sub(), E.u_peak, PEAK[2], K, PEAK[0], PEAK[1])
    peak = to_peak(E.u_peak)
    L.sig_inside(P, peak, K * (E.u_peak - PEAK[2]), PEAK[0], PEAK[1])
    L.sig_roundtrip_inv(P.sub(), E.u_max, (peak + 10) / 2, K, peak + 1, R(9))


def rt_b(E, P):
    L.sig_roundtrip(P.sub(), E.fb, FB[2], K, FB[0], FB[1])
    L.sig_roundtrip(P.sub(), E.peak, PEAK[2], K, PEAK[0], PEAK[1])
    L.sig_roundtrip(P.sub(), E.mx, (E.peak + 10) / 2, K, E.peak + 1, R(9))


def monotone(E, P):
    """each parameter is strictly increasing in its unbounded counterpart"""
    v = T.var("v!")
    L.sig_increasing(P.suppose(lt(E.u_fb, v)), E.u_fb, v, FB[2], K, FB[0], FB[1])
    L.sig_increasing(P.suppose(lt(E.u_peak, v)), E.u_peak, v, PEAK[2], K, PEAK[0], PEAK[1])
    peak = to_peak(E.u_peak)
    L.sig_inside(P, peak, K * (E.u_peak - PEAK[2]), PEAK[0], PEAK[1])
    L.sig_increasing(P.suppose(lt(E.u_max, v)), E.u_max, v, (peak + 10) / 2, K, peak + 1, R(9))


Contract("burst_params", B + "_get_params_from_u_params", UN,
         ensures=lambda E: [to_fb(E.u_fb), to_peak(E.u_peak), to_max(to_peak(E.u_peak), E.u_max)],
         call=lambda f, V: f(_mod().BurstUParams(V.u_fb, V.u_peak, V.u_max)), outnames=NAMES, sample=s_u,
         lemmas=dict(allowed_ranges=allowed, inverse=rt_u, increasing=monotone))
Contract("burst_u_params", B + "_get_u_params_from_params", BN, requires=in_range,
         ensures=lambda E: [from_fb(E.fb), from_peak(E.peak), from_max(E.peak, E.mx)],
         call=lambda f, V: f(_mod().BurstParams(V.fb, V.peak, V.mx)), outnames=tuple("u_" + n for n in NAMES), sample=s_b,
         lemmas=dict(inverse=rt_b))
Contract("tburst_params", B + "_get_tburst_params_from_tburst_u_params", {k: () for k in ("u_peak", "u_max")},
         ensures=lambda E: [to_peak(E.u_peak), to_max(to_peak(E.u_peak), E.u_max)], sample=s_u)
Contract("tburst_u_params", B + "_get_tburst_u_params_from_tburst_params", dict(peak=(), mx=()), requires=peak_range,
         ensures=lambda E: [from_peak(E.peak), from_max(E.peak, E.mx)], sample=s_b)


# ---------------------------------------------------------------- age weights
def burst_lets(E, let):
    """triweight in log age, centred on the peak, vanishing from the maximum age on"""
    if hasattr(E, "u_peak"):
        let("peak", to_peak(E.u_peak))
        let("mx", to_max(E.peak, E.u_max))
    if hasattr(E, "u_fb"):
        let("fb", to_fb(E.u_fb))
    h = (E.mx - E.peak) / 3
    let("p", SArr((E.n,), lambda i: S.tw_pdf((lgyr(E, i) - E.peak) / h) / h))
    let("ptot", summ(I(0), E.n, E.p))


def lgyr(E, i):
    return E.x(i) if hasattr(E, "x") else E.a(i) + 9


def bw(E, i):
    return ite(lt(R(0), E.ptot), E.p(i) / E.ptot, E.p(i))


def mix(E, i):
    f = pow10(E.fb)
    return f * bw(E, i) + (1 - f) * E.s(i)


def burst_facts(E, P):
    if hasattr(E, "u_peak"):
        P.define(E.peak)
        L.sig_inside(P, E.peak, K * (E.u_peak - PEAK[2]), PEAK[0], PEAK[1])
        P.define(E.mx)
        L.sig_inside(P, E.mx, K * (E.u_max - (E.peak + 10) / 2), E.peak + 1, R(9))
    P.have(lt(E.peak, E.mx))
    h = (E.mx - E.peak) / 3
    P.have(lt(R(0), h))
    i, Q = P.fix(0, E.n)
    z = (lgyr(E, i) - E.peak) / h
    L.tw_pdf_at(Q, z)
    Q.have(le(R(0), S.tw_pdf(z) / h))
    Q.have(le(R(0), E.p(i)), "density >= 0", unfold="p")
    P.ctx = P.ctx.assume(forall(I(0), E.n, lambda k: le(R(0), E.p(k))))
    P.use(L.sum_nonneg(I(0), E.n, E.p))
    P.have(le(R(0), E.ptot), unfold="ptot")
    P.ctx = P.ctx.assume(eq(summ(I(0), E.n, E.p), E.ptot))


def burst_distribution(w):
    def proof(E, P):
        i, Q = P.fix(0, E.n)
        Q.suppose(lt(R(0), E.ptot)).show(le(R(0), E.p(i) / E.ptot))
        Q.show(le(R(0), bw(E, i)))
        Q = P.suppose(lt(R(0), E.ptot))
        Q.show(eq(summ(I(0), E.n, lambda k: E.p(k) / E.ptot), R(1)))
        # some age strictly inside the support: the burst has light
        j, Q = P.fix(0, E.n, "j")
        d = lgyr(E, j) - E.peak
        w = E.mx - E.peak
        Q = Q.suppose(lt(-w, d), lt(d, w))
        z = d / (w / 3)
        Q.have(lt(R(0), (w - d) / w)).have(lt(R(0), (w + d) / w))
        Q.have(lt(R(0), ((w - d) / w) * ((w + d) / w)))
        Q.have(eq(1 - (z / 3) ** 2, ((w - d) / w) * ((w + d) / w)))
        Q.have(lt(R(0), 1 - (z / 3) ** 2)).have(lt(R(0), (1 - (z / 3) ** 2) ** 3))
        Q.have(lt(z, R(3))).have(lt(R(-3), z))
        Q.have(lt(R(0), S.tw_pdf(z)))
        Q.have(lt(R(0), S.tw_pdf(z) / (w / 3)))
        Q.have(lt(R(0), E.p(j)), unfold="p")
        Q.use(L.sum_pos1(I(0), E.n, E.p, j))
        Q.show(lt(R(0), E.ptot))
    return proof


def beyond_max(E, P):
    """no burst stars at or beyond the maximum age"""
    i, P = P.fix(0, E.n)
    P = P.suppose(le(E.mx, lgyr(E, i)))
    z = (lgyr(E, i) - E.peak) / ((E.mx - E.peak) / 3)
    P.have(le(R(0), (lgyr(E, i) - E.mx) / ((E.mx - E.peak) / 3)))
    P.have(eq(z, 3 + (lgyr(E, i) - E.mx) / ((E.mx - E.peak) / 3)))
    P.have(le(R(3), z))
    P.suppose(eq(z, R(3))).show(eq(S.tw_pdf(z), R(0)))
    P.suppose(lt(R(3), z)).show(eq(S.tw_pdf(z), R(0)))
    P.ctx = P.ctx.assume(eq(S.tw_pdf(z), R(0)))
    P.have(eq(E.p(i), R(0)), unfold="p")
    P.show(eq(bw(E, i), R(0)))


def mixture(E, P):
    """a mixture of two distributions is a distribution"""
    P = P.suppose(forall(I(0), E.n, lambda k: le(R(0), E.s(k))), eq(summ(I(0), E.n, E.s), R(1)), lt(R(0), E.ptot))
    f = pow10(E.fb)
    if hasattr(E, "u_fb"):
        P.define(E.fb)
        L.sig_inside(P, E.fb, K * (E.u_fb - FB[2]), FB[0], FB[1])
        L.pow10_mono(P, E.fb, R(0))
    else:
        P = P.suppose(le(E.fb, R(0)))
        L.pow10_mono(P, E.fb, R(0), False)
    P.have(and_(lt(R(0), f), le(f, R(1))))
    i, Q = P.fix(0, E.n)
    Q.have(le(R(0), E.p(i) / E.ptot)).have(le(R(0), f * (E.p(i) / E.ptot))).have(le(R(0), (1 - f) * E.s(i)))
    Q.show(le(R(0), E.out[0][i]))
    P.show(eq(summ(I(0), E.n, E.out[0]), R(1)))


def s_w(r, d, u=False, a="x"):
    n = d["n"]
    x = G.lgages(r, n) if n > 2 else np.sort(r.uniform(-4, 1, n))
    if a == "x":
        x = x + 9
    V = {a: x, "s": G.simplex(r, n)}
    if u:
        V.update(s_u(r, d))
    else:
        peak = r.uniform(5, 8)
        V.update(fb=float(r.uniform(-8, 0)), peak=float(peak), mx=float(peak + r.choice([0.05, 1, 2.5, r.uniform(0.01, 3)])))
        if r.random() < 0.3:
            k = r.integers(n)
            V["mx"] = float(x[k] + (0 if a == "x" else 9)) if x[k] + (0 if a == "x" else 9) > peak + 1e-3 else V["mx"]
    return V


D = dict(n=1)
order = lambda E: [lt(E.peak, E.mx)]
dist = dict(distribution=burst_distribution(bw), ends_at_maximum_age=beyond_max)
Contract("pure_burst", B + "_pureburst_age_weights_from_params", dict(x=("n",), peak=(), mx=()), dims=D, requires=order,
         lets=burst_lets, hints=burst_facts, ensures=lambda E: SArr((E.n,), lambda i: bw(E, i)),
         sample=lambda r, d: s_w(r, d), lemmas=dist)
Contract("pure_burst_u", B + "_pureburst_age_weights_from_u_params", dict(x=("n",), u_peak=(), u_max=()), dims=D,
         lets=burst_lets, hints=burst_facts, ensures=lambda E: SArr((E.n,), lambda i: bw(E, i)),
         sample=lambda r, d: s_w(r, d, True))
MIX = lambda E: SArr((E.n,), lambda i: mix(E, i))
bp = lambda V: _mod().BurstParams(V.fb, V.peak, V.mx)
bu = lambda V: _mod().BurstUParams(V.u_fb, V.u_peak, V.u_max)
Contract("bursty", B + "calc_bursty_age_weights", dict(BN, s=("n",), a=("n",)), dims=D, requires=order, lets=burst_lets,
         hints=burst_facts, ensures=MIX, sample=lambda r, d: s_w(r, d, False, "a"),
         call=lambda f, V: f(bp(V), V.s, V.a), lemmas=dict(mixture=mixture))
Contract("bursty_u", B + "calc_bursty_age_weights_from_u_params", dict(UN, s=("n",), a=("n",)), dims=D, lets=burst_lets,
         hints=burst_facts, ensures=MIX, sample=lambda r, d: s_w(r, d, True, "a"),
         call=lambda f, V: f(bu(V), V.s, V.a), lemmas=dict(mixture=mixture))
Contract("bursty2", B + "_compute_bursty_age_weights_from_params", dict(BN, s=("n",), x=("n",)), dims=D, requires=order,
         lets=burst_lets, hints=burst_facts, ensures=MIX, sample=lambda r, d: s_w(r, d),
         call=lambda f, V: f(V.x, V.s, bp(V)))
Contract("bursty2_u", B + "_compute_bursty_age_weights_from_u_params", dict(UN, s=("n",), x=("n",)), dims=D, lets=burst_lets,
         hints=burst_facts, ensures=MIX, sample=lambda r, d: s_w(r, d, True), call=lambda f, V: f(V.x, V.s, bu(V)))


# ---------------------------------------------------------------- packaged defaults
def _defaults(E):
    fb, peak, mx = [S.c(repr(float(v))) for v in _mod().DEFAULT_BURST_PARAMS]
    return [from_fb(fb), from_peak(peak), from_max(peak, mx)]


Contract("burst_defaults", B + "_get_u_params_from_params", {}, ensures=_defaults, call=lambda f, V: _mod().DEFAULT_BURST_U_PARAMS,
         outnames=tuple("u_" + n for n in NAMES), sample=lambda r, d: {})
