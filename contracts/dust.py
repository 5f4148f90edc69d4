"""Contracts: dust attenuation, blackbody, effective wavelength"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, pow10, exp, ln, log10
from . import spec as S
from . import gen as G
from . import lemmas as L

A = "dsps.dust.att_curves:"
c = S.c
RV = c("4.05")
W0, DW = c("0.2175"), c("0.0350")


# ---------------------------------------------------------------- published curves
def calzetti(w):
    y = 1 / w
    short = c("2.659") * (c("-2.156") + c("1.509") * y - c("0.198") * y**2 + c("0.011") * y**3) + RV
    long_ = c("2.659") * (c("-1.857") + c("1.040") * y) + RV
    return ite(lt(w, c("0.63")), short, long_)


def leitherer(w):
    y = 1 / w
    return c("5.472") + c("0.671") * y - c("9.218e-3") * y**2 + c("2.620e-3") * y**3


def base(w, xc=None):
    return ite(lt(c("0.15") if xc is None else xc, w), calzetti(w), leitherer(w))


def drude(w, w0, dw, ampl):
    d = w**2 - w0**2
    return ampl * (w**2 * dw**2 / (d**2 + w**2 * dw**2))


def plaw(w, slope, v=None):
    return T.rpow(w / (c("0.55") if v is None else v), slope)


def clip0(x):
    return ite(lt(x, R(0)), R(0), x)


def noll(w, ampl, slope, w0=W0, dw=DW):
    return clip0((base(w) + drude(w, w0, dw, ampl)) * plaw(w, slope))


def salim(w, ampl, slope, w0=W0, dw=DW):
    return clip0(base(w) * plaw(w, slope) + drude(w, w0, dw, ampl))


def att(k, av):
    return clip0(av * k / RV)


def ftrans(k, av, floor=R(0)):
    return floor + (1 - floor) * pow10(c("-0.4") * att(k, av))


def smooth(w, xtp=R(-1), ytp=c("1.15"), x0=c("0.5"), h=c("0.5"), lo=c("-0.65"), hi=c("-1.95")):
    x = log10(w)
    slope = lo + (hi - lo) * S.tw_cdf((x - x0) / h)
    return pow10(ytp + slope * (x - xtp))


# ---------------------------------------------------------------- samples
def waves(r, n):
    w = np.exp(r.uniform(np.log(0.01), np.log(10), n))
    m = r.random()
    if m < 0.5:
        w = np.where(r.random(n) < 0.4, r.choice([0.15, 0.63, 0.2175, 0.55, 0.1499, 0.62999], n), w)
    return w


def s_w(r, d):
    return dict(w=waves(r, d["n"]), av=float(r.choice([0.0, r.uniform(0, 4), r.uniform(-1, 0)])), ampl=r.uniform(-1, 8),
                slope=r.uniform(-2, 1), w0=r.uniform(0.1, 0.4), dw=r.uniform(0.01, 0.1), k=r.normal() * 5,
                k_=r.normal(size=d["n"]) * 4, floor=float(r.choice([0.0, 1.0, r.uniform(0, 1)])), x0=r.normal(), xc=r.uniform(0.1, 0.3),
                delta=r.normal(), vb=r.uniform(0.3, 0.8))


WV = dict(w=("n",))
D = dict(n=1)
pos = lambda E: [forall(I(0), E.n, lambda i: lt(R(0), E.w(i)))]
posdw = lambda E: pos(E) + [lt(R(0), E.dw)]
arr = lambda f: (lambda E: SArr((E.n,), lambda i: f(E, i)))


def nonneg(E, P):
    i, P = P.fix(0, E.n)
    P.show(le(R(0), E.out[0][i]))


def att_linear(kf):
    """A is linear in Av: A(s Av) = s A(Av) for s >= 0"""
    def proof(E, P):
        i, P = P.fix(0, E.n)
        s, k = T.var("s!"), T.var("k!")
        Q = P.suppose(lt(R(0), s))
        a = E.av * k
        Q.suppose(lt(a, R(0))).have(lt(s * a, R(0))).show(eq(att(k, s * E.av), s * att(k, E.av)))
        Q.suppose(le(R(0), a)).have(le(R(0), s * a)).show(eq(att(k, s * E.av), s * att(k, E.av)))
        P.show(eq(att(k, R(0)), R(0)))
    return proof


def fraction(E, P):
    """between the floor and one; one without dust"""
    floor = E.floor if hasattr(E, "floor") else R(0)
    P = P.suppose(le(R(0), floor), le(floor, R(1)))
    i, P = P.fix(0, E.n)
    a = att(E.k_(i), E.av)
    P.have(le(R(0), a))
    p = pow10(c("-0.4") * a)
    x = T.var("x!")
    Q = P.suppose(le(R(0), x))
    L.pow10_mono(Q, c("-0.4") * x, R(0), False)
    Q.have(and_(lt(R(0), pow10(c("-0.4") * x)), le(pow10(c("-0.4") * x), R(1))))
    P.ctx = P.ctx.assume(and_(lt(R(0), p), le(p, R(1))))
    P.have(le(R(0), (1 - floor) * p)).have(le(R(0), (1 - floor) * (1 - p)))
    P.show(and_(le(floor, floor + (1 - floor) * p), le(floor + (1 - floor) * p, R(1))))
    Q = P.suppose(eq(E.av, R(0)))
    Q.have(eq(a, R(0)))
    Q.show(eq(floor + (1 - floor) * pow10(c("-0.4") * R(0)), R(1)))


def dims_with_av(E, P):
    """more dust, less light"""
    floor = E.floor if hasattr(E, "floor") else R(0)
    P = P.suppose(le(R(0), floor), le(floor, R(1)))
    k, a, b, u, v = [T.var(s) for s in ("k!", "a!", "b!", "u!", "v!")]
    Q = P.suppose(le(R(0), k), le(a, b))
    Q.have(le(R(0), (b - a) * k)).have(le(a * k, b * k))
    Q.show(le(att(k, a), att(k, b)))
    Q = P.suppose(le(u, v))
    L.pow10_mono(Q, c("-0.4") * v, c("-0.4") * u, False)
    Q.have(le(R(0), (1 - floor) * (pow10(c("-0.4") * u) - pow10(c("-0.4") * v))))
    Q.show(le(floor + (1 - floor) * pow10(c("-0.4") * v), floor + (1 - floor) * pow10(c("-0.4") * u)))


def C(cid, fn, args, f, lemmas=None, requires=pos, hints=None, call=None, lets=None):
    return Contract(cid, A + fn, args, dims=D, requires=requires, lets=lets, ensures=arr(f), sample=s_w, lemmas=lemmas, hints=hints, call=call)


KA = dict(k_=("n",), av=())
C("ftrans", "_frac_transmission_from_k_lambda", KA, lambda E, i: ftrans(E.k_(i), E.av), requires=None,
  lemmas=dict(fraction=fraction, dims_with_av=dims_with_av))
C("ftrans_floor", "_frac_transmission_from_k_lambda", dict(KA, floor=()), lambda E, i: ftrans(E.k_(i), E.av, E.floor),
  requires=None, lemmas=dict(fraction=fraction, dims_with_av=dims_with_av))
C("att", "_att_curve_from_k_lambda", KA, lambda E, i: att(E.k_(i), E.av), requires=None,
  lemmas=dict(nonnegative=nonneg, linear=att_linear(None)))
C("calzetti_k", "calzetti00_k_lambda", WV, lambda E, i: calzetti(E.w(i)))
C("leitherer_k", "leitherer02_k_lambda", WV, lambda E, i: leitherer(E.w(i)))
C("l02_c00", "_l02_below_c00_above", WV, lambda E, i: base(E.w(i)))
C("l02_c00_xc", "_l02_below_c00_above", dict(WV, xc=()), lambda E, i: base(E.w(i), E.xc))
C("power_law", "power_law_vband_norm", dict(WV, slope=()), lambda E, i: plaw(E.w(i), E.slope))
C("power_law_v", "power_law_vband_norm", dict(WV, slope=(), vb=()), lambda E, i: plaw(E.w(i), E.slope, E.vb),
  requires=lambda E: pos(E) + [lt(R(0), E.vb)])
BUMP = dict(ampl=(), slope=())
FULL = dict(ampl=(), slope=(), w0=(), dw=())
def k_lets(full):
    """the three ingredients of the modified curves"""
    def lets(E, let):
        w0, dw = (E.w0, E.dw) if full else (W0, DW)
        let("k0", SArr((E.n,), lambda i: base(E.w(i))))
        let("bump", SArr((E.n,), lambda i: drude(E.w(i), w0, dw, E.ampl)))
        let("pl", SArr((E.n,), lambda i: plaw(E.w(i), E.slope)))
    return lets


noll_ = lambda E, i: clip0((E.k0(i) + E.bump(i)) * E.pl(i))
salim_ = lambda E, i: clip0(E.k0(i) * E.pl(i) + E.bump(i))
for cid, fn, f in (("noll_k", "noll09_k_lambda", noll_), ("salim_k", "sbl18_k_lambda", salim_)):
    C(cid, fn, dict(WV, **BUMP), f, dict(nonnegative=nonneg), lets=k_lets(0))
    C(cid + "_full", fn, dict(WV, **FULL), f, lets=k_lets(1), requires=posdw)
C("calzetti_att", "calzetti00_att_curve", dict(WV, av=()), lambda E, i: att(calzetti(E.w(i)), E.av), dict(nonnegative=nonneg))
C("leitherer_att", "leitherer02_att_curve", dict(WV, av=()), lambda E, i: att(leitherer(E.w(i)), E.av), dict(nonnegative=nonneg))
for cid, fn, f in (("noll_att", "noll09_k_att_curve", noll_), ("salim_att", "sbl18_k_att_curve", salim_)):
    C(cid, fn, dict(WV, av=(), **BUMP), lambda E, i, f=f: att(f(E, i), E.av), lets=k_lets(0))
    C(cid + "_full", fn, dict(WV, av=(), **FULL), lambda E, i, f=f: att(f(E, i), E.av), lets=k_lets(1), requires=posdw)
C("drude", "_drude_bump", dict(WV, x0=(), dw=(), ampl=()), lambda E, i: drude(E.w(i), E.x0, E.dw, E.ampl), requires=posdw)
C("smooth_k", "triweight_k_lambda", WV, lambda E, i: smooth(E.w(i)), dict(nonnegative=nonneg))
TW = ("xtp", "ytp", "x0", "h", "lo", "hi")
Contract("smooth_k_full", A + "triweight_k_lambda", dict(WV, **{k: () for k in TW}), dims=D,
         requires=lambda E: pos(E) + [lt(R(0), E.h)],
         ensures=arr(lambda E, i: smooth(E.w(i), E.xtp, E.ytp, E.x0, E.h, E.lo, E.hi)),
         sample=lambda r, d: dict(w=waves(r, d["n"]), xtp=r.normal(), ytp=r.normal(), x0=r.normal(), h=G.posv(r, 0.1, 3), lo=-0.5 + 0.1 * r.normal(), hi=-2 + 0.1 * r.normal()))
Contract("eb", A + "_get_eb_from_delta", dict(delta=()), ensures=lambda E: c("-1.9") * E.delta + c("0.85"), sample=lambda r, d: dict(delta=r.normal()))

# ---------------------------------------------------------------- Planck's law
BB = "dsps.dust.blackbody:"
H, KB, CL, LSUN = c("6.62607015e-34"), c("1.380649e-23"), c("299792458"), c("3.828e26")


def planck_nu(nu, t):
    return 2 * H * nu**3 / CL**2 / (exp(H * nu / (KB * t)) - 1) / LSUN


def planck_lambda(w, t):
    """per Angstrom; w in Angstrom"""
    m = w / R(10**10)
    return 2 * H * CL**2 / m**5 / (exp(H * CL / (m * KB * t)) - 1) / LSUN / R(10**10)


def bb_req(x):
    return lambda E: [forall(I(0), E.n, lambda i: lt(R(0), getattr(E, x)(i))), lt(R(0), E.t)]


def bb_pos(f):
    def hints(E, P):
        def steps(Q, i):
            x = f(E, i)
            Q.have(lt(R(0), x))
            Q.have(lt(R(1), exp(x)))
        L.all_k(P, I(0), E.n, lambda i: lt(R(1), exp(f(E, i))), steps)
    return hints


xnu = lambda E, i: H * E.nu(i) / (KB * E.t)
xla = lambda E, i: H * CL / (E.w(i) / R(10**10) * KB * E.t)


def bb_lemmas(f, x):
    def positive(E, P):
        i, P = P.fix(0, E.n)
        P.have(lt(R(1), exp(x(E, i))))
        P.have(lt(R(0), 1 / (exp(x(E, i)) - 1)))
        P.show(lt(R(0), E.out[0][i]))

    def hotter(E, P):
        """hotter is brighter at every frequency / wavelength"""
        i, P = P.fix(0, E.n)
        t2 = T.var("t2!")
        P = P.suppose(lt(E.t, t2))
        x1 = x(E, i)
        # exponent at t2
        a = x1 * E.t
        P.have(lt(R(0), a))
        P.have(lt(a / t2, a / E.t))
        P.have(eq(a / E.t, x1))
        P.have(lt(R(0), a / t2))
        e1, e2 = exp(x1), exp(a / t2)
        P.have(lt(R(1), e2)).have(lt(e2, e1))
        P.have(lt(1 / (e1 - 1), 1 / (e2 - 1)))
        q = T.var("q!")
        P.suppose(lt(R(0), q)).show(lt(q * (1 / (e1 - 1)), q * (1 / (e2 - 1))))
    return dict(positive=positive, hotter_is_brighter=hotter)


def same_law(E, P):
    """B_lambda = B_nu(c/lambda) c / lambda^2 (lambda in Angstrom, c in Angstrom/s)"""
    i, P = P.fix(0, E.n)
    w = E.w(i)
    ca = CL * R(10**10)
    P.show(eq(planck_lambda(w, E.t), planck_nu(ca / w, E.t) * ca / w**2))


Contract("bb_nu", BB + "blackbody_freq_density", dict(nu=("n",), t=()), dims=D, requires=bb_req("nu"),
         ensures=arr(lambda E, i: planck_nu(E.nu(i), E.t)), hints=bb_pos(xnu), lemmas=bb_lemmas(planck_nu, xnu),
         sample=lambda r, d: dict(nu=10.0 ** r.uniform(10, 15.5, d["n"]), t=float(10.0 ** r.uniform(2, 5))))
Contract("bb_lambda", BB + "blackbody_wave_density", dict(w=("n",), t=()), dims=D, requires=bb_req("w"),
         ensures=arr(lambda E, i: planck_lambda(E.w(i), E.t)), hints=bb_pos(xla), lemmas=dict(bb_lemmas(planck_lambda, xla), same_law=same_law),
         sample=lambda r, d: dict(w=10.0 ** r.uniform(2.5, 7, d["n"]), t=float(10.0 ** r.uniform(3, 5))))


# Wien's displacement laws.  x3, x5: x = 3 (1 - exp(-x)) and x = 5 (1 - exp(-x))
X3, X5 = c("2.821439372122"), c("4.965114231744")


def near(val, law):
    def show(E, P):
        v = law(E)
        P.have(lt(R(0), 1 / E.t))
        P.have(lt(R(0), v))
        P.show(lt(c("0.999") * v, E.out[0]))
        P.show(lt(E.out[0], c("1.001") * v))
    return {"displacement_law": show}


def_t = dict(requires=lambda E: [lt(R(0), E.t)], sample=lambda r, d: dict(t=float(10.0 ** r.uniform(2, 5))))
Contract("bb_peak_nu", BB + "_jax_bb_frequency_peak", dict(t=()), ensures=lambda E: c("5.879e10") * E.t,
         lemmas=near("nu", lambda E: X3 * KB / H * E.t), **def_t)
Contract("bb_peak_lambda", BB + "_jax_bb_wavelength_peak", dict(t=()), ensures=lambda E: CL / (c("5.879e10") * E.t) / c("1.76"),
         lemmas=near("lambda", lambda E: H * CL / (KB * X5) / E.t), **def_t)


# ---------------------------------------------------------------- effective wavelength
def eff_lets(E, let):
    let("norm", S.trapz(E.w, E.tr, E.n))
    let("num", S.trapz(E.w, lambda i: E.tr(i) * E.w(i), E.n))


def eff_range(E, P):
    """inside the filter's range, shifted to the rest frame.  (trapezoid weights: every
    point enters with a weight >= 0)"""
    P = P.suppose(forall(I(0), E.n, lambda i: le(R(0), E.tr(i))), forall(I(0), E.n - 1, lambda i: lt(E.w(i), E.w(i + 1))),
                  lt(R(0), E.norm), lt(R(-1), E.z))
    seg = lambda j: (E.w(j + 1) - E.w(j)) * (E.tr(j) + E.tr(j + 1)) / 2
    seg2 = lambda j: (E.w(j + 1) - E.w(j)) * (E.tr(j) * E.w(j) + E.tr(j + 1) * E.w(j + 1)) / 2
    lo, hi = E.w(I(0)), E.w(E.n - 1)
    n1 = E.n - 1
    for kind in (1, -1):
        def dseg(j):
            e = lo if kind == 1 else hi
            return (seg2(j) - e * seg(j)) if kind == 1 else (e * seg(j) - seg2(j))
        j, Q = P.fix(0, n1, "j")
        Q.use(L.incr_le(E.w, I(0), j, n1)).use(L.incr_le(E.w, I(0), j + 1, n1))
        Q.use(L.incr_le(E.w, j, n1, n1)).use(L.incr_le(E.w, j + 1, n1, n1))
        d = E.w(j + 1) - E.w(j)
        Q.have(lt(R(0), d))
        a, b = (E.w(j) - lo, E.w(j + 1) - lo) if kind == 1 else (hi - E.w(j), hi - E.w(j + 1))
        Q.have(le(R(0), a)).have(le(R(0), b))
        Q.have(le(R(0), E.tr(j) * a)).have(le(R(0), E.tr(j + 1) * b))
        Q.have(le(R(0), d * (E.tr(j) * a + E.tr(j + 1) * b) / 2))
        Q.have(eq(dseg(j), d * (E.tr(j) * a + E.tr(j + 1) * b) / 2))
        Q.show(le(R(0), dseg(j)))
        P.ctx = P.ctx.assume(forall(I(0), n1, lambda q: le(R(0), dseg(q))))
        P.use(L.sum_nonneg(I(0), n1, dseg))
        tot = summ(I(0), n1, dseg)
        P.have(eq(tot, E.num - lo * E.norm if kind == 1 else hi * E.norm - E.num), unfold="*")
    P.have(le(lo * E.norm, E.num))
    P.have(le(E.num, hi * E.norm))
    m = E.num / E.norm
    P.have(and_(le(lo, m), le(m, hi)))
    P.show(and_(le(lo / (1 + E.z), m / (1 + E.z)), le(m / (1 + E.z), hi / (1 + E.z))))


Contract("eff_wave", "dsps.dust.utils:get_filter_effective_wavelength", dict(w=("n",), tr=("n",), z=()), dims=dict(n=2),
         lets=eff_lets, requires=lambda E: [not_(eq(E.norm, R(0))), lt(R(-1), E.z)],
         ensures=lambda E: E.num / E.norm / (1 + E.z), lemmas=dict(inside_filter=eff_range),
         sample=lambda r, d: dict(w=G.posincr(r, d["n"], 1000, 9000), tr=r.uniform(0.01, 1, d["n"]), z=float(r.choice([0.0, r.uniform(0, 3)]))))
