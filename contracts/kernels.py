"""Contracts: numerical kernels (dsps/utils.py)"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, implies
from . import spec as S
from . import gen as G
from . import lemmas as L

U = "dsps.utils:"

# ---------------------------------------------------------------- integration
Contract("trapz", U + "trapz", dict(x=("n",), y=("n",)), dims=dict(n=2),
         ensures=lambda E: S.trapz(E.x, E.y, E.n),
         sample=lambda r, d: dict(x=G.incr(r, d["n"]), y=G.real(r, d["n"])),
         lemmas=dict(
             nonnegative=lambda E, P: L.trapz_nonneg(E, P),
         ))

Contract("cumtrapz", U + "cumtrapz", dict(x=("n",), y=("n",)), dims=dict(n=1),
         ensures=lambda E: SArr((E.n,), lambda i: S.cumtrapz(E.x, E.y, i)),
         sample=lambda r, d: dict(x=G.incr(r, d["n"]), y=G.real(r, d["n"])),
         lemmas=dict(
             starts_at_zero=lambda E, P: P.show(eq(E.out[0][0], R(0))),
             ends_at_total=lambda E, P: P.show(eq(E.out[0][E.n - 1], S.trapz(E.x, E.y, E.n))),
         ))


def mstar_spec(t, s, i):
    t0, s0 = S.c("0.001"), S.c("1e-14")
    return R(10**9) * ((t(I(0)) - t0) * (s0 + s(I(0))) / 2 + S.cumtrapz(t, s, i))


def _mstar_monotone(E, P):
    k, Q = P.fix(0, E.n - 1)
    Q = Q.suppose(forall(I(0), E.n, lambda j: le(R(0), E.s[j])))
    Q.show(le(E.out[0][k], E.out[0][k + 1]))
    k, Q = P.fix(0, E.n - 1)
    Q = Q.suppose(forall(I(0), E.n, lambda j: lt(R(0), E.s[j])))
    Q.show(lt(E.out[0][k], E.out[0][k + 1]))


def _mstar_positive(E, P):
    Q = P.suppose(forall(I(0), E.n, lambda j: le(R(0), E.s[j])), lt(S.c("0.001"), E.t[0]))
    i, Q = Q.fix(0, E.n)
    Q.use(L.sum_nonneg(I(0), i, lambda k: (E.t(k + 1) - E.t(k)) * (E.s(k) + E.s(k + 1)) / 2))
    Q.show(lt(R(0), E.out[0][i]))


Contract("cumulative_mstar", U + "cumulative_mstar_formed", dict(t=("n",), s=("n",)), dims=dict(n=1),
         requires=lambda E: [forall(I(0), E.n - 1, lambda j: lt(E.t[j], E.t[j + 1]))],
         ensures=lambda E: SArr((E.n,), lambda i: mstar_spec(E.t, E.s, i)),
         sample=lambda r, d: dict(t=G.times(r, d["n"]), s=G.sfh(r, d["n"])),
         lemmas=dict(never_decreases=_mstar_monotone, positive=_mstar_positive))

# ---------------------------------------------------------------- grids
def edges_req(E):
    return []


Contract("dt_array", U + "_jax_get_dt_array", dict(t=("n",)), dims=dict(n=3),
         ensures=lambda E: SArr((E.n,), S.spacing(E.t, E.n)),
         sample=lambda r, d: dict(t=G.incr(r, d["n"])))

Contract("bin_edges", U + "_get_bin_edges", dict(a=("n",), lo=(), hi=()), dims=dict(n=3),
         ensures=lambda E: SArr((E.n + 1,), lambda i: S.edges(E.a, E.n, E.lo, E.hi)(i)),
         sample=lambda r, d: dict(a=G.incr(r, d["n"]), lo=r.normal(), hi=r.normal()))

# ---------------------------------------------------------------- triweight kernels
_sx = lambda r, d: dict(x=G.pick(r, -4, 4), m=G.pick(r, -2, 2), h=G.posv(r))

Contract("tw_cuml", U + "_tw_cuml_kern", dict(x=(), m=(), h=()),
         requires=lambda E: [lt(R(0), E.h)],
         ensures=lambda E: S.tw_cdf((E.x - E.m) / E.h), sample=_sx, opaque=False,
         lemmas=dict(
             bounds=lambda E, P: L.tw_bounds(E, P),
             monotone=lambda E, P: L.tw_monotone(E, P),
             symmetric=lambda E, P: L.tw_symmetric(E, P),
             saturates=lambda E, P: L.tw_saturates(E, P),
         ))
Contract("tw_cuml_arr", U + "_tw_cuml_kern", dict(x=("n",), m=(), h=()), dims=dict(n=1),
         requires=lambda E: [lt(R(0), E.h)],
         ensures=lambda E: SArr((E.n,), lambda i: S.tw_cdf((E.x[i] - E.m) / E.h)),
         sample=lambda r, d: dict(x=G.pick(r, -4, 4, d["n"]), m=G.pick(r, -2, 2), h=G.posv(r)))
Contract("tw_pdf", U + "triweight_gaussian", dict(x=("n",), m=(), h=()), dims=dict(n=1),
         requires=lambda E: [lt(R(0), E.h)],
         ensures=lambda E: SArr((E.n,), lambda i: S.tw_pdf((E.x[i] - E.m) / E.h) / E.h),
         sample=lambda r, d: dict(x=G.pick(r, -4, 4, d["n"]), m=G.pick(r, -2, 2), h=G.posv(r)),
         lemmas=dict(nonnegative=lambda E, P: L.tw_pdf_nonneg(E, P),
                     is_the_derivative=lambda E, P: L.tw_pdf_derivative(E, P)))
Contract("tw_sigmoid", U + "_tw_sigmoid", dict(x=(), x0=(), h=(), lo=(), hi=()),
         requires=lambda E: [lt(R(0), E.h)],
         ensures=lambda E: E.lo + (E.hi - E.lo) * S.tw_cdf((E.x - E.x0) / E.h),
         sample=lambda r, d: dict(x=G.pick(r, -4, 4), x0=G.pick(r, -2, 2), h=G.posv(r), lo=r.normal(), hi=r.normal()))
Contract("tw_sig_slope", U + "_tw_sig_slope", dict(x=(), xtp=(), ytp=(), x0=(), h=(), lo=(), hi=()),
         requires=lambda E: [lt(R(0), E.h)],
         ensures=lambda E: E.ytp + (E.lo + (E.hi - E.lo) * S.tw_cdf((E.x - E.x0) / E.h)) * (E.x - E.xtp),
         sample=lambda r, d: dict(x=G.pick(r, -4, 4), xtp=r.normal(), ytp=r.normal(), x0=G.pick(r, -2, 2), h=G.posv(r), lo=r.normal(), hi=r.normal()))
_bx = lambda r, d: dict(x=G.pick(r, -6, 6), sig=G.posv(r), b=G.incr(r, d["n"] + 1))
Contract("tw_hist_scalar", U + "triweighted_histogram", dict(x=(), sig=(), b=("n+1",)), dims=dict(n=1),
         requires=lambda E: [lt(R(0), E.sig)],
         ensures=lambda E: SArr((E.n,), lambda i: S.tw_hist_bin(E.x, E.sig, E.b[i], E.b[i + 1])), sample=_bx,
         lemmas=dict(total=lambda E, P: L.hist_total(E, P)))
Contract("tw_hist", U + "triweighted_histogram", dict(x=("m",), sig=(), b=("n+1",)), dims=dict(m=1, n=1),
         requires=lambda E: [lt(R(0), E.sig)],
         ensures=lambda E: SArr((E.n, E.m), lambda i, j: S.tw_hist_bin(E.x[j], E.sig, E.b[i], E.b[i + 1])),
         sample=lambda r, d: dict(x=G.pick(r, -6, 6, d["m"]), sig=G.posv(r), b=G.incr(r, d["n"] + 1)))
Contract("tw_weights", U + "_get_triweights_singlepoint", dict(x=(), sig=(), b=("n+1",)), dims=dict(n=1),
         requires=lambda E: [lt(R(0), E.sig), forall(I(0), E.n, lambda j: lt(E.b[j], E.b[j + 1]))],
         ensures=lambda E: SArr((E.n,), lambda i: S.point_weights(E.x, E.sig, E.b, E.n)(i)), sample=_bx,
         hints=lambda E, P: L.point_facts(P, E.x, E.sig, E.b, E.n),
         lemmas=dict(nonnegative_sum_one=lambda E, P: L.point_weights(E, P, E.x, E.sig, E.b, E.n, E.out[0])))

# ---------------------------------------------------------------- sigmoids
_sg = lambda r, d: dict(x=G.pick(r, -8, 8), x0=G.pick(r, -5, 5), k=G.posv(r), lo=r.normal(), hi=r.normal() + 2)
Contract("sigmoid", U + "_sigmoid", dict(x=(), x0=(), k=(), lo=(), hi=()),
         ensures=lambda E: S.sigmoid(E.x, E.x0, E.k, E.lo, E.hi), sample=_sg,
         lemmas=dict(bounds=lambda E, P: L.sig_bounds(E, P), monotone=lambda E, P: L.sig_monotone(E, P),
                     midpoint=lambda E, P: P.show(eq(S.sigmoid(E.x0, E.x0, E.k, E.lo, E.hi), (E.lo + E.hi) / 2))))
Contract("sigmoid_arr", U + "_sigmoid", dict(x=("n",), x0=(), k=(), lo=(), hi=()), dims=dict(n=1),
         ensures=lambda E: SArr((E.n,), lambda i: S.sigmoid(E.x[i], E.x0, E.k, E.lo, E.hi)),
         sample=lambda r, d: dict(_sg(r, d), x=G.pick(r, -8, 8, d["n"])))
Contract("inv_sigmoid", U + "_inverse_sigmoid", dict(y=(), x0=(), k=(), lo=(), hi=()),
         requires=lambda E: [lt(E.lo, E.y), lt(E.y, E.hi), not_(eq(E.k, R(0)))],
         ensures=lambda E: S.inv_sigmoid(E.y, E.x0, E.k, E.lo, E.hi),
         sample=G.inv_sig,
         lemmas=dict(right_inverse=lambda E, P: L.sig_of_inv(E, P), left_inverse=lambda E, P: L.inv_of_sig(E, P)))
Contract("sig_slope", U + "_sig_slope", dict(x=(), xtp=(), ytp=(), x0=(), k=(), lo=(), hi=()),
         ensures=lambda E: S.sig_slope(E.x, E.xtp, E.ytp, E.x0, E.k, E.lo, E.hi),
         sample=lambda r, d: dict(_sg(r, d), xtp=r.normal(), ytp=r.normal()),
         lemmas=dict(pivot=lambda E, P: P.show(eq(S.sig_slope(E.xtp, E.xtp, E.ytp, E.x0, E.k, E.lo, E.hi), E.ytp))))

# ---------------------------------------------------------------- weight matrices
Contract("weights_2d", U + "_get_weight_matrices_2d", dict(a=("g", "n"), b=("g", "m")), dims=dict(g=1, n=1, m=1),
         ensures=lambda E: SArr((E.g, E.n, E.m), lambda g, i, j: E.a[g, i] * E.b[g, j]),
         sample=lambda r, d: dict(a=r.normal(size=(d["g"], d["n"])), b=r.normal(size=(d["g"], d["m"]))),
         lemmas=dict(marginals=lambda E, P: L.outer2(E, P), total=lambda E, P: L.outer2_total(E, P)))
Contract("weights_3d", U + "_get_weight_matrices_3d", dict(a=("g", "n"), b=("g", "m"), c=("g", "l")),
         dims=dict(g=1, n=1, m=1, l=1),
         ensures=lambda E: SArr((E.g, E.n, E.m, E.l), lambda g, i, j, k: E.a[g, i] * E.b[g, j] * E.c[g, k]),
         sample=lambda r, d: dict(a=r.normal(size=(d["g"], d["n"])), b=r.normal(size=(d["g"], d["m"])), c=r.normal(size=(d["g"], d["l"]))),
         lemmas=dict(total=lambda E, P: L.outer3_total(E, P)))

# ---------------------------------------------------------------- power laws
_plreq = lambda E: [forall(I(0), E.n, lambda i: and_(lt(R(0), E.a[i]), lt(E.a[i], E.b[i]), not_(eq(E.g[i], R(0)))))]


def _pls(r, d):
    n = d["n"]
    a = np.exp(r.uniform(-3, 3, n))
    g = r.uniform(-3, 3, n)
    g = np.where(np.abs(g) < 0.05, 0.5, g)
    if r.random() < 0.3:
        g[r.integers(n)] = r.choice([1.0, 2.0, -1.0, 0.5])
    return dict(a=a, b=a * np.exp(r.uniform(0.1, 3, n)), g=g)


Contract("powerlaw_pdf", U + "powerlaw_pdf", dict(x=("n",), a=("n",), b=("n",), g=("n",)), dims=dict(n=1),
         requires=lambda E: _plreq(E) + [forall(I(0), E.n, lambda i: lt(R(0), E.x[i]))],
         ensures=lambda E: SArr((E.n,), lambda i: E.g[i] * T.rpow(E.x[i], E.g[i] - 1) / (T.rpow(E.b[i], E.g[i]) - T.rpow(E.a[i], E.g[i]))),
         hints=lambda E, P: L.pow_hints(E, P),
         sample=lambda r, d: dict(_pls(r, d), x=np.exp(r.uniform(-3, 4, d["n"]))),
         lemmas=dict(positive=lambda E, P: L.plaw_positive(E, P)))


def _U(E, i):
    """the uniform deviate drawn for element i"""
    k = [T.sel("key", (I(j),), "I") for j in (0, 1)]
    return T.fn("U", *k, E.n, I(i))


def _rvs_arg(E, i):
    ag, bg = T.rpow(E.a(i), E.g(i)), T.rpow(E.b(i), E.g(i))
    return ag + (bg - ag) * _U(E, i)


Contract("powerlaw_rvs", U + "powerlaw_rvs", dict(key="key", a=("n",), b=("n",), g=("n",)), dims=dict(n=1), requires=_plreq,
         ensures=lambda E: SArr((E.n,), lambda i: T.rpow(_rvs_arg(E, i), 1 / E.g[i])),
         hints=lambda E, P: L.rvs_hints(E, P, _U, _rvs_arg), sample=lambda r, d: dict(_pls(r, d), key=G.key(r)),
         lemmas=dict(within_bounds=lambda E, P: L.rvs_bounds(E, P, _U, _rvs_arg),
                     inverse_cdf=lambda E, P: L.rvs_cdf(E, P, _U, _rvs_arg)))
