"""Contracts: emission-line flux and equivalent width"""
import numpy as np

from dv.contract import Contract, SArr
from dv import terms as T
from dv.jx import det
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ
from . import spec as S
from . import gen as G
from . import lemmas as L

EW = "dsps.em_lines.equivalent_width:"


# ---------------------------------------------------------------- weighted quadratic
def moment(E, k, w=None):
    w = w or E.w
    return summ(I(0), E.n, lambda i: w(i) ** 2 * E.x(i) ** k)


def rhs(E, k, y=None):
    y = y or E.y
    return summ(I(0), E.n, lambda i: E.w(i) ** 2 * E.x(i) ** k * y(i))


def normal_matrix(E):
    s = [getattr(E, "s%d" % k) for k in range(5)]
    return [[s[(2 - r) + (2 - c)] for c in range(3)] for r in range(3)]


def cramer(E, k):
    """coefficient of x^(2-k): unique minimiser of sum_i w_i^2 (c2 x^2 + c1 x + c0 - y)^2"""
    M = normal_matrix(E)
    t = [getattr(E, "t%d" % (2 - r)) for r in range(3)]
    return det([[t[r] if c == k else M[r][c] for c in range(3)] for r in range(3)]) / det(M)


def fit_lets(E, let):
    for k in range(5):
        let("s%d" % k, moment(E, k))
    for k in range(3):
        let("t%d" % k, rhs(E, k))


def fit_req(E):
    return [forall(I(0), E.n, lambda i: lt(R(0), E.x(i))), lt(R(0), E.s0), not_(eq(det(normal_matrix(E)), R(0)))]


def fit_hints(E, P):
    """sum w^2 > 0 and x > 0: every even moment is positive"""
    w = lambda i: E.w(i) ** 2
    for k in (2, 4):
        sk = getattr(E, "s%d" % k)
        g = lambda i: w(i) * E.x(i) ** k
        L.all_k(P, I(0), E.n, lambda i: le(R(0), w(i)), lambda Q, i: Q)
        L.all_k(P, I(0), E.n, lambda i: le(R(0), g(i)), lambda Q, i: Q.have(lt(R(0), E.x(i) ** k)))
        P.use(L.sum_nonneg(I(0), E.n, g))
        P.have(le(R(0), sk), unfold="s%d" % k)
        Q = P.suppose(eq(sk, R(0)))
        Q.define(sk)
        Q.have(eq(summ(I(0), E.n, g), R(0)))
        Q.use(L.sum_zero(I(0), E.n, g))
        Q.have(forall(I(0), E.n, lambda i: eq(g(i), R(0))))
        L.all_k(Q, I(0), E.n, lambda i: eq(w(i), R(0)), lambda W, i: W.have(lt(R(0), E.x(i) ** k)).have(eq(w(i) * E.x(i) ** k, R(0))))
        Q.use(L.sum_all_zero(I(0), E.n, w)).define(E.s0)
        Q.have(eq(E.s0, R(0)))
        Q.show(eq(R(1), R(0)))
        P.ctx = P.ctx.assume(lt(R(0), sk))


def s_fit(r, d):
    n = d["n"]
    x = G.posincr(r, n, 0.5, 4)
    return dict(x=x, y=r.normal(size=n), w=r.uniform(0.2, 2, n) * r.choice([0.0, 1.0], n, p=[0.2, 0.8]))


def well_posed(V):
    A = np.vander(np.asarray(V["x"], float), 3) * np.asarray(V["w"], float)[:, None]
    with np.errstate(all="ignore"):
        A = A / np.sqrt((A * A).sum(0))
    return bool(np.all(np.isfinite(A))) and np.linalg.svd(A, compute_uv=False)[-1] > 1e-4


def rss(E, c, y=None):
    """sum of squared weighted residuals of the quadratic c"""
    y = y or E.y
    return summ(I(0), E.n, lambda i: E.w(i) ** 2 * (c[0] * E.x(i) ** 2 + c[1] * E.x(i) + c[2] - y(i)) ** 2)


def normal_equations(E, P):
    """the residual is orthogonal to 1, x and x^2"""
    c = [cramer(E, k) for k in range(3)]
    for k in range(3):
        s = [getattr(E, "s%d" % (k + j)) for j in range(3)]
        P.show(eq(c[0] * s[2] + c[1] * s[1] + c[2] * s[0], getattr(E, "t%d" % k)))


def least_squares(E, P):
    """no quadratic has a smaller sum of squared weighted residuals"""
    c = [T.var("c%d" % k) for k in (2, 1, 0)]
    d = [T.var("d%d" % k) for k in (2, 1, 0)]
    for k in range(3):
        s = [getattr(E, "s%d" % (k + j)) for j in range(3)]
        P = P.suppose(eq(c[0] * s[2] + c[1] * s[1] + c[2] * s[0], getattr(E, "t%d" % k)))   # normal_equations
    e = [a - b for a, b in zip(d, c)]
    w = lambda i: E.w(i) ** 2
    q2 = lambda i: E.w(i) ** 2 * (e[0] * E.x(i) ** 2 + e[1] * E.x(i) + e[2]) ** 2
    L.all_k(P, I(0), E.n, lambda i: le(R(0), q2(i)), lambda Q, i: Q)
    P.use(L.sum_nonneg(I(0), E.n, q2))
    r = T.var("let:r")
    D = P.sub()
    for k in range(5):
        D.define(getattr(E, "s%d" % k))
    for k in range(3):
        D.define(getattr(E, "t%d" % k))
    yy = summ(I(0), E.n, lambda i: E.w(i) ** 2 * E.y(i) ** 2)
    S = [E.s0, E.s1, E.s2, E.s3, E.s4]
    quad = lambda v: v[0] ** 2 * S[4] + 2 * v[0] * v[1] * S[3] + (v[1] ** 2 + 2 * v[0] * v[2]) * S[2] + 2 * v[1] * v[2] * S[1] + v[2] ** 2 * S[0]
    lin = lambda v: v[0] * E.t2 + v[1] * E.t1 + v[2] * E.t0
    D.have(eq(rss(E, c), quad(c) - 2 * lin(c) + yy), unfold="*")
    D.have(eq(rss(E, d), quad(d) - 2 * lin(d) + yy), unfold="*")
    D.have(eq(summ(I(0), E.n, q2), quad(e)), unfold="*")
    # rational identity using the normal equations
    P.have(le(R(0), summ(I(0), E.n, q2)))
    A, B, Q = T.var("rss_c"), T.var("rss_d"), T.var("q")
    F = P.suppose(eq(A, quad(c) - 2 * lin(c) + yy), eq(B, quad(d) - 2 * lin(d) + yy), eq(Q, quad(e)), le(R(0), Q))
    N = [c[0] * S[k + 2] + c[1] * S[k + 1] + c[2] * S[k] for k in range(3)]
    lin2 = lambda v: v[0] * N[2] + v[1] * N[1] + v[2] * N[0]
    F.have(eq(lin(c), lin2(c)))
    F.have(eq(lin(d), lin2(d)))
    F.have(eq(quad(d) - 2 * lin2(d) - quad(c) + 2 * lin2(c), quad(e)))
    F.show(le(A, B))


FIT_LEMMAS = dict(normal_equations=normal_equations, least_squares=least_squares)

Contract("quadratic_fit", EW + "_weighted_quadratic_fit", dict(x=("n",), y=("n",), w=("n",)), dims=dict(n=3), lets=fit_lets,
         requires=fit_req, hints=fit_hints, sample=s_fit, sample_ok=well_posed, fold_sums=True, call=lambda f, V: tuple(f(V.x, V.y, V.w)),
         ensures=lambda E: [cramer(E, k) for k in range(3)], lemmas=FIT_LEMMAS, concrete_dims=[dict(n=5), dict(n=8)])


# ---------------------------------------------------------------- windows
def inside(x, lo, hi):
    return and_(le(lo, x), le(x, hi))


def cont_w(E, i):
    x = E.x(i)
    return ite(or_(inside(x, E.x1, E.x2), inside(x, E.x3, E.x4)), R(1), R(0))


def s_win(r, d):
    n = d["n"]
    x = G.posincr(r, n, 0.5, 4)
    e = np.sort(r.uniform(x[0], x[-1], 6))
    if r.random() < 0.5:
        k = r.integers(6)
        e[k] = x[r.integers(n)]
    if r.random() < 0.8:
        e = np.sort(e)
    return dict(x=x, y=r.normal(size=n) + 3, x1=e[0], x2=e[1], lo=e[2], mid=r.uniform(min(e[2], e[3]), max(e[2], e[3])), hi=e[3], x3=e[4], x4=e[5])


Contract("continuum_window", EW + "_get_quadfit_weights", dict(x=("n",), x1=(), x2=(), x3=(), x4=()), dims=dict(n=1), sample=s_win,
         ensures=lambda E: SArr((E.n,), lambda i: cont_w(E, i)))
Contract("line_window", EW + "_get_integration_weights", dict(x=("n",), lo=(), hi=()), dims=dict(n=1), sample=s_win,
         ensures=lambda E: SArr((E.n,), lambda i: ite(inside(E.x(i), E.lo, E.hi), R(1), R(0))))


# ---------------------------------------------------------------- line flux
def ew_lets(E, let):
    E.w = SArr((E.n,), lambda i: cont_w(E, i))
    fit_lets(E, let)
    for k in range(3):
        let("c%d" % (2 - k), cramer(E, k))
    let("cont", E.c0 + E.c1 * E.mid + E.c2 * E.mid ** 2)


def line_w(E, i):
    return ite(inside(E.x(i), E.lo, E.hi), R(1), R(0))


def line_flux(E):
    """trapezoid integral over the line window of spectrum minus continuum"""
    return S.trapz(E.x, lambda i: line_w(E, i) * (E.y(i) - E.c0 - E.c1 * E.x(i) - E.c2 * E.x(i) ** 2), E.n)


def ew_req(E):
    return fit_req(E) + [not_(eq(E.cont, R(0)))]


def ew_ok(V):
    x = np.asarray(V["x"], float)
    w = ((x >= V["x1"]) & (x <= V["x2"])) | ((x >= V["x3"]) & (x <= V["x4"]))
    return w.sum() >= 4 and well_posed(dict(x=x, w=w * 1.0))


def quadratic_spectrum(E, P):
    """a spectrum that is exactly quadratic in all three windows has zero line flux"""
    a = [T.var("a%d" % k) for k in (2, 1, 0)]
    q = lambda i: a[0] * E.x(i) ** 2 + a[1] * E.x(i) + a[2]
    any_w = lambda i: or_(inside(E.x(i), E.x1, E.x2), inside(E.x(i), E.x3, E.x4), inside(E.x(i), E.lo, E.hi))
    P = P.suppose(forall(I(0), E.n, lambda i: T.implies(any_w(i), eq(E.y(i), q(i)))))
    # the right-hand sides of the normal equations are those of the quadratic itself
    ctx0 = P.ctx
    for k in range(3):
        t = getattr(E, "t%d" % k)
        f = lambda i: E.w(i) ** 2 * E.x(i) ** k * E.y(i)
        g = lambda i: E.w(i) ** 2 * E.x(i) ** k * q(i)
        Q = P.sub()
        L.all_k(Q, I(0), E.n, lambda i: eq(f(i), g(i)), lambda W, i: W)
        Q.use(L.sum_congr(I(0), E.n, f, g))
        s = [getattr(E, "s%d" % (k + j)) for j in range(3)]
        P.have(eq(t, summ(I(0), E.n, f)), unfold="*")
        P.have(eq(summ(I(0), E.n, g), a[0] * s[2] + a[1] * s[1] + a[2] * s[0]), unfold="*")
        # t = sum f = sum g = a . s
        P.ctx = ctx0 = ctx0.assume(eq(t, a[0] * s[2] + a[1] * s[1] + a[2] * s[0]))
    # so Cramer's rule returns its coefficients
    M = normal_matrix(E)
    rhs = [a[0] * M[r][0] + a[1] * M[r][1] + a[2] * M[r][2] for r in range(3)]
    tt = [E.t2, E.t1, E.t0]
    for k in range(3):
        P.show(eq([E.c2, E.c1, E.c0][k], det([[tt[r] if c == k else M[r][c] for c in range(3)] for r in range(3)]) / det(M)), unfold=("c0", "c1", "c2"))
        num = det([[rhs[r] if c == k else M[r][c] for c in range(3)] for r in range(3)])
        P.show(eq(num / det(M), a[k]))
        P.ctx = P.ctx.assume(eq([E.c2, E.c1, E.c0][k], a[k]))       # by t = rhs
    h = lambda i: line_w(E, i) * (E.y(i) - E.c0 - E.c1 * E.x(i) - E.c2 * E.x(i) ** 2)
    L.all_k(P, I(0), E.n, lambda i: eq(h(i), R(0)), lambda Q, i: Q)
    g = lambda i: (E.x(i + 1) - E.x(i)) * (h(i) + h(i + 1)) / 2
    L.all_k(P, I(0), E.n - 1, lambda i: eq(g(i), R(0)), lambda Q, i: Q.have(eq(h(i), R(0))).have(eq(h(i + 1), R(0))))
    P.use(L.sum_all_zero(I(0), E.n - 1, g))
    P.show(eq(line_flux(E), R(0)))


EW_ARGS = dict(x=("n",), y=("n",), lo=(), mid=(), hi=(), x1=(), x2=(), x3=(), x4=())
for cid, fn, call, outs in [
        ("ew", "_ew_kernel", None, lambda E: [line_flux(E) / E.cont, line_flux(E)]),
        ("line_decomp", "_continuum_line_decomp_kern", lambda f, V: (lambda r: (r[0], r[1], r[2], tuple(r[3])))(f(*[getattr(V, k) for k in EW_ARGS])),
         lambda E: [line_flux(E) / E.cont, line_flux(E), E.cont, E.c2, E.c1, E.c0])]:
    Contract(cid, EW + fn, EW_ARGS, dims=dict(n=3), lets=ew_lets, requires=ew_req, hints=fit_hints, sample=s_win, sample_ok=ew_ok,
             fold_sums=True, call=call, ensures=outs, concrete_dims=[dict(n=24), dict(n=40)], rtol=1e-6,
             lemmas=dict(quadratic_spectrum=quadratic_spectrum) if cid == "ew" else None)
