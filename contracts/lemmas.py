"""Lemma library.  Two kinds:
  * lemmas proved here by the same prover the first time they are used (tw_*, pow_*,
    sigmoid_*), and
  * lemmas about finite sums and piecewise-linear interpolation whose proofs are in
    lean/Lemmas.lean (checked by Lean in the thorough tier)."""
from fractions import Fraction
from math import comb, factorial

from dv import terms as T
from dv import prover as P_
from dv.contract import LemmaFail, Proof, SArr
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, implies, exp, ln, log10
from . import spec as S

_proved = {}


def proved_here(name):
    """decorator: body(P) proves the generic statement once"""
    def deco(gen):
        def inst(*ts):
            if name not in _proved:
                _proved[name] = True
                gen()
            return None
        return inst
    return deco


def once(name, f):
    if name not in _proved:
        old = S.OPAQUE[0]
        S.OPAQUE[0] = False
        try:
            f()
        finally:
            S.OPAQUE[0] = old
        _proved[name] = True


# --- sums (Lean: sum_nonneg, sum_pos, sum_eq_zero_iff) ------------------------------
def sum_nonneg(lo, hi, f):
    return ("sum_nonneg", forall(lo, hi, lambda i: le(R(0), f(i))), le(R(0), summ(lo, hi, f)))


def sum_pos(lo, hi, f):
    return ("sum_pos", and_(lt(I(lo), I(hi)), forall(lo, hi, lambda i: lt(R(0), f(i)))), lt(R(0), summ(lo, hi, f)))


def sum_pos1(lo, hi, f, j):
    """nonnegative terms, one positive"""
    return ("sum_pos_of_mem", and_(le(I(lo), j), lt(j, I(hi)), lt(R(0), f(j)), forall(lo, hi, lambda i: le(R(0), f(i)))),
            lt(R(0), summ(lo, hi, f)))


def rmax(n, f):
    return T._mk("rmax", (I(0), I(n), T.lam(f)), "R")


def rmax_ge(n, f, i):
    """the maximum is at least each entry"""
    return ("rmax_ge", and_(le(I(0), i), lt(i, I(n))), le(f(i), rmax(n, f)))


def rmax_pos(n, f):
    return ("rmax_pos", and_(lt(I(0), I(n)), forall(I(0), I(n), lambda i: lt(R(0), f(i)))), lt(R(0), rmax(n, f)))


def sum_zero(lo, hi, f):
    """terms >= 0: sum = 0 <-> all terms 0"""
    s, a = eq(summ(lo, hi, f), R(0)), forall(lo, hi, lambda i: eq(f(i), R(0)))
    return ("sum_eq_zero_iff", forall(lo, hi, lambda i: le(R(0), f(i))), and_(implies(s, a), implies(a, s)))


def sum_all_zero(lo, hi, f):
    return ("sum_eq_zero_iff", forall(lo, hi, lambda i: eq(f(i), R(0))), eq(summ(lo, hi, f), R(0)))


# --- interpolation (Lean: interp_mono, interp_strict, interp_scale) -------
def incr(xp, n):
    return forall(I(0), n - 1, lambda j: lt(xp(j), xp(j + 1)))


def nondecr(fp, n):
    return forall(I(0), n - 1, lambda j: le(fp(j), fp(j + 1)))


def interp_mono(x, y, n, xp, fp):
    return ("interp_mono", and_(le(x, y), incr(xp, n), nondecr(fp, n)),
            le(S.interp(x, n, xp, fp), S.interp(y, n, xp, fp)))


def interp_strict(x, y, n, xp, fp):
    return ("interp_strict", and_(lt(I(1), I(n)), lt(x, y), lt(x, xp(n - 1)), lt(xp(I(0)), y), incr(xp, n), incr(fp, n)),
            lt(S.interp(x, n, xp, fp), S.interp(y, n, xp, fp)))


def interp_scale(x, n, xp, fp, k, left=None, right=None):
    """linear in the values"""
    sc = lambda e: None if e is None else k * e
    return ("interp_scale", incr(xp, n), eq(S.interp(x, n, xp, lambda j: k * fp(j), sc(left), sc(right)),
                                            k * S.interp(x, n, xp, fp, left, right)))


# --- triweight kernel ------------------------------------------------------------------
def tw_poly_diff(a, b):
    """int_a^b 35/96 (1-(u/3)^2)^3 du as a polynomial with nonnegative coefficients in
    x = 3 - b, y = 3 + a, d = b - a"""
    x, y, d = 3 - b, 3 + a, b - a
    tot = R(0)
    for i in range(4):
        for j in range(4):
            co = Fraction(comb(3, i) * comb(3, j) * factorial(i) * factorial(j), factorial(i + j + 1))
            tot = tot + T.const(co) * T.ipow(x, 3 - i) * T.ipow(y, 3 - j) * T.ipow(d, i + j)
    return T.const(Fraction(35, 96 * 729)) * d * tot


def body(z):
    return S.c("1/2") + S.c("35/96") * (z - z**3 / 9 + z**5 / 135 - z**7 / 5103)


def _prove_tw_core():
    """-3 <= a <= b <= 3: body(b) - body(a) = the polynomial above, which is >= 0 (> 0 if a < b)"""
    a, b = T.var("a!tw"), T.var("b!tw")
    ctx = P_.Ctx([])
    r = P_.prove_eq(body(b) - body(a), tw_poly_diff(a, b), ctx)
    if not r:
        raise LemmaFail("tw identity", r)
    x, y, d = T.var("x!tw"), T.var("y!tw"), T.var("d!tw")
    # generic sign facts, in terms of x, y, d
    p = tw_poly_diff(y - 3, R(3) - x)
    tot = R(0)
    for i in range(4):
        for j in range(4):
            co = Fraction(comb(3, i) * comb(3, j) * factorial(i) * factorial(j), factorial(i + j + 1))
            tot = tot + T.const(co) * T.ipow(x, 3 - i) * T.ipow(y, 3 - j) * T.ipow(d, i + j)
    c2 = P_.Ctx([le(R(0), x), le(R(0), y), lt(R(0), d)])
    r = P_.prove(lt(R(0), tot * d), c2)
    if not r:
        raise LemmaFail("tw positivity", r)
    for z, v in ((-3, 0), (3, 1)):
        r = P_.prove(eq(body(R(z)), R(v)), ctx)
        if not r:
            raise LemmaFail("tw ends", r)


def tw_core(a, b):
    """instance of the core fact (proved once by _prove_tw_core)"""
    once("tw_core", _prove_tw_core)
    return ("tw_core", and_(le(R(-3), a), lt(a, b), le(b, R(3))), lt(body(a), body(b)))


def _prove_tw_mono():
    once("tw_core", _prove_tw_core)
    a, b = T.var("a!tw"), T.var("b!tw")
    m3, p3 = R(-3), R(3)
    core = lambda u, v: implies(and_(le(m3, u), lt(u, v), le(v, p3)), lt(body(u), body(v)))
    A, B = T.fn("twb", a), T.fn("twb", b)
    bo = lambda u: T.fn("twb", u)
    tw = lambda u: ite(lt(u, m3), R(0), ite(lt(p3, u), R(1), bo(u)))
    cr = lambda u, v: implies(and_(le(m3, u), lt(u, v), le(v, p3)), lt(bo(u), bo(v)))
    facts = [cr(u, v) for u in (a, b, m3, p3) for v in (a, b, m3, p3) if u is not v]
    facts += [eq(bo(m3), R(0)), eq(bo(p3), R(1))]
    ctx = P_.Ctx(facts)
    for g in (implies(le(a, b), le(tw(a), tw(b))), and_(le(R(0), tw(a)), le(tw(a), R(1))),
              implies(and_(lt(a, b), lt(a, p3), lt(m3, b)), lt(tw(a), tw(b))),
              implies(le(p3, a), eq(tw(a), R(1))), implies(le(a, m3), eq(tw(a), R(0)))):
        if not P_.solve(ctx.facts, g, 20000):
            raise LemmaFail("tw_mono", P_.Result(False, "tw_mono", ctx, g))


def tw_mono(a, b):
    once("tw_mono", _prove_tw_mono)
    return ("tw_mono", le(a, b), le(S.tw_cdf(a), S.tw_cdf(b)))


def tw_strict(a, b):
    once("tw_mono", _prove_tw_mono)
    return ("tw_strict", and_(lt(a, b), lt(a, R(3)), lt(R(-3), b)), lt(S.tw_cdf(a), S.tw_cdf(b)))


def tw_range(a):
    once("tw_mono", _prove_tw_mono)
    return ("tw_range", T.TRUE, and_(le(R(0), S.tw_cdf(a)), le(S.tw_cdf(a), R(1))))


def tw_high(a):
    once("tw_mono", _prove_tw_mono)
    return ("tw_saturates", le(R(3), a), eq(S.tw_cdf(a), R(1)))


def tw_low(a):
    once("tw_mono", _prove_tw_mono)
    return ("tw_saturates", le(a, R(-3)), eq(S.tw_cdf(a), R(0)))


def tw_bounds(E, P):
    P.use(tw_range((E.x - E.m) / E.h)).show(and_(le(R(0), E.out[0]), le(E.out[0], R(1))))


def div_le(a, b, h):
    """h > 0: a <= b -> a/h <= b/h"""
    return ("div_le_div", and_(lt(R(0), h), le(a, b)), le(a / h, b / h))


def div_lt(a, b, h):
    return ("div_lt_div", and_(lt(R(0), h), lt(a, b)), lt(a / h, b / h))


def tw_monotone(E, P):
    y = T.var("y!")
    P = P.suppose(le(E.x, y))
    a, b = (E.x - E.m) / E.h, (y - E.m) / E.h
    P.use(div_le(E.x - E.m, y - E.m, E.h)).use(tw_mono(a, b)).show(le(E.out[0], S.tw_cdf(b)))


def tw_symmetric(E, P):
    z = T.var("z!")
    P.show(eq(S.tw_cdf(z) + S.tw_cdf(-z), R(1)))


def tw_saturates(E, P):
    z = (E.x - E.m) / E.h
    P.suppose(le(R(3), z)).show(eq(E.out[0], R(1)))
    P.suppose(le(z, R(-3))).show(eq(E.out[0], R(0)))


def tw_pdf_nonneg(E, P):
    i, Q = P.fix(0, E.n)
    z0 = (E.x[i] - E.m) / E.h
    tw_pdf_at(Q, z0)
    Q.show(le(R(0), S.tw_pdf(z0) / E.h))


def tw_pdf_at(P, z0):
    """adds: the density at z0 is >= 0"""
    once("tw_pdf_nonneg", _prove_pdf)
    P.ctx = P.ctx.assume(le(R(0), S.tw_pdf(z0)))


def _prove_pdf():
    P = Proof(P_.Ctx([]), None)
    z = T.var("z!")
    Q0 = P.suppose(le(R(-3), z), le(z, R(3)))
    Q0.have(le(R(0), (1 - z / 3) * (1 + z / 3)))
    Q0.have(eq(1 - (z / 3) ** 2, (1 - z / 3) * (1 + z / 3)))
    Q0.have(le(R(0), 1 - (z / 3) ** 2)).show(le(R(0), (1 - (z / 3) ** 2) ** 3))
    z0 = T.var("z0!")
    inst = implies(and_(le(R(-3), z0), le(z0, R(3))), le(R(0), (1 - (z0 / 3) ** 2) ** 3))
    P.ctx = P.ctx.assume(inst)
    P.show(le(R(0), S.tw_pdf(z0)))


def poly_derivative(p, z):
    """formal derivative of an expanded polynomial term"""
    q = P_.expand(p)
    tot = R(0)
    for m, co in q.items():
        d = dict(m)
        e = d.pop(z, 0)
        if e:
            tot = tot + T.mul(T.const(co * e), T.ipow(z, e - 1), *[T.ipow(a, k) for a, k in d.items()])
    return tot


def tw_pdf_derivative(E, P):
    """d/dz of the cumulative polynomial is the density"""
    z = T.var("z!")
    P.show(eq(poly_derivative(body(z), z), S.c("35/96") * (1 - (z / 3) ** 2) ** 3))


def hist_total(E, P):
    tot = summ(I(0), E.n, lambda i: E.out[0][i])
    P.show(eq(tot, S.tw_cdf((E.x - E.b[I(0)]) / E.sig) - S.tw_cdf((E.x - E.b[E.n]) / E.sig)))


def hist_nonneg(P, x, sig, b, n):
    """each bin holds nonnegative mass (bins ordered)"""
    k, Q = P.fix(0, n)
    za, zb = (x - b(k)) / sig, (x - b(k + 1)) / sig
    Q.use(div_le(x - b(k + 1), x - b(k), sig)).use(tw_mono(zb, za))
    Q.show(le(R(0), S.tw_hist_bin(x, sig, b(k), b(k + 1))))
    P.ctx = P.ctx.assume(forall(I(0), n, lambda i: le(R(0), S.tw_hist_bin(x, sig, b(i), b(i + 1)))))
    return P


def point_hints(x, sig, b, n):
    """facts about the binned kernel mass needed to resolve the empty-weights branch"""
    def go(E, P):
        xx, bb, nn, ss = x(E), b(E), n(E), sig(E)
        point_facts(P, xx, ss, bb, nn)
    return go


def point_facts(P, x, sig, b, n):
    P.use(incr_chain(b, n))
    h = S.point_hist(x, sig, b)
    hist_nonneg(P, x, sig, b, n)
    P.use(sum_zero(I(0), n, h))
    P.use(sum_nonneg(I(0), n, h))
    return P


def point_weights(E, P, x, sig, b, n, w):
    """the weights are nonnegative and add up to one"""
    h = S.point_hist(x, sig, b)
    tot = summ(I(0), n, h)
    point_facts(P, x, sig, b, n)
    b0, bn = b(I(0)), b(n)
    # inside the grid the kernel always meets some bin
    z0, zn = (x - b0) / sig, (x - bn) / sig
    P.use(incr_chain(b, n))
    Q = P.suppose(le(b0, x), le(x, bn))
    Q.use(div_lt(x - bn, x - b0, sig)).use(div_le(R(0), x - b0, sig)).use(div_le(x - bn, R(0), sig))
    Q.use(tw_strict(zn, z0))
    Q.have(eq(tot, S.tw_cdf(z0) - S.tw_cdf(zn)))
    Q.show(lt(R(0), tot))
    P.ctx = P.ctx.assume(implies(and_(le(b0, x), le(x, bn)), lt(R(0), tot)))
    i, Q = P.fix(0, n)
    Qa = Q.suppose(not_(eq(tot, R(0))))
    Qa.have(lt(R(0), tot)).have(le(R(0), h(i))).show(le(R(0), w(i)))
    Q.suppose(eq(tot, R(0))).show(le(R(0), w(i)))
    total = summ(I(0), n, w)
    Q = P.suppose(not_(eq(tot, R(0))))
    Q.show(eq(total, R(1)))
    Q = P.suppose(eq(tot, R(0)), lt(x, b0))
    Q.show(eq(total, R(1)))
    Q = P.suppose(eq(tot, R(0)), lt(bn, x))
    Q.have(not_(lt(x, b0)))
    Q.show(eq(total, R(1)))
    Q = P.suppose(eq(tot, R(0)), le(b0, x), le(x, bn))
    Q.show(T.FALSE)


def incr_chain(b, n):
    """b increasing on 0..n  ->  b(0) < b(n)   (Lean: strictMono_chain)"""
    return ("strictMono_chain", and_(lt(I(0), n), forall(I(0), n, lambda j: lt(b(j), b(j + 1)))), lt(b(I(0)), b(n)))


def incr_le(b, i, j, n):
    """b increasing on 0..n, i <= j -> b(i) <= b(j)"""
    return ("strictMono_le", and_(le(I(0), i), le(i, j), le(j, n), forall(I(0), n, lambda k: lt(b(k), b(k + 1)))), le(b(i), b(j)))


# --- sigmoids -------------------------------------------------------------------------
def sig_frac(u):
    return 1 / (1 + exp(-u))


def sig_bounds(E, P):
    P = P.suppose(lt(E.lo, E.hi))
    u = T.fn("sg", E.k * (E.x - E.x0))
    s = 1 / (1 + exp(-(E.k * (E.x - E.x0))))
    P.have(and_(lt(R(0), s), lt(s, R(1))))
    P.show(eq(E.out[0], E.lo + (E.hi - E.lo) * s))
    P.have(lt(R(0), (E.hi - E.lo) * s))
    P.have(lt(R(0), (E.hi - E.lo) * (1 - s)))
    P.have(eq((E.hi - E.lo) * (1 - s), (E.hi - E.lo) - (E.hi - E.lo) * s))
    P.show(lt(E.lo, E.lo + (E.hi - E.lo) * s)).show(lt(E.lo + (E.hi - E.lo) * s, E.hi))


def sig_increasing(P, x, y, x0, k, lo, hi):
    """x < y -> sigmoid(x) < sigmoid(y), for lo < hi and k > 0"""
    a, b = exp(-(k * (x - x0))), exp(-(k * (y - x0)))
    P.have(lt(lo, hi)).have(lt(R(0), k)).have(lt(x, y))
    P.have(lt(R(0), k * (y - x)))
    P.have(lt(-(k * (y - x0)), -(k * (x - x0))))
    P.have(lt(b, a))
    P.have(lt(1 / (1 + a), 1 / (1 + b)))
    P.have(lt(R(0), (hi - lo) * (1 / (1 + b) - 1 / (1 + a))))
    P.have(lt(lo + (hi - lo) * (1 / (1 + a)), lo + (hi - lo) * (1 / (1 + b))))
    P.show(lt(S.sigmoid(x, x0, k, lo, hi), S.sigmoid(y, x0, k, lo, hi)))


def sig_monotone(E, P):
    y = T.var("y!")
    sig_increasing(P.suppose(lt(E.lo, E.hi), lt(R(0), E.k), lt(E.x, y)), E.x, y, E.x0, E.k, E.lo, E.hi)


def sig_inv_arg(P, y, lo, hi):
    """(hi-lo)/(y-lo) - 1 = (hi-y)/(y-lo) > 0"""
    P.have(lt(R(0), (hi - y) / (y - lo)))
    P.have(eq((hi - lo) / (y - lo) - 1, (hi - y) / (y - lo)))
    P.have(lt(R(0), (hi - lo) / (y - lo) - 1))
    return P


def sig_of_inv(E, P, ):
    y = E.y
    sig_inv_arg(P, y, E.lo, E.hi)
    a = T.var("a!")
    P.suppose(lt(R(0), a)).show(eq(S.sigmoid(E.x0 - ln(a) / E.k, E.x0, E.k, E.lo, E.hi), E.lo + (E.hi - E.lo) / (1 + a)))
    P.have(eq(E.lo + (E.hi - E.lo) / (1 + ((E.hi - E.lo) / (y - E.lo) - 1)), y))


def inv_of_sig(E, P):
    x = T.var("x!")
    y = S.sigmoid(x, E.x0, E.k, E.lo, E.hi)
    P2 = P.suppose(lt(E.lo, E.hi))
    u = exp(-(E.k * (x - E.x0)))
    P2.have(eq((E.hi - E.lo) / (y - E.lo) - 1, u))
    P2.show(eq(E.x0 - ln(u) / E.k, x))


# --- products, powers -------------------------------------------------------------------
def outer2(E, P):
    g, Q = P.fix(0, E.g)
    i, Q = Q.fix(0, E.n)
    Q.show(eq(summ(I(0), E.m, lambda j: E.out[0][g, i, j]), E.a[g, i] * summ(I(0), E.m, lambda j: E.b[g, j])))


def _total(u, n):
    return summ(I(0), n, u)


def outer2_total(E, P):
    g, P = P.fix(0, E.g)
    P.show(eq(summ(I(0), E.n, lambda i: summ(I(0), E.m, lambda j: E.out[0][g, i, j])),
              _total(lambda i: E.a[g, i], E.n) * _total(lambda j: E.b[g, j], E.m)))


def outer3_total(E, P):
    g, P = P.fix(0, E.g)
    P.show(eq(summ(I(0), E.n, lambda i: summ(I(0), E.m, lambda j: summ(I(0), E.l, lambda k: E.out[0][g, i, j, k]))),
              _total(lambda i: E.a[g, i], E.n) * _total(lambda j: E.b[g, j], E.m) * _total(lambda k: E.c[g, k], E.l)))


def pow_strict(a, b, g):
    """0 < a < b, g != 0: a^g < b^g iff g > 0, and a^g != b^g   (exp/ln monotonicity)"""
    pa, pb = T.rpow(a, g), T.rpow(b, g)
    once("pow_strict", _prove_pow)
    return ("pow_strict", and_(lt(R(0), a), lt(a, b)),
            and_(implies(lt(R(0), g), lt(pa, pb)), implies(lt(g, R(0)), lt(pb, pa))))


def _prove_pow():
    a, b, g = T.var("a!"), T.var("b!"), T.var("g!")
    ctx = P_.Ctx([lt(R(0), a), lt(a, b)])
    la, lb = ln(a), ln(b)
    for s, g2 in ((1, lt(R(0), g)), (-1, lt(g, R(0)))):
        P = Proof(ctx.assume(g2), None)
        P.have(lt(la, lb)).have(lt(R(0), lb - la))
        P.have(lt(R(0), T.scale(s, g) * (lb - la)))
        P.have(lt(R(0), T.scale(s, g * lb - g * la)))
        ga, gb = (g * la, g * lb) if s == 1 else (g * lb, g * la)
        P.have(lt(ga, gb)).show(lt(T._mk("exp", (ga,), "R"), T._mk("exp", (gb,), "R")))


def pow_hints(E, P):
    k, Q = P.fix(0, E.n)
    Q.use(pow_strict(E.a[k], E.b[k], E.g[k]))
    d = T.rpow(E.b[k], E.g[k]) - T.rpow(E.a[k], E.g[k])
    Q.show(not_(eq(d, R(0))))
    P.ctx = P.ctx.assume(forall(I(0), E.n, lambda i: not_(eq(T.rpow(E.b[i], E.g[i]) - T.rpow(E.a[i], E.g[i]), R(0)))))


def plaw_positive(E, P):
    k, Q = P.fix(0, E.n)
    Q.use(pow_strict(E.a[k], E.b[k], E.g[k]))
    for c in (lt(R(0), E.g[k]), lt(E.g[k], R(0))):
        Q.suppose(c).show(lt(R(0), E.out[0][k]))


def trapz_nonneg(E, P):
    P = P.suppose(forall(I(0), E.n - 1, lambda j: lt(E.x[j], E.x[j + 1])), forall(I(0), E.n, lambda j: le(R(0), E.y[j])))
    P.use(sum_nonneg(I(0), E.n - 1, lambda j: (E.x(j + 1) - E.x(j)) * (E.y(j) + E.y(j + 1)) / 2))
    P.show(le(R(0), E.out[0]))


# --- age weights ------------------------------------------------------------------------
def ln10_pos(P):
    P.have(lt(R(0), ln(R(10))))
    return P


def log10_mono(P, a, b, strict=True):
    """0 < a < b -> log10 a < log10 b"""
    op = lt if strict else le
    P.have(op(ln(a), ln(b)))
    P.have(lt(R(0), ln(R(10))))
    P.have(op(T.log10(a), T.log10(b)))
    return P


def all_k(P, lo, hi, fact, steps):
    """prove fact(k) for an arbitrary k in [lo, hi), then assume it for all"""
    k, Q = P.fix(lo, hi)
    steps(Q, k)
    Q.show(fact(k))
    P.ctx = P.ctx.assume(forall(lo, hi, fact))
    return P


def pow10_mono(P, x, y, strict=True):
    op = lt if strict else le
    l = ln(R(10))
    P.have(lt(R(0), l)).have(op(l * x, l * y)).have(op(T.pow10(x), T.pow10(y)))
    return P


def smh_facts(E, P, pre=""):
    """cumulative mass: positive and strictly increasing; so is its logarithm"""
    t, n = E.t, E.n
    f, ms, ls = getattr(E, pre + "f"), getattr(E, pre + "ms"), getattr(E, pre + "ls")
    all_k(P, I(0), n, lambda i: lt(R(0), f(i)), lambda Q, k: Q.have(lt(R(0), f(k)), unfold=pre + "f"))
    term = lambda j: (t(j + 1) - t(j)) * (f(j) + f(j + 1)) / 2

    def pos(Q, k):
        Q.use(sum_nonneg(I(0), k, term))
        Q.have(lt(R(0), (t(I(0)) - S.TB_MIN) * (S.SFR_FLOOR + f(I(0))) / 2))
        Q.have(lt(R(0), ms(k)), unfold=pre + "ms")
    all_k(P, I(0), n, lambda i: lt(R(0), ms(i)), pos)

    def inc(Q, k):
        Q.have(lt(R(0), term(k)))
        Q.have(eq(ms(k + 1) - ms(k), R(10**9) * term(k)), unfold=pre + "ms")
        Q.have(lt(ms(k), ms(k + 1)))
        log10_mono(Q, ms(k), ms(k + 1))
        Q.have(lt(ls(k), ls(k + 1)), unfold=pre + "ls")
    all_k(P, I(0), n - 1, lambda i: lt(ls(i), ls(i + 1)), inc)
    tpos_facts(E, P)
    return P


def tpos_facts(E, P):
    """t increasing from a positive start: positive, logarithms increasing"""
    t, n = E.t, E.n
    all_k(P, I(0), n, lambda i: lt(R(0), t(i)), lambda Q, k: Q.use(incr_le2(t, I(0), k, n)))

    def step(Q, k):
        log10_mono(Q, t(k), t(k + 1))
        Q.have(lt(E.lt(k), E.lt(k + 1)), unfold="lt")
    all_k(P, I(0), n - 1, lambda i: lt(E.lt(i), E.lt(i + 1)), step)
    return P


def incr_le2(b, i, j, n):
    """b increasing on 0..n-1"""
    return ("strictMono_le", and_(le(I(0), i), le(i, j), lt(j, n), forall(I(0), n - 1, lambda k: lt(b(k), b(k + 1)))), le(b(i), b(j)))


def age_facts(E, P):
    """mass formed per age bin is nonnegative, its total positive"""
    t, n, m = E.t, E.n, E.m
    e, tb, lb, mj, dm, tot = E.e, E.tb, E.lb, E.mj, E.dm, E.tot
    smh_facts(E, P)
    ip = lambda x: S.interp(x, n, E.lt, E.ls)
    all_k(P, I(0), m + 1, lambda j: lt(R(0), tb(j)), lambda Q, k: Q.have(lt(R(0), tb(k)), unfold="tb"))
    all_k(P, I(0), m + 1, lambda j: lt(R(0), mj(j)), lambda Q, k: Q.have(lt(R(0), mj(k)), unfold="mj"))

    def step(Q, k):
        pow10_mono(Q, e(k), e(k + 1))
        Q.have(le(tb(k + 1), tb(k)), unfold="tb")
        log10_mono(Q, tb(k + 1), tb(k), strict=False)
        Q.have(le(lb(k + 1), lb(k)), unfold="lb")
        Q.use(interp_mono(lb(k + 1), lb(k), n, E.lt, E.ls))
        pow10_mono(Q, ip(lb(k + 1)), ip(lb(k)), strict=False)
        Q.have(le(mj(k + 1), mj(k)), unfold="mj")
        Q.have(le(R(0), dm(k)), unfold="dm")
    all_k(P, I(0), m, lambda j: le(R(0), dm(j)), step)
    # total
    Q = P.sub()
    Q.use(incr_chain(e, m))
    pow10_mono(Q, e(I(0)), e(m))
    Q.have(lt(t(I(0)), tb(I(0))), unfold="tb")
    Q.have(lt(tb(m), tb(I(0))), unfold="tb")
    Q.use(incr_le2(t, I(0), n - 1, n))
    Q.have(lt(tb(m), t(n - 1)), unfold="tb")
    for a, b in ((tb(m), tb(I(0))), (t(I(0)), tb(I(0))), (tb(m), t(n - 1))):
        log10_mono(Q, a, b)
    Q.have(and_(lt(lb(m), lb(I(0))), lt(lb(m), E.lt(n - 1)), lt(E.lt(I(0)), lb(I(0)))), unfold=("lb", "lt"))
    Q.use(interp_strict(lb(m), lb(I(0)), n, E.lt, E.ls))
    pow10_mono(Q, ip(lb(m)), ip(lb(I(0))))
    Q.have(lt(mj(m), mj(I(0))), unfold="mj")
    tel = eq(tot, mj(I(0)) - mj(m))
    Q.have(tel, unfold=("tot", "dm"))
    Q.show(lt(R(0), tot))
    P.ctx = P.ctx.assume(tel, lt(R(0), tot))
    return P


def age_distribution(E, P):
    """age weights are nonnegative and add up to one"""
    k, Q = P.fix(0, E.m)
    Q.show(le(R(0), E.out[0][k]))
    P.define(E.tot)
    P.have(lt(R(0), E.lets.unfold(E.tot, ("tot",))))
    P.show(eq(summ(I(0), E.m, lambda j: E.out[0][j]), R(1)), unfold="tot")


def age_mass_history(E, P):
    """the weight of an age bin is the mass formed between the birth times of its edges,
    relative to the mass formed between the birth times of the youngest and oldest edges"""
    k, Q = P.fix(0, E.m)
    Q.show(eq(E.out[0][k], (E.mj(k) - E.mj(k + 1)) / (E.mj(I(0)) - E.mj(E.m))), unfold="dm")


def age_too_old(E, P):
    """bins older than the universe hold nothing"""
    k, Q = P.fix(0, E.m)
    Q = Q.suppose(le(E.tobs - T.pow10(E.e(k)), S.TB_MIN))
    pow10_mono(Q, E.e(k), E.e(k + 1))
    for j in (k, k + 1):
        Q.have(eq(E.tb(j), S.TB_MIN), unfold="tb")
    Q.have(eq(E.lb(k), E.lb(k + 1)), unfold="lb")
    Q.have(eq(E.mj(k), E.mj(k + 1)), unfold="mj")
    Q.show(eq(E.out[0][k], R(0)), unfold="dm")


# --- metallicity weights -------------------------------------------------------------------
def met_point(P, x, sig, b, n, h, tot, w, total=True):
    """P: facts about the kernel mass h(i) in each bin, its total, and the weights w(i)
    (h, tot, w are the named quantities zh, zt, mw)"""
    def nn(Q, k):
        za, zb = (x - b(k)) / sig, (x - b(k + 1)) / sig
        Q.use(div_le(x - b(k + 1), x - b(k), sig)).use(tw_mono(zb, za))
        Q.have(le(R(0), h(k)), unfold="zh")
    all_k(P, I(0), n, lambda i: le(R(0), h(i)), nn)
    sm = summ(I(0), n, h)
    P.use(sum_zero(I(0), n, h)).use(sum_nonneg(I(0), n, h))
    P.have(eq(sm, tot), unfold="zt")
    allz = forall(I(0), n, lambda i: eq(h(i), R(0)))
    P.have(implies(eq(tot, R(0)), allz)).have(implies(allz, eq(tot, R(0)))).have(le(R(0), tot))
    # inside the grid the kernel always meets some bin
    P.use(incr_chain(b, n))
    b0, bn = b(I(0)), b(n)
    z0, zn = (x - b0) / sig, (x - bn) / sig
    Q = P.suppose(le(b0, x), le(x, bn))
    Q.use(div_lt(x - bn, x - b0, sig)).use(div_le(R(0), x - b0, sig)).use(div_le(x - bn, R(0), sig))
    Q.use(tw_strict(zn, z0))
    Q.have(eq(tot, S.tw_cdf(z0) - S.tw_cdf(zn)), unfold=("zt", "zh"))
    Q.show(lt(R(0), tot))
    P.ctx = P.ctx.assume(implies(and_(le(b0, x), le(x, bn)), lt(R(0), tot)))

    def wn(Q, k):
        Q1 = Q.suppose(not_(eq(tot, R(0))))
        Q1.have(lt(R(0), tot)).show(le(R(0), w(k)), unfold="mw")
        Q.suppose(eq(tot, R(0))).show(le(R(0), w(k)), unfold="mw")
        Q.ctx = Q.ctx.assume(le(R(0), w(k)))
    all_k(P, I(0), n, lambda i: le(R(0), w(i)), wn)
    ws = summ(I(0), n, w)
    Q = P.suppose(not_(eq(tot, R(0))))
    Q.have(lt(R(0), sm))
    Q.show(eq(ws, R(1)), unfold=("mw", "zt"))
    P.suppose(eq(tot, R(0)), lt(x, b0)).show(eq(ws, R(1)), unfold="mw")
    Q = P.suppose(eq(tot, R(0)), lt(bn, x))
    Q.have(not_(lt(x, b0)))
    Q.show(eq(ws, R(1)), unfold="mw")
    P.suppose(eq(tot, R(0)), le(b0, x), le(x, bn)).show(T.FALSE)
    P.ctx = P.ctx.assume(eq(ws, R(1)))
    return P


def met_facts(E, P):
    met_point(P, E.lgz, E.sig, E.ze, E.l, E.zh, E.zt, E.mw)


def met_distribution(E, P):
    k, Q = P.fix(0, E.l)
    Q.show(le(R(0), E.out[0][k]))
    P.show(eq(summ(I(0), E.l, lambda i: E.out[0][i]), R(1)))


def met_outside(E, P):
    """a kernel entirely below (above) the grid puts everything in the first (last) bin"""
    k, Q = P.fix(0, E.l)
    b0, bn = E.ze(I(0)), E.ze(E.l)
    for hyp, z, val, which in (
            (lt(E.lgz + 3 * E.sig, b0), b0, R(0), I(0)), (lt(bn, E.lgz - 3 * E.sig), bn, R(1), E.l - 1)):
        Q1 = Q.suppose(hyp)
        Q1.have(le(b0, E.ze(k))).have(le(E.ze(k), bn)) if False else None
        for j in (k, k + 1):
            Q1.use(incr_le(E.ze, I(0), j, E.l)).use(incr_le(E.ze, j, E.l, E.l))
            u = (E.lgz - E.ze(j)) / E.sig
            if val is R(0):
                Q1.use(div_le(E.lgz - E.ze(j), -3 * E.sig, E.sig)).use(tw_low(u))
            else:
                Q1.use(div_le(3 * E.sig, E.lgz - E.ze(j), E.sig)).use(tw_high(u))
        Q1.have(eq(E.zh(k), R(0)), unfold="zh")
        P.ctx = P.ctx.assume(implies(hyp, forall(I(0), E.l, lambda i: eq(E.zh(i), R(0)))))
        Q2 = P.suppose(hyp)
        Q2.have(eq(E.zt, R(0)))
        Q2.have(not_(lt(E.lgz, b0))) if val is not R(0) else Q2.have(lt(E.lgz, b0))
        if val is not R(0):
            Q2.have(lt(bn, E.lgz))
        Q2.show(eq(E.out[0][which], R(1)), unfold="mw")


def mett_facts(E, P):
    tpos_facts(E, P)
    all_k(P, I(0), E.m, lambda j: lt(R(0), E.tbm(j)), lambda Q, k: Q.have(lt(R(0), E.tbm(k)), unfold="tbm"))
    j, Q = P.fix(0, E.m, "j")
    zh, mw = (lambda i: E.zh(j, i)), (lambda i: E.mw(j, i))
    zj, zt = E.zj(j), E.zt(j)
    met_point(Q, zj, E.sig, E.ze, E.l, zh, zt, mw)
    P.use(incr_chain(E.ze, E.l))
    P.ctx = P.ctx.assume(
        forall(I(0), E.m, lambda j: forall(I(0), E.l, lambda i: le(R(0), E.zh(j, i)))),
        forall(I(0), E.m, lambda j: forall(I(0), E.l, lambda i: le(R(0), E.mw(j, i)))),
        forall(I(0), E.m, lambda j: eq(summ(I(0), E.l, lambda i: E.mw(j, i)), R(1))),
        forall(I(0), E.m, lambda j: le(R(0), E.zt(j))),
        forall(I(0), E.m, lambda j: or_(lt(R(0), E.zt(j)), lt(E.zj(j), E.ze(I(0))), lt(E.ze(E.l), E.zj(j)))),
        forall(I(0), E.m, lambda j: implies(eq(E.zt(j), R(0)), forall(I(0), E.l, lambda i: eq(E.zh(j, i), R(0))))),
        forall(I(0), E.m, lambda j: implies(forall(I(0), E.l, lambda i: eq(E.zh(j, i), R(0))), eq(E.zt(j), R(0)))))
    return P


def mett_distribution(E, P):
    i, Q = P.fix(0, E.l)
    j, Q = Q.fix(0, E.m)
    Q.show(le(R(0), E.out[0][i, j]))
    j, Q = P.fix(0, E.m)
    Q.show(eq(summ(I(0), E.l, lambda i: E.out[0][i, j]), 1 / T.i2r(E.m)))


def aw_facts(E, P):
    all_k(P, I(0), E.m, lambda j: le(R(0), E.aw(j)), lambda Q, k: Q.have(le(R(0), E.aw(k)), unfold="aw"))
    Q = P.sub()
    Q.define(E.tot)
    Q.have(lt(R(0), E.lets.unfold(E.tot, ("tot",))))
    g = eq(summ(I(0), E.m, E.aw), R(1))
    Q.show(g, unfold=("aw", "tot"))
    P.ctx = P.ctx.assume(g)
    return P


def joint_facts(E, P):
    aw_facts(E, P)
    P.have(eq(summ(I(0), E.l, lambda i: summ(I(0), E.m, lambda j: E.mw(i) * E.aw(j))), R(1)))


def sum_comm(n, m, f):
    """(Lean: Finset.sum_comm)"""
    return ("sum_comm", T.TRUE, eq(summ(I(0), n, lambda i: summ(I(0), m, lambda j: f(i, j))),
                                   summ(I(0), m, lambda j: summ(I(0), n, lambda i: f(i, j)))))


def jointt_facts(E, P):
    aw_facts(E, P)
    P.use(sum_comm(E.l, E.m, lambda i, j: E.mw(j, i) * E.aw(j)))


def joint_distribution(E, P):
    """joint weights: nonnegative, marginals are the age and metallicity weights, sum to one"""
    w = E.out[0]
    i, Q = P.fix(0, E.l)
    Q.show(eq(summ(I(0), E.m, lambda j: w[i, j]), E.out[1][i]))
    j, Q2 = Q.fix(0, E.m)
    Q2.show(le(R(0), w[i, j]))
    j, Q = P.fix(0, E.m)
    Q.show(eq(summ(I(0), E.l, lambda i: w[i, j]), E.out[2][j]))
    P.show(eq(summ(I(0), E.m, lambda j: summ(I(0), E.l, lambda i: w[i, j])), R(1)))


def jointt_distribution(E, P):
    w = E.out[0]
    j, Q = P.fix(0, E.m)
    Q.show(eq(summ(I(0), E.l, lambda i: w[i, j]), E.out[2][j]))
    i, Q2 = Q.fix(0, E.l)
    Q2.show(le(R(0), w[i, j]))
    P.show(eq(summ(I(0), E.m, lambda j: summ(I(0), E.l, lambda i: w[i, j])), R(1)))


def sed_nonneg(E, P):
    """no negative light when the templates are nonnegative"""
    k, P = P.fix(0, E.w_)
    f = lambda i, j: E.w(i, j) * E.flux(i, j, k)
    P = P.suppose(forall(I(0), E.l, lambda i: forall(I(0), E.m, lambda j: le(R(0), E.flux(i, j, k)))))

    def row(Q, i):
        j, Q2 = Q.fix(0, E.m)
        Q2.have(le(R(0), E.w(i, j)))
        Q2.have(le(R(0), E.flux(i, j, k)))
        Q2.show(le(R(0), f(i, j)))
        Q.ctx = Q.ctx.assume(forall(I(0), E.m, lambda j: le(R(0), f(i, j))))
        Q.use(sum_nonneg(I(0), E.m, lambda j: f(i, j)))

    all_k(P, I(0), E.l, lambda i: le(R(0), summ(I(0), E.m, lambda j: f(i, j))), row)
    P.use(sum_nonneg(I(0), E.l, lambda i: summ(I(0), E.m, lambda j: f(i, j))))
    P.have(le(R(0), E.unit(k)), unfold="unit")
    P.have(lt(R(0), E.mobs), unfold="mobs")
    P.show(le(R(0), E.out[0][k]))


# --- bounded/unbounded parameters ------------------------------------------------------------
def sig_inside(P, y, z, lo, hi):
    """y = lo + (hi-lo)/(1+exp(-z)) lies strictly between lo and hi"""
    s = 1 / (1 + exp(-z))
    P.have(lt(lo, hi)).have(and_(lt(R(0), s), lt(s, R(1))))
    P.have(lt(R(0), (hi - lo) * s)).have(lt(R(0), (hi - lo) * (1 - s)))
    P.have(eq((hi - lo) * (1 - s), (hi - lo) - (hi - lo) * s))
    P.have(and_(lt(lo, lo + (hi - lo) * s), lt(lo + (hi - lo) * s, hi)))
    P.have(eq(y, lo + (hi - lo) * s))
    P.have(and_(lt(lo, y), lt(y, hi)))


def sig_roundtrip(P, y, x0, k, lo, hi):
    """sigmoid(inverse_sigmoid(y)) = y for lo < y < hi"""
    sig_inv_arg(P, y, lo, hi)
    a = T.var("a!")
    P.suppose(lt(R(0), a)).show(eq(S.sigmoid(x0 - ln(a) / k, x0, k, lo, hi), lo + (hi - lo) / (1 + a)))
    P.show(eq(lo + (hi - lo) / (1 + ((hi - lo) / (y - lo) - 1)), y))


def sig_roundtrip_inv(P, x, x0, k, lo, hi):
    """inverse_sigmoid(sigmoid(x)) = x"""
    y = S.sigmoid(x, x0, k, lo, hi)
    u = exp(-(k * (x - x0)))
    P.have(lt(lo, hi))
    P.have(lt(R(0), hi - lo))
    P.have(eq((hi - lo) / (y - lo) - 1, u))
    P.show(eq(x0 - ln(u) / k, x))


# --- power-law deviates -------------------------------------------------------------------
def rvs_hints(E, P, U, v):
    def steps(Q, i):
        u, a, b = U(E, i), T.rpow(E.a(i), E.g(i)), T.rpow(E.b(i), E.g(i))
        Q.have(and_(le(R(0), u), lt(u, R(1)), lt(R(0), a), lt(R(0), b)))
        Q.have(lt(R(0), a * (1 - u))).have(le(R(0), b * u))
        Q.have(lt(R(0), a * (1 - u) + b * u))
        Q.have(eq(v(E, i), a * (1 - u) + b * u))
    all_k(P, I(0), E.n, lambda i: lt(R(0), v(E, i)), steps)


def root_between(a, b, g, V):
    """0 < a < b, V between a^g and b^g, g != 0: a <= V^(1/g) <= b"""
    once("root_between", _prove_root)
    A, B = T.rpow(a, g), T.rpow(b, g)
    return ("root_between", and_(lt(R(0), a), lt(a, b), lt(R(0), V), not_(eq(g, R(0))),
                                 implies(lt(R(0), g), and_(le(A, V), le(V, B))), implies(lt(g, R(0)), and_(le(B, V), le(V, A)))),
            and_(le(a, T.rpow(V, 1 / g)), le(T.rpow(V, 1 / g), b)))


def _prove_root():
    # with a = e^la, b = e^lb, V = e^lv (positive numbers)
    la, lb, lv, g = [T.var(k) for k in ("la!", "lb!", "lv!", "g!")]
    e = lambda t: T._mk("exp", (t,), "R")
    a, b, V = e(la), e(lb), e(lv)
    ctx = P_.Ctx([lt(la, lb)])
    for s, g2 in ((1, lt(R(0), g)), (-1, lt(g, R(0)))):
        lo, hi = (g * la, g * lb) if s == 1 else (g * lb, g * la)
        P = Proof(ctx.assume(g2, le(e(lo), V), le(V, e(hi))), None)
        P.have(and_(le(lo, lv), le(lv, hi)))
        w = T.var("w!")     # ln(V)/g
        Q = P.sub().suppose(eq(g * w, lv))
        Q.have(and_(le(R(0), T.scale(s, g) * (w - la)), le(R(0), T.scale(s, g) * (lb - w))))
        Q.show(and_(le(la, w), le(w, lb)))
        P.have(eq(g * (lv / g), lv))
        P.ctx = P.ctx.assume(and_(le(la, lv / g), le(lv / g, lb)))
        P.show(and_(le(e(la), e(lv / g)), le(e(lv / g), e(lb))))


def rvs_bounds(E, P, U, v):
    i, P = P.fix(0, E.n)
    u, g, a, b = U(E, i), E.g(i), E.a(i), E.b(i)
    A, B, V = T.rpow(a, g), T.rpow(b, g), v(E, i)
    P.have(and_(le(R(0), u), lt(u, R(1))))
    P.use(pow_strict(a, b, g))
    P.have(lt(R(0), A)).have(lt(R(0), B)).have(lt(R(0), V))
    for s, c in ((1, lt(R(0), g)), (-1, lt(g, R(0)))):
        Q = P.suppose(c)
        lo, hi = (A, B) if s == 1 else (B, A)
        Q.have(lt(lo, hi))
        Q.have(le(R(0), T.scale(s, B - A) * u)).have(le(R(0), T.scale(s, B - A) * (1 - u)))
        Q.have(eq(T.scale(s, B - A) * u, T.scale(s, V - A)))
        Q.have(eq(T.scale(s, B - A) * (1 - u), T.scale(s, B - V)))
        Q.have(and_(le(lo, V), le(V, hi)))
        Q.use(root_between(a, b, g, V))
        Q.show(and_(le(a, E.out[0][i]), le(E.out[0][i], b)))


def rvs_cdf(E, P, U, v):
    i, P = P.fix(0, E.n)
    P.have(lt(R(0), v(E, i)))
    P.show(eq(T.rpow(E.out[0][i], E.g(i)), v(E, i)))


def sum_congr(lo, hi, f, g):
    return ("sum_congr", forall(lo, hi, lambda i: eq(f(i), g(i))), eq(summ(lo, hi, f), summ(lo, hi, g)))
