"""Specification functions: the mathematical meaning of the quantities of the
library, written from the property statements (no code of /repo is used here)."""
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from fractions import Fraction

from dv import terms as T
from dv.terms import I, R, and_, or_, not_, ite, eq, lt, le, forall, summ, interp, implies, exp, ln, sqrt, log10, pow10

F = Fraction


def c(x):
    """exact rational constant from its decimal text"""
    return T.const(Fraction(x))


# --- numerical integration ---------------------------------------------------
def trapz(x, y, n):
    """trapezoid rule over points 0..n-1"""
    return summ(I(0), I(n) - 1, lambda j: (x(j + 1) - x(j)) * (y(j) + y(j + 1)) / 2)


def cumtrapz(x, y, i):
    return summ(I(0), i, lambda j: (x(j + 1) - x(j)) * (y(j) + y(j + 1)) / 2)


# --- smooth step functions ----------------------------------------------------
def sigmoid(x, x0, k, lo, hi):
    return lo + (hi - lo) / (1 + exp(-(k * (x - x0))))


def inv_sigmoid(y, x0, k, lo, hi):
    return x0 - ln((hi - lo) / (y - lo) - 1) / k


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + sigmoid(x, x0, k, lo, hi) * (x - xtp)


OPAQUE = [False]


def tw_cdf(z):
    """integral from -3 to z of the triweight density 35/96 (1 - (u/3)^2)^3.
    (in lemmas: an uninterpreted function known only through the lemmas tw_*)"""
    if OPAQUE[0]:
        return T.fn("TW", z)
    return tw_explicit(z)


def tw_explicit(z):
    body = c("1/2") + c("35/96") * (z - z**3 / 9 + z**5 / 135 - z**7 / 5103)
    return ite(lt(R(3), z), R(1), ite(lt(z, R(-3)), R(0), body))


def tw_pdf(z):
    return ite(or_(lt(z, R(-3)), lt(R(3), z)), R(0), c("35/96") * (1 - (z / 3) ** 2) ** 3)


def tw_hist_bin(x, sig, lo, hi):
    """probability of [lo, hi] under the triweight kernel centred on x"""
    return tw_cdf((x - lo) / sig) - tw_cdf((x - hi) / sig)


# --- grids -------------------------------------------------------------------------
def spacing(a, n):
    """width attached to each grid point: distance between the neighbouring mid points"""
    def f(i):
        first = a(I(1)) - a(I(0))
        last = a(n - 1) - (a(n - 1) + a(n - 2)) / 2 + ((a(n - 1) + a(n - 2)) / 2 - (a(n - 2) + a(n - 3)) / 2) / 2
        mid = (a(i + 1) - a(i - 1)) / 2
        return ite(eq(i, I(0)), first, ite(eq(i, n - 1), last, mid))
    return f


def edges(a, n, lo, hi):
    """bin edges: lo, a_i - width_i/2, hi"""
    w = spacing(a, n)
    return lambda i: ite(eq(i, I(0)), lo, ite(eq(i, n), hi, a(i) - w(i) / 2))


def point_hist(x, sig, b):
    return lambda i: tw_hist_bin(x, sig, b(i), b(i + 1))


def point_weights(x, sig, b, n, h=None, tot=None):
    """normalised mass of the kernel in each bin; a kernel that misses the grid
    altogether is assigned to the nearest bin"""
    if h is None:
        h = point_hist(x, sig, b)
        tot = summ(I(0), n, h)

    def f(i):
        return ite(not_(eq(tot, R(0))), h(i) / tot,
                   ite(lt(x, b(I(0))), ite(eq(i, I(0)), R(1), R(0)),
                       ite(lt(b(n), x), ite(eq(i, n - 1), R(1), R(0)), R(0))))
    return f


# --- star formation histories ------------------------------------------------------
TB_MIN = c("0.001")
SFR_FLOOR = c("1e-14")


def maxi(a, b):
    return ite(lt(a, b), b, a)


def floored(s, smin):
    return lambda i: ite(lt(s(i), smin), smin, s(i))


def mstar(t, s, i):
    """stellar mass formed until table time i (Msun): trapezoid rule from T=0.001 Gyr"""
    return R(10**9) * ((t(I(0)) - TB_MIN) * (SFR_FLOOR + s(I(0))) / 2 + cumtrapz(t, s, i))


def mass_history(t, s, n, smin):
    """M(x): mass formed by cosmic time 10**x, interpolated in log-log over the table"""
    f = floored(s, smin)
    return lambda x: pow10(interp(x, n, lambda i: log10(t(i)), lambda i: log10(mstar(t, f, i))))


def age_edges(a, n):
    lo = a(I(0)) - (a(I(1)) - a(I(0))) / 2
    hi = a(I(n) - 1) + spacing(a, n)(I(n) - 1) / 2
    return edges(a, n, lo, hi)


def t_birth(tobs, lgage):
    """cosmic time of birth, never before 0.001 Gyr"""
    u = tobs - pow10(lgage)
    return ite(lt(u, TB_MIN), TB_MIN, u)


def lgt_birth(tobs, lgage):
    return log10(t_birth(tobs, lgage))


def age_masses(t, s, n, lgage, m, tobs, smin):
    """mass formed in each age bin"""
    M = mass_history(t, s, n, smin)
    e = age_edges(lgage, m)
    return lambda j: M(lgt_birth(tobs, e(j))) - M(lgt_birth(tobs, e(j + 1)))


def age_weights(t, s, n, lgage, m, tobs, smin):
    dm = age_masses(t, s, n, lgage, m, tobs, smin)
    tot = summ(I(0), m, dm)
    return lambda j: dm(j) / tot


# --- metallicity -------------------------------------------------------------------
def met_edges(a, n):
    return edges(a, n, R(-10), R(10))


def lgmet_weights(x, sig, lgmet, n):
    return point_weights(x, sig, met_edges(lgmet, n), n)


def lgmet_at_age(t, z, n, lgage, tobs):
    return lambda j: interp(lgt_birth(tobs, lgage(j)), n, lambda i: log10(t(i)), z)
