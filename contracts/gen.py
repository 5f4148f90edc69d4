"""Input generators for the replay search and the bounded cross-check."""
import numpy as np


def incr(r, n, lo=None, hi=None):
    if lo is None:
        lo, hi = -5.0, 5.0
    m = r.random()
    if m < 0.3:
        return np.linspace(lo, hi, n) + 0.0
    if m < 0.6:
        x = np.sort(r.uniform(lo, hi, n))
    else:
        x = lo + (hi - lo) * np.cumsum(r.exponential(size=n) + 0.02) / (n + 1)
        if x[-1] > hi:
            x = lo + (x - lo) * (hi - lo) / (x[-1] - lo)
    x = x + np.arange(n) * 1e-3 * (hi - lo) / n
    return x


def posincr(r, n, lo, hi):
    """increasing positive, log or linear"""
    if r.random() < 0.5:
        return np.exp(incr(r, n, np.log(lo), np.log(hi)))
    return incr(r, n, lo, hi)


def real(r, n=None, s=3.0):
    x = r.normal(size=n) * s
    if n is not None and r.random() < 0.3:
        x = np.where(r.random(n) < 0.3, 0.0, x)
    return x


def posv(r, lo=0.05, hi=20.0):
    return float(np.exp(r.uniform(np.log(lo), np.log(hi))))


def nonneg(r, n, s=1.0):
    x = r.exponential(size=n) * s
    m = r.random()
    if m < 0.3:
        x = np.where(r.random(n) < 0.4, 0.0, x)
    elif m < 0.4:
        x = x * 10.0 ** r.uniform(-6, 3, n)
    return x


def pick(r, lo, hi, n=None):
    """uniform with boundary integers mixed in"""
    x = r.uniform(lo, hi, n)
    y = r.integers(int(np.floor(lo)), int(np.ceil(hi)) + 1, n).astype(float)
    return np.where(r.random(n) < 0.3, y, x) if n is not None else (float(y) if r.random() < 0.3 else float(x))


def simplex(r, n):
    x = r.exponential(size=n)
    if r.random() < 0.3:
        x = np.where(r.random(n) < 0.4, 0.0, x)
        x[r.integers(n)] += 1.0
    return x / x.sum()


def times(r, n):
    """table of cosmic times"""
    lo = float(r.choice([0.01, 0.05, 0.1, 0.3, 1.0]))
    hi = float(r.choice([13.8, 14.0, 10.0, 8.0, 20.0]))
    return posincr(r, n, lo, hi)


def sfh(r, n):
    m = r.random()
    if m < 0.25:
        return r.exponential(size=n) * 10.0 ** r.uniform(-6, 3)
    if m < 0.5:
        x = 10.0 ** r.uniform(-5, 3, n)
        return np.where(r.random(n) < 0.4, 0.0, x)
    if m < 0.6:
        return np.zeros(n)
    if m < 0.7:
        return np.ones(n)
    return 10.0 ** r.uniform(-16, 3, n)


def lgages(r, n):
    """log10 ages in Gyr, nearly regular spacing"""
    lo = r.uniform(-4.0, -2.0)
    hi = r.uniform(0.5, 1.3)
    m = r.random()
    x = np.linspace(lo, hi, n)
    if m < 0.5:
        d = np.diff(x)
        x = np.concatenate([[lo], lo + np.cumsum(d * r.uniform(0.7, 1.4, n - 1))])
    return x


def lgmets(r, n):
    x = incr(r, n, -4.5, -1.0)
    return x


def lgmet(r):
    m = r.random()
    if m < 0.7:
        return r.uniform(-5, 0)
    return float(r.choice([-12.0, 12.0, -9.5, 9.5, -10.0, 10.0, -40.0, 30.0, -2.0]))


def scatter(r):
    return float(10.0 ** r.uniform(-2.5, 0.7))


def inv_sig(r, d):
    lo, w = r.normal(), np.exp(r.uniform(-1, 2))
    return dict(y=lo + w * r.uniform(0.001, 0.999), x0=r.normal() * 3, k=posv(r) * (1 if r.random() < 0.8 else -1), lo=lo, hi=lo + w)


def cosmo(r):
    m = r.random()
    if m < 0.3:
        return dict(Om0=0.3075, w0=-1.0, wa=0.0, h=0.6774)
    return dict(Om0=r.uniform(0.05, 0.95), w0=r.uniform(-1.6, -0.4), wa=r.uniform(-0.6, 0.6), h=r.uniform(0.4, 1.0))


def key(r):
    import jax
    return np.asarray(jax.random.PRNGKey(int(r.integers(2**31))))
