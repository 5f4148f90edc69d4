"""Float literal -> exact constant.

The verifier reads floating-point literals as the mathematical constants they
stand for: a literal is the decimal it prints as, the simple fraction it is the
nearest double to, or one of the registered irrational constants, provided the
difference is below 2e-15 relative (documented in DESIGN.md, trusted base)."""
from fractions import Fraction
import math
import numpy as np
from . import terms as T

_REG = []  # (float value, Term)


def register(val, term):
    _REG.append((float(val), term))


def _init():
    l10 = T.ln(T.const(10))
    register(math.log(10), l10)
    register(1 / math.log(10), T.ipow(l10, -1))
    l2 = T.ln(T.const(2))
    register(math.log(2), l2)
    register(1 / math.log(2), T.ipow(l2, -1))
    pi = T.var("pi")
    register(math.pi, pi)
    register(2 * math.pi, T.mul(T.const(2), pi))
    register(18 * math.pi**2, T.mul(T.const(18), T.ipow(pi, 2)))
    register(math.pi**2, T.ipow(pi, 2))
    register(2**1.5, T.mul(T.const(2), T.sqrt(T.const(2))))
    register(2**0.5, T.sqrt(T.const(2)))
    # Mpc per (km/s) in Gyr
    q = Fraction("3.08567758149e24") / 10**16 / Fraction("31556925.2")
    register(float(q), T.const(q))
    # 10**-0.5 and 10**0.7 (mass-loss slopes)
    register(10**-0.5, T.exp(T.mul(T.const(Fraction(-1, 2)), l10)))
    register(10**0.7, T.exp(T.mul(T.const(Fraction(7, 10)), l10)))
    register(math.log10(0.012), T.mul(T.ln(T.const(Fraction("0.012"))), T.ipow(l10, -1)))


REL = 4e-15


def snap(v):
    v = float(v)
    if v != v or v in (math.inf, -math.inf):
        raise ValueError("non-finite literal")
    if v == int(v) and abs(v) < 1e15:
        return T.const(int(v))
    if not _REG:
        _init()
    for f, t in _REG:
        if abs(v - f) <= REL * abs(f):
            return t
        if abs(v + f) <= REL * abs(f):
            return T.neg_(t)
    r = repr(v)
    digits = r.lower().split("e")[0].replace(".", "").replace("-", "").strip("0")
    if len(digits) >= 14:
        # maybe a rounded decimal such as 0.30000000000000004
        s = "%.13g" % v
        d2 = s.lower().split("e")[0].replace(".", "").replace("-", "").strip("0")
        if len(d2) <= 9 and abs(Fraction(s) - Fraction(v)) <= Fraction(REL) * abs(Fraction(v)):
            return T.const(Fraction(s))
        if 1e-7 < abs(v) < 1e7:
            fr = Fraction(v).limit_denominator(200000)
            if fr != 0 and abs(fr - Fraction(v)) <= Fraction(2.3e-16) * abs(Fraction(v)) * 2:
                return T.const(fr)
    return T.const(Fraction(r))
