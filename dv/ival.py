"""Rigorous interval arithmetic (mpmath.iv, outward rounding) with subdivision: decides
inequalities between closed elementary expressions over a bounded box of reals."""
from fractions import Fraction

from . import terms as T


class Undecided(Exception):
    pass


def _iv():
    from mpmath import iv
    iv.prec = 60
    return iv


def frac(iv, q):
    q = Fraction(q)
    return iv.mpf(q.numerator) / iv.mpf(q.denominator)


def ev(t, env, memo=None):
    """interval enclosing t when every variable lies in its interval"""
    iv = _iv()
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    a = t.args
    if t.op == "const":
        r = frac(iv, a[0])
    elif t.op == "var":
        if t in env:
            r = env[t]
        elif a[0] == "pi":
            r = iv.pi
        else:
            raise Undecided("free variable " + T.show(t))
    elif t.op == "add":
        r = iv.mpf(0)
        for b in _children(t):
            r = r + ev(b[0], env, memo) * frac(iv, b[1])
    elif t.op == "exp":
        r = iv.exp(ev(a[0], env, memo))
    elif t.op == "ln":
        x = ev(a[0], env, memo)
        if not x.a > 0:
            raise Undecided("ln of a non-positive value")
        r = iv.log(x)
    elif t.op == "sqrt":
        x = ev(a[0], env, memo)
        if not x.a >= 0:
            raise Undecided("sqrt of a negative value")
        r = iv.sqrt(x)
    elif t.op == "ite":
        c = cond(a[0], env, memo)
        if c is None:
            u, v = ev(a[1], env, memo), ev(a[2], env, memo)
            r = iv.mpf([min(u.a, v.a), max(u.b, v.b)])
        else:
            r = ev(a[1] if c else a[2], env, memo)
    elif t.op == "mul":
        r = iv.mpf(1)
        for b, n in _factors(t):
            x = ev(b, env, memo)
            if n < 0 and x.a <= 0 <= x.b:
                raise Undecided("division by an interval containing zero")
            r = r * (x ** n)
    else:
        raise Undecided("operator " + t.op)
    memo[t] = r
    return r


def _children(t):
    c0, d = T._lin(t)
    out = [(b, k) for b, k in d.items()]
    if c0:
        out.append((T.const(1), c0))
    return out


def _factors(t):
    c, d = T._prod(t)
    out = [(b, k) for b, k in d.items()]
    if c != 1:
        out.append((T.const(c), 1))
    return out


def cond(c, env, memo=None):
    """True / False / None (not decided on this box)"""
    memo = {} if memo is None else memo
    if c.op == "and" or c.op == "or":
        vs = [cond(a, env, memo) for a in c.args]
        bad, good = (False, True) if c.op == "and" else (True, False)
        return bad if bad in vs else (good if all(v is good for v in vs) else None)
    if c.op == "not":
        v = cond(c.args[0], env, memo)
        return None if v is None else not v
    if c.op in ("lt", "le", "eq"):
        x = ev(c.args[0], env, memo) - (ev(c.args[1], env, memo) if len(c.args) > 1 else 0)
        if c.op == "lt":
            return True if x.b < 0 else (False if x.a >= 0 else None)
        if c.op == "le":
            return True if x.b <= 0 else (False if x.a > 0 else None)
        return False if (x.a > 0 or x.b < 0) else (True if x.a == x.b == 0 else None)
    if c is T.TRUE or c is T.FALSE:
        return c is T.TRUE
    return None


def prove(goal, box, max_boxes=40000):
    """goal (a boolean term) holds at every point of the box {var: (lo, hi)}; raises Undecided"""
    iv = _iv()
    todo = [{v: (Fraction(a), Fraction(b)) for v, (a, b) in box.items()}]
    n = 0
    while todo:
        b = todo.pop()
        n += 1
        if n > max_boxes:
            raise Undecided("more than %d boxes" % max_boxes)
        env = {v: iv.mpf([frac(iv, lo).a, frac(iv, hi).b]) for v, (lo, hi) in b.items()}
        try:
            r = cond(goal, env)
        except Undecided:
            r = None
        if r is True:
            continue
        if r is False:
            raise Undecided("false on the box %s" % {T.show(v): (float(x), float(y)) for v, (x, y) in b.items()})
        v = max(b, key=lambda v: b[v][1] - b[v][0])
        lo, hi = b[v]
        if hi - lo < Fraction(1, 10**9):
            raise Undecided("not decided near %s" % {T.show(v): float(x) for v, (x, y) in b.items()})
        m = (lo + hi) / 2
        todo.append({**b, v: (lo, m)})
        todo.append({**b, v: (m, hi)})
    return n
