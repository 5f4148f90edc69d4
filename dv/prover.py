"""Contextual simplifier, normaliser and prover.

prove(goal, ctx): goals are Bool terms.  Decided by
  * structural rules (and / forall introduction / case split on ite conditions),
  * a normal form for equalities (rational functions over canonical atoms, sums in
    prefix-sum form, exponentials/logarithms canonicalised under positivity),
  * z3 (cvc5 in the thorough tier) on ground obligations with atoms abstracted and
    explicit lemma instances.
Only `unsat` answers of the solver count as proof."""
import time
from fractions import Fraction

import z3

from . import refute, terms as T
from .terms import TRUE, FALSE, I, and_, or_, not_, ite, eq, lt, le, Term

STATS = dict(queries=0, time=0.0, unknown=0, sat=0, unsat=0, cvc5=0)
TIMEOUT_MS = 3000
DEADLINE = [None]  # in units of clock()
_T0 = time.time()


def clock():
    """processor time, so that budgets do not depend on the load of the machine"""
    return max(time.process_time(), (time.time() - _T0) / 3)

SECOND = [None]     # optional second solver hook
LEMMAS_USED = {}


class GiveUp(Exception):
    pass


def _check_deadline():
    if DEADLINE[0] is not None and clock() > DEADLINE[0]:
        raise GiveUp("time budget exhausted")


# ---------------------------------------------------------------------------
# z3 translation
class Z:
    def __init__(self, linear=False):
        self.linear = linear
        self.cache = {}
        self.inv = {}
        self.atoms = {}   # abstracted terms
        self.fn = {}

    def func(self, name, sorts, out):
        k = (name, tuple(sorts), out)
        f = self.fn.get(k)
        if f is None:
            S = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}
            f = z3.Function(name, *[S[s] for s in sorts], S[out])
            self.fn[k] = f
        return f

    def __call__(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.tr(t)
            self.cache[t] = r
        return r

    def atom(self, t):
        self.atoms[t] = 1
        nm = "%s#%d" % (t.op, t.id)
        if t.sort == "R":
            return z3.Real(nm)
        if t.sort == "I":
            return z3.Int(nm)
        return z3.Bool(nm)

    def tr(self, t):
        o = t.op
        if o == "const":
            if t.sort == "R":
                v = t.args[0]
                return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
            return z3.IntVal(t.args[0])
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "var":
            return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[t.sort](t.args[0])
        if o == "add":
            parts = []
            if t.args[0] != 0:
                parts.append(self(T.const(t.args[0], t.sort)))
            for x, c in zip(t.args[1::2], t.args[2::2]):
                zx = self(x)
                parts.append(zx if c == 1 else self(T.const(c, t.sort)) * zx)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if o == "mul" and self.linear:
            c = t.args[0]
            if len(t.args) == 3 and t.args[2] == 1:
                return self(T.const(c, t.sort)) * self(t.args[1])
            if c == 1:
                return self.atom(t)
            return self(T.const(c, t.sort)) * self(T._mk("mul", (T.const(1, t.sort).args[0],) + t.args[1:], t.sort))
        if o == "mul":
            parts = []
            if t.args[0] != 1:
                parts.append(self(T.const(t.args[0], t.sort)))
            for x, e in zip(t.args[1::2], t.args[2::2]):
                if e < 0:
                    zx = self.inverse(x)
                else:
                    zx = self(x)
                for _ in range(abs(e)):
                    parts.append(zx)
            r = parts[0]
            for p in parts[1:]:
                r = r * p
            return r
        if o == "i2r":
            return z3.ToReal(self(t.args[0]))
        if o == "ite":
            return z3.If(self(t.args[0]), self(t.args[1]), self(t.args[2]))
        if o == "and":
            return z3.And([self(a) for a in t.args])
        if o == "or":
            return z3.Or([self(a) for a in t.args])
        if o == "not":
            return z3.Not(self(t.args[0]))
        if o == "lt":
            return self(t.args[0]) < 0
        if o == "le":
            return self(t.args[0]) <= 0
        if o == "eq":
            return self(t.args[0]) == 0
        if o in ("exp", "ln", "sqrt"):
            self.atoms[t] = 1
            return self.func(o, ["R"], "R")(self(t.args[0]))
        if o == "sel":
            if len(t.args) == 1:
                return self.func("sel:" + t.args[0], [], t.sort)()
            return self.func("sel:" + t.args[0], [a.sort for a in t.args[1:]], t.sort)(*[self(a) for a in t.args[1:]])
        if o == "fn" and not any(isinstance(a, Term) and a.op == "lam" for a in t.args):
            self.atoms[t] = 1
            return self.func("fn:" + t.args[0], [a.sort for a in t.args[1:]], t.sort)(*[self(a) for a in t.args[1:]])
        if o == "idiv":
            return self(t.args[0]) / self(t.args[1])
        return self.atom(t)

    def inverse(self, x):
        v = self.inv.get(x)
        if v is None:
            v = z3.Real("inv#%d" % x.id)
            self.inv[x] = v
            self(x)
        return v

    def inv_axioms(self):
        out = []
        done = 0
        while done < len(self.inv):
            for x, v in list(self.inv.items())[done:]:
                done += 1
                zx = self(x)
                out.append(z3.Implies(zx != 0, zx * v == 1))
                out.append(z3.Implies(zx > 0, v > 0))
                out.append(z3.Implies(zx < 0, v < 0))
        return out


# ---------------------------------------------------------------------------
def atoms_of(ts, ops):
    """ground sub-terms (not below binders) with op in ops"""
    out, seen = {}, set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ops:
            out[t] = 1
        if t.op == "lam":
            continue
        for a in t.args:
            if isinstance(a, Term) and a.op != "lam":
                st.append(a)
    return list(out)


def all_sels(ts):
    return atoms_of(ts, ("sel",))


class Ctx:
    """A set of hypotheses.  Quantified hypotheses are instantiated on demand."""

    def __init__(self, facts=(), parent=None, opts=None):
        self.parent = parent
        self.own = list(facts)
        self.facts = (parent.facts if parent else []) + self.own
        self.factset = set(self.facts)
        self.opts = opts if opts is not None else (parent.opts if parent else {})
        self._dec = {}
        self._pos = {}
        self._simp = {}
        self._nf = {}
        self._lia = None
        self._children = {}
        self.dead = FALSE in self.factset

    def psum_eqs(self):
        """{prefix sum: value} from equational hypotheses about sums"""
        r = getattr(self, "_pe", None)
        if r is None:
            self._pe = {}
            r = dict(self.parent.psum_eqs()) if self.parent else {}
            for f in self.own:
                if f.op != "eq" or f.args[0].sort != "R" or not has_op(f.args[0], "sum"):
                    continue
                d = nf(simp(f.args[0], self), self)
                if d.op != "add":
                    continue
                cs = [(x, c) for x, c in zip(d.args[1::2], d.args[2::2]) if x.op == "psum"]
                if len(cs) == 1:
                    x, c = cs[0]
                    rest = T.sub(d, T.scale(c, x))
                    if x not in r and not has_op(rest, "psum"):
                        r[x] = T.scale(-1 / c, rest)
            # keep the cached normal forms computed without the equations out
            if r:
                self._nf.clear()
            self._pe = r
        return r

    def inst(self, v, lo, hi):
        """instantiate at v the structured quantified hypotheses over [lo, hi)"""
        new = []
        for f in self.facts:
            if f.op == "forall" and f.args[0] is lo and f.args[1] is hi:
                b = T.open_(f.args[2], v)
                if b.op in ("forall", "or", "and", "not") or has_op(b, "sum"):
                    new.append(b)
        return self.assume(*new) if new else self

    def assume(self, *facts):
        new = []
        for f in facts:
            if f is TRUE or f in self.factset:
                continue
            if f.op == "and":
                new += [g for g in f.args if g not in self.factset]
            else:
                new.append(f)
        if not new:
            return self
        key = tuple(new)
        c = self._children.get(key)
        if c is None:
            c = Ctx(new, self)
            self._children[key] = c
        return c

    # --- linear integer decisions -------------------------------------------
    def int_facts(self):
        return [f for f in self.facts if pure_int(f)]

    def lia(self):
        if self._lia is None:
            s = z3.SolverFor("QF_LIA") if False else z3.Solver()
            s.set("timeout", 8000)
            s.set("rlimit", 2000000)
            z = Z()
            for k, b in T.DIM_LB.items():
                s.add(z(k) >= b)
            for f in self.int_facts():
                s.add(z(f))
            self._lia = (s, z)
        return self._lia

    def decide(self, c):
        """True / False / None; integer conditions and literal facts only"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.factset:
            return True
        if not_(c) in self.factset:
            return False
        r = self._dec.get(c, 0)
        if r != 0:
            return r
        r = None
        if pure_int(c):
            r = self._decide_lia(c)
        elif c.op in ("and", "or"):
            ds = [self.decide(a) for a in c.args]
            if c.op == "and":
                if all(d is True for d in ds):
                    r = True
                elif any(d is False for d in ds):
                    r = False
            else:
                if any(d is True for d in ds):
                    r = True
                elif all(d is False for d in ds):
                    r = False
        elif c.op == "not":
            d = self.decide(c.args[0])
            r = None if d is None else (not d)
        elif c.op in ("lt", "le", "eq"):
            r = self.decide_real(c)
        self._dec[c] = r
        return r

    def _decide_lia(self, c):
        s, z = self.lia()
        STATS["queries"] += 2
        t0 = time.time()
        s.push()
        s.add(z3.Not(z(c)))
        a = s.check()
        s.pop()
        r = None
        if a == z3.unsat:
            r = True
        else:
            s.push()
            s.add(z(c))
            b = s.check()
            s.pop()
            if b == z3.unsat:
                r = False
        STATS["time"] += time.time() - t0
        return r

    def decide_real(self, c):
        """cheap decisions of real comparisons by sign analysis"""
        if self.opts.get("no_real_decide"):
            return None
        t = c.args[0]
        if c.op == "lt":
            if self.nonneg(t, cheap=True):
                return False
            if self.pos(T.neg_(t), cheap=True):
                return True
        elif c.op == "le":
            if self.pos(t, cheap=True):
                return False
            if self.nonneg(T.neg_(t), cheap=True):
                return True
        elif c.op == "eq":
            if self.pos(t, cheap=True) or self.pos(T.neg_(t), cheap=True):
                return False
        return None

    def infeasible(self):
        if self.dead:
            return True
        s, z = self.lia()
        return s.check() == z3.unsat

    # --- signs -----------------------------------------------------------------
    def pos(self, t, cheap=False):
        return self.sign(t, True, cheap)

    def nonneg(self, t, cheap=False):
        return self.sign(t, False, cheap)

    def sign(self, t, strict, cheap=False, depth=0):
        if t.op == "const":
            return t.args[0] > 0 if strict else t.args[0] >= 0
        key = (t, strict, cheap)
        r = self._pos.get(key)
        if r is not None:
            return r
        self._pos[key] = False
        r = self._sign(t, strict, cheap, depth)
        if not r and strict is False:
            r = self.sign(t, True, cheap, depth) if (t, True, cheap) not in self._pos else self._pos[(t, True, cheap)]
        if not r and not cheap and depth == 0:
            g = lt(T.const(0, t.sort), t) if strict else le(T.const(0, t.sort), t)
            r = entails(self, g, timeout=700)
        self._pos[key] = r
        return r

    def _sign(self, t, strict, cheap, depth):
        sg = lambda x, st: self.sign(x, st, True, depth + 1)
        # NB: sub-queries are always cheap; the z3 fall-back is applied once on top
        if lt0f(t) in self.factset:
            return True
        if not strict and le0f(t) in self.factset:
            return True
        o = t.op
        if o == "exp" or (o == "var" and t.args[0] == "pi"):
            return True
        if o == "sqrt":
            return True if not strict else sg(t.args[0], True)
        if o == "i2r":
            d = self._decide_lia(lt(T.const(0, "I"), t.args[0]) if strict else le(T.const(0, "I"), t.args[0]))
            return d is True
        if o == "ln":
            return sg(t.args[0] - 1, strict)
        if o == "mul":
            c = t.args[0]
            s = 1 if c > 0 else -1
            for x, e in zip(t.args[1::2], t.args[2::2]):
                if sg(x, True):
                    continue
                if e % 2 == 0:
                    if strict and e > 0 and not self.nonzero_cheap(x):
                        return False
                    if strict and e < 0:
                        pass
                    continue
                if not strict and e > 0 and sg(x, False):
                    continue
                if sg(T.neg_(x), True):
                    s = -s
                    continue
                if not strict and e > 0 and sg(T.neg_(x), False):
                    s = -s
                    continue
                return False
            return s > 0
        if o == "add":
            c0 = t.args[0]
            if c0 < 0:
                return False
            anypos = c0 > 0
            for x, c in zip(t.args[1::2], t.args[2::2]):
                y = T.scale(c, x)
                if not anypos and sg(y, True):
                    anypos = True
                    continue
                if sg(y, False):
                    continue
                return False
            return anypos or not strict
        if o == "ite":
            c, a, b = t.args
            return (self.assume(c).sign(a, strict, True, depth + 1)
                    and self.assume(not_(c)).sign(b, strict, True, depth + 1))
        if o == "rmax" and self.decide(lt(t.args[0], t.args[1])) is True:
            # the largest of finitely many (at least one) positive values is positive
            v = T.fresh("s")
            body = T.open_(t.args[2], v)
            return self.assume(le(t.args[0], v), lt(v, t.args[1])).sign(body, strict, True, depth + 1)
        if o in ("sel", "var", "fn", "interp", "sum"):
            for f in inst_for(self, [t]):
                # instances that become unit facts
                f = self.unit(f)
                if f is None:
                    continue
                for g in (f.args if f.op == "and" else (f,)):
                    if g is lt0f(t) or (not strict and g is le0f(t)):
                        return True
                    # bounds of the form t >= c > 0
                    if g.op in ("le", "lt") and g.args[0].op == "add":
                        c0, d = T._lin(g.args[0])
                        if len(d) == 1 and t in d and d[t] < 0 and (c0 > 0 or (c0 == 0 and (g.op == "lt" or not strict))):
                            return True
            for g in self.facts:
                if g.op in ("le", "lt") and g.args[0].op == "add":
                    c0, d = T._lin(g.args[0])
                    if len(d) == 1 and t in d and d[t] < 0 and (c0 > 0 or (c0 == 0 and (g.op == "lt" or not strict))):
                        return True
        return False

    def nonzero_cheap(self, x):
        return self.sign(x, True, True, 1) or self.sign(T.neg_(x), True, True, 1)

    def unit(self, f):
        """guard -> body  with a decided guard"""
        if f.op != "or":
            return f
        left = []
        for a in f.args:
            if pure_int(a):
                d = self.decide(a)
                if d is False:
                    continue
                if d is True:
                    return None
            left.append(a)
        if len(left) == 1:
            return left[0]
        return None


def lt0f(t):
    """the term 't > 0' in canonical form"""
    return T.lt0(T.neg_(t))


def le0f(t):
    return T.le0(T.neg_(t))


_pi_cache = {}


def pure_int(f):
    r = _pi_cache.get(f)
    if r is None:
        o = f.op
        if o in ("true", "false"):
            r = True
        elif o == "const":
            r = f.sort == "I"
        elif o == "var":
            r = f.sort == "I"
        elif o in ("and", "or", "not", "lt", "le", "eq", "add", "mul", "ite", "idiv"):
            r = f.sort != "R" and all(pure_int(a) for a in f.args if isinstance(a, Term))
        else:
            r = False
        _pi_cache[f] = r
    return r


# ---------------------------------------------------------------------------
# quantifier instantiation
def _patterns(body, bv):
    """element accesses in which the bound variable is used as  bv + c"""
    out = []
    seen = set()
    st = [body]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "sel":
            for k, a in enumerate(t.args[1:]):
                d = T.sub(a, bv) if a.sort == "I" else None
                if d is not None and d.op == "const":
                    out.append((t.args[0], k, d.args[0]))
        elif t.op == "fn":
            for k, a in enumerate(t.args[1:]):
                if a.sort == "I":
                    d = T.sub(a, bv)
                    if d.op == "const":
                        out.append(("fn:" + t.args[0], k, d.args[0]))
        for a in t.args:
            if isinstance(a, Term):
                st.append(a)
    return out


def instantiate(f, idxs, extra=()):
    """all instances of a (possibly nested) forall hypothesis at the given index terms
    idxs: {(array, position): set of index terms}"""
    if f.op != "forall":
        # guard -> forall form
        if f.op == "or":
            inner = [a for a in f.args if a.op == "forall"]
            if len(inner) == 1:
                rest = [a for a in f.args if a is not inner[0]]
                return [or_(*rest, g) for g in instantiate(inner[0], idxs, extra)]
        if f.op == "and":
            out = []
            for a in f.args:
                out += instantiate(a, idxs, extra)
            return out
        return [f]
    lo, hi, lm = f.args
    pc = _pat_cache.get(f)
    if pc is None:
        bv = T.fresh("q")
        body = T.open_(lm, bv)
        pc = (bv, body, _patterns(body, bv), has_forall(body))
        _pat_cache[f] = pc
    bv, body, pats, nested = pc
    cands = {}
    for name, k, c in pats:
        for e in idxs.get((name, k), ()):
            cands[T.sub(e, I(c))] = 1
    for e in extra:
        cands[e] = 1
    out = []
    for e in cands:
        r = _inst_cache.get((f, e))
        if r is None:
            guard = and_(le(lo, e), lt(e, hi))
            r = (guard, T.subst(body, {bv: e})) if guard is not FALSE else (FALSE, None)
            _inst_cache[(f, e)] = r
        guard, b = r
        if guard is FALSE:
            continue
        for g in (instantiate(b, idxs, extra) if nested else [b]):
            out.append(or_(not_(guard), g))
    return out


_pat_cache, _inst_cache = {}, {}
_hf = {}


def has_forall(t):
    r = _hf.get(t)
    if r is None:
        r = t.op == "forall" or (t.sort == "B" and any(has_forall(a) for a in t.args if isinstance(a, Term) and a.sort == "B" and a.op != "lam"))
        _hf[t] = r
    return r


def idx_table(ts):
    tab = {}
    for s in atoms_of(ts, ("sel", "fn")):
        if s.op == "sel":
            for k, a in enumerate(s.args[1:]):
                tab.setdefault((s.args[0], k), {})[a] = 1
        else:
            for k, a in enumerate(s.args[1:]):
                if isinstance(a, Term) and a.sort == "I":
                    tab.setdefault(("fn:" + s.args[0], k), {})[a] = 1
    return tab


def inst_for(ctx, ts):
    q = [f for f in ctx.facts if has_forall(f)]
    if not q:
        return []
    tab = idx_table(ts)
    out = []
    for f in q:
        out += instantiate(f, tab)
    return out


# ---------------------------------------------------------------------------
# lemma instances on transcendental atoms (sound facts about exp, ln, sqrt)
def function_axioms(z, ctx, level=1):
    out = []
    n = 0
    seen = set()
    while True:
        atoms = [a for a in list(z.atoms) if a not in seen and a.op in ("exp", "ln", "sqrt", "sum", "interp", "fn", "forall", "rmax", "lstsq", "r2i")]
        if not atoms:
            break
        for a in atoms:
            seen.add(a)
            if a.op == "exp":
                x = z(a.args[0])
                out += [z(a) > 0, (z(a) > 1) == (x > 0), (z(a) < 1) == (x < 0), z(a) >= 1 + x]
            elif a.op == "ln":
                x = z(a.args[0])
                out += [z3.Implies(x > 1, z(a) > 0), z3.Implies(z3.And(x > 0, x < 1), z(a) < 0),
                        z3.Implies(x == 1, z(a) == 0), z3.Implies(x > 0, z(a) <= x - 1)]
                if a.args[0].op == "const":
                    lo, hi = ln_bounds(a.args[0].args[0])
                    if lo is not None:
                        out += [z(a) > z3.RealVal(str(lo)), z(a) < z3.RealVal(str(hi))]
            elif a.op == "fn" and a.args[0] == "U":
                out += [z(a) >= 0, z(a) < 1]
            elif a.op == "sqrt":
                x = z(a.args[0])
                out += [z3.Implies(x >= 0, z3.And(z(a) >= 0, z(a) * z(a) == x)), z3.Implies(x > 0, z(a) > 0)]
    pi = T.var("pi")
    if pi in z.cache:
        out += [z(pi) > z3.RealVal("3.14159265358979323"), z(pi) < z3.RealVal("3.14159265358979324")]
    if level >= 1:
        for op in ("exp", "ln", "sqrt"):
            L = [a for a in z.atoms if a.op == op]
            if len(L) > 14:
                L = L[:14]
            for i in range(len(L)):
                for j in range(i):
                    x, y = z(L[i].args[0]), z(L[j].args[0])
                    fx, fy = z(L[i]), z(L[j])
                    pre = z3.BoolVal(True) if op == "exp" else (z3.And(x > 0, y > 0) if op == "ln" else z3.And(x >= 0, y >= 0))
                    out += [z3.Implies(pre, z3.And((fx < fy) == (x < y), (fx == fy) == (x == y)))]
    return out


_lnb = {}


def ln_bounds(c):
    """rational enclosure of ln(c), c > 0 rational (computed with mpmath interval arithmetic)"""
    if c <= 0:
        return None, None
    r = _lnb.get(c)
    if r is None:
        import mpmath

        mpmath.iv.dps = 30
        v = mpmath.iv.log(mpmath.iv.mpf(c.numerator) / mpmath.iv.mpf(c.denominator))
        lo = Fraction(mpmath.mpf(v.a).__str__()) if False else Fraction(str(mpmath.nstr(mpmath.mpf(v.a), 20)))
        hi = Fraction(str(mpmath.nstr(mpmath.mpf(v.b), 20)))
        e = Fraction(1, 10**15)
        r = (lo - e, hi + e)
        _lnb[c] = r
    return r


def exp_bounds(c):
    import mpmath

    mpmath.iv.dps = 30
    v = mpmath.iv.exp(mpmath.iv.mpf(c.numerator) / mpmath.iv.mpf(c.denominator))
    lo = Fraction(str(mpmath.nstr(mpmath.mpf(v.a), 20)))
    hi = Fraction(str(mpmath.nstr(mpmath.mpf(v.b), 20)))
    e = max(abs(lo), abs(hi)) / 10**15
    return lo - e, hi + e


def solve(facts, goal, timeout=None, axioms=True, extra=(), linear=False, ctx=None):
    """is  /\\facts -> goal  valid?  facts/goal ground Bool terms.  True only on unsat.
    linear: products are treated as uninterpreted (fast, weaker)"""
    _check_deadline()
    z = Z(linear)
    s = z3.Solver()
    # a deterministic resource limit decides; the wall clock is a backstop for loaded machines
    s.set("rlimit", int(timeout or TIMEOUT_MS) * 2000)
    s.set("timeout", int(timeout or TIMEOUT_MS) * 8)
    cs = [z(f) for f in facts]
    cs.append(z3.Not(z(goal)))
    for k, b in T.DIM_LB.items():
        cs.append(z(k) >= b)
    cs += list(extra(z)) if callable(extra) else []
    if axioms:
        cs += function_axioms(z, None, 0 if linear else 1)
    cs += z.inv_axioms()
    if ctx is not None:
        # signs of products found by sign analysis
        for a in atoms_of(facts + [goal], ("mul",)):
            if a.sort != "R" or sum(abs(e) for e in a.args[2::2]) < 2 and all(e > 0 for e in a.args[2::2]):
                continue
            if ctx.pos(a, cheap=True):
                cs.append(z(a) > 0)
            elif ctx.nonneg(a, cheap=True):
                cs.append(z(a) >= 0)
            elif ctx.pos(T.neg_(a), cheap=True):
                cs.append(z(a) < 0)
            elif ctx.nonneg(T.neg_(a), cheap=True):
                cs.append(z(a) <= 0)
    s.add(*cs)
    STATS["queries"] += 1
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS["time"] += dt
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    if r == z3.unsat:
        if SECOND[0] is not None:
            SECOND[0](s)
        return True
    solve.last = (r, s, z, goal)
    return False


solve.last = None


def entails(ctx, goal, timeout=None, hints=(), linear=False):
    if ctx.dead:
        return True
    if goal is TRUE:
        return True
    if goal in ctx.factset:
        return True
    ground = [f for f in ctx.facts if f.op != "forall"]
    # relevance: facts that share symbols with the goal (transitively, 3 rounds)
    if goal is not FALSE or hints:
        ground = relevant(ground, [goal] + list(hints))
    base = ground + [goal] + list(hints)
    insts = {}
    for _ in range(2):
        new = [f for f in inst_for(ctx, base + list(insts)) if f not in insts and f is not TRUE]
        if not new or len(insts) > 300:
            break
        for f in new:
            insts[f] = 1
    fs = ground + list(hints) + list(insts)[:400]
    fs += forall_axioms(fs + [goal])
    if solve(fs, goal, 500, linear=True, ctx=ctx):
        return True
    return False if linear else solve(fs, goal, timeout, ctx=ctx)


def forall_axioms(ts):
    """a quantified formula used as an atom: F -> instance, not F -> counter-instance"""
    out = []
    fa = atoms_of(ts, ("forall",))
    if not fa:
        return out
    tab = idx_table(ts)
    for f in fa:
        lo, hi, lm = f.args
        w = T.var("wit!%d" % f.id, "I")
        out.append(or_(f, and_(le(lo, w), lt(w, hi), not_(T.open_(lm, w)))))
        for g in instantiate(f, tab, extra=[lo]):
            out.append(or_(not_(f), g))
    return out


def symbols(t, _c={}):
    r = _c.get(t)
    if r is None:
        r = set()
        if t.op == "sel":
            r.add(t.args[0])
        elif t.op == "var":
            if not (t.args[0].startswith("dim:") or t.args[0].startswith("#")):
                r.add(t.args[0])
        for a in t.args:
            if isinstance(a, Term):
                r |= symbols(a)
        r = frozenset(r)
        _c[t] = r
    return r


def relevant(facts, goals):
    syms = set()
    for g in goals:
        syms |= symbols(g)
    out, rest = [], list(facts)
    for _ in range(4):
        nxt = []
        add = []
        for f in rest:
            s = symbols(f)
            if not s or s & syms:
                add.append(f)
            else:
                nxt.append(f)
        if not add:
            break
        out += add
        for f in add:
            syms |= symbols(f)
        rest = nxt
    return out


# ---------------------------------------------------------------------------
# contextual simplification
def simp(t, ctx):
    """resolve decidable conditions; canonicalise ln/exp/sqrt under the context"""
    if not t.args or t.op in ("const", "var"):
        return t
    r = ctx._simp.get(t)
    if r is not None:
        return r
    _check_deadline()
    o = t.op
    if o == "ite":
        c = simp(t.args[0], ctx)
        d = ctx.decide(c)
        if d is True:
            r = simp(t.args[1], ctx)
        elif d is False:
            r = simp(t.args[2], ctx)
        else:
            a = simp(t.args[1], ctx.assume(c))
            b = simp(t.args[2], ctx.assume(not_(c)))
            r = ite(c, a, b)
    elif o == "lam":
        r = t  # handled by the binder ops
    elif o in ("sum", "forall", "rmax"):
        lo, hi = simp(t.args[0], ctx), simp(t.args[1], ctx)
        if ctx.decide(le(hi, lo)) is True and o != "rmax":
            r = T.const(0) if o == "sum" else TRUE
        else:
            v = T.fresh("s")
            c2 = ctx.assume(le(lo, v), lt(v, hi))
            body = simp(T.open_(t.args[2], v), c2)
            r = T.rebuild(t, [lo, hi, T.close(v, body)])
    elif o == "interp":
        x, n, xp, fp, L, R_ = t.args
        n = simp(n, ctx)
        x, L, R_ = simp(x, ctx), simp(L, ctx), simp(R_, ctx)
        v = T.fresh("s")
        c2 = ctx.assume(le(I(0), v), lt(v, n))
        xp = T.close(v, simp(T.open_(xp, v), c2))
        fp = T.close(v, simp(T.open_(fp, v), c2))
        r = T._mk("interp", (x, n, xp, fp, L, R_), "R")
    elif o == "lstsq":
        k, n, p, M, Y = t.args
        k, n = simp(k, ctx), simp(n, ctx)
        v = T.fresh("s")
        c2 = ctx.assume(le(I(0), v), lt(v, n))
        Y = T.close(v, simp(T.open_(Y, v), c2))
        inner = T.open_(M, v)
        w = T.fresh("s")
        c3 = c2.assume(le(I(0), w), lt(w, p))
        M = T.close(v, T.close(w, simp(T.open_(inner, w), c3)))
        r = T._mk("lstsq", (k, n, p, M, Y), "R")
    elif o in ("lt", "le", "eq", "and", "or", "not"):
        r = T.rebuild(t, [simp(a, ctx) for a in t.args])
        if r.op == "eq" and r.args[0].op == "mul" and r.args[0].sort == "R":
            # a product vanishes iff one of its possibly-zero factors does
            m = r.args[0]
            keep = [x for x, e in zip(m.args[1::2], m.args[2::2])
                    if not (ctx.nonzero_cheap(x) or ctx.decide(eq(x, R0)) is False)]
            if len(keep) < len(m.args) // 2 or any(e < 0 for e in m.args[2::2]):
                if all(e > 0 for x, e in zip(m.args[1::2], m.args[2::2]) if x in keep):
                    r = eq(T.mul(T.const(1), *keep), R0)
        d = ctx.decide(r)
        if d is True:
            r = TRUE
        elif d is False:
            r = FALSE
    elif o == "ln":
        r = simp_ln(simp(t.args[0], ctx), ctx)
    elif o == "exp":
        r = simp_exp(simp(t.args[0], ctx), ctx)
    elif o == "sqrt":
        a = simp(t.args[0], ctx)
        r = simp_sqrt(a, ctx)
    elif o == "fn" and any(isinstance(a, Term) and a.op == "lam" for a in t.args):
        r = T.rebuild(t, tuple(simp(a, ctx) if isinstance(a, Term) and a.op != "lam" else a for a in t.args))
    else:
        r = T.rebuild(t, [simp(a, ctx) if isinstance(a, Term) else a for a in t.args])
        if r.op == "mul":
            r = fix_mul(r, ctx)
        if r.op == "idiv":
            r = simp_idiv(r, ctx)
        if r.op == "add" and any(a.op == "ite" for a in r.args[1::2]):
            pass
    ctx._simp[t] = r
    return r


def int_poly(t):
    """integer polynomial: {sorted tuple of atoms (with repetition): coefficient}"""
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "add":
        r = {(): t.args[0]} if t.args[0] else {}
        for x, k in zip(t.args[1::2], t.args[2::2]):
            for m, c in int_poly(x).items():
                r[m] = r.get(m, 0) + k * c
    elif t.op == "mul":
        r = {(): t.args[0]}
        for x, e in zip(t.args[1::2], t.args[2::2]):
            p = int_poly(x)
            for _ in range(e):
                q = {}
                for m1, c1 in r.items():
                    for m2, c2 in p.items():
                        m = tuple(sorted(m1 + m2, key=lambda a: a.id))
                        q[m] = q.get(m, 0) + c1 * c2
                r = q
                if len(r) > 60:
                    raise TooBig()
    else:
        return {(t,): 1}
    return {m: c for m, c in r.items() if c}


def simp_idiv(t, ctx):
    """floor division: multiples of the divisor split off, then a small quotient"""
    a, b = t.args
    if ctx.decide(lt(I(0), b)) is True:
        try:
            pa, pb = int_poly(a), int_poly(b)
        except TooBig:
            pa = pb = {}
        if len(pb) == 1:
            (mb, cb), = pb.items()
            q = r = I(0)
            for m, c in pa.items():
                rest = list(m)
                ok = c % cb == 0
                for x in mb:
                    if ok and x in rest:
                        rest.remove(x)
                    else:
                        ok = False
                if ok:
                    q = T.add(q, T.mul(I(c // cb), *rest))
                else:
                    r = T.add(r, T.mul(I(c), *m))
            if q is not I(0):
                return T.add(q, simp_idiv(T.idiv(r, b), ctx) if not T.is_const(r) or r.args[0] else I(0))
        for q in (0, -1, 1):
            if ctx.decide(le(b * q, a)) is True and ctx.decide(lt(a, b * (q + 1))) is True:
                return I(q)
    return t


def fix_mul(t, ctx):
    """sqrt(x)^2 -> x, and products in which exponentials met"""
    if t.op != "mul":
        return t
    parts, ch = [T.const(t.args[0], t.sort)], False
    for x, e in zip(t.args[1::2], t.args[2::2]):
        if x.op == "sqrt" and abs(e) >= 2 and ctx.nonneg(x.args[0]):
            q, r = divmod(abs(e), 2)
            s = 1 if e > 0 else -1
            parts.append(T.ipow(x.args[0], s * q))
            if r:
                parts.append(T.ipow(x, s))
            ch = True
        elif x.op == "exp":
            y = simp_exp(x.args[0], ctx)
            if y is not x:
                ch = True
            parts.append(T.ipow(y, e))
        else:
            parts.append(T.ipow(x, e))
    if not ch:
        return t
    return T.mul(*parts)


def simp_sqrt(a, ctx):
    if a.op == "const":
        v = a.args[0]
        if v >= 0:
            import math

            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return T.const(Fraction(p, q))
    if a.op == "mul" and all(e % 2 == 0 for e in a.args[2::2]) and a.args[0] > 0:
        if all(ctx.nonneg(x) for x in a.args[1::2]):
            return T.mul(simp_sqrt(T.const(a.args[0]), ctx), *[T.ipow(x, e // 2) for x, e in zip(a.args[1::2], a.args[2::2])])
    return T.sqrt(a)


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def ln_const(v):
    out = T.const(0)
    for n, s in ((v.numerator, 1), (v.denominator, -1)):
        for p in PRIMES:
            e = 0
            while n % p == 0:
                n //= p
                e += 1
            if e:
                if p == 5:
                    b = T.sub(T.ln(T.const(10)), T.ln(T.const(2)))
                else:
                    b = T.ln(T.const(p))
                out = T.add(out, T.scale(Fraction(s * e), b))
        if n != 1:
            out = T.add(out, T.scale(Fraction(s), T.ln(T.const(n))))
    return out


def simp_ln(a, ctx):
    if a.op == "const":
        return ln_const(a.args[0]) if a.args[0] > 0 else T.ln(a)
    if a.op == "exp":
        return a.args[0]
    if a.op == "sqrt" and ctx.pos(a.args[0]):
        return T.scale(Fraction(1, 2), simp_ln(a.args[0], ctx))
    if a.op == "add" and any(e < 0 for x in a.args[1::2] if x.op == "mul" for e in x.args[2::2]):
        # a fraction: numerator and denominator
        num, den = common_denominator(a, ctx)
        if den and not has_op(num, "ite"):
            return T.sub(simp_ln(num, ctx), T.add(T.const(0), *[T.scale(k, T.ln(x)) for x, k in den]))
    if a.op == "mul" or (a.op == "add" and T._prod(a)[0] != 1):
        c, d = T._prod(a)
        parts, rest_c, rest = [], c, {}
        neg = False
        ok = True
        for x, e in d.items():
            if ctx.pos(x):
                parts.append(T.scale(e, T.ln(x) if x.op == "add" else simp_ln(x, ctx)))
            elif ctx.pos(T.neg_(x)):
                parts.append(T.scale(e, T.ln(T.neg_(x))))
                if e % 2:
                    rest_c = -rest_c
            else:
                ok = False
                break
        if ok and rest_c > 0:
            return T.add(ln_const(rest_c), *parts)
    if a.op == "ite":
        # ln distributes over conditionals
        c, x, y = a.args
        return ite(c, simp_ln(x, ctx.assume(c)), simp_ln(y, ctx.assume(not_(c))))
    return T.ln(a)


def common_denominator(a, ctx):
    """a = numerator / product of known-positive factors: (numerator, [(factor, exponent)])"""
    dens = {}
    for x in a.args[1::2]:
        if x.op == "mul":
            for f, e in zip(x.args[1::2], x.args[2::2]):
                if e < 0:
                    dens[f] = max(dens.get(f, 0), -e)
        if len(dens) > 4:
            return a, []
    den = {}
    for f, k in dens.items():
        if f.op == "exp":
            continue
        if ctx.pos(f):
            den[f] = k
        elif ctx.pos(T.neg_(f)):
            den[T.neg_(f)] = k
    if not den:
        return a, []
    mult = [T.ipow(f, k) for f, k in den.items()]
    try:
        p = {}
        for x, c in zip([None] + list(a.args[1::2]), [a.args[0]] + list(a.args[2::2])):
            t = T.mul(T.const(c), *(([x] if x is not None else []) + mult))
            p = padd(p, expand(t))
        return poly2term(p), list(den.items())
    except TooBig:
        return a, []


def simp_exp(a, ctx):
    """exp of a linear combination: rational powers of logarithms become powers"""
    if a.op == "ite":
        c, x, y = a.args
        return ite(c, simp_exp(x, ctx.assume(c)), simp_exp(y, ctx.assume(not_(c))))
    c0, d = T._lin(a)
    facs, rest = [], {}
    for x, c in d.items():
        if x.op == "ln":
            k = c
            if x.args[0].op == "const" and x.args[0].args[0] > 0:
                if k.denominator == 1 and abs(k) <= 400:
                    facs.append(T.const(x.args[0].args[0] ** int(k)))
                    continue
            elif ctx.pos(x.args[0]):
                if k.denominator == 1:
                    facs.append(T.ipow(x.args[0], int(k)))
                    continue
                if k.denominator == 2:
                    facs.append(T.ipow(T.sqrt(x.args[0]), int(2 * k)))
                    continue
        rest[x] = c
    if not facs:
        return T.exp(a)
    return T.mul(T.exp(T._mklin(c0, rest, "R")), *facs)


# ---------------------------------------------------------------------------
# expanded normal form: Laurent polynomials over atoms
class TooBig(Exception):
    pass


MAXMON = 6000


def pmul(p, q):
    if len(p) * len(q) > 60000:
        raise TooBig()
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda p: p[0].id))
            v = out.get(m, 0) + c1 * c2
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
    if len(out) > MAXMON:
        raise TooBig()
    return out


def padd(p, q, k=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + k * c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def expand(t):
    """Term -> {monomial: coef}; monomial = sorted tuple of (atom, exponent)"""
    c = expand.cache.get(t)
    if c is not None:
        return c
    if t.op == "const":
        r = {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
    elif t.op == "add":
        r = {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
        for x, k in zip(t.args[1::2], t.args[2::2]):
            r = padd(r, expand(x), Fraction(k))
        if len(r) > MAXMON:
            raise TooBig()
    elif t.op == "mul":
        r = {(): Fraction(t.args[0])}
        for x, e in zip(t.args[1::2], t.args[2::2]):
            if x.op == "add" and e > 0:
                p = expand(x)
                for _ in range(e):
                    r = pmul(r, p)
            elif x.op == "add" and e < 0:
                px = expand(x)
                if len(px) == 1:
                    (m, cc), = px.items()
                    r = pmul(r, {tuple((a, -f * -e) for a, f in m): Fraction(1) / cc ** (-e)})
                elif not px:
                    r = pmul(r, {((x, e),): Fraction(1)})
                else:
                    # canonical denominator: primitive, divided by its common monomial
                    cm, cc, y = canon_den(px)
                    if not cm and y.op == "add" and y.args[0] == 1 and len(y.args) == 3 and y.args[2] == 1 and y.args[1].op == "exp":
                        # one of the two logistic functions: 1/(1+exp(-v)) = 1 - 1/(1+exp(v))
                        v = y.args[1].args[0]
                        if T._tw_sign(v) < 0:
                            y2 = T.add(T.const(1), T.exp(T.neg_(v)))
                            q = {(): Fraction(1), ((y2, -1),): Fraction(-1)}
                            for _ in range(-e):
                                r = pmul(r, {m: c / cc for m, c in q.items()})
                            continue
                    r = pmul(r, {tuple(sorted([(a, -f * -e) for a, f in cm] + [(y, e)], key=lambda p: p[0].id)): Fraction(1) / cc ** (-e)})
            else:
                r = pmul(r, {((x, e),): Fraction(1)})
    else:
        r = {((t, 1),): Fraction(1)}
    # merge exponentials inside monomials
    r = merge_exp(r)
    expand.cache[t] = r
    return r


expand.cache = {}


def merge_exp(r):
    bad = [m for m in r if sum(1 for a, e in m if a.op == "exp") > 1 or any(a.op == "exp" and e != 1 for a, e in m)]
    if not bad:
        return r
    out = {m: c for m, c in r.items() if m not in set(bad)}
    for m in bad:
        c = r[m]
        ex = T.const(0)
        rest = []
        for a, e in m:
            if a.op == "exp":
                ex = T.add(ex, T.scale(e, a.args[0]))
            else:
                rest.append((a, e))
        x = T.exp(ex)
        if x.op == "exp":
            rest.append((x, 1))
        nm = tuple(sorted(rest, key=lambda p: p[0].id))
        v = out.get(nm, 0) + c
        if v == 0:
            out.pop(nm, None)
        else:
            out[nm] = v
    return out


def canon_den(p):
    """split a polynomial into (common monomial, leading coef, primitive Term)"""
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: (min(e, d[a]) if e > 0 and d[a] > 0 else (max(e, d[a]) if e < 0 and d[a] < 0 else 0)) for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items() if e}
    cm = tuple(sorted(common.items(), key=lambda x: x[0].id)) if common else ()
    inv = tuple((a, -e) for a, e in cm)
    q = pmul(p, {inv: Fraction(1)}) if cm else p
    lead = q[min(q, key=lambda m: tuple((a.id, e) for a, e in m))]
    q = {m: c / lead for m, c in q.items()}
    return cm, lead, poly2term(q)


def poly2term(p):
    ts = []
    for m, c in p.items():
        ts.append(T.mul(T.const(c), *[T.ipow(a, e) for a, e in m]))
    return T.add(T.const(0), *ts)


def clear_denominators(p):
    """multiply by all `add` denominators; returns polynomial"""
    for _ in range(12):
        dens = {}
        for m in p:
            for a, e in m:
                if a.op == "add" and e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if not dens:
            return p
        out = {}
        exps = {a: expand(a) for a in dens}
        for m, c in p.items():
            d = dict(m)
            q = {tuple((a, e) for a, e in m if a not in dens): c}
            for a, k in dens.items():
                for _i in range(k + d.get(a, 0)):
                    q = pmul(q, exps[a])
            out = padd(out, q)
            if len(out) > MAXMON:
                raise TooBig()
        p = merge_exp(out)
    return p


# ---------------------------------------------------------------------------
# canonical sums: prefix-sum form
def shift_body(body, v):
    """normalise index offsets: returns (shift, body') with body(v) = body'(v + shift)"""
    offs = []
    seen = set()
    st = [body]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if v not in T.free_vars(t):
            continue
        if t.sort == "I" and t.op == "add":
            c0, d = T._lin(t)
            if d.get(v) == 1:
                offs.append((c0, len(d)))
                continue
            if d.get(v) == -1:
                continue
        if t is v:
            offs.append((0, 1))
            continue
        for a in t.args:
            if isinstance(a, Term):
                st.append(a)
    if not offs:
        return 0, body
    m = min(o[0] for o in offs)
    if m == 0:
        return 0, body
    return m, T.subst(body, {v: v - m})


def psum(l, k, ctx):
    """formal prefix sum  P(k) = sum_{i<k} l(i)  with canonical upper limit"""
    c0, d = T._lin(k)
    if not d:
        anchor = 0 if abs(c0) <= 16 else int(round(c0 / 64.0)) * 64
        if abs(c0 - anchor) > 16:
            anchor = c0
        base = T.const(0) if anchor == 0 else T._mk("psum", (l, T.const(anchor, "I")), "R")
    else:
        anchor = 0
        base = T._mk("psum", (l, T._mklin(0, d, "I")), "R")
    delta = c0 - anchor if not d else c0
    off = T._mklin(0, d, "I") if d else T.const(anchor, "I")
    if abs(delta) > 40:
        return T._mk("psum", (l, k), "R")
    out = [base]
    if delta > 0:
        for j in range(delta):
            out.append(T.open_(l, off + j))
    else:
        for j in range(-delta):
            out.append(T.neg_(T.open_(l, off - 1 - j)))
    return T.add(*out)


def nf_sum(lo, hi, body, v, ctx, depth=0):
    """canonical form of sum_{lo<=v<hi} body  (ctx: outer context)"""
    _check_deadline()
    if ctx.decide(le(hi, lo)) is True:
        return T.const(0)
    w = T.sub(hi, lo)
    if w.op == "const" and w.args[0] <= 8:
        return T.add(T.const(0), *[nf(simp(T.subst(body, {v: lo + j}), ctx), ctx) for j in range(w.args[0])])
    c2 = ctx.assume(le(lo, v), lt(v, hi)).inst(v, lo, hi)
    body = simp(body, c2)
    # split the range on integer conditions about v
    conds = find_conds(body, lambda c: v in T.free_vars(c) and pure_int(c))
    if conds and depth < 12:
        for a in conds:
            pt = split_point(a, v, ctx)
            if pt is None:
                continue
            # pt: list of cut points
            for p in pt:
                a1, a2 = ctx.decide(le(p, lo)), ctx.decide(le(hi, p))
                if a1 is True or a2 is True:
                    continue
                if ctx.decide(and_(le(lo, p), le(p, hi))) is True:
                    return T.add(nf_sum(lo, p, body, v, ctx, depth + 1), nf_sum(p, hi, body, v, ctx, depth + 1))
    p = expand(nf(body, c2))
    out = []
    for m, c in p.items():
        outside, inside = [T.const(c)], []
        for a, e in m:
            (inside if v in T.free_vars(a) else outside).append(T.ipow(a, e))
        if not inside:
            out.append(T.mul(*outside, T.i2r(w)))
            continue
        b = T.mul(*inside)
        sw = swap_sums(inside, lo, hi, v, ctx, depth)
        if sw is not None:
            out.append(T.mul(T.mul(*outside), sw))
            continue
        # offset normalisation
        s, b2 = shift_body(b, v)
        l = T.close(v, b2)
        diff = T.sub(psum(l, hi + s, ctx), psum(l, lo + s, ctx))
        # boundary elements produced by psum are re-normalised
        diff = nf_bound(diff, ctx)
        eqs = ctx.psum_eqs()
        if eqs:
            diff = T.replace(diff, eqs)
        out.append(T.mul(T.mul(*outside), diff))
    return T.add(T.const(0), *out)


def swap_sums(inside, lo, hi, v, ctx, depth):
    """sum_{v<hi} a(v) sum_{w<M} g(w, v)  with the range names in alphabetical order"""
    if lo is not I(0) or hi.op != "var" or depth > 6:
        return None
    ps = [a for a in inside if a.op == "psum"]
    if len(ps) != 1:
        return None
    l, M = ps[0].args
    if M.op != "var" or not str(M.args[0]).startswith("dim:"):
        return None
    ordered = str(M.args[0]) < str(hi.args[0])
    if not ordered and not (ctx.psum_eqs() or any(f.op == "forall" and has_op(f, "sum") for f in ctx.facts)):
        return None
    w = T.fresh("s")
    g = T.mul(T.open_(l, w), *[a for a in inside if a is not ps[0]])
    c2 = ctx.assume(le(I(0), w), lt(w, M)).inst(w, I(0), M)
    inner = nf_sum(lo, hi, g, v, c2, depth + 1)
    if not ordered and has_op(inner, "psum"):
        return None
    return nf_sum(I(0), M, inner, w, ctx, depth + 1)


def nf_bound(t, ctx):
    if t.op == "add":
        parts = [T.const(t.args[0])]
        for x, c in zip(t.args[1::2], t.args[2::2]):
            parts.append(T.scale(c, x if x.op == "psum" else nf(simp(x, ctx), ctx)))
        return T.add(*parts)
    return t if t.op == "psum" else nf(simp(t, ctx), ctx)


def find_conds(t, pred, binders=False):
    """atomic conditions of ite's in t"""
    out, seen = {}, set()

    def atoms(c):
        if c.op in ("and", "or", "not"):
            for a in c.args:
                atoms(a)
        elif pred(c):
            out[c] = 1

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "ite":
            atoms(t.args[0])
        if t.op == "lam" and not binders:
            return
        for a in t.args:
            if isinstance(a, Term):
                go(a)

    go(t)
    return list(out)


def split_point(c, v, ctx):
    """cut points p such that c is constant on v<p and v>=p (for eq: two cuts)"""
    if c.op == "le":
        c0, d = T._lin(c.args[0])
        k = d.pop(v, 0)
        if any(v in T.free_vars(x) for x in d):
            return None
        rest = T._mklin(c0, d, "I")
        if k == 1:      # v + rest <= 0  <=> v < 1 - rest
            return [T.sub(I(1), rest)]
        if k == -1:     # rest <= v
            return [rest]
    if c.op == "eq":
        c0, d = T._lin(c.args[0])
        k = d.pop(v, 0)
        if any(v in T.free_vars(x) for x in d):
            return None
        rest = T._mklin(c0, d, "I")
        if k == 1:
            p = T.neg_(rest)
        elif k == -1:
            p = rest
        else:
            return None
        return [p, p + 1]
    return None


def nf(t, ctx):
    """normal form of a simplified real term: sums in prefix-sum form, arguments of
    atoms in expanded form."""
    if t.op in ("const", "var") or t.sort != "R":
        return t
    r = ctx._nf.get(t)
    if r is not None:
        return r
    _check_deadline()
    o = t.op
    if o == "sum":
        v = T.fresh("s")
        r = nf_sum(t.args[0], t.args[1], T.open_(t.args[2], v), v, ctx)
    elif o in ("add", "mul"):
        r = T.rebuild(t, [nf(a, ctx) if isinstance(a, Term) else a for a in t.args])
    elif o in ("exp", "ln", "sqrt"):
        a = nf(t.args[0], ctx)
        try:
            a = poly2term(expand(a))
        except TooBig:
            pass
        if o == "ln":
            r = simp_ln(a, ctx)
        elif o == "exp":
            r = simp_exp(a, ctx)
        else:
            r = simp_sqrt(a, ctx)
    elif o == "interp":
        x, n, xp, fp, L, R_ = t.args
        v = T.fresh("s")
        c2 = ctx.assume(le(I(0), v), lt(v, n))
        ex = lambda u, c: canon(nf(u, c))
        xp = T.close(v, ex(T.open_(xp, v), c2))
        fp = T.close(v, ex(T.open_(fp, v), c2))
        r = T._mk("interp", (ex(x, ctx), n, xp, fp, ex(L, ctx), ex(R_, ctx)), "R")
    elif o == "lstsq":
        k, n, p, M, Y = t.args
        v, w = T.fresh("s"), T.fresh("s")
        c2 = ctx.assume(le(I(0), v), lt(v, n))
        Y = T.close(v, canon(nf(T.open_(Y, v), c2)))
        inner = T.open_(M, v)
        M = T.close(v, T.close(w, canon(nf(T.open_(inner, w), c2))))
        r = T._mk("lstsq", (k, n, p, M, Y), "R")
    elif o == "rmax":
        v = T.fresh("s")
        c2 = ctx.assume(le(t.args[0], v), lt(v, t.args[1]))
        b = nf(T.open_(t.args[2], v), c2)
        out, b = rmax_factor(b, v, ctx)
        r = T._mk("rmax", (t.args[0], t.args[1], T.close(v, canon(b))), "R")
        if out is not None:
            r = nf(T.mul(out, r), ctx)
    elif o == "ite":
        r = ite_tree(t, ctx)
    elif o == "fn":
        r = T.rebuild(t, tuple(canon(nf(a, ctx)) if isinstance(a, Term) and a.op != "lam" and a.sort == "R" else a for a in t.args))
    else:
        r = t
    ctx._nf[t] = r
    return r


def contradicts(ctx, f):
    """cheap refutation of a real literal by the literals of the context"""
    if ctx.dead or f is FALSE or not_(f) in ctx.factset:
        return True
    neg = f.op == "not"
    g = f.args[0] if neg else f
    if g.op not in ("lt", "le") or neg:
        return False
    a = g.args[0]
    if a.sort != "R":
        return ctx.decide(f) is False
    for h in ctx.facts:
        if h.op in ("lt", "le") and h.args[0].sort == "R":
            s = T.add(a, h.args[0])
            if s.op == "const" and (s.args[0] > 0 or (s.args[0] == 0 and (g.op == "lt" or h.op == "lt"))):
                return True
    return False


def polarity(c):
    """one of an order literal and its negation"""
    if c.op in ("lt", "le"):
        d = not_(c)
        if c.args[0].sort == "R":
            return c if c.op == "le" else d
        return c if c.id < d.id else d
    return c


def ite_tree(t, ctx, depth=0):
    """canonical decision tree of a conditional: atomic conditions in a fixed order,
    branches excluded by the context dropped"""
    c, a, b = t.args
    if depth == 0:
        n = 0
        at = {}
        st = [t]
        while st:
            u = st.pop()
            if u.op == "ite":
                for x in cond_atoms(u.args[0]):
                    at[x] = 1
                st += [u.args[1], u.args[2]]
        if len({polarity(x) for x in at}) > 5:
            return ite(nf_cond(c, ctx), nf(a, ctx.assume(c)), nf(b, ctx.assume(not_(c))))
        # rewrite every condition into its normal form first
        m = {}
        for x in at:
            y = nf_cond(x, ctx)
            if y is not x:
                m[x] = y
        if m:
            t = re_cond(t, m)
            if t.op != "ite":
                return nf(t, ctx)
    at = {}
    st = [t]
    while st:
        u = st.pop()
        if u.op == "ite":
            for x in cond_atoms(u.args[0]):
                at[polarity(x)] = 1
            st += [u.args[1], u.args[2]]
    if not at:
        return nf(t, ctx)
    k = min(at, key=lambda x: x.id)
    out = []
    for f, v in ((k, TRUE), (not_(k), FALSE)):
        if ctx.decide(f) is False or contradicts(ctx, f):
            out.append(None)
            continue
        u = re_cond(t, {k: v, not_(k): not_(v)})
        c2 = ctx.assume(f)
        out.append(ite_tree(u, c2, depth + 1) if u.op == "ite" else nf(simp(u, c2), c2))
    if out[0] is None and out[1] is None:
        return T.const(0)
    if out[0] is None:
        return out[1]
    if out[1] is None:
        return out[0]
    return ite(k, out[0], out[1])


def re_cond(t, m):
    """replace atomic conditions along the outer conditionals of t"""
    if t.op != "ite":
        return t

    def rc(c):
        if c in m:
            return m[c]
        if c.op in ("and", "or", "not"):
            return T.rebuild(c, [rc(a) for a in c.args])
        return c

    c, a, b = t.args
    c = rc(c)
    if c is TRUE:
        return re_cond(a, m)
    if c is FALSE:
        return re_cond(b, m)
    return ite(c, re_cond(a, m), re_cond(b, m))


def canon(t):
    try:
        return poly2term(expand(t))
    except TooBig:
        return t


def nf_cond(c, ctx):
    if c.op in ("and", "or", "not"):
        return T.rebuild(c, [nf_cond(a, ctx) for a in c.args])
    if c.op in ("lt", "le", "eq") and c.args[0].sort == "R":
        return T.rebuild(c, [canon(nf(c.args[0], ctx))])
    return c


def rmax_factor(b, v, ctx):
    """max_i c f(i) = c max_i f(i) for c > 0 (Lean: rmax_scale): (positive factor independent of the
    index or None, the rest)"""
    c, fs = factors(b)
    if b.op == "add" and not (len(b.args) == 3 and b.args[0] == 0) or c <= 0:
        return None, b
    out, rest = T.const(c), T.const(1)
    for x, e in fs.items():
        f = T.ipow(x, e)
        if x.op == "exp" and e == 1 and v in T.free_vars(x):
            a, k = x.args[0], T.const(0)
            if a.op == "add":
                k = T.const(a.args[0])
                for u, w in zip(a.args[1::2], a.args[2::2]):
                    if v not in T.free_vars(u):
                        k = T.add(k, T.scale(w, u))
            out, rest = T.mul(out, T.exp(k)), T.mul(rest, T.exp(T.sub(a, k)))
        elif v not in T.free_vars(x) and (ctx.decide(lt(T.const(0), f)) is True or entails(ctx, lt(T.const(0), f))):
            out = T.mul(out, f)
        else:
            rest = T.mul(rest, f)
    return (None, b) if out is T.const(1) else (out, rest)


# ---------------------------------------------------------------------------
# proving
class Result:
    def __init__(self, ok, why="", ctx=None, goal=None):
        self.ok, self.why, self.ctx, self.goal = ok, why, ctx, goal

    def __bool__(self):
        return self.ok


YES = Result(True)


def first_cond(t, ctx):
    """an undecided ite condition (or boolean atom) not depending on bound variables"""
    best = None
    seen = set()
    st = [t]
    ints, reals = [], []
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "ite":
            c = u.args[0]
            for a in cond_atoms(c):
                if any(isinstance(x, Term) and x.args[0].startswith("#") for x in T.free_vars(a)):
                    continue
                if ctx.decide(a) is None:
                    (ints if pure_int(a) else reals).append(a)
        for a in u.args:
            if isinstance(a, Term):
                st.append(a)
    # innermost conditions first: a condition free of ite's itself
    for L in (ints, reals):
        L = [a for a in L if not has_op(a, "ite")] or L
        if L:
            return min(L, key=lambda a: a.id)
    return None


def has_op(t, op):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == op:
            return True
        for a in u.args:
            if isinstance(a, Term):
                st.append(a)
    return False


def cond_atoms(c):
    if c.op in ("and", "or", "not"):
        for a in c.args:
            yield from cond_atoms(a)
    else:
        yield c


def int_solution(f, ctx):
    """an index variable whose value is fixed by the fact f (in ctx)"""
    if f.op == "not":
        f = f.args[0]
        if f.op != "le":
            return None
        c0, d = T._lin(f.args[0])
        f = T.le0(T._mklin(1 - c0, {x: -k for x, k in d.items()}, "I"))
    if f.op not in ("le", "eq") or not pure_int(f):
        return None
    c0, d = T._lin(f.args[0])
    for v in sorted(d, key=lambda x: -x.id):
        if v.op != "var" or v.args[0].startswith("dim:") or v.args[0].startswith("#") or abs(d[v]) != 1:
            continue
        rest = {x: k for x, k in d.items() if x is not v}
        if any(v in T.free_vars(x) for x in rest):
            continue
        val = T.scale(-d[v], T._mklin(c0, rest, "I"))
        if f.op == "eq" or ctx.decide(eq(v, val)) is True:
            return v, val
    return None


R0 = T.const(0)
BIG = ("sum", "interp", "lstsq", "rmax")


def alias_decide(c, ctx, depth):
    """decide a real condition about sums / interpolations from a literal of the
    context about a provably equal term"""
    if c.op not in ("lt", "le", "eq") or c.args[0].sort != "R" or depth > 14:
        return None
    t = c.args[0]
    if not any(has_op(t, o) for o in BIG):
        return None
    try:
        nc = nf_cond(simp(c, ctx), ctx)
        for f in ctx.facts:
            g = f.args[0] if f.op == "not" else f
            if g.op in ("lt", "le", "eq") and g.args[0].sort == "R" and any(has_op(g, o) for o in BIG):
                nf_ = nf_cond(f, ctx)
                if nf_ is nc:
                    return True
                if nf_ is not_(nc):
                    return False
    except TooBig:
        pass
    for f in ctx.facts:
        neg = f.op == "not"
        g = f.args[0] if neg else f
        if g.op not in ("lt", "le", "eq") or g.args[0].sort != "R" or g is c:
            continue
        u = g.args[0]
        if not any(has_op(u, o) for o in BIG):
            continue
        for sgn in (1, -1):
            w = T.scale(sgn, u)
            nc = {"lt": T.lt0, "le": T.le0, "eq": lambda w: eq(w, R0)}[c.op](w)
            d = ctx.decide(nc)
            if d is None:
                continue
            if similar(t, w) and prove_eq(t, w, ctx, depth + 8):
                return d
    return None


_sim = {}


def _ops(t):
    r = _sim.get(t)
    if r is None:
        seen, st, names = set(), [t], set()
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            if u.op in BIG:
                names.add(u.op)
            elif u.op == "sel":
                names.add(u.args[0])
            for a in u.args:
                if isinstance(a, Term):
                    st.append(a)
        r = frozenset(names)
        _sim[t] = r
    return r


def similar(a, b):
    return _ops(a) == _ops(b)


def prove_eq(a, b, ctx, depth=0, hints=None):
    _check_deadline()
    if a is b:
        return YES
    a, b = simp(a, ctx), simp(b, ctx)
    if a is b:
        return YES
    if ctx.infeasible():
        return YES
    if a.sort == "I":
        r = entails(ctx, eq(a, b))
        return YES if r else Result(False, "integer equality", ctx, eq(a, b))
    if a.sort == "B":
        r1 = prove(T.implies(a, b), ctx, depth)
        if not r1:
            return r1
        return prove(T.implies(b, a), ctx, depth)
    # quick structural congruence (keeps big sums/interps folded)
    r = congr(a, b, ctx, depth)
    if r:
        return YES
    if refute.refuted(a, "eq", ctx, b):
        return Result(False, "equality false on sampled data", ctx, eq(T.sub(a, b), T.const(0)))
    c = first_cond(T.sub(a, b), ctx)
    if c is not None:
        if depth > 24:
            return Result(False, "too many case splits", ctx, eq(a, b))
        al = alias_decide(c, ctx, depth)
        for f in (c, not_(c)):
            if al is not None and (f is c) != al:
                continue
            c2 = ctx.assume(f)
            if dead(c2, f):
                continue
            sol = int_solution(f, c2)
            if sol is not None and sol[0] in (T.free_vars(a) | T.free_vars(b)):
                r = prove_eq(T.subst(a, dict([sol])), T.subst(b, dict([sol])), c2, depth + 1, hints)
            else:
                r = prove_eq(a, b, c2, depth + 1, hints)
            if not r:
                return r
        return YES
    if depth <= 30 and termwise(T.sub(a, b), ctx, depth):
        return YES
    try:
        na, nb = nf(a, ctx), nf(b, ctx)
        d = T.sub(na, nb)
        # boundary terms may have re-introduced conditions
        c = first_cond(d, ctx)
        if c is not None and depth < 24:
            for f in (c, not_(c)):
                c2 = ctx.assume(f)
                if dead(c2, f):
                    continue
                r = prove_eq(na, nb, c2, depth + 1, hints)
                if not r:
                    return r
            return YES
        if zero(d, ctx):
            return YES
        d2 = unify_atoms(d, ctx, depth)
        if d2 is not d and zero(d2, ctx):
            return YES
        if approx_equal(na, nb, ctx, depth):
            LEMMAS_USED["constants_equal_within_1e-12"] = LEMMAS_USED.get("constants_equal_within_1e-12", 0) + 1
            return YES
    except TooBig:
        d = T.sub(a, b)
    if entails(ctx, eq(d, T.const(0)), timeout=TIMEOUT_MS):
        return YES
    return Result(False, "equality not derivable", ctx, eq(d, T.const(0)))


def termwise(d, ctx, depth):
    """a combination of sums over the same range vanishes when its terms do"""
    _, lin = T._lin(d)
    groups, rest = {}, [T.const(_)]
    n = 0
    for x, c in lin.items():
        dd = {x: 1} if x.op != "mul" else dict(zip(x.args[1::2], x.args[2::2]))
        cc = c if x.op != "mul" else c * x.args[0]
        sums = [f for f in dd if f.op == "sum"]
        if len(sums) != 1 or dd[sums[0]] != 1:
            # a factor that is a combination of sums
            adds = [f for f, e in dd.items() if f.op == "add" and e == 1 and any(y.op == "sum" for y in f.args[1::2])]
            if not sums and len(adds) == 1:
                f = adds[0]
                others = T.mul(T.const(cc), *[T.ipow(g, e) for g, e in dd.items() if g is not f])
                if not has_op(others, "sum"):
                    rest.append(T.mul(others, T.const(f.args[0])))
                    for y, k in zip(f.args[1::2], f.args[2::2]):
                        z = T.mul(others, T.scale(k, y))
                        if y.op == "sum":
                            groups.setdefault(y.args[:2], []).append((T.scale(k, others), y))
                            n += 1
                        else:
                            rest.append(z)
                    continue
            rest.append(T.scale(c, x))
            continue
        m = T.mul(T.const(cc), *[T.ipow(g, e) for g, e in dd.items() if g is not sums[0]])
        if has_op(m, "sum"):
            return False
        groups.setdefault(sums[0].args[:2], []).append((m, sums[0]))
        n += 1
    if n < 3 or any(len(g) < 2 for g in groups.values()):
        return False
    rest = T.add(*rest)
    if rest is not R0 and not rational_zero(rest, ctx):
        return False
    dl = DEADLINE[0]
    if dl is not None:
        DEADLINE[0] = clock() + 0.3 * max(dl - clock(), 0)
    try:
        for (lo, hi), g in groups.items():
            v = T.fresh("s")
            c2 = ctx.assume(le(lo, v), lt(v, hi))
            t = T.add(*[T.mul(m, T.open_(s.args[2], v)) for m, s in g])
            if not prove_eq(t, T.const(0), c2, depth + 4):
                return False
        return True
    except GiveUp:
        return False
    finally:
        DEADLINE[0] = dl


def dead(ctx, f):
    if ctx.infeasible():
        return True
    if not pure_int(f):
        # contradictory real conditions
        if contradicts(ctx, f):
            return True
        return entails(ctx, FALSE, timeout=300, hints=(f,), linear=True)
    return False


def closed_value(t):
    """rational within 1e-25 of a closed exp/ln/sqrt term, or None"""
    import mpmath

    def go(t):
        if t.op == "const":
            return mpmath.mpf(t.args[0].numerator) / t.args[0].denominator if t.sort == "R" else None
        if t.op == "var" and t.args[0] == "pi":
            return mpmath.pi + 0
        if t.op in ("exp", "ln", "sqrt"):
            v = go(t.args[0])
            if v is None or (t.op != "exp" and v <= 0) or (t.op == "exp" and abs(v) > 700):
                return None
            return {"exp": mpmath.exp, "ln": mpmath.log, "sqrt": mpmath.sqrt}[t.op](v)
        if t.op in ("add", "mul"):
            r = go(T.const(t.args[0]))
            for x, c in zip(t.args[1::2], t.args[2::2]):
                v = go(x)
                if v is None or (t.op == "mul" and v == 0 and c < 0):
                    return None
                r = r + v * (mpmath.mpf(c.numerator) / c.denominator) if t.op == "add" else r * v ** int(c)
            return r
        return None

    with mpmath.workdps(40):
        v = go(t)
        if v is None:
            return None
        return Fraction(int(mpmath.floor(v * mpmath.mpf(10) ** 40)), 10 ** 40) if abs(v) > 1e-5 else Fraction(
            int(mpmath.floor(v * mpmath.mpf(10) ** 400)), 10 ** 400)


def approx_equal(a, b, ctx, depth):
    """equal polynomials up to 1e-12 in every coefficient (constants of the code are
    doubles: a folded product of constants carries rounding errors)"""
    if a.sort != "R":
        return False
    m = {}
    for t in list(atoms_of([a, b], ("exp", "ln", "sqrt"))) + [T.var("pi")]:
        if not (T.free_vars(t) - {T.var("pi")}) and not has_op(t, "sel") and not has_op(t, "psum"):
            v = closed_value(t)
            if v is not None:
                m[t] = T.const(v)
    mark = T.var("mark!")
    try:
        d = T.sub(T.replace(a, m), T.mul(mark, T.replace(b, m)))
        d = unify_atoms(d, ctx, depth)
        p = clear_denominators(expand(d))
    except (TooBig, ZeroDivisionError):
        return False
    if not p:
        return True
    L, R_ = {}, {}
    for mono, c in p.items():
        md = dict(mono)
        k = md.pop(mark, 0)
        if k not in (0, 1):
            return False
        (R_ if k else L)[frozenset(md.items())] = c
    for k in set(L) | set(R_):
        c1, c2 = L.get(k, 0), -R_.get(k, 0)
        if abs(c1 - c2) > Fraction(1, 10**12) * max(abs(c1), abs(c2)):
            return False
    return True


def zero(d, ctx):
    if d.op == "const":
        return d.args[0] == 0
    p = expand(d)
    if not p:
        return True
    p = clear_denominators(p)
    return not p


def unify_atoms(d, ctx, depth):
    """merge atoms with the same head that are provably equal"""
    if depth > 30:
        return d
    ops = ("psum", "interp", "sum", "exp", "ln", "sqrt", "sel", "fn", "lstsq", "rmax")
    m = {}
    shifts = False
    for op in ops:
        L = sorted(atoms_of([d], (op,)), key=lambda a: a.id)
        if len(L) > 24:
            continue
        reps = []
        for a in L:
            for r in reps:
                if a.sort == "R" and refute.refuted(a, "eq", ctx, r):
                    continue
                if congr(a, r, ctx, depth + 6, same=True):
                    m[a] = r
                    break
            else:
                for r in reps if op == "psum" else ():
                    sh = shifted_psum(a, r, ctx, depth)
                    if sh is not None:
                        m[a] = sh
                        shifts = True
                        break
            if a not in m:
                reps.append(a)
    if shifts:
        # (the boundary elements bring new atoms)
        return unify_atoms(T.replace(d, m), ctx, depth + 8)
    return T.replace(d, m) if m else d


def shifted_psum(a, r, ctx, depth):
    """sum_{v<n} g(v) in terms of sum_{v<n} f(v) when g(v) = f(v+1) or f(v-1)"""
    f, n = r.args
    g = a.args[0]
    if a.args[1] is not n or depth > 16:
        return None
    v = T.fresh("s")
    c2 = ctx.assume(le(I(0), v), lt(v, n)).inst(v, I(0), n)
    for x, y, up in ((g, f, True), (f, g, False)):
        p, q = T.open_(x, v), T.open_(y, v + 1)
        if refute.EVALS and not refute.refuted(p, "eq", c2, q) and prove_eq(p, q, c2, depth + 6):
            # x(v) = y(v+1):  sum_{v<n} x = sum_{v<n} y + y(n) - y(0)
            hi, lo = (nf(simp(T.open_(y, k), ctx), ctx) for k in (n, I(0)))
            return T.add(r, hi, T.neg_(lo)) if up else T.add(r, lo, T.neg_(hi))
    return None


def congr(a, b, ctx, depth, same=False):
    """same head symbol, provably equal arguments"""
    if a is b:
        return True
    if not same and a.sort == "R" and a.op in ("mul", "add", "sum") and b.op in ("mul", "add", "sum") and (a.op, b.op) != ("sum", "sum"):
        return depth <= 34 and congr_product(a, b, ctx, depth)
    if a.op != b.op or depth > 34:
        return False
    o = a.op
    if o in ("sum", "rmax"):
        if not (a.args[0] is b.args[0] or ctx.decide(eq(a.args[0], b.args[0])) is True):
            return False
        if not (a.args[1] is b.args[1] or ctx.decide(eq(a.args[1], b.args[1])) is True):
            return False
        v = T.fresh("s")
        c2 = ctx.assume(le(a.args[0], v), lt(v, a.args[1]))
        return bool(prove_eq(T.open_(a.args[2], v), T.open_(b.args[2], v), c2, depth + 4))
    if o == "psum":
        if not (a.args[1] is b.args[1]):
            return False
        v = T.fresh("s")
        c2 = ctx.assume(le(I(0), v), lt(v, a.args[1]))
        return bool(prove_eq(T.open_(a.args[0], v), T.open_(b.args[0], v), c2, depth + 4))
    if o == "interp":
        if not (a.args[1] is b.args[1] or ctx.decide(eq(a.args[1], b.args[1])) is True):
            return False
        v = T.fresh("s")
        c2 = ctx.assume(le(I(0), v), lt(v, a.args[1]))
        xa, xb = a.args[0], b.args[0]
        pa, pb = T.open_(a.args[2], v), T.open_(b.args[2], v)
        if not (prove_eq(xa, xb, ctx, depth + 4) and prove_eq(pa, pb, c2, depth + 4)):
            # the same point of a table whose abscissae are all scaled (s > 0) or shifted
            if prove_eq(T.sub(pa, pb), T.sub(xa, xb), c2, depth + 4):
                lem = "interp_shift"
            elif prove(lt(T.const(0), xa), ctx, depth + 4) and prove(
                    lt(T.const(0), xb), ctx, depth + 4) and prove_eq(T.mul(pa, xb), T.mul(pb, xa), c2, depth + 4):
                lem = "interp_stretch"
            else:
                return False
            LEMMAS_USED[lem] = LEMMAS_USED.get(lem, 0) + 1
        for k in (4, 5):
            if not prove_eq(a.args[k], b.args[k], ctx, depth + 4):
                # the value outside the table does not matter inside it
                if k == 4 and prove(le(T.open_(a.args[2], I(0)), a.args[0]), ctx, depth + 4):
                    continue
                if k == 5 and prove(le(a.args[0], T.open_(a.args[2], a.args[1] - 1)), ctx, depth + 4):
                    continue
                return False
        return bool(prove_eq(T.open_(a.args[3], v), T.open_(b.args[3], v), c2, depth + 4))
    if o == "lstsq":
        if a.args[1] is not b.args[1] or a.args[2] is not b.args[2] or a.args[0] is not b.args[0]:
            return False
        v = T.fresh("s")
        c2 = ctx.assume(le(I(0), v), lt(v, a.args[1]))
        if not prove_eq(T.open_(a.args[4], v), T.open_(b.args[4], v), c2, depth + 4):
            return False
        p = T.cval(a.args[2])
        ia, ib = T.open_(a.args[3], v), T.open_(b.args[3], v)
        return all(bool(prove_eq(T.open_(ia, I(k)), T.open_(ib, I(k)), c2, depth + 4)) for k in range(p))
    if o == "sel":
        return a.args[0] == b.args[0] and len(a.args) == len(b.args) and all(
            x is y or ctx.decide(eq(x, y)) is True for x, y in zip(a.args[1:], b.args[1:]))
    if o in ("exp", "ln", "sqrt") and same:
        return bool(prove_eq(a.args[0], b.args[0], ctx, depth + 4))
    if o == "fn" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return all(x is y or (isinstance(x, Term) and x.sort == "R" and x.op != "lam" and bool(prove_eq(x, y, ctx, depth + 4)))
                   or (isinstance(x, Term) and x.sort == "I" and ctx.decide(eq(x, y)) is True)
                   for x, y in zip(a.args[1:], b.args[1:]))
    return False


def factors(t):
    """coefficient and factors of a product"""
    if t.op == "add" and len(t.args) == 3 and t.args[0] == 0:
        c, f = factors(t.args[1])
        return c * t.args[2], f
    if t.op == "mul":
        return t.args[0], dict(zip(t.args[1::2], t.args[2::2]))
    return Fraction(1), {t: 1}


def congr_product(a, b, ctx, depth):
    """products of the same shape with one differing binder factor"""
    ca, fa = factors(a)
    cb, fb = factors(b)
    ra = [(x, e) for x, e in fa.items() if fb.get(x) != e]
    rb = [(x, e) for x, e in fb.items() if fa.get(x) != e]
    if len(ra) != 1 or len(rb) != 1 or ra[0][1] != rb[0][1]:
        return False
    x, y = ra[0][0], rb[0][0]
    if x.op != y.op or x.op not in ("sum", "interp", "lstsq"):
        return False
    if ca != cb:
        # c sum f = d sum g  <-  c f = d g
        if x.op != "sum" or ra[0][1] != 1:
            return False
        lx, ly = x.args[2], y.args[2]
        x = T.summ(x.args[0], x.args[1], lambda v: T.scale(ca, T.open_(lx, v)))
        y = T.summ(y.args[0], y.args[1], lambda v: T.scale(cb, T.open_(ly, v)))
        if x.op != "sum" or y.op != "sum":
            return False
    return congr(x, y, ctx, depth)


def prove(goal, ctx, depth=0):
    """prove a Bool term"""
    _check_deadline()
    if goal is TRUE or ctx.dead:
        return YES
    if goal in ctx.factset:
        return YES
    if goal.op == "and":
        for g in goal.args:
            r = prove(g, ctx, depth)
            if not r:
                return r
        return YES
    if goal.op == "forall":
        lo, hi, lm = goal.args
        v = T.fresh("k")
        c2 = ctx.assume(le(lo, v), lt(v, hi))
        if c2.infeasible():
            return YES
        return prove(T.open_(lm, v), c2, depth)
    g = simp(goal, ctx)
    if g is TRUE:
        return YES
    if g.op in ("and", "forall") and g is not goal:
        return prove(g, ctx, depth)
    if g.op == "or":
        # assume the negations of the simple disjuncts, prove the most complex one
        parts = sorted(g.args, key=lambda a: (a.op in ("forall", "and", "eq") or has_forall(a), a.height, a.id))
        main = parts[-1]
        c2 = ctx.assume(*[not_(p) for p in parts[:-1]])
        if c2.infeasible():
            return YES
        return prove(main, c2, depth + 1)
    if g.op == "eq" and g.args[0].sort == "R":
        d = g.args[0]
        if d.op == "add":
            # split into positive and negative parts for congruence
            pa = [T.scale(c, x) for x, c in zip(d.args[1::2], d.args[2::2]) if c > 0]
            pb = [T.scale(-c, x) for x, c in zip(d.args[1::2], d.args[2::2]) if c < 0]
            c0 = T.const(d.args[0])
            a, b = T.add(c0, *pa), T.add(T.const(0), *pb)
            return prove_eq(a, b, ctx, depth)
        return prove_eq(d, T.const(0), ctx, depth)
    if g.op in ("lt", "le") and g.args[0].sort == "R":
        return prove_ineq(g, ctx, depth)
    if g.op == "not" and g.args[0].op == "eq" and g.args[0].args[0].sort == "R":
        d = g.args[0].args[0]
        if has_op(d, "sum") and ctx.psum_eqs():
            try:
                n = nf(d, ctx)
                if n.op == "const" and n.args[0] != 0:
                    return YES
                if n.op != "const" and not has_op(n, "psum") and (ctx.pos(n) or ctx.pos(T.neg_(n))):
                    return YES
            except TooBig:
                pass
        if ctx.pos(d) or ctx.pos(T.neg_(d)):
            return YES
        if nonzero_multiple(d, ctx):
            return YES
        if entails(ctx, g):
            return YES
        return split_or_fail(g, ctx, depth)
    if entails(ctx, g):
        return YES
    return split_or_fail(g, ctx, depth)


def primitive(p, ctx):
    """polynomial with even powers of square roots resolved, denominators cleared and the
    common monomial removed: (common monomial, leading coefficient, {monomial: coefficient})"""
    out = {}
    for m, c in clear_denominators(p).items():
        q = {}
        for a, e in m:
            if a.op == "sqrt" and abs(e) >= 2 and ctx.nonneg(a.args[0]) and a.args[0].op not in ("add", "mul"):
                h, e = (abs(e) // 2) * (1 if e > 0 else -1), e - 2 * (abs(e) // 2) * (1 if e > 0 else -1)
                q[a.args[0]] = q.get(a.args[0], 0) + h
            if e:
                q[a] = q.get(a, 0) + e
        k = tuple(sorted(((a, e) for a, e in q.items() if e), key=lambda x: x[0].id))
        out[k] = out.get(k, 0) + c
    out = {m: c for m, c in out.items() if c}
    if not out:
        return (), Fraction(0), {}
    # an atom missing from a monomial has exponent 0 there
    cm = None
    for m in out:
        d = dict(m)
        cm = d if cm is None else {a: min(cm.get(a, 0), d.get(a, 0)) for a in set(cm) | set(d)}
    cm = {a: e for a, e in cm.items() if e}
    q = pmul(out, {tuple(sorted(((a, -e) for a, e in cm.items()), key=lambda x: x[0].id)): Fraction(1)})
    lead = q[min(q, key=lambda m: tuple((a.id, e) for a, e in m))]
    return cm, lead, {m: c / lead for m, c in q.items()}


def rational_zero(d, ctx):
    """is d zero as a rational function of its atoms (with sqrt(x)^2 = x)?  Denominators are
    non-zero by the well-definedness obligations."""
    if has_op(d, "ite"):
        return False
    try:
        return not primitive(expand(d), ctx)[2]
    except TooBig:
        return False


def nonzero_multiple(d, ctx):
    """is d a known non-zero quantity times non-zero factors?"""
    facts = [f.args[0].args[0] for f in ctx.facts if f.op == "not" and f.args[0].op == "eq" and f.args[0].args[0].sort == "R"]
    facts = [f for f in facts if f is not d and f.op == "add"]
    if not facts or has_op(d, "ite"):
        return False
    try:
        cm, lead, p = primitive(expand(d), ctx)
        if not p:
            return False
        for f in facts:
            if primitive(expand(f), ctx)[2] == p:
                return all(ctx.pos(a) or ctx.pos(T.neg_(a)) or not_(eq(a, T.const(0))) in ctx.factset for a in cm)
    except TooBig:
        pass
    return False


def prove_ineq(g, ctx, depth):
    t = T.neg_(g.args[0])
    if ctx.sign(t, g.op == "lt"):
        return YES
    if refute.refuted(g.args[0], g.op, ctx):
        return Result(False, "inequality false on sampled data", ctx, g)
    if has_op(t, "ite"):
        r = split_or_fail(g, ctx, depth)
        return r
    try:
        n = canon(nf(t, ctx))
        if n is not t:
            g2 = T.lt0(T.neg_(n)) if g.op == "lt" else T.le0(T.neg_(n))
            if g2 is TRUE or ctx.sign(n, g.op == "lt", cheap=True) or entails(ctx, g2):
                return YES
        # the facts in the same normal form
        fs = []
        for f in relevant([f for f in ctx.facts if f.op in ("lt", "le", "eq") and f.args[0].sort == "R"], [g])[-40:]:
            try:
                m = canon(nf(f.args[0], ctx))
            except TooBig:
                continue
            if m is not f.args[0]:
                fs.append({"lt": T.lt0, "le": T.le0}[f.op](m) if f.op != "eq" else eq(m, T.const(0)))
        if fs:
            g2 = T.lt0(T.neg_(n)) if g.op == "lt" else T.le0(T.neg_(n))
            if entails(ctx, g2, hints=[f for f in fs if f is not TRUE]):
                return YES
    except TooBig:
        pass
    return Result(False, "inequality not derivable", ctx, g)


def split_or_fail(g, ctx, depth):
    c = first_cond(g, ctx)
    if c is None or depth > 24:
        if depth <= 24 and g.op in ("lt", "le"):
            # conditions only below binders
            return Result(False, "not derivable", ctx, g)
        return Result(False, "not derivable", ctx, g)
    for f in (c, not_(c)):
        c2 = ctx.assume(f)
        if dead(c2, f):
            continue
        r = prove(g, c2, depth + 1)
        if not r:
            return r
    return YES
