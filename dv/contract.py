"""Contract language and obligation generator.

A Contract is the machine-checked specification of one function of /repo:
arguments with symbolic lengths, `requires`, `ensures` (one spec term per output
element), and lemmas (consequences of the contract that state the property).
`check(contract)` extracts the function from the current source, generates the
obligations and discharges them."""
import importlib
import itertools
import time
import traceback
from fractions import Fraction

import numpy as np

from . import terms as T
from . import jx, refute, prover as P
from .terms import I, R, and_, le, lt, eq, forall, implies

REGISTRY = {}


class SArr:
    """array of the specification: element function + shape"""

    def __init__(self, shape, f):
        self.shape = tuple(I(s) for s in shape)
        self.f = f

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return self.f(*[I(i) for i in idx])

    def __call__(self, *idx):
        return self.f(*[I(i) for i in idx])

    @property
    def n(self):
        return self.shape[0]


class NS:
    pass


class Lets:
    """named intermediate quantities of a specification (definitions).  `E.name` is an
    opaque symbol; its definition is used only on request (Proof.have(..., unfold=...))
    and to recognise the quantity in the traced program."""

    def __init__(self):
        self.defs = {}

    def __call__(self, E, name, val):
        key = "let:" + name
        if isinstance(val, SArr):
            self.defs[name] = (val.shape, val.f)
            h = SArr(val.shape, lambda *i: T.sel(key, i))
        else:
            val = R(val)
            self.defs[name] = ((), lambda: val)
            h = T.var(key, "R")
        setattr(E, name, h)
        return h

    def unfold(self, t, names=None):
        """replace the symbols of the named definitions (all: None) by their meaning"""
        memo = {}
        if names is not None and not isinstance(names, (set, frozenset, tuple, list)):
            names = (names,)

        def pick(key):
            if not key.startswith("let:"):
                return None
            n = key[4:]
            if n not in self.defs or (names is not None and n not in names):
                return None
            return self.defs[n]

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.op == "var":
                d = pick(t.args[0]) if t.sort == "R" else None
                r = go(d[1]()) if d else t
            elif t.op == "sel" and pick(t.args[0]) is not None:
                r = go(pick(t.args[0])[1](*[go(a) for a in t.args[1:]]))
            elif t.op == "lam":
                v = T.fresh("u")
                r = T.close(v, go(T.open_(t, v)))
            elif not any(isinstance(a, T.Term) for a in t.args):
                r = t
            elif t.op in ("sel", "interp", "lstsq", "fn", "sum", "forall", "rmax"):
                r = T.rebuild(t, [go(a) if isinstance(a, T.Term) else a for a in t.args]) if t.op in ("sum", "forall", "rmax") \
                    else T._mk(t.op, tuple(go(a) if isinstance(a, T.Term) else a for a in t.args), t.sort)
            else:
                r = T.rebuild(t, [go(a) if isinstance(a, T.Term) else a for a in t.args])
            memo[t] = r
            return r

        return go(t)

    def direct(self, t, seen=None):
        """the named quantities occurring in a term"""
        out, seen = set(), set()

        def go(t):
            if t in seen:
                return
            seen.add(t)
            if t.op in ("var", "sel") and t.args[0].startswith("let:") and t.args[0][4:] in self.defs:
                out.add(t.args[0][4:])
            for a in t.args:
                if isinstance(a, T.Term):
                    go(a)
        go(t)
        return out

    def unfold_ctx(self, ctx):
        return P.Ctx([self.unfold(f) for f in ctx.facts])


class Contract:
    def __init__(self, cid, target, args, ensures, dims=None, requires=None, lemmas=None,
                 sample=None, call=None, rtol=1e-8, atol=1e-300, skip_wd=False, outnames=None,
                 consts=(), budget=40.0, nsamples=12, concrete_dims=None, notes="", wd_requires=None,
                 static_outs=None, assume_ranges=None, hints=None, numfuncs=None, scale_tol=1e-11,
                 loose=(), ties=True, opaque=True, lets=None, sample_ok=None, fold_sums=False):
        self.sample_ok = sample_ok      # well-conditioned inputs (numerical cross-check only)
        self.fold_sums = fold_sums
        self.lets = lets
        self.opaque = opaque
        self.id, self.target = cid, target
        self.args = dict(args)
        self.dims = dict(dims or {})
        self.requires = requires
        self.ensures = ensures
        self.lemmas = lemmas
        self.sample = sample
        self.call = call
        self.rtol, self.atol = rtol, atol
        self.skip_wd = skip_wd
        self.outnames = outnames
        self.budget = budget
        self.nsamples = nsamples
        self.concrete_dims = concrete_dims
        self.notes = notes
        self.wd_requires = wd_requires
        self.hints = hints
        self.numfuncs = numfuncs or {}
        self.scale_tol = scale_tol
        self.ties = ties
        REGISTRY[cid] = self

    # -- helpers -----------------------------------------------------------
    def shape_of(self, name, denv):
        sh = self.args[name]
        if sh == "key":
            return None
        return tuple(eval(s, {}, denv) if isinstance(s, str) else s for s in sh)

    def dimterms(self):
        return {d: T.var("dim:" + d, "I") for d in self.dims}

    def env(self, dt):
        """specification environment"""
        E = NS()
        E.dims = dt
        for d, v in dt.items():
            setattr(E, d, v)
        for nm in self.args:
            sh = self.shape_of(nm, dt)
            if sh is None:
                continue
            if sh == ():
                setattr(E, nm, T.var(nm, "R"))
            else:
                setattr(E, nm, SArr(sh, lambda *i, nm=nm: T.sel(nm, i)))
        E.lets = Lets()
        if self.lets:
            self.lets(E, lambda name, val: E.lets(E, name, val))
        return E

    def resolve(self):
        mod, fn = self.target.split(":")
        m = importlib.import_module(mod)
        for part in fn.split("."):
            m = getattr(m, part)
        return m

    def apply(self, f, vals):
        if self.call is not None:
            V = NS()
            V.__dict__.update(vals)
            return self.call(f, V)
        return f(*[vals[k] for k in self.args])


class Obl:
    def __init__(self, name, ok, why="", dt=0.0, res=None, backend="dv+z3"):
        self.name, self.ok, self.why, self.dt, self.res, self.backend = name, ok, why, dt, res, backend


class Proof:
    """proof script helper for lemmas over the specification"""

    def __init__(self, ctx, log, lets=None):
        self.ctx = ctx
        self.log = log
        self.lets = lets

    def sub(self, ctx=None):
        return Proof(ctx or self.ctx, self.log, self.lets)

    def fix(self, lo, hi, name="k"):
        v = T.fresh(name)
        return v, self.sub(self.ctx.assume(le(I(lo), v), lt(v, I(hi))).inst(v, I(lo), I(hi)))

    def suppose(self, *facts):
        return self.sub(self.ctx.assume(*facts))

    def _unf(self, t, unfold):
        if unfold is None or self.lets is None:
            return t
        return self.lets.unfold(t, None if unfold == "*" else unfold)

    def have(self, fact, name="have", unfold=None):
        g = self._unf(fact, unfold)
        r = g in self.ctx.factset or P.prove(g, self.ctx)
        if not r:
            raise LemmaFail(name, r)
        self.ctx = self.ctx.assume(fact)
        return self

    def via(self, a, b, rel, name="via"):
        """rel(a) from a = b and rel(b), each proved"""
        for g in (eq(a, b), rel(b)):
            r = P.prove(g, self.ctx)
            if not r:
                raise LemmaFail(name, r)
        self.ctx = self.ctx.assume(eq(a, b), rel(b), rel(a))
        return self

    def define(self, t):
        """assume the definition of the let symbol t (holds by definition)"""
        self.ctx = self.ctx.assume(eq(t, self.lets.unfold(t, (t.args[0][4:],))))
        return self

    def use(self, inst, unfold=None):
        """inst = (lemma name, premises, conclusion): premises proved, conclusion assumed"""
        name, prem, concl = inst
        r = P.prove(self._unf(prem, unfold), self.ctx)
        if not r:
            raise LemmaFail("premise of " + name, r)
        P.LEMMAS_USED[name] = P.LEMMAS_USED.get(name, 0) + 1
        self.ctx = self.ctx.assume(concl)
        return self

    def box(self, goal, box):
        """goal, whose free variables are those of box = {var: (lo, hi)}, holds on the whole box:
        interval arithmetic with subdivision"""
        from . import ival
        try:
            n = ival.prove(goal, box)
        except ival.Undecided as ex:
            raise LemmaFail("interval", P.Result(False, str(ex)))
        P.STATS["boxes"] = P.STATS.get("boxes", 0) + n
        return self

    def show(self, goal, name="goal", unfold=None):
        r = P.prove(self._unf(goal, unfold), self.ctx)
        if not r:
            raise LemmaFail(name, r)
        return self


class LemmaFail(Exception):
    def __init__(self, name, res):
        self.name, self.res = name, res
        Exception.__init__(self, "%s: %s" % (name, res.why))


# ---------------------------------------------------------------------------
def trace_contract(c, dims=None, ints=frozenset()):
    """trace the real function -> (jaxpr, argument shapes, output tree); dims given = concrete
    lengths (bounded); ints: arguments of an integer type"""
    import jax

    f = c.resolve()
    if dims is None:
        cons = ["%s>=%d" % (d, lb) for d, lb in c.dims.items() if lb >= 2]
        sd = jx.symdims(list(c.dims), cons)
    else:
        sd = dict(dims)
    names = [k for k in c.args]
    avals = []
    for k in names:
        sh = c.shape_of(k, sd)
        if sh is None:
            avals.append(jax.ShapeDtypeStruct((), jax.dtypes.prng_key) if False else jax.eval_shape(lambda: jax.random.PRNGKey(0)))
        else:
            avals.append(jax.ShapeDtypeStruct(sh, np.int64 if k in ints else np.float64))
    tree = {}

    def g(*xs):
        out = c.apply(f, dict(zip(names, xs)))
        leaves, td = jax.tree_util.tree_flatten(out)
        tree["def"] = td
        tree["fields"] = getattr(out, "_fields", None)
        return [jax.numpy.asarray(x) for x in leaves]

    jx._patched["concrete"] = dims is not None
    try:
        cj = jx.trace(g, *avals)
    finally:
        jx._patched["concrete"] = False
    return cj, names, avals, tree


def interpret(c, traced, fold=True, matcher=None):
    """-> (outs, interp, tree): the traced program as arrays of terms"""
    cj, names, avals, tree = traced
    it = jx.Interp()
    it.fold_ok = fold
    it.matcher = matcher
    ins = []
    for k, av in zip(names, avals):
        if c.args[k] == "key":
            ins.append(jx.Arr([jx.dim2term(s) for s in av.shape], av.dtype if not str(av.dtype).startswith("key") else "key",
                              lambda *i, k=k: T.sel(k, i, "I")))
        elif len(av.shape) == 0:
            ins.append(jx.Arr((), "float64", lambda k=k: T.var(k, "R")))
        else:
            ins.append(jx.Arr([jx.dim2term(s) for s in av.shape], "float64", lambda *i, k=k: T.sel(k, i)))
    outs = it.run_closed(cj, ins)
    return outs, it, tree


class Report:
    def __init__(self, cid):
        self.cid = cid
        self.obls = []
        self.loops = []
        self.functions = {}
        self.bounded = None
        self.samples = 0
        self.violation = None
        self.error = None
        self.prims = 0
        self.wall = 0.0
        self.stats = {}
        self.lemmas = {}
        self.notes = []
        self.int_ok, self.int_rej, self.int_bad = set(), set(), set()

    @property
    def failed(self):
        return [o for o in self.obls if not o.ok]


def _timed(rep, name, f):
    t0 = time.time()
    try:
        r = f()
        o = Obl(name, bool(r), getattr(r, "why", ""), time.time() - t0, r)
    except P.GiveUp as ex:
        o = Obl(name, False, "undecided: " + str(ex), time.time() - t0)
    except LemmaFail as ex:
        o = Obl(name, False, str(ex), time.time() - t0, ex.res)
    except jx.Unsupported as ex:
        o = Obl(name, False, "outside the extraction: " + str(ex), time.time() - t0)
    except RecursionError:
        o = Obl(name, False, "undecided: recursion", time.time() - t0)
    except Exception as ex:
        o = Obl(name, False, "undecided: %s: %s" % (type(ex).__name__, ex), time.time() - t0)
        o.tb = traceback.format_exc()
    rep.obls.append(o)
    return o


def spec_outs(c, dt):
    """list of (shape, f) of the specified outputs"""
    E = c.env(dt)
    out = c.ensures(E)
    if not isinstance(out, list):
        out = [out]
    res = []
    for o in out:
        if isinstance(o, SArr):
            res.append((o.shape, o.f))
        elif isinstance(o, T.Term):
            res.append(((), lambda o=o: o))
        elif isinstance(o, tuple):
            res.append((tuple(I(s) for s in o[0]), o[1]))
        else:
            res.append(((), lambda o=o: R(o)))
    return E, res


MAXPATHS = 16


def prove_paths(c, rep, deadline=None):
    """one proof per path of the branches on array lengths (usually there are none)"""
    paths, n = [()], 0
    c.path_dims = []
    while paths:
        path = paths.pop()
        n += 1
        if n > MAXPATHS:
            raise jx.Unsupported("more than %d paths of branches on array lengths" % MAXPATHS)
        try:
            if n > 1 and deadline is not None:
                deadline = max(deadline, P.clock() + 0.5 * c.budget)
            prove_contract(c, rep, None, deadline, path)
            int_arguments(c, rep)
        finally:
            taken = jx.FORKS.taken
            for k in range(len(path), len(taken)):
                paths.append(tuple(b for _, b in taken[:k]) + (not taken[k][1],))
            c.path_dims += [d for d in dims_of_path(c, [t for t, _ in taken], jx.FORKS.facts) if d not in c.path_dims]
    if n > 1:
        rep.notes.append("%d paths of branches on array lengths" % n)


def int_arguments(c, rep):
    """the program for integer types is the program for float types (ints.py), on the path
    just proved"""
    from . import ints
    F = jx.FORKS
    taken, facts, path, ctx = F.taken, F.facts, F.path, F.ctx

    def trace(c, s):
        F.start([b for _, b in taken], ctx)
        return trace_contract(c, None, s)[0]
    try:
        ok, rej, bad = ints.check(c, trace)
    finally:
        F.start(path, ctx)
        F.taken, F.facts = taken, facts
    rep.int_bad |= set(bad)
    rep.int_rej |= set(rej)
    rep.int_ok |= set(ok)


def dims_of_path(c, conds, facts):
    """small array lengths that satisfy the conditions of a path"""
    if not conds:
        return []
    consts = set()

    def go(t):
        for a in t.args:
            if isinstance(a, T.Term):
                go(a)
            elif isinstance(a, (int, Fraction)) and 1 < abs(a) <= 4000:
                consts.add(abs(int(a)))
    for t in conds:
        go(t)
    cand = {}
    for j, (d, lb) in enumerate(c.dims.items()):
        v = {max(lb, 1) + j, max(lb, 1) + 1 + j, max(lb, 2) + 4 - j % 3}
        v |= {k + e for k in consts for e in (-1, 0, 1) if k + e >= max(lb, 1)} | {k // 2 + e for k in consts for e in (0, 1) if k // 2 + e >= max(lb, 1)}
        cand[d] = sorted(v)
    used = {s.args[0][4:] for t in conds for s in T.free_vars(t) if s.args[0].startswith("dim:")}
    for d in cand:
        if d not in used:
            cand[d] = cand[d][:1]
    out = []
    for combo in itertools.islice(itertools.product(*cand.values()), 4000):
        dims = dict(zip(cand, combo))
        m = {T.var("dim:" + d, "I"): I(v) for d, v in dims.items()}
        if all(T.subst(f, m) is T.TRUE for f in facts):
            out.append(dims)
    out.sort(key=lambda d: sum(d.values()))
    return out[:2] + out[-1:] if len(out) > 2 else out


def prove_contract(c, rep, dims=None, deadline=None, path=()):
    """generate and discharge the obligations of one contract"""
    T.DIM_LB.clear()
    if dims is None:
        T.DIM_LB.update({T.var("dim:" + d, "I"): lb for d, lb in c.dims.items()})
    P.DEADLINE[0] = deadline
    from contracts import spec as S, folds
    S.OPAQUE[0] = c.opaque
    try:
        sub = Report(c.id)
        folds = _prove_contract(c, sub, dims, deadline, c.opaque, path)
    finally:
        S.OPAQUE[0] = False
    if c.opaque and (sub.failed or not folds):
        # the summarised callees were not met (or the proof needs their bodies):
        # everything inlined
        if sub.uses_opaque and (deadline is None or P.clock() < deadline - 3):
            s2 = Report(c.id)
            _prove_contract(c, s2, dims, deadline, False, path)
            if len(s2.failed) < len(sub.failed) or not sub.failed:
                sub = s2
    rep.obls += sub.obls
    rep.notes += sub.notes
    rep.prims += sub.prims
    rep.functions.update(sub.functions)
    rep.matched = getattr(sub, "matched", {})


def box(ctx, idx, shape):
    """idx ranges over the index box of the given shape"""
    ctx = ctx.assume(*[b for i, s in zip(idx, shape) for b in (le(I(0), i), lt(i, s))])
    for i, s in zip(idx, shape):
        ctx = ctx.inst(i, I(0), s)
    return ctx


class Matcher:
    """recognises the named quantities of the specification among the intermediate
    arrays of the traced program: numerically first, then by proof"""

    def __init__(self, c, E, ctx, dims):
        from . import replay
        self.c, self.E, self.ctx = c, E, ctx
        self.matched, self.fails, self.obls = {}, {}, []
        self.allowed = {T.var("pi")} | set(E.dims.values()) | {T.var(k, "R") for k in c.args} | {T.var("let:" + n, "R") for n in E.lets.defs}
        self.samples = []
        rng = np.random.default_rng(11)
        pd = dims_of_path(c, [t for t, _ in jx.FORKS.taken], jx.FORKS.facts) if dims is None else []
        ch = [dims] if dims else pd or replay.dims_choices(c)[:1]
        for _ in range(60):
            V = c.sample(rng, ch[0])
            V = {k: (v if c.args[k] == "key" else np.asarray(v, float)) for k, v in V.items() if k in c.args}
            lb = dict(T.DIM_LB)
            try:
                ok = replay.requires_hold(c, V, ch[0])
                if ok:
                    self.samples.append(replay.build(c, V, ch[0]))
            finally:
                T.DIM_LB.clear()
                T.DIM_LB.update(lb)
            if len(self.samples) == 8:
                break

    def shapes_equal(self, a, b):
        return len(a) == len(b) and all(x is y or (not (T.is_const(x) and T.is_const(y)) and self.ctx.decide(eq(x, y)) is True) for x, y in zip(a, b))

    def views(self, osh, sh):
        """ways in which an array of shape `osh` can hold a quantity of shape `sh`:
        (quantity index -> array index, array index -> quantity index, numpy view)"""
        if self.shapes_equal(osh, sh):
            yield (lambda q: list(q)), (lambda i: list(i)), (lambda w: w)
        n = len(sh)
        if len(osh) == n and 2 <= n <= 4:
            for p in itertools.permutations(range(n)):
                if p != tuple(range(n)) and self.shapes_equal(osh, [sh[k] for k in p]):
                    yield (lambda q, p=p: [q[k] for k in p]), (lambda i, p=p: [i[p.index(k)] for k in range(n)]), (lambda w, p=p: np.transpose(w, p))
        if 0 < len(osh) < n <= 4:
            # neighbouring axes merged in row-major order
            for cuts in itertools.combinations(range(1, n), len(osh) - 1):
                g = [range(lo, hi) for lo, hi in zip((0,) + cuts, cuts + (n,))]
                if not self.shapes_equal(osh, [prod_terms([sh[k] for k in r]) for r in g]):
                    continue

                def to_o(q, g=g):
                    out = []
                    for r in g:
                        lin = q[r[0]]
                        for k in r[1:]:
                            lin = lin * sh[k] + q[k]
                        out.append(lin)
                    return out

                def to_q(i, g=g):
                    out = [None] * n
                    for lin, r in zip(i, g):
                        for k in reversed(r[1:]):
                            out[k], lin = lin - sh[k] * T.idiv(lin, sh[k]), T.idiv(lin, sh[k])
                        out[r[0]] = lin
                    return out
                yield to_o, to_q, (lambda w, g=g: np.reshape(w, [int(np.prod([w.shape[k] for k in r])) for r in g]))

    def sub_views(self, osh, sh, drop):
        """`views`, also of arrays with further axes of length one or along which the
        array is constant: (..., axes left out)"""
        for v in self.views(osh, sh):
            yield v + ((),)
        for r in range(1, len(drop) + 1):
            for out in itertools.combinations(drop, r):
                keep = [k for k in range(len(osh)) if k not in out]
                if len(keep) > len(sh):
                    continue
                for to_o, to_q, npv in self.views([osh[k] for k in keep], sh):
                    def to_o2(q, to_o=to_o, keep=keep, out=out):
                        i = to_o(q)
                        return [I(0) if T.is_const(osh[k]) and osh[k].args[0] == 1 else T.fresh("r") if k in out else i[keep.index(k)] for k in range(len(osh))]
                    yield (to_o2, lambda i, to_q=to_q, keep=keep: to_q([i[k] for k in keep]),
                           lambda w, npv=npv, out=out: np.expand_dims(npv(w), out), out)

    def __call__(self, o):
        if not str(o.dtype).startswith("float64") or not self.samples:
            return o
        defs = [(n, sh, f) for n, (sh, f) in self.E.lets.defs.items() if self.fails.get(n, 0) < 4]
        if not defs:
            return o
        idx = [T.fresh("i") for _ in o.shape]
        try:
            t = o.at(*idx)
        except Exception:
            return o
        if t.op in ("const", "var") or (t.op == "sel" and t.args[0].startswith("let:")) or (t.op == "sel" and t.args[0] in self.c.args):
            return o
        fv = T.free_vars(t)
        if any(v not in self.allowed and v not in idx for v in fv):
            return o
        drop = [k for k, s in enumerate(o.shape) if T.is_const(s) and s.args[0] == 1 or idx[k] not in fv]
        cands = [(n, sh, f, v) for n, sh, f in defs for v in self.sub_views(o.shape, sh, drop)]
        if not cands:
            return o
        vals = []
        lb = dict(T.DIM_LB)
        T.DIM_LB.clear()
        try:
            for ev in self.samples:
                shape = tuple(int(np.asarray(ev.term(s))) for s in o.shape)
                m = lambda *i: T.subst(t, dict(zip(idx, i))) if idx else t
                vals.append(np.asarray(ev.over(m, shape), float))
        except Exception:
            return o
        finally:
            T.DIM_LB.clear()
            T.DIM_LB.update(lb)
        for n, sh, f, (to_o, to_q, npv, out) in cands:
            ok = True
            for ev, v in zip(self.samples, vals):
                w = npv(np.asarray(ev.arrays["let:" + n] if sh else ev.scalars["let:" + n], float))
                with np.errstate(all="ignore"):
                    if out and v.ndim == w.ndim and all(v.shape[k] == w.shape[k] for k in range(v.ndim) if k not in out):
                        w = np.broadcast_to(w, v.shape)
                    if v.shape != w.shape or not np.all(np.abs(v - w) <= 1e-9 * np.abs(w) + 1e-12 * np.max(np.abs(w), initial=0)):
                        ok = False
                        break
            if not ok:
                continue
            if not sh and f().op == "const":
                continue
            qi = [T.fresh("i") for _ in sh]
            oi = to_o(qi)
            cb = box(self.ctx, qi, sh)
            cb = box(cb, [oi[k] for k in out if oi[k].op == "var"], [o.shape[k] for k in out if oi[k].op == "var"])
            dl = P.DEADLINE[0]
            tm = time.time()
            P.DEADLINE[0] = min(dl or 1e18, P.clock() + 12)
            try:
                tq = o.at(*oi)
                r = bool(self.c.fold_sums) and not sh and P.rational_zero(
                    T.sub(fold_sums(tq, self.E, cb), f()), cb)
                r = r or P.prove_eq(tq, f(*qi), cb)
            except (P.GiveUp, RecursionError):
                r = False
            finally:
                P.DEADLINE[0] = dl
            if r:
                self.matched[n] = self.matched.get(n, 0) + 1
                key = "let:" + n
                wd = o.wd
                P.DEADLINE[0] = min(dl or 1e18, P.clock() + 8)
                try:
                    w0 = fold_sums(wd(*oi), self.E, cb) if self.c.fold_sums else wd(*oi)
                    if not self.c.skip_wd and (P.prove(w0, cb) or P.prove(
                            self.E.lets.unfold(wd(*oi)), self.E.lets.unfold_ctx(cb))):
                        wd = None
                except (P.GiveUp, RecursionError):
                    pass
                finally:
                    P.DEADLINE[0] = dl
                self.obls.append((n, time.time() - tm))
                return jx.Arr(o.shape, o.dtype, (lambda *i: T.sel(key, to_q(i))) if sh else (lambda *i: T.var(key, "R")), wd)
            self.fails[n] = self.fails.get(n, 0) + 1
            if DEBUG:
                print("let %s matched numerically, not proved: %s" % (n, T.show(t, 300)))
                if r is not False:
                    print(r.why, T.show(r.goal, 600))
                    print([T.show(f_, 100) for f_ in r.ctx.facts])
        return o


def prod_terms(ts):
    r = I(1)
    for t in ts:
        r = r * t
    return r


def fold_sums(t, E, ctx):
    """normal form in which the closed sums that are named scalars of the specification
    (same normal form) carry their names"""
    if t.sort == "B":
        if t.op in ("and", "or", "not"):
            return T.rebuild(t, [fold_sums(a, E, ctx) for a in t.args])
        if t.op in ("eq", "lt", "le") and t.args[0].sort == "R":
            return {"eq": eq, "lt": lt, "le": le}[t.op](fold_sums(t.args[0], E, ctx), T.const(0))
        if t.op == "forall":
            lo, hi, lam = t.args
            v = T.fresh("q", "I")
            return forall(lo, hi, lambda i: T.subst(fold_sums(T.open_(lam, v), E, ctx.assume(le(lo, v), lt(v, hi))), {v: i}))
        return t
    try:
        n = P.nf(t, ctx)
    except P.TooBig:
        return t
    m = {}
    for k, (sh, f) in E.lets.defs.items():
        if sh:
            continue
        d = P.nf(f(), ctx)
        if d.op in ("psum", "sum"):
            m[d] = T.var("let:" + k)
    n = T.replace(n, m)
    return P.simp(n, ctx)


DEBUG = False


def _prove_contract(c, rep, dims, deadline, opaque, path=()):
    """-> were summarised callees met?"""
    from contracts import spec as S
    S.OPAQUE[0] = opaque
    dt = c.dimterms() if dims is None else {d: T.const(v, "I") for d, v in dims.items()}
    E, spec = spec_outs(c, dt)
    rep.uses_opaque = opaque and any(P.has_op(f(*[T.fresh("i") for _ in sh]), "fn") for sh, f in
                                     list(spec) + list(E.lets.defs.values()))
    req = list(c.requires(E)) if c.requires else []
    ctx = P.Ctx(req)
    jx.FORKS.start(path, ctx if dims is None else None)
    traced = trace_contract(c, dims)
    ctx = ctx.assume(*jx.FORKS.facts)
    hctx = ctx
    refute.setup(c, dims, jx.FORKS.facts, [t for t, _ in jx.FORKS.taken])
    tag = "" if dims is None else "[" + ",".join("%s=%d" % kv for kv in dims.items()) + "]"
    if jx.FORKS.facts:
        tag = "[" + " and ".join(T.show(f, 80) for f in jx.FORKS.facts) + "]"
    nm = c.id + tag
    if c.hints:
        try:
            pr = Proof(ctx, rep, E.lets)
            t0 = time.time()
            c.hints(E, pr)
            hctx = pr.ctx
            rep.obls.append(Obl(nm + ".facts", True, "", time.time() - t0))
        except LemmaFail as ex:
            o = Obl(nm + ".facts", False, str(ex), 0.0, ex.res)
            o.tb = traceback.format_exc()
            rep.obls.append(o)
    matcher = Matcher(c, E, hctx, dims) if E.lets.defs else None
    outs, it, tree = interpret(c, traced, opaque, matcher)
    rep.prims += it.neqn
    for k, v in it.funcs.items():
        rep.functions[k] = rep.functions.get(k, 0) + v
    if it.notes:
        rep.notes += it.notes
    if matcher:
        rep.matched = dict(matcher.matched)
        for n, dtm in matcher.obls:
            rep.obls.append(Obl("%s.quantity.%s" % (nm, n), True, "", dtm))
    if len(outs) != len(spec):
        rep.obls.append(Obl(nm + ".outputs", False, "%d outputs, contract specifies %d" % (len(outs), len(spec))))
        return bool(it.folds)
    if c.outnames is not None:
        ok = tuple(tree.get("fields") or ()) == tuple(c.outnames)
        rep.obls.append(Obl(nm + ".output_names", ok, "" if ok else "fields %r" % (tree.get("fields"),), backend="structural"))
    for k, (o, (sh, f)) in enumerate(zip(outs, spec)):
        on = nm + (".out%d" % k if len(outs) > 1 else ".out")
        ok = len(o.shape) == len(sh) and all(
            a is b or ctx.decide(eq(a, b)) is True for a, b in zip(o.shape, sh))
        rep.obls.append(Obl(on + ".shape", ok, "" if ok else "shape %s, contract says %s" % (o.shape, sh), backend="z3 (LIA)"))
        if not ok:
            continue
        dok = str(o.dtype) == "float64" or np.dtype(o.dtype).kind in "ib"
        rep.obls.append(Obl(on + ".double_precision", dok and not it.narrow,
                            "" if dok and not it.narrow else "dtype %s, conversions %s" % (o.dtype, it.narrow), backend="structural"))
        idx = [T.fresh("i") for _ in sh]
        c2 = box(hctx, idx, sh)
        c3 = box(E.lets.unfold_ctx(c2), idx, sh) if E.lets.defs else None

        def both(f1):
            """first with the named quantities opaque, then with their definitions"""
            r = why = None
            dl = P.DEADLINE[0]
            stages = [lambda t: t]
            direct = E.lets.direct(f(*idx))
            if direct and direct != set(E.lets.defs):
                stages.append(lambda t: E.lets.unfold(t, direct))
            for k, u in enumerate(stages):
                if dl is not None and c3 is not None:
                    P.DEADLINE[0] = P.clock() + (0.4, 0.5)[k] * max(dl - P.clock(), 0)
                try:
                    r2 = f1(c2, u)
                    if r2:
                        return r2
                    r = r or r2
                except P.GiveUp as ex:
                    why = ex
                finally:
                    P.DEADLINE[0] = dl
            if not r and c3 is not None and (deadline is None or P.clock() < deadline - 2):
                r3 = f1(c3, E.lets.unfold)
                if r3 or r is None:
                    return r3
            if r is None and why is not None:
                raise why
            return r
        oat, owd = o.at, o.wd
        if c.fold_sums:
            oat, owd = (lambda *i: fold_sums(o.at(*i), E, c2)), (lambda *i: fold_sums(o.wd(*i), E, c2))
        if not c.skip_wd:
            extra = c.wd_requires(E) if c.wd_requires else []
            _timed(rep, on + ".well_defined", lambda: both(lambda cx, u: P.prove(u(owd(*idx)), cx.assume(*[u(q) for q in extra]))))
        if c.fold_sums:
            d = T.sub(oat(*idx), f(*idx))
            t0 = time.time()
            if P.rational_zero(d, c2):
                rep.obls.append(Obl(on + ".value", True, "", time.time() - t0))
                continue
        _timed(rep, on + ".value", lambda: both(lambda cx, u: P.prove_eq(u(oat(*idx)), u(f(*idx)), cx)))
    for k, L in enumerate(it.loops):
        cb = box(hctx, L["idx"], L["shape"])
        cs = cb.assume(le(I(0), L["i"]), lt(L["i"], L["length"]))
        _timed(rep, nm + ".loop%d(%s).establish" % (k, L["kind"]), lambda: P.prove_eq(*L["base"], cb))
        _timed(rep, nm + ".loop%d(%s).preserve" % (k, L["kind"]), lambda: P.prove_eq(*L["step"], cs))
    return bool(it.folds)


def prove_lemmas(c, rep, deadline=None):
    if not c.lemmas:
        return
    T.DIM_LB.clear()
    T.DIM_LB.update({T.var("dim:" + d, "I"): lb for d, lb in c.dims.items()})
    from contracts import spec as S
    S.OPAQUE[0] = c.opaque
    try:
        dt = c.dimterms()
        E, spec = spec_outs(c, dt)
        req = list(c.requires(E)) if c.requires else []
        P.DEADLINE[0] = deadline
        E.out = [SArr(sh, f) if sh else f() for sh, f in spec]
        ctx = P.Ctx(req)
        if c.hints:
            pr = Proof(ctx, rep, E.lets)
            try:
                c.hints(E, pr)
                ctx = pr.ctx
            except LemmaFail:
                pass
        for name, proof in c.lemmas.items():
            def go():
                proof(E, Proof(ctx, rep, E.lets))
                return P.YES
            _timed(rep, "%s.lemma.%s" % (c.id, name), go)
    finally:
        S.OPAQUE[0] = False


CONCRETE = [2, 3, 4, 5]


def check(c, budget=None, scale=1.0):
    """full proof attempt for one contract -> Report"""
    rep = Report(c.id)
    t0 = time.time()
    deadline = P.clock() + (budget or c.budget) * scale
    P.LEMMAS_USED.clear()
    del T.USED[:]
    s0 = dict(P.STATS)
    from . import frame
    try:
        c.resolve()
        rep.frame0 = frame.snapshot()
    except Exception:
        rep.frame0 = None
    try:
        prove_paths(c, rep, deadline)
    except Exception as ex:
        # symbolic lengths not possible: bounded fall-back with concrete lengths
        rep.notes.append("symbolic extraction failed: %s: %s" % (type(ex).__name__, str(ex)[:300]))
        rep.tb = traceback.format_exc()
        if c.dims:
            rep.bounded = []
            # lengths for the search on the real code: those the paths met so far ask for, and larger ones
            small = [d for d in c.path_dims if max(d.values()) <= 12][:4]
            c.path_dims += [{d: lb + big + 3 * j for j, (d, lb) in enumerate(c.dims.items())} for big in (41, 140)]
            try:
                base = {d: max(lb, 1) for d, lb in c.dims.items()}
                tries = c.concrete_dims or [
                    {d: v + 1 + (k + j) % 2 for j, (d, v) in enumerate(base.items())} for k in range(2)]
                for dims in tries + [d for d in small if d not in tries]:
                    prove_contract(c, rep, dims, deadline)
                    rep.bounded.append(dims)
            except Exception as ex2:
                rep.obls.append(Obl(c.id + ".extraction", False,
                                    "%s: %s" % (type(ex2).__name__, str(ex2)[:500])))
                rep.tb = traceback.format_exc()
        else:
            rep.obls.append(Obl(c.id + ".extraction", False, "%s: %s" % (type(ex).__name__, str(ex)[:500])))
    try:
        prove_lemmas(c, rep, P.clock() + (budget or c.budget) * scale)
    except Exception as ex:
        rep.obls.append(Obl(c.id + ".lemmas", False, "%s: %s" % (type(ex).__name__, str(ex)[:300])))
        rep.tb = traceback.format_exc()
    P.DEADLINE[0] = None
    for nm in T.USED:
        P.LEMMAS_USED[nm] = P.LEMMAS_USED.get(nm, 0) + 1
    rep.lemmas = dict(P.LEMMAS_USED)
    rep.stats = {k: P.STATS[k] - s0.get(k, 0) for k in P.STATS}
    rep.wall = time.time() - t0
    return rep
