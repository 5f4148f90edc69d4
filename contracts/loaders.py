"""Contracts on the data loaders and the filter helpers (plain Python, P18 and P22-P25)."""
import glob as globmod
import os
import sys
from collections import OrderedDict, namedtuple

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, "/repo")
from fractions import Fraction

import h5py
import numpy as np

from dv import terms as T
from dv import pyvc, pylib
from dv.prover import Ctx
from dv.pytask import PyTask, Case, World, RAISE, lemma
from dv.pyvc import given, SymStr, NArr, SeqV, SNT, SNTClass, SymObj, PList, PDict, Bound, PyRaise, Unsupported, Mismatch
from . import lemmas as L
from dv.terms import I, R, TRUE, FALSE, and_, or_, not_, ite, eq, lt, le, forall, implies

TASKS = {}


def task(*a, **k):
    t = PyTask(*a, **k)
    TASKS[t.cid] = t
    return t


def c(x):
    return T.const(Fraction(x))


def arr(name, *shape):
    return NArr(shape, lambda *i: T.sel(name, i), "R")


def ctx_of(*facts):
    cx = Ctx([])
    return cx.assume(*facts)


def dim(name, lo=1):
    v = T.var(name, "I")
    return v, le(I(lo), v)


# ====================================================================== P18
def setup_interp(mode):
    from dsps.photometry.utils import interpolate_filter_trans_curves as f

    nf, p1 = dim("n_filters")
    ln = lambda k: T.sel("len", (k,), "I")
    w = lambda k, i: T.sel("wave", (k, i))
    tr = lambda k, i: T.sel("trans", (k, i))
    W = SeqV(nf, lambda k: given(NArr((ln(k),), lambda i: w(k, i)), "wave_filters"))
    TR = SeqV(nf, lambda k: given(NArr((ln(k),), lambda i: tr(k, i)), "trans_filters"))
    facts = [p1, forall(I(0), nf, lambda k: le(I(2), ln(k))),
             forall(I(0), nf, lambda k: forall(I(0), ln(k) - 1, lambda i: lt(w(k, i), w(k, i + 1)))),
             forall(I(0), nf, lambda k: forall(I(0), ln(k), lambda i: and_(le(w(k, I(0)), w(k, i)), le(w(k, i), w(k, ln(k) - 1)))))]
    n, pn = dim("n", 2)
    if mode == "n given":
        args = [W, TR, n]
        facts.append(pn)
    else:
        # n is the length of the shortest filter
        kk = T.var("k_min", "I")
        args = [W, TR]
        facts += [le(I(0), kk), lt(kk, nf), eq(ln(kk), n), forall(I(0), nf, lambda k: le(n, ln(k)))]

    def x(k, i):
        lo, hi = w(k, I(0)), w(k, ln(k) - 1)
        return lo + (hi - lo) * T.i2r(i) / T.i2r(n - 1)
    value = (NArr((nf, n), x), NArr((nf, n), lambda k, i: T.interp(x(k, i), ln(k), lambda j: w(k, j), lambda j: tr(k, j))))
    cases = [Case("resampled", [TRUE], "return", value)]
    return ctx_of(*facts), None, lambda ex: ex.lib.call(ex, f, args, {}), cases


def conc_interp(rng, d):
    from dsps.photometry.utils import interpolate_filter_trans_curves as f

    nf = rng.choice([1, 2, 3, 5])
    W, TR = [], []
    for _ in range(nf):
        m = rng.randint(2, 12)
        w = np.cumsum([rng.choice([0.5, 1.0, rng.uniform(0.1, 900.0)]) for _ in range(m)]) + rng.uniform(10, 5000)
        t = np.array([rng.choice([0.0, 1.0, rng.uniform(0, 1), rng.uniform(-0.2, 1.3)]) for _ in range(m)])
        W.append(w)
        TR.append(t)
    n = rng.choice([None, None, 2, 3, rng.randint(2, 40)])
    nn = min(len(w) for w in W) if n is None else n
    inp = dict(wave_filters=[w.tolist() for w in W], trans_filters=[t.tolist() for t in TR], n=n)
    W0, T0 = [w.copy() for w in W], [t.copy() for t in TR]
    try:
        a, b = f(W, TR) if n is None and rng.random() < 0.5 else f(W, TR, n=n)
    except Exception as ex:
        return dict(why="raises %s: %s" % (type(ex).__name__, ex), input=inp)
    if np.shape(a) != (nf, nn) or np.shape(b) != (nf, nn):
        return dict(why="shapes %s %s instead of %s" % (np.shape(a), np.shape(b), (nf, nn)), input=inp)
    for k in range(nf):
        x = W0[k][0] + (W0[k][-1] - W0[k][0]) * np.arange(nn) / (nn - 1)
        if not np.allclose(a[k], x, rtol=1e-9, atol=0):
            return dict(why="wavelengths of filter %d: %s, contract says %s" % (k, a[k].tolist(), x.tolist()), input=inp)
        y = np.interp(x, W0[k], T0[k])
        if not np.allclose(b[k], y, rtol=1e-6, atol=1e-7):
            return dict(why="transmission of filter %d: %s, contract says %s" % (k, b[k].tolist(), y.tolist()), input=inp)
        if b[k].min() < T0[k].min() - 1e-9 or b[k].max() > T0[k].max() + 1e-9:
            return dict(why="transmission of filter %d leaves its original range" % k, input=inp)
    if any(not np.array_equal(x, y) for x, y in zip(W + TR, W0 + T0)):
        return dict(why="the input curves were modified: %s" % [x.tolist() for x in W + TR], input=inp)
    return None


task("interp_filters", "dsps.photometry.utils:interpolate_filter_trans_curves", ["n given", "shortest"], setup_interp, conc_interp,
     nsamples=200, assumes=["np.linspace, np.interp, np.min/max: documented contracts (dv/pylib.py)"])


# ====================================================================== files
def S(name, *props):
    return SymStr.atom(T.var(name), props)


def flag(name, code):
    return eq(T.fn(name, code), R(1))


ENV_SET = eq(T.var("env.DSPS_DRN.set"), R(1))
ENV = S("env.DSPS_DRN")


class Files:
    """the file system as the loaders see it: predicates and contents of a path"""

    def __init__(self, layout):
        self.layout = layout            # key -> (dims, kind)
        self.writes = []

    def isfile(self, p):
        return flag("isfile", pyvc.as_sym(p).code())

    def isdir(self, p):
        return flag("isdir", pyvc.as_sym(p).code())

    def has(self, p, key):
        if key in self.optional:
            return flag("h5has", pyvc.as_sym(p).code())
        return TRUE

    optional = ()

    def dim(self, p, d):
        return T._mk("fn", ("h5dim:" + d, pyvc.as_sym(p).code()), "I")

    def data(self, p, key):
        dims, kind = self.layout[key]
        code = pyvc.as_sym(p).code()
        sh = [self.dim(p, d) for d in dims]
        if kind == "S":
            return NArr(sh, lambda *i: SymStr.atom(T.fn("h5:" + key, code, *i), ("bytes",)), "S")
        return NArr(sh, lambda *i: T.fn("h5:" + key, code, *i), "R")

    def world(self, ex):
        def environ_get(k, *dflt):
            if k != "DSPS_DRN":
                raise Unsupported("environment variable %s" % pyvc.show(k))
            if ex.branch(ENV_SET):
                return ENV
            return dflt[0] if dflt else None

        def environ_item(k):
            if k != "DSPS_DRN":
                raise Unsupported("environment variable %s" % pyvc.show(k))
            if ex.branch(ENV_SET):
                return ENV
            raise PyRaise(KeyError, k)
        environ = SymObj("environ", methods={"get": environ_get})
        environ.getitem = environ_item
        environ.contains = lambda k: ENV_SET if k == "DSPS_DRN" else pylib._uns("environment variable")

        def h5file(ex, fn, mode="r", **kw):
            if mode != "r":
                raise Unsupported("h5py.File mode %r" % mode)
            if not ex.branch(self.isfile(fn)):
                raise PyRaise(OSError, "unable to open file")
            return self.reader(ex, fn)

        def glob(ex, pat, **kw):
            if kw:
                raise Unsupported("glob options")
            code = pyvc.as_sym(pat).code()
            n = T._mk("fn", ("glob.n", code), "I")
            ex.ctx = ex.ctx.assume(le(I(0), n))
            return PList(ex, [("seq", n, lambda i: SymStr.atom(T.fn("glob.el", code, i)))])
        table = {os.path.isfile: lambda ex, p: self.isfile(p), os.path.isdir: lambda ex, p: self.isdir(p),
                 os.path.exists: lambda ex, p: or_(self.isfile(p), self.isdir(p)), os.getenv: lambda ex, *a: environ_get(*a),
                 h5py.File: h5file, globmod.glob: glob, globmod.iglob: glob,
                 os.path.expanduser: lambda ex, p: p}
        return World(table, {id(os.environ): environ})

    def reader(self, ex, fn):
        def dataset(key):
            if key not in self.layout or not ex.branch(self.has(fn, key)):
                raise PyRaise(KeyError, key)
            a = self.data(fn, key)

            def item(k):
                if k is Ellipsis or k == () or k == slice(None):
                    return a
                return ex.lib.arr_index(ex, a, k)
            o = SymObj("dataset", {"shape": tuple(a.shape)}, {"asarray": lambda: a})
            o.getitem = item
            o.iterate = lambda: (a.shape[0], lambda k: pyvc.subarr(a, k))
            return o
        f = SymObj("h5 file", {}, {"close": lambda: None, "get": lambda k, d=None: dataset(k) if ex.branch(contains(k)) else d,
                                   "keys": lambda: keys})

        def contains(k):
            return self.has(fn, k) if k in self.layout else FALSE
        keys = SymObj("keys")
        keys.contains = f.contains = contains
        f.getitem = dataset
        f.enter = lambda: f
        return f


def join(*p):
    return pylib.Lib.join(None, *p)


# ====================================================================== P28
def setup_random(mode):
    """any range, any width, a centre given or drawn, a key given or not"""
    import random
    import jax
    from jax.scipy.stats import norm
    import scipy.stats
    from dsps.data_loaders.load_filter_data import load_random_transmission_curve as f
    from dsps.data_loaders.defaults import TransmissionCurve

    lo, hi = T.var("wave_lo"), T.var("wave_hi")
    s, cen, u = T.var("scale"), T.var("centre"), T.var("U")
    given_key = SymObj("key", ident="given")
    own_key = SymObj("key", ident="own")
    args, facts = {}, [le(R(0), u), lt(u, R(1))]
    if "range" in mode:
        args["wave_range"] = (lo, hi)
    else:
        lo, hi = R(1000), R(10000)
    if "width" in mode:
        args["scale"] = s
        facts.append(lt(R(0), s))
    else:
        s = R(300)
    facts.append(lt(lo, hi))
    if "centre" in mode:
        args["tcurve_center"] = cen
        args["ran_key"] = given_key if "key" in mode else None
        at = cen
        inside = and_(lt(lo, cen), lt(cen, hi))
    else:
        facts.append(lt(4 * s, hi - lo))
        if "key" in mode:
            args["ran_key"] = given_key
        at = lo + 2 * s + (hi - lo - 4 * s) * u
        inside = TRUE

    def uniform(ex, key, shape=(), dtype=None, minval=0.0, maxval=1.0):
        if shape != ():
            raise Unsupported("several draws")
        if key is not (given_key if "key" in mode else own_key):
            raise Mismatch("drawn with another key than the one given")
        return pylib.real(minval) + (pylib.real(maxval) - pylib.real(minval)) * u

    def pdf(ex, x, loc=0, scale=1):
        w = pylib.real(scale)
        g = lambda v, l: T.exp(-((pylib.real(v) - pylib.real(l)) / w) ** 2 / 2) / (w * T.sqrt(2 * T.var("pi")))
        return ex.lib.elementwise(ex, g, x, loc)

    def seed(ex, *a, **k):
        return T.fresh("seed")

    def world(ex):
        new_key = lambda ex, *a, **k: own_key
        return World({jax.random.uniform: uniform, jax.random.key: new_key, jax.random.PRNGKey: new_key, norm.pdf: pdf,
                      scipy.stats.norm.pdf: pdf, random.randint: seed, random.getrandbits: seed, random.randrange: seed,
                      np.random.randint: seed})
    grid = NArr((I(200),), lambda i: lo + T.i2r(I(i)) * (hi - lo) / 199)
    g = lambda i: T.exp(-((grid.at(i) - at) / s) ** 2 / 2) / (s * T.sqrt(2 * T.var("pi")))
    top = T._mk("rmax", (I(0), I(200), T.lam(g)), "R")
    curve = TransmissionCurve(grid, NArr((I(200),), lambda i: g(i) / top))

    def fraction(v, cx, path):
        pyvc.same(v, curve, cx, "result")
        # a transmission between nought and one
        i = T.fresh("i")
        cx = cx.assume(le(I(0), i), lt(i, I(200)))
        for inst in (L.rmax_pos(200, g), L.rmax_ge(200, g, i), L.div_le(g(i), top, top)):
            cx = lemma(cx, inst)
        if not pyvc.prove(and_(lt(R(0), curve[1].at(i)), le(curve[1].at(i), R(1))), cx):
            raise Mismatch("a transmission is not in (0, 1]")
    cases = [Case("curve", [inside], "return", check=fraction)]
    if inside is not TRUE:
        cases.append(Case("centre outside", [not_(inside)], RAISE))
    return ctx_of(*facts), world, lambda ex: ex.lib.call(ex, f, [], args), cases


def conc_random(rng, d):
    import random
    import jax
    from dsps.data_loaders.load_filter_data import load_random_transmission_curve as f

    kw, lo, hi, s = {}, 1000.0, 10000.0, 300.0
    if rng.random() < 0.7:
        lo = rng.choice([0.0, 1.0, 912.0, rng.uniform(10, 20000)])
        hi = lo + rng.choice([10.0, 500.0, rng.uniform(10, 30000)])
        kw["wave_range"] = rng.choice([(lo, hi), [lo, hi], np.array([lo, hi])])
    if rng.random() < 0.8 or hi - lo < 2000:
        s = kw["scale"] = (hi - lo) / rng.choice([5.0, 8.0, 20.0, rng.uniform(4.01, 60)])
    centre = None
    if rng.random() < 0.5:
        centre = kw["tcurve_center"] = lo + (hi - lo) * rng.choice([0.5, 0.999, 0.001, -0.1, 1.1, 0.0, 1.0, rng.random()])
    seed = rng.choice([None, rng.randint(0, 2**31)])
    if seed is not None:
        kw["ran_key"] = jax.random.key(seed)
    if rng.random() < 0.15:
        # whole numbers
        lo, hi, s = 3000.0, 9000.0, 400.0
        kw.update(wave_range=(3000, 9000), scale=400)
        if centre is not None:
            kw["tcurve_center"] = rng.choice([2999, 3000, 3001, 5000, 8999, 9000])
            centre = float(kw["tcurve_center"])
    inp = dict({k: repr(v) for k, v in kw.items()}, seed=seed)
    random.seed(rng.randint(0, 10**6))
    if seed is None:
        inp["random_seed_set"] = True
    bad = centre is not None and not lo < centre < hi
    try:
        w, t = f(**kw)
    except Exception as ex:
        return None if bad else dict(why="raises %s: %s" % (type(ex).__name__, ex), input=inp)
    w, t = np.asarray(w), np.asarray(t)
    if bad:
        return dict(why="a centre outside of the range is accepted", input=inp)
    if w.shape != (200,) or t.shape != (200,) or not np.allclose(w, lo + (hi - lo) * np.arange(200) / 199, rtol=1e-9, atol=1e-9):
        return dict(why="wavelengths %s" % w[:3].tolist(), input=inp)
    if centre is None and seed is not None:
        centre = float(lo + 2 * s + (hi - lo - 4 * s) * float(jax.random.uniform(jax.random.key(seed))))
    if centre is None:
        # the key is drawn by the code: the centre is where the parabola ln(t) peaks
        ok = t > 1e-30
        a, b, _ = np.polyfit((w[ok] - w[ok].mean()) / (hi - lo), np.log(t[ok]), 2)
        centre = float(-b / (2 * a) * (hi - lo) + w[ok].mean())
        if not lo + 1.99 * s <= centre <= hi - 1.99 * s:
            return dict(why="centre %r is not two widths inside %r" % (centre, (lo, hi)), input=inp)
        tol = 1e-4
    else:
        tol = 1e-6
    g = np.exp(-(((w - centre) / s) ** 2) / 2)
    if not np.allclose(t, g / g.max(), rtol=0, atol=tol) or t.min() < 0 or t.max() > 1:
        return dict(why="transmission is not the Gaussian around %r of width %r with maximum one" % (centre, s), input=inp)
    return None


task("random_filter", "dsps.data_loaders.load_filter_data:load_random_transmission_curve",
     ["key+range+width", "range+width", "key+range", "key+width", "key", "", "centre+range+width", "key+centre+range+width", "centre+width", "centre"],
     setup_random, conc_random, nsamples=120,
     assumes=["np.linspace: documented contract (dv/pylib.py)", "jax.random.uniform: minval + (maxval - minval) U, 0 <= U < 1",
              "norm.pdf: the Gaussian density"])


def key_split(key, num, i):
    return T._mk("fn", ("keysplit", key, I(num), I(i)), "I")


def setup_t0(mode):
    """bounds of any number of parameters, under any distinct names"""
    import jax
    from dsps.metallicity.umzr import get_ran_t0_params as f

    n, fact = dim("n", 1)
    name = lambda i: SymStr.atom(T._mk("fn", ("name", I(i)), "I"))
    lo, hi = arr("lo", n), arr("hi", n)
    a, b = T.fresh("a"), T.fresh("b")
    ordered = T.forall(I(0), n, lambda i: lt(lo.at(i), hi.at(i)))
    differ = T.forall(I(0), n, lambda i: T.forall(I(0), i, lambda j: not_(eq(name(i).code(), name(j).code()))))
    pair = {"pairs": lambda i: (lo.at(i), hi.at(i)), "lists": lambda i: PList(None, [("item", lo.at(i)), ("item", hi.at(i))]),
            "arrays": lambda i: NArr((I(2),), lambda j: ite(eq(j, I(0)), lo.at(i), hi.at(i)))}[mode]
    key = SymObj("key", ident=T.var("key", "I"))
    u = lambda k: T.fn("U", k)

    def split(ex, key, num=2):
        return NKeys(ex, key, num)

    def NKeys(ex, key, num):
        if not isinstance(key, SymObj) or key.kind != "key":
            raise Unsupported("split of %s" % pyvc.show(key))
        if not isinstance(num, int):
            num = int(num.args[0]) if isinstance(num, T.Term) and num.op == "const" else num
        if not isinstance(num, int):
            raise Unsupported("split into a symbolic number of keys")
        return tuple(SymObj("key", ident=key_split(key.ident, num, j)) for j in range(num))

    def uniform(ex, key, shape=(), dtype=None, minval=0.0, maxval=1.0):
        if shape != ():
            raise Unsupported("several draws")
        return pylib.real(minval) + (pylib.real(maxval) - pylib.real(minval)) * u(key.ident)

    def world(ex):
        return World({jax.random.uniform: uniform, jax.random.split: split})

    kv, st = T.fresh("k"), T.fresh("s")
    chain = lambda i: pyvc.iterate(key.ident, kv, st, key_split(st, 2, 0), i)
    draw = lambda i: lo.at(i) + (hi.at(i) - lo.at(i)) * u(key_split(chain(I(i)), 2, 1))

    def inside(v, cx, path):
        if not isinstance(v, (PList, NArr, tuple, list)):
            raise Mismatch("a sequence of parameters expected: %s" % pyvc.show(v))
        pyvc.same(v, PList(None, [("seq", n, draw)]), cx, "result")
        i = T.fresh("i")
        x = u(key_split(chain(i), 2, 1))
        cx = cx.assume(le(I(0), i), lt(i, n), lt(lo.at(i), hi.at(i)), le(R(0), x), lt(x, R(1)))
        if not pyvc.prove(and_(le(lo.at(i), draw(i)), lt(draw(i), hi.at(i))), cx):
            raise Mismatch("a parameter is outside of its bounds")

    def run(ex):
        d = PDict(ex, [("seq", n, name, pair)])
        d.distinct = True
        return ex.lib.call(ex, f, [key, d], {})
    return ctx_of(fact, ordered, differ), world, run, [Case("drawn in order", [], "return", check=inside)]


def conc_t0(rng, d):
    import jax
    from dsps.metallicity.umzr import get_ran_t0_params as f

    n = rng.choice([1, 1, 2, 3, 5, 6, 9, 14])
    names = ["".join(rng.choice("abcxyz") for _ in range(4)) + str(j) for j in range(n)]
    rng.shuffle(names)
    bounds = OrderedDict()
    for nm in names:
        lo = rng.choice([rng.uniform(-5, 5), 0.0, rng.uniform(100, 200)])
        bounds[nm] = rng.choice([tuple, list, np.array])((lo, lo + rng.choice([0.01, 1.0, rng.uniform(0.1, 10)])))
    seed = rng.randint(0, 2**31)
    inp = dict(bounds={k: [float(x) for x in v] for k, v in bounds.items()}, seed=seed)
    try:
        out = [float(x) for x in f(jax.random.PRNGKey(seed), bounds)]
    except Exception as ex:
        return dict(why="raises %s: %s" % (type(ex).__name__, ex), input=inp)
    key, want = jax.random.PRNGKey(seed), []
    for lo, hi in bounds.values():
        key, own = jax.random.split(key)
        want.append(float(jax.random.uniform(own, minval=lo, maxval=hi)))
    if len(out) != n or not np.allclose(out, want, rtol=1e-6, atol=1e-6):
        return dict(why="draws %s instead of %s" % (out, want), input=inp)
    return None


task("ran_t0_any", "dsps.metallicity.umzr:get_ran_t0_params", ["pairs", "lists", "arrays"], setup_t0, conc_t0, nsamples=30,
     assumes=["jax.random.uniform: minval + (maxval - minval) U, 0 <= U < 1", "jax.random.split: opaque"],
     stand_in="sampled runs with up to 14 parameters, any bounds")


# ====================================================================== P23
def setup_filter(mode):
    from dsps.data_loaders.load_filter_data import load_transmission_curve as f
    from dsps.data_loaders.defaults import TransmissionCurve

    fs = Files({"wave": (("n",), "R"), "transmission": (("n",), "R")})
    fn, drn, pat = S("fn"), S("drn"), S("bn_pat")
    facts = []

    def content(p, pre, nm):
        n = fs.dim(p, "n")
        facts.append(le(I(1), n))
        t = fs.data(p, "transmission")
        neg = T.exists(I(0), n, lambda i: lt(t.at(i), c("-1/100")))
        big = T.exists(I(0), n, lambda i: lt(c("101/100"), t.at(i)))
        there = fs.isfile(p)
        clip = NArr((n,), lambda i: ite(lt(t.at(i), R(0)), R(0), ite(lt(R(1), t.at(i)), R(1), t.at(i))))

        def fractions(v, cx, path):
            pyvc.same(v, TransmissionCurve(fs.data(p, "wave"), clip), cx, "result")
            i = T.fresh("i")
            c2 = cx.assume(le(I(0), i), lt(i, n))
            y = v[1].at(i)
            if not pyvc.prove(and_(le(R(0), y), le(y, R(1))), c2):
                raise Mismatch("a returned transmission is not in [0, 1]")
        return [Case(nm + "file absent", pre + [not_(there)], RAISE),
                Case(nm + "negative value", pre + [there, neg], RAISE),
                Case(nm + "value above one", pre + [there, not_(neg), big], RAISE),
                Case(nm + "valid", pre + [there, not_(neg), not_(big)], "return", check=fractions)]

    def search(d, pre):
        pt = join(d, pat)
        code = pyvc.as_sym(pt).code()
        n = T._mk("fn", ("glob.n", code), "I")
        facts.append(le(I(0), n))
        # the pattern matches nothing in a directory that is not there
        facts.append(or_(eq(n, I(0)), fs.isdir(d)))
        p = SymStr.atom(T.fn("glob.el", code, I(0)))
        return [Case("no match", pre + [eq(n, I(0))], RAISE), Case("several matches", pre + [lt(I(1), n)], RAISE)] + content(p, pre + [eq(n, I(1))], "unique match: ")
    if mode.startswith("fn"):
        args = dict(fn=fn) if mode == "fn" else dict(fn=fn, bn_pat=pat, drn=drn)
        cases = content(fn, [], "")
    elif mode == "drn":
        args = dict(drn=drn, bn_pat=pat)
        cases = search(drn, [])
    else:
        args = dict(bn_pat=pat)
        d = join(ENV, "filters")
        cases = [Case("not configured", [not_(ENV_SET)], RAISE)] + search(d, [ENV_SET])
    return ctx_of(*facts), fs.world, lambda ex: ex.lib.call(ex, f, [], args), cases


def conc_filter(rng, d):
    from dsps.data_loaders.load_filter_data import load_transmission_curve as f

    os.environ.pop("DSPS_DRN", None)
    mode = rng.choice(["fn", "fn", "drn", "env", "fn+drn"])
    names = ["lsst_r.h5", "lsst_r_v2.h5", "lsst_g.h5", "hsc_r.h5"]
    folders = {"A": os.path.join(d, "A"), "B": os.path.join(d, "B"), "F": os.path.join(d, "B", "filters"), "C": os.path.join(d, "C")}
    content = {}
    for nm, p in folders.items():
        if nm == "F" and rng.random() < 0.1:
            continue
        os.makedirs(os.path.join(p, "sub"), exist_ok=True)
        for b in names + ["sub/lsst_r.h5"]:
            if rng.random() < 0.55:
                n = rng.randint(1, 9)
                w = np.cumsum([rng.uniform(0.5, 50) for _ in range(n)]) + 3000.0
                pool = [0.0, 1.0, 0.5, 0.25, 1e-9, 0.9999999, rng.uniform(0, 1), rng.uniform(0, 1)]
                if rng.random() < 0.6:
                    pool += [-0.0099999, 1.0099999, -0.0099, 1.0099, -0.005, 1.005]
                if rng.random() < 0.3:
                    pool += [rng.choice([-0.0101, 1.0101, -0.5, 1.5, -0.02, 1.02])]
                t = np.array([rng.choice(pool) for _ in range(n)])
                if rng.random() < 0.1:
                    t = t.astype(int).astype(float)
                if rng.random() < 0.1:
                    # other units, a sign, an offset: everything on one side
                    t = rng.choice([t * 100 + 1.5, -t - 0.02, t + 1.2, t * 0 + 1.02, t * 0 - 0.011, t * 0 + 1.0, t * 0 - 0.005])
                fn = os.path.join(p, b)
                with h5py.File(fn, "w") as h:
                    h["wave"] = w
                    h["transmission"] = t
                content[fn] = (w, t)
    pat = rng.choice(["lsst_r*", "lsst_*", "hsc*", "lsst_g.h5", "nothing*", "*.h5", "sub/*", "lsst_?.h5", "[hx]sc_r.h5", "*v2*"])
    kw = {}
    if rng.random() < 0.7:
        os.environ["DSPS_DRN"] = folders["B"] if rng.random() < 0.9 else os.path.join(d, "gone")
    if mode in ("fn", "fn+drn"):
        kw["fn"] = os.path.join(folders[rng.choice("ABC")], rng.choice(names + ["sub/lsst_r.h5"]))
        if mode == "fn+drn":
            kw.update(drn=folders["A"], bn_pat=pat)
        want = kw["fn"] if kw["fn"] in content else None
    else:
        kw["bn_pat"] = pat
        if mode == "drn":
            kw["drn"] = folders[rng.choice("AC")]
            base = kw["drn"]
        else:
            base = os.path.join(os.environ["DSPS_DRN"], "filters") if "DSPS_DRN" in os.environ else None
        import fnmatch
        hits = [p for p in content if base is not None and os.path.dirname(p) == os.path.join(base, os.path.dirname(pat)).rstrip("/") and fnmatch.fnmatch(os.path.basename(p), os.path.basename(pat))]
        want = hits[0] if len(hits) == 1 else None
    if want is not None:
        w, t = content[want]
        if (t < -0.01).any() or (t > 1.01).any():
            want = None
    inp = dict(args={k: v.replace(d, "DIR") for k, v in kw.items()}, DSPS_DRN=os.environ.get("DSPS_DRN", "").replace(d, "DIR"),
               files={k.replace(d, "DIR"): dict(wave=v[0].tolist(), transmission=v[1].tolist()) for k, v in content.items()})
    try:
        r = f(**kw)
    except Exception as ex:
        if want is None:
            return None
        return dict(why="raises %s: %s; contract says the curve of %s" % (type(ex).__name__, str(ex)[:200].replace(d, "DIR"), want.replace(d, "DIR")), input=inp)
    if want is None:
        return dict(why="returns a curve, contract says an error", input=inp, output=[np.asarray(x).tolist() for x in r])
    w, t = content[want]
    got_w, got_t = np.asarray(r.wave), np.asarray(r.transmission)
    if got_w.shape != w.shape or not np.array_equal(got_w, w) or got_t.shape != t.shape or not np.array_equal(got_t, np.clip(t, 0, 1)):
        return dict(why="transmission %s at %s, contract says %s at %s" % (got_t.tolist(), got_w.tolist(), np.clip(t, 0, 1).tolist(), w.tolist()), input=inp)
    return None


task("load_filter", "dsps.data_loaders.load_filter_data:load_transmission_curve", ["fn", "fn+drn", "drn", "env"], setup_filter, conc_filter, nsamples=250,
     assumes=["os, glob and h5py behave as documented (predicates and contents of a path; no match in a missing directory)"])


# ====================================================================== P22
SSP_LAYOUT = {"ssp_lgmet": (("met",), "R"), "ssp_lg_age_gyr": (("age",), "R"), "ssp_wave": (("wave",), "R"),
              "ssp_flux": (("met", "age", "wave"), "R"), "ssp_emline_name": (("line",), "S"), "ssp_emline_wave": (("line",), "R"),
              "ssp_emline_luminosity": (("met", "age", "line"), "R")}
L_SUN = c("3.828e33")


def ssp_files():
    fs = Files(SSP_LAYOUT)
    fs.optional = ("ssp_emline_name", "ssp_emline_wave", "ssp_emline_luminosity")
    return fs


def ssp_of_file(fs, p, lines):
    """what the loader returns for the file at path p"""
    from dsps.data_loaders.defaults import SSPData

    v = [fs.data(p, k) for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")]
    if not lines:
        return SSPData(*v, None, None)
    nm, wv, lum = [fs.data(p, "ssp_emline_" + k) for k in ("name", "wave", "luminosity")]
    dec = lambda i: SymStr([(q[0], q[1] - {"bytes"}, q[2]) for q in nm.at(i).parts])
    return SSPData(*v, SNT(SNTClass(SeqV(nm.shape[0], dec)), SeqV(nm.shape[0], lambda i: wv.at(i))),
                   NArr(lum.shape, lambda *i: lum.at(*i) * L_SUN))


def setup_templates(mode):
    from dsps.data_loaders.load_ssp_data import load_ssp_templates as f

    fs = ssp_files()
    fn, drn, bn = S("fn"), S("drn"), S("bn")
    default_bn = "ssp_data_fsps_v3.2_lgmet_age.h5"
    facts = []

    def content(p, pre):
        for k in ("met", "age", "wave", "line"):
            facts.append(le(I(1), fs.dim(p, k)))
        there = fs.isfile(p)
        has = fs.has(p, "ssp_emline_name")
        return [Case("file absent", pre + [not_(there)], RAISE),
                Case("without emission lines", pre + [there, not_(has)], "return", ssp_of_file(fs, p, False)),
                Case("with emission lines", pre + [there, has], "return", ssp_of_file(fs, p, True))]
    if mode.startswith("fn"):
        args = {"fn": dict(fn=fn), "fn+drn": dict(fn=fn, drn=drn), "fn+drn+bn": dict(fn=fn, drn=drn, bn=bn)}[mode]
        cases = content(fn, [])
    elif mode.startswith("drn"):
        args = dict(drn=drn, bn=bn) if mode == "drn+bn" else dict(drn=drn)
        cases = content(join(drn, bn if "bn" in mode else default_bn), [])
    else:
        args = dict(bn=bn) if mode == "env+bn" else {}
        cases = [Case("not configured", [not_(ENV_SET)], RAISE)] + content(join(ENV, bn if "bn" in mode else default_bn), [ENV_SET])
    return ctx_of(*facts), fs.world, lambda ex: ex.lib.call(ex, f, [], args), cases


LINE_NAMES = ["Ha", "OII_3726", "Ly_alpha", "HeII_1640", "OIII_5007", "NII_6584", "SII_6717", "Hb", "CIV_1548", "FeII_88um", "Ba_6563"]


def random_ssp(rng, lines=None, order="C"):
    nm, na, nw = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
    r = np.random.RandomState(rng.randrange(2**31))
    out = dict(ssp_lgmet=np.sort(r.uniform(-4, -1, nm)), ssp_lg_age_gyr=np.sort(r.uniform(-4, 1.2, na)), ssp_wave=np.sort(r.uniform(100, 1e5, nw)),
               ssp_flux=r.uniform(-1e-3, 1, (nm, na, nw)))
    if lines is None:
        lines = rng.random() < 0.7
    if lines:
        nl = rng.randint(1, 9)
        out["ssp_emline_name"] = rng.sample(LINE_NAMES, nl)
        out["ssp_emline_wave"] = r.uniform(900, 20000, nl)
        out["ssp_emline_luminosity"] = r.uniform(-1e-3, 1, (nm, na, nl)) * 10.0 ** r.uniform(-3, 2, nl)
    return out


def write_ssp(fn, d):
    with h5py.File(fn, "w") as h:
        for k, v in d.items():
            if k == "ssp_emline_name":
                h.create_dataset(k, data=np.array(v, dtype="S"))
            else:
                h[k] = v


def differs(got, d, scale=3.828e33):
    """difference between a returned SSPData and the arrays d"""
    for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
        a = np.asarray(getattr(got, k))
        if a.shape != d[k].shape or not np.array_equal(a, d[k]):
            return "%s is %s, contract says %s" % (k, a.tolist(), d[k].tolist())
    if "ssp_emline_name" not in d:
        if got.ssp_emline_wave is not None or got.ssp_emline_luminosity is not None:
            return "emission lines returned for data without lines"
        return None
    if got.ssp_emline_wave is None or got.ssp_emline_luminosity is None:
        return "emission lines missing"
    if tuple(got.ssp_emline_wave._fields) != tuple(d["ssp_emline_name"]):
        return "line names %s, contract says %s" % (got.ssp_emline_wave._fields, d["ssp_emline_name"])
    if not np.array_equal(np.array(got.ssp_emline_wave, float), d["ssp_emline_wave"]):
        return "line wavelengths %s, contract says %s" % (list(got.ssp_emline_wave), d["ssp_emline_wave"].tolist())
    a, b = np.asarray(got.ssp_emline_luminosity), d["ssp_emline_luminosity"] * scale
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-12, atol=0):
        return "line luminosities %s, contract says %s" % (a.tolist(), b.tolist())
    return None


def lists(d):
    return {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in d.items()}


def conc_templates(rng, d):
    from dsps.data_loaders.load_ssp_data import load_ssp_templates as f

    os.environ.pop("DSPS_DRN", None)
    default_bn = "ssp_data_fsps_v3.2_lgmet_age.h5"
    A, B = os.path.join(d, "A"), os.path.join(d, "B")
    content = {}
    for folder in (A, B):
        os.makedirs(os.path.join(folder, "sub dir"))
        for b in (default_bn, "other.h5", "sub dir/other.h5", "Other"):
            if rng.random() < 0.75:
                fn = os.path.join(folder, b)
                content[fn] = random_ssp(rng)
                write_ssp(fn, content[fn])
    kw = {}
    if rng.random() < 0.7:
        os.environ["DSPS_DRN"] = B
    if rng.random() < 0.4:
        kw["fn"] = os.path.join(rng.choice([A, B]), rng.choice([default_bn, "other.h5", "sub dir/other.h5"]))
    if rng.random() < 0.5:
        kw["drn"] = rng.choice([A, B, A + "/", os.path.join(A, "..", "B")])
    if rng.random() < 0.5:
        kw["bn"] = rng.choice(["other.h5", "other.h5", "sub dir/other.h5", "../B/other.h5", "Other", os.path.join(A, "other.h5")])
    if "fn" in kw:
        p = kw["fn"]
    else:
        base = kw.get("drn", os.environ.get("DSPS_DRN"))
        p = None if base is None else os.path.join(base, kw.get("bn", default_bn))
    want = content.get(p and os.path.normpath(p))
    inp = dict(args={k: v.replace(d, "DIR") for k, v in kw.items()}, DSPS_DRN=os.environ.get("DSPS_DRN", "").replace(d, "DIR"),
               files=sorted(k.replace(d, "DIR") for k in content), content=None if want is None else lists(want))
    try:
        r = f(**kw)
    except Exception as ex:
        if want is None:
            return None
        return dict(why="raises %s: %s; contract says the data of %s" % (type(ex).__name__, str(ex)[:200].replace(d, "DIR"), p.replace(d, "DIR")), input=inp)
    if want is None:
        return dict(why="returns data, contract says an error", input=inp)
    w = differs(r, want)
    return dict(why=w, input=inp) if w else None


task("load_templates", "dsps.data_loaders.load_ssp_data:load_ssp_templates", ["fn", "fn+drn", "fn+drn+bn", "drn", "drn+bn", "env", "env+bn"],
     setup_templates, conc_templates, nsamples=150,
     assumes=["os and h5py behave as documented; line names in a file are distinct Python identifiers; a file with ssp_emline_name holds the other two line arrays"])


# ====================================================================== P24
def setup_subset(mode):
    from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
    from dsps.data_loaders.defaults import SSPData

    nl, p1 = dim("n_line")
    nr, p2 = dim("n_requested")
    nm, na, nw = [T.var(x, "I") for x in ("n_met", "n_age", "n_wave")]
    name = lambda i: T.sel("line_name", (i,))
    req = lambda k: T.sel("requested", (k,))
    fields = SeqV(nl, lambda i: SymStr.atom(name(i)))
    own = lambda nm, *s: given(arr(nm, *s), nm)
    data = SSPData(own("ssp_lgmet", nm), own("ssp_lg_age_gyr", na), own("ssp_wave", nw), own("ssp_flux", nm, na, nw),
                   SNT(SNTClass(fields), SeqV(nl, lambda i: T.sel("line_wave", (i,)))), own("line_lum", nm, na, nl))
    unique = forall(I(0), nl, lambda i: forall(I(0), nl, lambda j: or_(not_(eq(name(i), name(j))), eq(i, j))))
    cx = ctx_of(p1, p2, *[le(I(1), x) for x in (nm, na, nw)], unique)
    R_ = lambda i: SymStr.atom(req(i))
    known = forall(I(0), nr, lambda k: T.exists(I(0), nl, lambda i: eq(name(i), req(k))))

    def aligned(v, cx, path):
        """for every k and the position p of the k-th requested name: entry k is entry p of the input"""
        if not isinstance(v, SSPData):
            raise Mismatch("result: %s" % pyvc.show(v))
        for key in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
            pyvc.same(getattr(v, key), getattr(data, key), cx, "result." + key)
        w, lum = v.ssp_emline_wave, v.ssp_emline_luminosity
        if not isinstance(w, SNT):
            raise Mismatch("ssp_emline_wave: %s" % pyvc.show(w))
        pyvc.same(w.cls.fields, SeqV(nr, R_), cx, "names")
        pyvc.same(SeqV(w.values.n, lambda i: R(0)), SeqV(nr, lambda i: R(0)), cx, "wavelengths")
        if not isinstance(lum, NArr) or lum.ndim != 3:
            raise Mismatch("luminosity: %s" % pyvc.show(lum))
        for ax, n in ((0, nm), (1, na), (2, nr)):
            if not pyvc.prove(eq(lum.shape[ax], n), cx):
                raise Mismatch("luminosity has length %s on axis %d" % (T.show(lum.shape[ax]), ax))
        k, p, i, j = [T.fresh(x) for x in "kpij"]
        c2 = cx.assume(le(I(0), k), lt(k, nr), le(I(0), p), lt(p, nl), eq(name(p), req(k)), le(I(0), i), lt(i, nm), le(I(0), j), lt(j, na))
        got = [(pyvc.real(w.values.f(k)), T.sel("line_wave", (p,)), "wavelength of requested line"),
               (pyvc.real(lum.at(i, j, k)), T.sel("line_lum", (i, j, p)), "luminosity of requested line")]
        for a, b, what in got:
            pyvc._eq(a, b, c2, what)
    cases = [Case("unknown name", [not_(known)], RAISE), Case("aligned", [known], "return", check=aligned)]
    req_list = {"list": lambda ex: given(PList(ex, [("seq", nr, R_)]), "the list of names"), "tuple": lambda ex: SeqV(nr, R_)}[mode]
    return cx, None, lambda ex: ex.lib.call(ex, f, [data, req_list(ex)], {}), cases


def conc_subset(rng, d):
    from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
    from dsps.data_loaders.defaults import SSPData

    s = random_ssp(rng, lines=True)
    names = s.pop("ssp_emline_name")
    NT = namedtuple("EmLineWave", names)
    data = SSPData(s["ssp_lgmet"], s["ssp_lg_age_gyr"], s["ssp_wave"], s["ssp_flux"], NT(*[float(x) for x in s["ssp_emline_wave"]]), s["ssp_emline_luminosity"])
    before = [np.array(x, copy=True) for x in data]
    req = rng.sample(names, rng.randint(1, len(names)))
    bad = rng.random() < 0.15
    if bad:
        req[rng.randrange(len(req))] = rng.choice([x for x in LINE_NAMES + ["nope"] if x not in names])
    inp = dict(names=names, requested=req, ssp_emline_wave=before[4].tolist(), ssp_emline_luminosity=before[5].tolist())
    try:
        arg = list(req)
        r = f(data, arg)
        if arg != req:
            return dict(why="the list of requested names was changed to %s" % arg, input=inp)
    except Exception as ex:
        return None if bad else dict(why="raises %s: %s" % (type(ex).__name__, ex), input=inp)
    if bad:
        return dict(why="an unknown line name is accepted", input=inp)
    for k, key in enumerate(("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")):
        if not np.array_equal(np.asarray(getattr(r, key)), before[k]):
            return dict(why="%s changed" % key, input=inp)
    if tuple(r.ssp_emline_wave._fields) != tuple(req):
        return dict(why="names %s, contract says %s" % (r.ssp_emline_wave._fields, req), input=inp)
    ix = [names.index(q) for q in req]
    if not np.array_equal(np.array(r.ssp_emline_wave, float), before[4][ix]):
        return dict(why="wavelengths %s, contract says %s" % (list(map(float, r.ssp_emline_wave)), before[4][ix].tolist()), input=inp)
    L = np.asarray(r.ssp_emline_luminosity)
    if L.shape != before[5][:, :, ix].shape or not np.array_equal(L, before[5][:, :, ix]):
        return dict(why="luminosities %s, contract says %s" % (L.tolist(), before[5][:, :, ix].tolist()), input=inp)
    if any(not np.array_equal(np.asarray(x), y) for x, y in zip(data, before)):
        return dict(why="the input data were modified", input=inp)
    return None


task("subset_emlines", "dsps.data_loaders.load_emline_info:get_subset_emline_data", ["list", "tuple"], setup_subset, conc_subset, nsamples=200,
     assumes=["line names are distinct; the requested names are distinct identifiers (namedtuple rejects others)"])


CLEAN = [("-", "_"), (" ", "_"), (".", "p"), ("[", ""), ("]", "")]


def clean(s):
    """brackets dropped, spaces and hyphens to underscores, dots to 'p'"""
    return s.mapchars(CLEAN)


class LineFile:
    """a text file of lines 'wavelength,name' with white space around"""

    def __init__(self, nl, tag=""):
        self.nl = nl
        at = lambda nm, k, *props: SymStr.atom(T.sel(nm + tag, (k,)), props).parts
        self.wave = lambda k: SymStr(at("W", k, "nocomma", "nolws"))
        self.name = lambda k: SymStr(at("N", k, "nocomma", "norws"))
        self.line = lambda k: SymStr(at("ws_a", k, "ws", "nocomma") + at("W", k, "nocomma", "nolws") + (",",)
                                     + at("N", k, "nocomma", "norws") + at("ws_b", k, "ws", "nocomma"))

    def open(self, ex, fn, mode="r", **kw):
        if mode not in ("r", "rt"):
            raise Unsupported("open mode")
        seq = lambda: PList(ex, [("seq", self.nl, self.line)])
        f = SymObj("text file", {}, {"close": lambda: None, "readlines": seq, "read": lambda: SymObj("text", {}, {
            "splitlines": seq, "strip": None, "split": None})})
        f.iterate = lambda: (self.nl, self.line)
        f.enter = lambda: f
        return f


def setup_readlines(mode):
    from dsps.data_loaders.load_emline_info import read_emlines_info_fsps as f

    nl, p1 = dim("n_line")
    lf = LineFile(nl)
    wv = lambda k: T.fn("float", lf.wave(k).code())
    table = PDict(None, [("seq", nl, lambda k: clean(lf.name(k)), wv)])
    value = table if mode != "testmode" else (table, NArr((nl,), wv))
    args = dict(testmode=True) if mode == "testmode" else {}
    world = lambda ex: World({open: lf.open})
    return ctx_of(p1), world, lambda ex: ex.lib.call(ex, f, [S("fn")], args), [Case("every line under its clean name", [TRUE], "return", value)]


REF_NAMES = ["H alpha 6563", "[OII]3726", "Ly-alpha 1216", "[O III] 5007", "He II 1640", "[S II]6716.4", "[Ne III] 15.55m", "C IV-1548.2",
             "Ba-alpha 6563", "[N II] 6584", "Fe.II.88", "H I (9-8)".replace("(", "").replace(")", ""), "Mg-II 2800", "O-I.6300 [x]", "Pa-7 1.005m"]


def pyclean(s):
    return s.replace("-", "_").replace(" ", "_").replace(".", "p").replace("[", "").replace("]", "")


def write_lines(rng, fn, lines):
    with open(fn, "w") as h:
        h.write("".join("%s%s,%s%s\n" % (rng.choice(["", "", " "]), w, nm, rng.choice(["", "", "  "])) for w, nm in lines))


def conc_readlines(rng, d):
    from dsps.data_loaders.load_emline_info import read_emlines_info_fsps as f

    nl = rng.randint(1, 10)
    lines = list(zip([rng.choice(["%.2f" % rng.uniform(900, 9999), "%d" % rng.randint(900, 99999), "%.4e" % rng.uniform(900, 1e6)]) for _ in range(nl)],
                     rng.sample(REF_NAMES, nl)))
    fn = os.path.join(d, "lines.dat")
    write_lines(rng, fn, lines)
    want = {pyclean(nm): float(w) for w, nm in lines}
    inp = dict(file=open(fn).read())
    try:
        r = f(fn)
        r2, a2 = f(fn, testmode=True)
    except Exception as ex:
        return dict(why="raises %s: %s" % (type(ex).__name__, ex), input=inp)
    for g in (r, r2):
        if dict(g) != want:
            return dict(why="table %s, contract says %s" % (dict(g), want), input=inp)
    if not np.array_equal(np.asarray(a2), [float(w) for w, _ in lines]):
        return dict(why="wavelength array %s, contract says %s" % (a2, [w for w, _ in lines]), input=inp)
    return None


task("read_emlines", "dsps.data_loaders.load_emline_info:read_emlines_info_fsps", ["dict", "testmode"], setup_readlines, conc_readlines, nsamples=100,
     assumes=["the file consists of lines 'wavelength,name' without further commas, with distinct names; float() of the text is a function of the text without surrounding white space"])


# ====================================================================== P25
class FSPS:
    """python-fsps: the results of a population are functions of its settings"""

    def __init__(self):
        self.nz, z1 = dim("n_zlegend")
        self.na, z2 = dim("n_age")
        self.nw, z3 = dim("n_wave")
        self.nl, z4 = dim("n_emline")
        self.facts = [z1, z2, z3, z4]
        self.lines = eq(T.var("fsps.has_lines"), R(1))
        self.lwave = arr("fsps_line_wave", self.nl)

    def grid(self, name, n, extra):
        """a grid of the code may depend on its extra settings"""
        return arr(name, n) if not extra else NArr((n,), lambda k: T.fn("%s%d" % (name, len(extra)), *(tuple(extra) + (k,))))

    zlegend = lambda self, extra: self.grid("zlegend", self.nz, extra)
    log_age = lambda self, extra: self.grid("log_age", self.na, extra)
    wave = lambda self, extra: self.grid("fsps_wave", self.nw, extra)
    positive = lambda self, *extras: [forall(I(0), self.nz, lambda k, x=x: lt(R(0), self.zlegend(x).at(k))) for x in extras]

    def settings(self, kw):
        kw = dict(kw)
        rest = kw.pop("**", None)
        zc = kw.pop("zcontinuous", None)
        if zc is None or pyvc.num(zc) is not I(0):
            raise Unsupported("StellarPopulation without zcontinuous=0")
        zm = pyvc.num(kw.pop("zmet", 1))
        neb = pyvc.num(kw.pop("add_neb_emission", False))
        neb = T.b2r(neb) if neb.sort == "B" else pyvc.real(neb)
        extra = [T.var("kw:" + rest.name)] if rest is not None else []
        for k in sorted(kw):
            extra.append(T.fn("kw:" + k, pyvc.real(kw[k])))
        return (zm, neb) + tuple(extra)

    def flux(self, st):
        return NArr((self.na, self.nw), lambda i, j: T.fn("fsps.flux%d" % len(st), *(st + (i, j))))

    def lum(self, st):
        return NArr((self.na, self.nl), lambda i, j: T.fn("fsps.lum%d" % len(st), *(st + (i, j))))

    def pop(self, st):
        x = st[2:]
        o = SymObj("factory", {"zlegend": self.zlegend(x), "log_age": self.log_age(x), "wavelengths": self.wave(x), "emline_wavelengths": self.lwave})

        def get_spectrum(tage=0, peraa=False, **kw):
            if kw or tage not in (0, 0.0) or peraa is not False:
                raise Unsupported("get_spectrum options")
            return (self.wave(x), self.flux(st))
        o.methods = {"get_spectrum": get_spectrum, "attr:emline_luminosity": lambda: self.lum(st),
                     "rebuild": lambda m: self.pop(tuple(T.subst(x, m) for x in st))}
        o.has = {"emline_luminosity": self.lines}
        return o

    def module(self):
        return SymObj("fsps", {"StellarPopulation": SymObj("class", methods={"__call__": lambda *a, **kw: self.pop(self.settings(kw)) if not a else pylib._uns("positional settings")})})

    def line_names(self, lf):
        """the reference line that agrees to one part in a million"""
        ref = lambda j: T.fn("float", lf.wave(j).code())

        def close(l):
            w = self.lwave.at(l)
            return lambda j: le(pylib.tabs(ref(j) - w), c("1e-6") * pylib.tabs(w))
        unique = forall(I(0), self.nl, lambda l: eq(T.summ(I(0), lf.nl, lambda j: T.b2r(close(l)(j))), R(1)))
        # (which implies that some reference line agrees)
        unique = and_(unique, forall(I(0), self.nl, lambda l: T.exists(I(0), lf.nl, close(l))))
        name = lambda l: clean(SymStr.atom(T.summ(I(0), lf.nl, lambda j: ite(close(l)(j), lf.name(j).code(), R(0)))))
        return name, unique

    def data(self, neb, extra, lf, lines):
        from dsps.data_loaders.defaults import SSPData

        st = lambda k: (k + 1, neb) + tuple(extra)
        v = [NArr((self.nz,), lambda k: T.log10(self.zlegend(extra).at(k))), NArr((self.na,), lambda i: self.log_age(extra).at(i) - 9), self.wave(extra),
             NArr((self.nz, self.na, self.nw), lambda k, i, j: self.flux(st(k)).at(i, j))]
        if not lines:
            return SSPData(*v)
        name, _ = self.line_names(lf)
        return SSPData(*v, SNT(SNTClass(SeqV(self.nl, name)), SeqV(self.nl, lambda l: self.lwave.at(l))),
                       NArr((self.nz, self.na, self.nl), lambda k, i, j: self.lum(st(k)).at(i, j)))


def setup_retrieve(mode):
    from dsps.data_loaders import retrieve_fsps_data as mod

    fs = FSPS()
    nref, p1 = dim("n_reference_lines")
    lf = LineFile(nref, "_ref")
    _, unique = fs.line_names(lf)
    neb = T.var("add_neb_emission")
    extra = [T.var("kw:kwargs")] if "kwargs" in mode else []
    facts = fs.facts + [p1, unique] + fs.positive([], extra)
    kw = {}
    if "neb" in mode:
        kw["add_neb_emission"] = neb
    else:
        neb = R(1)
    rest = pyvc.SymKw("kwargs") if "kwargs" in mode else None
    world = lambda ex: World({open: lf.open}, glob={mod.__name__: {"fsps": fs.module(), "HAS_FSPS": True}})
    cases = [Case("with lines", [fs.lines], "return", fs.data(neb, extra, lf, True)),
             Case("without lines", [not_(fs.lines)], "return", fs.data(neb, extra, lf, False))]
    return ctx_of(*facts), world, lambda ex: ex.lib.call(ex, mod.retrieve_ssp_data_from_fsps, [], kw, rest), cases


class StubFSPS:
    """stand-in for python-fsps with random results that depend on every setting"""

    def __init__(self, rng):
        r = np.random.RandomState(rng.randrange(2**31))
        self.nz, self.na, self.nw = r.randint(1, 5), r.randint(1, 5), r.randint(1, 6)
        self.zlegend = np.sort(r.uniform(1e-4, 0.05, self.nz))
        self.log_age = np.sort(r.uniform(5, 10.3, self.na))
        self.wave = np.sort(r.uniform(90, 1e5, self.nw))
        self.lines = rng.random() < 0.7
        self.ref = []
        with open("/repo/dsps/data/emlines_info.dat") as h:
            for line in h:
                w, nm = line.strip().split(",")
                self.ref.append((float(w), nm))
        ws = np.array([w for w, _ in self.ref])
        names = [pyclean(nm) for _, nm in self.ref]
        good = [j for j, w in enumerate(ws) if (np.abs(ws - w) <= 1e-5 * w).sum() == 1 and names.count(names[j]) == 1 and names[j].isidentifier()]
        self.sel = sorted(rng.sample(good, rng.randint(1, 8)))
        if rng.random() < 0.3:
            rng.shuffle(self.sel)
        self.lwave = ws[self.sel] * (1 + r.uniform(-9e-7, 9e-7, len(self.sel)) * rng.choice([0, 1]))
        self.lnames = [names[j] for j in self.sel]
        self.calls = []

    def values(self, kw, what, shape):
        import zlib
        r = np.random.RandomState(zlib.crc32(repr((what, sorted(kw.items()))).encode()))
        return r.uniform(1e-3, 1, shape)

    def grids(self, kw):
        """the grids may depend on the extra settings, not on the metallicity or the nebular emission"""
        kw = {k: v for k, v in kw.items() if k not in ("zcontinuous", "zmet", "add_neb_emission")}
        f = 1 + self.values(kw, "grid", 3) if kw else np.ones(3)
        return self.zlegend * f[0], self.log_age * f[1], self.wave * f[2]

    def module(self):
        import types
        st = self

        class StellarPopulation:
            def __init__(self, **kw):
                self.kw = dict(kw)
                self.kw.setdefault("zmet", 1)
                self.kw.setdefault("add_neb_emission", False)
                self.zlegend, self.log_age, self.wavelengths = st.grids(self.kw)
                self.emline_wavelengths = np.array(st.lwave)
                if st.lines:
                    self.emline_luminosity = st.values(self.kw, "lum", (st.na, len(st.lwave)))

            def get_spectrum(self, tage=0, peraa=False):
                return np.array(self.wavelengths), st.values(self.kw, "flux%s%s" % (tage, peraa), (st.na, st.nw))
        m = types.ModuleType("fsps")
        m.StellarPopulation = StellarPopulation
        return m

    def want(self, neb, kw):
        base = dict(zcontinuous=0, add_neb_emission=neb, **kw)
        each = [dict(base, zmet=k + 1) for k in range(self.nz)]
        zlegend, log_age, wave = self.grids(kw)
        d = dict(ssp_lgmet=np.log10(zlegend), ssp_lg_age_gyr=log_age - 9, ssp_wave=wave,
                 ssp_flux=np.array([self.values(e, "flux0False", (self.na, self.nw)) for e in each]))
        if self.lines:
            d.update(ssp_emline_name=self.lnames, ssp_emline_wave=self.lwave,
                     ssp_emline_luminosity=np.array([self.values(e, "lum", (self.na, len(self.lwave))) for e in each]))
        return d


class patched:
    def __init__(self, stub):
        from dsps.data_loaders import retrieve_fsps_data as mod
        self.mod, self.stub = mod, stub

    def __enter__(self):
        self.old = {k: getattr(self.mod, k, None) for k in ("fsps", "HAS_FSPS")}
        self.oldm = sys.modules.get("fsps")
        self.mod.fsps = sys.modules["fsps"] = self.stub.module()
        self.mod.HAS_FSPS = True

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                self.mod.__dict__.pop(k, None)
            else:
                setattr(self.mod, k, v)
        if self.oldm is None:
            sys.modules.pop("fsps", None)
        else:
            sys.modules["fsps"] = self.oldm


def random_kw(rng):
    kw = {}
    for k in ("sfh", "imf_type", "dust_type"):
        if rng.random() < 0.3:
            kw[k] = rng.randint(0, 4)
    for k in ("gas_logz", "gas_logu", "logzsol"):
        if rng.random() < 0.3:
            kw[k] = rng.choice([0.0, -1.5, rng.uniform(-3, 1)])
    return kw


def conc_retrieve(rng, d):
    from dsps.data_loaders import retrieve_fsps_data as mod

    st = StubFSPS(rng)
    kw = random_kw(rng)
    neb = rng.choice([None, True, False])
    args = dict(kw) if neb is None else dict(kw, add_neb_emission=neb)
    w = st.want(True if neb is None else neb, kw)
    inp = dict(settings=args, provides_lines=st.lines, code=lists(w))
    with patched(st):
        try:
            r = mod.retrieve_ssp_data_from_fsps(**args)
        except Exception as ex:
            return dict(why="raises %s: %s" % (type(ex).__name__, ex), input=inp)
    x = differs(r, w, 1.0)
    return dict(why=x, input=inp) if x else None


task("retrieve_fsps", "dsps.data_loaders.retrieve_fsps_data:retrieve_ssp_data_from_fsps", ["default", "neb", "kwargs", "neb+kwargs"], setup_retrieve, conc_retrieve,
     nsamples=60, assumes=["python-fsps: the grids (zlegend, log_age, wavelengths) are functions of the extra settings alone, the line wavelengths the same for every population; spectra and line luminosities are functions of the settings",
                           "every emission line wavelength agrees with exactly one reference wavelength to one part in a million"])


SCRIPT = "/repo/scripts/write_fsps_data_to_disk.py"


def setup_script(mode):
    import argparse
    import ast
    from dsps.data_loaders import retrieve_fsps_data as mod
    from dsps.data_loaders.load_ssp_data import load_ssp_templates
    from dsps.data_loaders.defaults import SSPData

    fs = FSPS()
    lf = LineFile(I(1), "_x")
    lines = "lines" in mode
    name = lambda l: SymStr.atom(T.sel("emline_name", (l,)))
    unique = forall(I(0), fs.nl, lambda i: forall(I(0), fs.nl, lambda j: or_(not_(eq(T.sel("emline_name", (i,)), T.sel("emline_name", (j,)))), eq(i, j))))
    facts = fs.facts + [unique]
    out = S("outname")
    given = {k: T.var("arg:" + k) for k in ("gas_logz", "gas_logu") if k in mode}

    def data(kw, scale):
        extra = [T.fn("kw:" + k, pyvc.real(kw[k])) for k in sorted(kw)]
        d = fs.data(R(1), extra, lf, False)
        if lines:
            full = NArr((fs.nz, fs.na, fs.nl), lambda k, i, j: fs.lum((k + 1, R(1)) + tuple(extra)).at(i, j) * scale)
            d = d._replace(ssp_emline_wave=SNT(SNTClass(SeqV(fs.nl, name)), SeqV(fs.nl, lambda l: fs.lwave.at(l))), ssp_emline_luminosity=full)
        return d

    def world(ex):
        files = {}

        def parser(ex, *a, **k):
            opts = {}

            def add_argument(*names, **kw):
                nm = kw.get("dest") or [x for x in names if x.startswith("--") or not x.startswith("-")][0].lstrip("-").replace("-", "_")
                if kw.get("action") is not None or kw.get("nargs") is not None:
                    raise Unsupported("argparse action")
                opts[nm] = kw

            def parse_args():
                vals = {}
                for nm, kw in opts.items():
                    if nm == "outname":
                        vals[nm] = out
                    elif nm in given:
                        if kw.get("type") is not float:
                            raise Unsupported("type of option %s" % nm)
                        vals[nm] = given[nm]
                    else:
                        vals[nm] = kw.get("default")
                return SymObj("arguments", vals)
            return SymObj("parser", {}, {"add_argument": add_argument, "parse_args": parse_args})

        def retrieve(ex, add_neb_emission=True, **kw):
            if add_neb_emission is not True or "**" in kw:
                raise Unsupported("script passes other settings")
            return data(kw, R(1))

        def h5file(ex, fn, mode="r", **kw):
            key = pyvc.as_sym(fn).code()
            if mode == "w":
                files[key] = {}
            elif mode in ("a", "r+"):
                files.setdefault(key, {})
            if key not in files:
                raise PyRaise(OSError, "no such file")
            store = files[key]

            def put(k, v=None, data=None, **kw):
                if kw:
                    raise Unsupported("dataset options")
                v = data if v is None else v
                if v is None:
                    raise PyRaise(TypeError, "None cannot be stored")
                if mode == "r":
                    raise PyRaise(OSError, "read only")
                if k in store:
                    raise PyRaise(ValueError, "dataset exists")
                a = ex.lib.arr(ex, v)
                if a.kind == "S":
                    g = a.f
                    a = NArr(a.shape, lambda *i: SymStr([(q[0], (q[1] - {"bytes"}) | {"bytes"}, q[2]) for q in g(*i).parts]), "S")
                store[k] = a

            def dataset(k):
                if k not in store:
                    raise PyRaise(KeyError, k)
                a = store[k]
                o = SymObj("dataset", {"shape": tuple(a.shape)}, {"asarray": lambda: a})
                o.getitem = lambda ix: a if (ix is Ellipsis or ix == () or ix == slice(None)) else ex.lib.arr_index(ex, a, ix)
                o.iterate = lambda: (a.shape[0], lambda k: pyvc.subarr(a, k))
                return o
            f = SymObj("h5 file", {}, {"close": lambda: None, "create_dataset": lambda name, **kw: put(name, **kw), "keys": lambda: keys,
                                       "flush": lambda: None})
            keys = SymObj("keys")
            keys.contains = f.contains = lambda k: k in store
            f.getitem, f.setitem = dataset, lambda k, v: put(k, v)
            f.enter = lambda: f
            return f
        return World({argparse.ArgumentParser: parser, mod.retrieve_ssp_data_from_fsps: retrieve, h5py.File: h5file,
                      os.path.isfile: lambda ex, p: pyvc.as_sym(p).code() in files})

    def run(ex):
        with open(SCRIPT) as h:
            tree = ast.parse(h.read())
        env = pyvc.Env({"__name__": "__main__", "__file__": SCRIPT, "__package__": None})
        ev = pyvc.Eval(ex, env)
        ex.functions["scripts/write_fsps_data_to_disk.py:__main__"] = 1
        ev.block(tree.body)
        return ex.lib.call(ex, load_ssp_templates, [], dict(fn=out))
    return ctx_of(*facts), world, run, [Case("round trip", [TRUE], "return", data(given, L_SUN))]


def conc_script(rng, d):
    import runpy
    from dsps.data_loaders.load_ssp_data import load_ssp_templates

    st = StubFSPS(rng)
    kw = {k: rng.choice([0.0, -1.5, round(rng.uniform(-3, 1), 3)]) for k in ("gas_logz", "gas_logu") if rng.random() < 0.6}
    out = os.path.join(d, "out.h5")
    argv = sys.argv
    inp = dict(arguments=["OUT"] + ["--%s %s" % kv for kv in kw.items()], provides_lines=st.lines, code=lists(st.want(True, kw)))
    with patched(st):
        try:
            sys.argv = [SCRIPT, out] + ["--%s=%s" % kv for kv in kw.items()]
            runpy.run_path(SCRIPT, run_name="__main__")
            r = load_ssp_templates(fn=out)
        except (Exception, SystemExit) as ex:
            return dict(why="raises %s: %s" % (type(ex).__name__, ex), input=inp)
        finally:
            sys.argv = argv
    x = differs(r, st.want(True, kw))
    return dict(why=x, input=inp) if x else None


task("write_script", "scripts/write_fsps_data_to_disk.py:__main__ + dsps.data_loaders.load_ssp_data:load_ssp_templates",
     [" ".join(filter(None, (a, b, e))) or "plain" for a in ("", "gas_logz") for b in ("", "gas_logu") for e in ("", "lines")], setup_script, conc_script, nsamples=60,
     assumes=["argparse and h5py behave as documented; retrieve_ssp_data_from_fsps by its own contract (retrieve_fsps)"])
