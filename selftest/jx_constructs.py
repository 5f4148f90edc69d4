"""Translation validation of the extraction: each construct below is traced with symbolic lengths, the resulting
terms are evaluated for several concrete lengths and compared with what JAX computes.

    /opt/venv/bin/python selftest/jx_constructs.py [-v] [substring]

Lists constructs the extraction does not support (a check that meets one reports it as such) and, as failures,
constructs whose meaning it gets wrong (there must be none)."""
import os
import sys

os.environ.update(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
from dv import jx

jx.setup_jax()
import jax
import jax.numpy as jnp
from jax import lax, nn, vmap, jit
from dv import terms as T, nume, prover as P

F = {}
# arguments: x, y vectors of length n (y increasing), m a matrix (n, k), s a scalar
V = """
x + y; x - s; x * y / s; x / y; -x; x ** 2; x ** 3; x ** -1; y ** s; y ** 0.5; y ** 1.5; 10 ** x; jnp.power(10.0, x); jnp.float_power(y, 2)
jnp.exp(x); jnp.expm1(x); jnp.exp2(x); jnp.log(y); jnp.log10(y); jnp.log2(y); jnp.log1p(y); jnp.sqrt(y); jnp.cbrt(y); jnp.square(x)
jnp.reciprocal(y); jnp.abs(x); jnp.sign(x); jnp.tanh(x); jnp.sinh(x); jnp.cosh(x); nn.sigmoid(x); jax.scipy.special.expit(x)
jnp.logaddexp(x, y); nn.softplus(x); nn.relu(x); jnp.hypot(x, y); jnp.maximum(x, y); jnp.minimum(x, s); jnp.clip(x, -0.5, 0.5)
jnp.clip(x, -0.5); jnp.where(x > 0, x, y); jnp.where((x > 0) & (y < 2), x, s); jnp.where(~(x > s), x, 0.0); lax.select(x > 0, x, y)
jnp.select([x < -0.5, x < 0.5], [x, y], 1.0); jnp.piecewise(x, [x < 0, x >= 0], [lambda q: -q, lambda q: q * q])
(x > 0) * y; (x > 0).astype(float) * y; jnp.heaviside(x, 0.5); jnp.floor(x); jnp.ceil(x); jnp.round(x); jnp.nan_to_num(x); jnp.isnan(x) * 1.0
jnp.sum(x); x.sum(); jnp.mean(x); x.mean(); jnp.average(x, weights=y); jnp.var(x); jnp.std(x); jnp.prod(y[:3]); jnp.max(x); jnp.min(x); jnp.ptp(x)
jnp.any(x > 1) * 1.0; jnp.all(x > -9) * 1.0; jnp.count_nonzero(x > 0) * 1.0; jnp.cumsum(x); jnp.cumprod(y); jnp.cumsum(x)[::-1]; jnp.cumsum(x[::-1])[::-1]
jnp.diff(x); jnp.diff(x, prepend=x[0]); jnp.diff(x, append=0.0); jnp.ediff1d(x); jnp.gradient(x); jnp.roll(x, 1); jnp.roll(x, -2); jnp.flip(x); x[::-1]
x[1:]; x[:-1]; x[1:-1]; x[0]; x[-1]; x[2]; x[::2]; x[-2:]; x[:2]; jnp.take(x, 1); jnp.take(x, jnp.array([0, 1])); x[jnp.array([0, 2, 1])]; x[jnp.arange(2)]
jnp.concatenate((x, y)); jnp.concatenate((jnp.zeros(1), x)); jnp.append(x, s); jnp.hstack((s, x)); jnp.insert(x, 0, s); jnp.insert(x, 1, 3.0); jnp.pad(x, 1); jnp.pad(x, (1, 0))
jnp.pad(x, (0, 1), mode='edge'); jnp.pad(x, (1, 2), constant_values=7.0); jnp.r_[s, x]; jnp.stack((x, y)); jnp.vstack((x, y)); jnp.column_stack((x, y)); jnp.array([x, y])
jnp.stack((x, y), axis=1); jnp.array([s, 2 * s]); jnp.atleast_1d(s); jnp.atleast_2d(x); jnp.expand_dims(x, 1); x[:, None] * y[None, :]; jnp.outer(x, y); jnp.multiply.outer(x, y)
jnp.dot(x, y); jnp.vdot(x, y); jnp.inner(x, y); x @ y; m.T @ x; x @ m; jnp.matmul(m, m.T); jnp.einsum('i,ij->j', x, m); jnp.einsum('i,i', x, y); jnp.einsum('ij,ik->jk', m, m)
jnp.tensordot(x, m, axes=(0, 0)); jnp.tensordot(m, m, axes=((0, 1), (0, 1))); jnp.kron(x, y); jnp.linalg.norm(x); jnp.sum(m, axis=0); jnp.sum(m, axis=1); m.sum(); jnp.mean(m, axis=1)
jnp.sum(m, axis=(0, 1)); m.sum(axis=-1, keepdims=True) * m; m / m.sum(axis=0); jnp.swapaxes(m, 0, 1); m.T; jnp.transpose(m); jnp.moveaxis(m, 0, 1); m.reshape(-1); m.ravel(); m.flatten()
jnp.ravel(m)[1:]; m.reshape((-1, m.shape[1], 1)); x.reshape((-1, 1)); x.reshape((1, x.size)); jnp.squeeze(x[:, None]); jnp.reshape(m, (m.shape[1] * m.shape[0],)); m.reshape(-1).reshape(m.shape); m.ravel().sum(); x[x.size - 1]; m[m.shape[0] - 1]; m[m.shape[0] - 2, 1:]; m[:, m.shape[1] - 1]; x.at[x.size - 1].set(s); jnp.eye(x.size)[x.size - 1]; jnp.select([x > 1, x > 0, x > -1], [x, y, 2 * x], s * x);  jnp.where((y >= y[0]) & (s <= y[-1]), jnp.interp(s, y, x), 3.0); jnp.where((x >= y[0]) & (x <= y[-1]) & (x > 0.3), jnp.interp(x, y, x), 3.0); jnp.where(x < y[0], -7.0, jnp.where(x > y[-1], 5.0, jnp.interp(x, y, x))); jnp.where((x < y[0]) | (x > y[-1]), 2.0, jnp.interp(x, y, x)); jnp.where(x <= y[0], 2.0, jnp.interp(x, y, x)); jax.lax.map(lambda v: v * y.sum(), x); jax.lax.map(lambda v: jnp.interp(v[0], y, x), m);  jnp.sum(m.ravel() * (2 * m).ravel()); m.ravel() @ jnp.ravel(m + 1); m.ravel() @ (m[:, :, None] * x).reshape((-1, x.size)); (m[:, :, None] * x).sum(axis=2).ravel().sum(); (m[:, :, None] * x).ravel().sum(); jnp.cumsum(m.ravel()); (m[:, :, None] * x).reshape((m.shape[0], -1)); (m[:, :, None] * x).reshape((m.shape[0], -1)).sum(axis=1)
jnp.broadcast_to(x, (3,) + x.shape); jnp.tile(x, 2); jnp.repeat(x, 2); jnp.repeat(x[:, None], 3, axis=1); jnp.ones_like(x) * s; jnp.zeros_like(x); jnp.full_like(x, s); jnp.full(x.shape, s); jnp.ones(x.size)
jnp.zeros(x.shape[0] + 1).at[0].set(s).at[1:].set(x); x.at[0].set(s); x.at[-1].set(0.0); x.at[1:].add(1.0); x.at[:-1].multiply(2.0); x.at[0].add(s); x.at[1:-1].set(y[2:]); jnp.zeros(x.size).at[:].set(x)
x.at[0].get(); m.at[0].set(x[0]); m.at[:, 0].set(x); m.at[0, :].set(0.0); m[:, 0]; m[0]; m[-1]; m[0, 1]; m[..., 0]; m[1:, :]; m[:, ::-1]; m[:, jnp.array([1, 0])]; lax.dynamic_slice(x, (1,), (2,))
jnp.arange(x.size) * 1.0; jnp.arange(5) * s; jnp.arange(x.size)[::-1] * x; jnp.linspace(0, 1, 7); jnp.linspace(0, s, 7); jnp.linspace(x, y, 4); jnp.logspace(0, s, 5); jnp.geomspace(1.0, 10.0, 4); jnp.linspace(s, 2 * s, x.size)
jnp.polyval(jnp.array([1.0, 2.0, 3.0]), x); jnp.polyval([1.0, s, 3.0], x); jnp.vander(x, 3); jnp.trapezoid(x, y); jnp.trapezoid(x); jnp.trapezoid(m, y, axis=0); jnp.trapezoid(m.T, y); jnp.interp(s, y, x); jnp.interp(x, y, x * y); jnp.interp(x, y, x, left=0.0, right=1.0)
vmap(lambda q: q * s)(x); vmap(jnp.sum)(m); vmap(lambda a, b: a * b.sum())(x, m); vmap(lambda a: a * m)(x); vmap(vmap(lambda a: a + 1))(m); vmap(lambda a, b: a + b, in_axes=(0, None))(x, s); vmap(lambda a: jnp.interp(s, y, a), in_axes=1)(m)
lax.scan(lambda c, a: (c + a, c * a), 0.0, x)[1]; lax.scan(lambda c, a: (c + a, c), s, x)[0]; lax.scan(lambda c, a: (a, c), 1.0, x)[1]; lax.map(lambda a: a * 2, x); lax.fori_loop(0, 3, lambda i, c: c + i * s, 0.0); lax.fori_loop(0, 3, lambda i, c: c + x[i], 0.0)
lax.cond(s > 0, lambda a: a + 1, lambda a: a - 1, x); lax.switch(1, [lambda a: a, lambda a: -a], x); lax.cumsum(x); lax.cumsum(x, reverse=True); lax.rev(x, (0,)); lax.associative_scan(jnp.add, x); lax.associative_scan(lambda a, b: b + a, m, axis=1, reverse=True); lax.associative_scan(jnp.maximum, x); lax.fori_loop(0, x.size, lambda i, c: c + x[i] * y[i], 0.0); lax.fori_loop(1, x.size - 1, lambda i, c: c + x[i + 1] * (y[i] - y[i - 1]), s); lax.while_loop(lambda c: c[0] < x.size, lambda c: (c[0] + 1, c[1] + x[c[0]] * s), (0, s))[1]; lax.while_loop(lambda c: 2 >= c[0], lambda c: (c[0] + 1, c[1] + x[c[0]] * s), (-1, s))[1]; lax.while_loop(lambda c: c[1] < 10.0, lambda c: (c[0] + 1, c[1] + 1.0), (0, s))[1]; lax.fori_loop(0, x.size, lambda i, c: c.at[i].set(x[i] + s), jnp.zeros(x.size)); lax.fori_loop(0, x.size - 1, lambda i, c: c.at[i + 1].add(x[i] * s), jnp.ones(x.size)); lax.fori_loop(0, m.shape[0], lambda i, c: c.at[i].set(x[i] + m[i]), 3 * m); lax.fori_loop(0, m.shape[1], lambda i, c: c.at[0, i].set(s + m[1, i]), m); lax.fori_loop(0, x.size, lambda i, c: c.at[x.size - 1 - i].set(x[i]), y); lax.fori_loop(0, x.size - 1, lambda i, c: c.at[i + 1].set(c[i] + x[i]), y); lax.fori_loop(1, x.size, lambda i, c: c.at[i].set(c[i - 1] + x[i - 1] * y[i]), jnp.ones(x.size));  lax.fori_loop(1, m.shape[1], lambda i, c: c.at[:, i].set(c[:, i - 1] + m[:, i]), m);  lax.scan(lambda c, i: (c.at[i].set(s * x[i]), 0.0), y, jnp.arange(x.size))[0]; lax.fori_loop(0, x.size, lambda i, c: c.at[:, i].set(m[i] * x[i]), m.T); lax.fori_loop(0, m.shape[0], lambda i, c: c + m[i] * s, jnp.zeros(m.shape[1]))
jnp.searchsorted(y, s) * 1.0; jnp.argmax(x) * 1.0; jnp.argmin(x) * 1.0; jnp.sort(x); jnp.argsort(x) * 1.0; jnp.median(x); jnp.digitize(x, y) * 1.0; jnp.take_along_axis(m, jnp.array([[0]]), axis=1); jnp.nansum(x); jnp.percentile(x, 50)
jnp.real(x); jnp.fabs(x); jnp.negative(x); jnp.add(x, y); jnp.subtract(x, y); jnp.multiply(x, y); jnp.divide(x, y); jnp.true_divide(x, y); jnp.mod(x, 2.0); jnp.floor_divide(x, 2.0); jnp.fmax(x, y); jnp.fmin(x, y); jnp.deg2rad(x); jnp.radians(x)
jnp.exp(x).astype('float32').astype(float); jnp.asarray(x, dtype='f8'); jnp.float64(s) * x; lax.log(y); lax.exp(x); lax.pow(y, 2.0 + 0 * x); lax.integer_pow(x, 4); lax.rsqrt(y); lax.div(x, y); lax.sub(x, y); lax.max(x, y); lax.clamp(-0.5, x, 0.5); lax.logistic(x); lax.square(x); lax.expand_dims(x, (0,)); lax.broadcast(x, (2,)); lax.reduce(x, 0.0, lax.add, (0,)); lax.dot(x, y); lax.concatenate((x, y), 0); lax.full_like(x, 2.0); lax.stop_gradient(x)
jnp.eye(3) * s; jnp.diag(x); jnp.diagonal(jnp.outer(x, x)); jnp.trace(jnp.outer(x, x)); jnp.triu(jnp.outer(x, y)); jnp.tril(jnp.outer(x, y)); jnp.cross(x[:3], y[:3]); jnp.convolve(x, jnp.array([1.0, 1.0]), 'valid'); jnp.meshgrid(x, y)[0]; jnp.meshgrid(x, y, indexing='ij')[1]
jnp.split(x[:4], 2)[1]; jnp.array_split(x[:4], 2)[0]; jnp.delete(x, 0); jnp.delete(x, -1); jnp.apply_along_axis(jnp.sum, 1, m); jnp.vectorize(lambda a, b: a * b)(x, y); jnp.isclose(x, y) * 1.0; jnp.logical_and(x > 0, y > 0) * 1.0; jnp.logical_not(x > 0) * 1.0; (x == y) * 1.0; (x != y) * 1.0
jax.nn.softmax(x); jax.nn.logsumexp(x); jax.scipy.special.logsumexp(x); jax.scipy.special.erf(x); jnp.sin(x); jnp.cos(x); jnp.arctan(x); jax.nn.one_hot(1, 4) * s; jnp.where(jnp.arange(x.size) == 0, s, x); jnp.where(jnp.arange(x.size) < x.size - 1, x, 0.0); jnp.arange(x.size) == x.size - 1
sum([x, y]); sum([x[i] for i in range(3)]); len(x) * s; x.size * s; x.shape[0] * s; x.mean() * len(y); jnp.size(x) * s; jnp.shape(x)[0] * s; float(2) * x; x.T; x.astype(float); x.copy(); jnp.copy(x); jit(lambda a: a + 1)(x); jax.checkpoint(lambda a: a * 2)(x); jax.grad(lambda q: q ** 3)(s); vmap(jax.grad(lambda q: jnp.exp(-q * q)))(x)
""".replace("\n", ";")
FAILS, UNSUP, OKS = [], [], []


def one(src):
    f = eval("lambda x, y, m, s: " + src, globals())
    sd = jx.symdims(["n", "k"], ["n>=4", "k>=2"])
    n, k = sd["n"], sd["k"]
    av = [jax.ShapeDtypeStruct(sh, np.float64) for sh in ((n,), (n,), (n, k), ())]
    T.DIM_LB.clear()
    T.DIM_LB[T.var("dim:n", "I")] = 4
    T.DIM_LB[T.var("dim:k", "I")] = 2
    try:
        cj = jx.trace(f, *av)
        it = jx.Interp()
        ins = []
        for nm, a in zip("xyms", av):
            if not a.shape:
                ins.append(jx.Arr((), "float64", lambda nm=nm: T.var(nm, "R")))
            else:
                ins.append(jx.Arr([jx.dim2term(d) for d in a.shape], "float64", lambda *i, nm=nm: T.sel(nm, i)))
        outs = it.run_closed(cj, ins)
    except Exception as ex:
        return None, "%s: %s" % (type(ex).__name__, str(ex).split("\n")[0][:110])
    rng = np.random.default_rng(3)
    for nn_, kk in ((4, 2), (5, 3), (7, 2)):
        vals = dict(x=rng.normal(size=nn_), y=np.sort(np.exp(rng.normal(size=nn_))), m=rng.normal(size=(nn_, kk)), s=abs(rng.normal()) + 0.2)
        want = np.asarray(f(*[jnp.asarray(vals[q]) for q in "xyms"]), float)
        o = outs[0]
        ev = nume.Eval({q: vals[q] for q in "xym"}, {"s": vals["s"], "dim:n": nn_, "dim:k": kk})
        try:
            shape = tuple(int(np.asarray(ev.term(d))) for d in o.shape)
            if shape != want.shape:
                return False, "shape %s, JAX %s" % (shape, want.shape)
            idx = [T.fresh("i") for _ in o.shape]
            t = o.at(*idx)
            if any(a.op in ("sel", "var") and str(a.args[0]).startswith("opaque:") for a in walk(t)):
                return None, "opaque: " + ",".join(sorted({a.args[0] for a in walk(t) if a.op in ("sel", "var") and str(a.args[0]).startswith("opaque:")}))
            if t.sort == "B":
                t = T.ite(t, T.R(1), T.R(0))
            got = np.asarray(ev.over(lambda *i: T.subst(t, dict(zip(idx, i))) if idx else t, shape), float)
        except (nume.Undef, KeyError) as ex:
            return None, "evaluation: %s %s" % (type(ex).__name__, str(ex)[:80])
        if not np.allclose(got, want, rtol=1e-12, atol=1e-12, equal_nan=True):
            w = T.ite(o.wd(*idx), T.R(1), T.R(0))
            try:
                ok = np.asarray(ev.over(lambda *i: T.subst(w, dict(zip(idx, i))) if idx else w, shape), float) == 1
                if np.allclose(np.where(ok, got, 0), np.where(ok, want, 0), rtol=1e-12, atol=1e-12):
                    return None, "well-definedness condition stricter than needed"
            except (nume.Undef, KeyError):
                pass
            return False, "n=%d: %s, JAX %s" % (nn_, got.ravel()[:4], want.ravel()[:4])
    return True, ""


def walk(t, seen=None):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        st += [a for a in u.args if isinstance(a, T.Term)]


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    srcs = []
    depth, cur = 0, ""
    for ch in V:
        if ch == ";" and depth == 0:
            if cur.strip():
                srcs.append(cur.strip())
            cur = ""
            continue
        depth += ch in "([{"
        depth -= ch in ")]}"
        cur += ch
    for s in srcs:
        if sel and not any(q in s for q in sel):
            continue
        try:
            r, why = one(s)
        except Exception as ex:
            r, why = False, "%s %s" % (type(ex).__name__, str(ex)[:200])
        (OKS if r else UNSUP if r is None else FAILS).append(s)
        if r is None:
            print("unsupported  %-50s %s" % (s, why))
        elif not r:
            print("WRONG        %-50s %s" % (s, why))
        elif "-v" in sys.argv:
            print("ok           %s" % s)
    print("%d constructs translated faithfully, %d unsupported, %d wrong" % (len(OKS), len(UNSUP), len(FAILS)))
    return 1 if FAILS else 0


if __name__ == "__main__":
    sys.exit(main())
