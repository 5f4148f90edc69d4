"""Integer-valued arguments: the proofs read the arguments as reals, but a caller may pass integer
arrays (years, redshifts, metallicities), which JAX computes with integer types.

Obligation `integer_arguments`: for every non-empty set of arguments tried (each one alone and all together), the program traced with
integer types is the program traced with float types, up to conversions of integers to floats
and exact integer arithmetic (+, -, *, comparisons, sums, structure).  An integer division, an
integer power, or a float rounded to an integer stays visible and makes the two differ.
The comparison is congruence of the two dataflow graphs (hash-consed).

Where the graphs differ nothing is proved; the difference is then tested by sampling
(bounded), and only a sampled input on which the real code deviates is reported."""
import numpy as np

EXACT = {"add", "sub", "mul", "neg", "max", "min", "abs", "sign", "reduce_sum", "reduce_max", "reduce_min", "reduce_prod",
         "cumsum", "cumprod", "cummax", "cummin", "dot_general", "square", "clamp", "select_n", "lt", "le", "gt", "ge", "eq", "ne",
         "broadcast_in_dim", "reshape", "squeeze", "expand_dims", "transpose", "slice", "rev", "concatenate", "pad", "copy", "copy_p",
         "gather", "scatter", "scatter_add", "scatter-add", "scatter_mul", "scatter_min", "scatter_max", "dynamic_slice",
         "dynamic_update_slice", "sort", "add_any", "split", "select_and_gather_add", "stop_gradient", "mul_any", "diff"}
KEEPS_SIGN = {"add", "mul", "broadcast_in_dim", "reshape", "squeeze", "expand_dims", "transpose", "slice", "rev", "copy", "copy_p", "concatenate"}
INLINE = {"pjit", "jit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "remat", "checkpoint",
          "custom_vjp_call_jaxpr", "remat2"}
DROP = {"sharding", "weak_type", "new_dtype", "dtype", "preferred_element_type", "out_sharding", "name", "inline", "keep_unused",
        "donated_invars", "in_shardings", "out_shardings", "in_layouts", "out_layouts", "ctx_mesh", "compiler_options_kvs", "resource_env",
        "jvp_jaxpr_fun", "jvp_jaxpr_thunk", "fwd_jaxpr_thunk", "bwd", "num_consts", "symbolic_zeros", "update_jaxpr", "update_consts"}


class Graph:
    def __init__(self):
        self.tab = {}
        self.nonneg = set()

    def node(self, *key):
        i = self.tab.setdefault(key, len(self.tab))
        if key[0] in ("iota", "lit", "const") or key[0] in KEEPS_SIGN:
            if key[0] == "iota" or key[0] == "lit" and key[1] >= 0 or key[0] == "const" and len(key) == 3 and (np.frombuffer(key[2]) >= 0).all() \
                    or key[0] in KEEPS_SIGN and all(k in self.nonneg for k in key[2:]):
                self.nonneg.add(i)
        return i


def _jx(p):
    return (p.jaxpr, p.consts) if hasattr(p, "jaxpr") else (p, ())


def isint(av):
    d = getattr(av, "dtype", None)
    try:
        return d is not None and np.dtype(d).kind in "iu"
    except TypeError:
        return False


class Walker:
    """values are (node, tainted): tainted = of an integer type and computed from the arguments"""

    def __init__(self, g):
        self.g = g

    def closed(self, cj, ins):
        return self.run(cj.jaxpr, cj.consts, ins)

    def const(self, x):
        a = np.asarray(x)
        if a.dtype.kind in "iufb":
            v = a.astype(np.float64)
            if a.ndim == 0:
                return self.g.node("lit", float(v), a.dtype.kind == "b"), False
            return self.g.node("const", v.shape, v.tobytes()), False
        return self.g.node("const", str(a.dtype), a.shape, repr(a)), False

    def run(self, jp, consts, ins):
        from jax.extend import core

        env = {}
        rd = lambda v: self.const(np.asarray(v.val)) if isinstance(v, core.Literal) else env[v]
        for v, x in zip(jp.constvars, consts):
            try:
                env[v] = self.const(x)
            except Exception:
                env[v] = (self.g.node("opaque", id(x)), False)
        for v, x in zip(jp.invars, ins):
            env[v] = x
        for e in jp.eqns:
            outs = self.eqn(e, [rd(v) for v in e.invars])
            for v, x in zip(e.outvars, outs):
                env[v] = x
        return [rd(v) for v in jp.outvars]

    def params(self, e):
        out = []
        for k in sorted(e.params):
            if k in DROP or k.endswith("jaxpr") or k in ("branches",):
                continue
            out.append((k, str(e.params[k])))
        return tuple(out)

    def formal(self, jp, pre, taints):
        return [(self.g.node("formal", pre, k), t) for k, t in enumerate(taints)]

    def eqn(self, e, iv):
        n = e.primitive.name
        no = len(e.outvars)
        tint = any(t for _, t in iv)
        oi = [isint(v.aval) for v in e.outvars]
        ids = tuple(i for i, _ in iv)
        if n in INLINE:
            sub = e.params.get("jaxpr", e.params.get("call_jaxpr", e.params.get("fun_jaxpr")))
            jp, cs = _jx(sub)
            return self.run(jp, cs, iv)
        if n == "convert_element_type":
            src = getattr(e.invars[0].aval, "dtype", None)
            k0 = np.dtype(src).kind
            k1 = np.dtype(e.params["new_dtype"]).kind
            if k0 in "iu" and k1 in "iuf" or k0 == k1 == "f":
                return [(ids[0], iv[0][1] and k1 != "f")]   # exact
            if k0 == k1:
                return [(ids[0], False)]
            if k0 == "f" and k1 in "iu":
                return [(self.g.node("trunc", ids[0]), False)]
            return [(self.g.node("convert", k0 + (k1 if k1 not in "iuf" else "n"), ids[0]), False)]
        if n in ("scan", "while", "cond"):
            return self.control(e, iv)
        if n == "integer_pow" and tint and oi[0] and int(e.params["y"]) < 0:
            n = "integer_pow_of_int"
        elif n == "integer_pow" or n in EXACT:
            pass
        elif n == "pow" and not iv[1][1] and ids[1] in self.g.nonneg:
            pass                 # powers with exponents that do not depend on the data and are not negative
        elif tint and any(oi):
            n = n + "_of_ints"   # rounding (div, rem, pow, shifts, ...)
        pre = (n, self.params(e)) + ids
        # the type of a fresh integer computed from tainted operands stays tainted
        if no == 1:
            return [(self.g.node(*pre), tint and oi[0])]
        return [(self.g.node("out", k, self.g.node(*pre)), tint and oi[k]) for k in range(no)]

    def control(self, e, iv):
        p = e.params
        n = e.primitive.name
        ids = tuple(i for i, _ in iv)
        ts = [t for _, t in iv]
        if n == "cond":
            bs = []
            tt = None
            for br in p["branches"]:
                jp, cs = _jx(br)
                r = self.run(jp, cs, iv[1:])
                bs.append(tuple(i for i, _ in r))
                tt = [t for _, t in r] if tt is None else [a or b for a, b in zip(tt, (t for _, t in r))]
            return [(self.g.node("cond", ids[0], tuple(b[k] for b in bs)), tt[k]) for k in range(len(tt))]
        if n == "scan":
            if "num_consts" in p:
                nc, nk = p["num_consts"], p["num_carry"]
            else:
                nc, nk = [len(list(x.vals)) if hasattr(x, "vals") else len(x) for x in list(p["ft_in"].unpack())[:2]]
            jp, cs = _jx(p["jaxpr"])
            for _ in range(nk + 1):
                r = self.run(jp, cs, self.formal(jp, "s", ts))
                new = ts[:nc] + [a or r[k][1] for k, a in enumerate(ts[nc:nc + nk])] + ts[nc + nk:]
                if new == ts:
                    break
                ts = new
            body = tuple(i for i, _ in r)
            key = self.g.node("scan", str(p["length"]), bool(p["reverse"]), int(nc), int(nk), body, ids)
            return [(self.g.node("scanout", k, key), r[k][1]) for k in range(len(r))]
        nb, nq = p["body_nconsts"], p["cond_nconsts"]
        cj, cc = _jx(p["cond_jaxpr"])
        bj, bc = _jx(p["body_jaxpr"])
        carry = ts[nq + nb:]
        for _ in range(len(carry) + 1):
            r = self.run(bj, bc, self.formal(bj, "b", ts[nq:nq + nb] + carry))
            new = [a or b for a, (_, b) in zip(carry, r)]
            if new == carry:
                break
            carry = new
        q = self.run(cj, cc, self.formal(cj, "b", ts[:nq] + carry))
        key = self.g.node("while", int(nq), int(nb), tuple(i for i, _ in r), tuple(i for i, _ in q), ids)
        return [(self.g.node("whileout", k, key), r[k][1]) for k in range(len(r))]


def graph_of(g, cj, kinds):
    w = Walker(g)
    outs = w.closed(cj, [(g.node("in", k), t) for k, t in enumerate(kinds)])
    return [i for i, _ in outs], [t for _, t in outs]


def check(c, trace):
    """-> (sets proved, sets that JAX rejects, sets that differ)"""
    names = [k for k in c.args if c.args[k] != "key"]
    if not names:
        return [], [], []
    g = Graph()
    try:
        ref, _ = graph_of(g, trace(c, frozenset()), [False] * len(c.args))
    except Exception:
        return [], [], [tuple(names)]
    sets = [(k,) for k in names] + ([tuple(names)] if len(names) > 1 else [])
    ok, rej, bad = [], [], []
    for s in sets:
        try:
            cj = trace(c, frozenset(s))
        except TypeError:
            rej.append(s)
            continue
        except Exception:
            bad.append(s)
            continue
        try:
            outs, _ = graph_of(g, cj, [k in s for k in c.args])
            (ok if outs == ref else bad).append(s)
        except Exception:
            bad.append(s)
    return ok, rej, bad
