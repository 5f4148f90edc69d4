"""Frame condition: a contract determines the outputs from the arguments alone, so the code may
not keep state between calls.  The module-level objects of dsps (globals, contents of
containers and arrays, defaults, attributes and closures of functions, class attributes), the
global random generators and the environment are fingerprinted before and after the function
is traced and run; any difference fails the obligation `frame`.  (A memo of
functools.lru_cache is not state: its key is the whole argument list.)"""
import hashlib
import os
import random
import sys
import types

import numpy as np


def fp(v, depth=0, seen=None):
    seen = set() if seen is None else seen
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return repr(v)
    if isinstance(v, types.ModuleType):
        return "module"
    if depth > 5 or id(v) in seen:
        return "#%d" % id(v)
    tn = type(v).__name__
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return "obj%d" % id(v)
        return (v.shape, str(v.dtype), hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, (random.Random,)):
        return hash(v.getstate())
    if isinstance(v, np.random.Generator):
        return repr(v.bit_generator.state)
    if isinstance(v, np.random.RandomState):
        return repr(v.get_state(legacy=False))
    seen = seen | {id(v)}
    rec = lambda x: fp(x, depth + 1, seen)
    if isinstance(v, dict):
        return (tn,) + tuple((repr(k)[:80], rec(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (tn,) + tuple(rec(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return (tn,) + tuple(sorted(map(repr, v)))
    if isinstance(v, bytearray):
        return bytes(v)
    if tn == "_lru_cache_wrapper":
        return (id(v), rec(v.__wrapped__))
    if isinstance(v, types.FunctionType):
        out = [id(v), rec(v.__defaults__), rec(v.__kwdefaults__)]
        out.append(tuple((k, rec(x)) for k, x in vars(v).items()))
        for c in v.__closure__ or ():
            try:
                out.append(rec(c.cell_contents))
            except ValueError:
                pass
        return tuple(out)
    if isinstance(v, type):
        if not str(getattr(v, "__module__", "")).startswith("dsps"):
            return id(v)
        return (id(v),) + tuple((k, rec(x)) for k, x in vars(v).items() if not (k.startswith("__") or k.startswith("_abc")))
    w = getattr(v, "__wrapped__", None)
    if w is not None and tn in ("PjitFunction", "function", "CompiledFunction"):
        return (id(v), rec(w))
    if str(getattr(type(v), "__module__", "")).startswith("dsps") and hasattr(v, "__dict__"):
        return (id(v),) + tuple((k, rec(x)) for k, x in vars(v).items())
    if tn in ("deque", "Counter", "defaultdict", "OrderedDict"):
        return (tn, repr(v)[:2000])
    if tn in ("count", "cycle"):
        return repr(v)
    return id(v)


def snapshot():
    out = {}
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "dsps" and m is not None:
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                try:
                    out[n, k] = fp(v)
                except Exception:
                    out[n, k] = id(v)
    out["random"] = hash(random.getstate())
    out["numpy.random"] = hash(repr(np.random.get_state(legacy=False)))
    out["os.environ"] = hash(tuple(sorted(os.environ.items())))
    return out


def difference(a, b):
    """names whose state differs (modules imported in between do not count)"""
    mods = {k[0] for k in a if isinstance(k, tuple)}
    out = [k for k in a if b.get(k) != a[k]]
    out += [k for k in b if k not in a and isinstance(k, tuple) and k[0] in mods and not isinstance(b[k], str)]
    return [".".join(k) if isinstance(k, tuple) else k for k in out]
