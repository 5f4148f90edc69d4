"""The packages through which users reach a function (contracts/exports.json: `dsps`, `dsps.sed`, ...)
must offer the function under contract: the same object, or one that satisfies the same
contract (then it is verified as well)."""
import copy
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def packages(target):
    with open(os.path.join(HERE, "contracts", "exports.json")) as fh:
        return json.load(fh).get(target, [])


def aliases(target):
    """[(package, 'same' | 'missing' | 'other')]"""
    pk = packages(target)
    if not pk:
        return []
    mod, fn = target.split(":")
    obj = getattr(importlib.import_module(mod), fn)
    out = []
    for p in pk:
        o = getattr(importlib.import_module(p), fn, None)
        out.append((p, "missing" if o is None else "same" if o is obj else "other"))
    return out


def clone(c, package):
    c2 = copy.copy(c)
    c2.target = "%s:%s" % (package, c.target.split(":")[1])
    return c2


def missing(target, package):
    st = "from %s import %s" % (package, target.split(":")[1])
    return dict(why=st + " raises ImportError", input={}, dims={}, statement=st)
