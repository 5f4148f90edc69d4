import glob
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = {}
MODULE = {}


def _load():
    with open(os.path.join(HERE, "contracts", "index.json")) as fh:
        idx = json.load(fh)
    for p, mods in idx.items():
        PROPS[p] = []
        for m, cids in mods.items():
            for c in cids:
                PROPS[p].append(c)
                MODULE[c] = m


_load()


def load(cid):
    m = MODULE[cid]
    if m.startswith("py:"):
        mod = importlib.import_module("contracts." + m[3:])
        return "py", mod.TASKS[cid]
    if True:
        from . import jx
        jx.setup_jax("/repo")
        importlib.import_module("contracts." + m)
    return "jax", None


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as fh:
            out = [k for k in json.load(fh)["findings"] if k.get("status") == "known"]
    return out


TRUSTED = [
    "CPython, numpy and the JAX tracer (jax.make_jaxpr with symbolic shapes): the traced program is the program that runs",
    "the verification-condition generator and normaliser in /verif/dv (jaxpr semantics of the primitives in dv/jx.py)",
    "z3 5.3.2 (only unsat answers count)",
]


def trusted_base(results):
    t = list(TRUSTED)
    lem = sorted({k for r in results for k in (r.get("lemmas") or {})})
    if lem:
        t.append("lemma instances: " + ", ".join(lem) + " (proved once by the same prover, or in /verif/lean/Lemmas.lean)")
    return t


def assumptions(pid, results):
    a = ["float64 arithmetic is read as real arithmetic (no rounding, overflow or underflow); float literals are read as the decimal / fraction / registered constant they denote within 4e-15 relative",
         "jnp.interp (piecewise-linear, strictly increasing abscissae), jnp.linalg.lstsq and jax.random are assumed to satisfy their documented contracts",
         "the preconditions of each contract (see DESIGN.md)"]
    for r in results:
        if r.get("bounded"):
            a.append("BOUNDED: %s could not be traced with symbolic lengths; proved for lengths %s only" % (r["cid"], r["bounded"]))
        for n in r.get("assumes", []) or []:
            a.append(n)
    return a
