"""Thorough tier: every query that z3 answered `unsat` is put to cvc5 as well.

cvc5 confirming is counted; `unknown` (its nonlinear arithmetic is incomplete) is counted
apart and decides nothing; a `sat` contradicts z3 and fails the obligation."""
import os
import subprocess
import tempfile
import time

from . import prover as P

TL_MS = 4000
BUDGET_S = 240.0
_spent = [0.0]


class Disagreement(Exception):
    pass


def recheck(s):
    st = P.STATS
    if _spent[0] > BUDGET_S:
        st["cvc5_skipped"] = st.get("cvc5_skipped", 0) + 1
        return
    t0 = time.time()
    txt = "(set-logic ALL)\n" + s.to_smt2()
    r = run(txt)
    _spent[0] += time.time() - t0
    k = {"unsat": "cvc5", "sat": "cvc5_sat"}.get(r, "cvc5_unknown")
    st[k] = st.get(k, 0) + 1
    if r == "sat":
        raise Disagreement("z3 says unsat, cvc5 says sat")


def run(txt):
    fd, path = tempfile.mkstemp(suffix=".smt2", prefix="dv-cvc5-")
    try:
        with os.fdopen(fd, "w") as fh:
            fh.write(txt)
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % TL_MS, "--nl-ext-tplanes", path],
                           capture_output=True, text=True, timeout=TL_MS / 1000 + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(path)


def install():
    P.SECOND[0] = recheck
