"""Lemma schemas: each lemma a proof instantiates is either proved by this prover the first time
it is used (HERE) or a theorem of lean/Lemmas.lean; the thorough tier has Lean check that file."""
import os
import re
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(ROOT, "lean", "Lemmas.lean")
HERE = {"tw_core", "tw_mono", "tw_strict", "tw_range", "tw_saturates", "pow_strict", "root_between"}
STEPS = {"constants_equal_within_1e-12"}      # not a lemma: a documented approximation


def theorems():
    return set(re.findall(r"^theorem (\w+)", open(FILE).read(), re.M))


def obligations(used, tier):
    """one obligation per lemma name used"""
    th = theorems()
    names = sorted(n for n in used if n not in STEPS and n not in HERE)
    out = [dict(name="lemma." + n, ok=False, why="no proof on file", dt=0, backend="lean") for n in names if n not in th]
    if tier != "thorough" or not names:
        return out
    t0 = time.time()
    exe = shutil.which("lean")
    if exe is None:
        return out + [dict(name="lemma." + n, ok=False, why="lean not installed", dt=0, backend="lean") for n in names if n in th]
    p = subprocess.run([exe, FILE], capture_output=True, text=True, timeout=600)
    txt = (p.stdout + p.stderr).strip()
    ok = p.returncode == 0 and "error" not in txt and "sorry" not in txt
    return out + [dict(name="lemma." + n, ok=ok, why="" if ok else txt[:300], dt=round(time.time() - t0, 1) if n == names[0] else 0, backend="Lean 4 + Mathlib")
                  for n in names if n in th]
