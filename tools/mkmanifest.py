"""writes MANIFEST.json from contracts/index.json"""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
idx = json.load(open(H + "/contracts/index.json"))
NA = json.load(open(H + "/contracts/not_applicable.json"))
NOTE = json.load(open(H + "/contracts/level_notes.json"))
BASE = ("Contracts on the functions of /repo; verification conditions are generated on every run from the program that JAX "
        "traces from the current source with symbolic array lengths, and every one is discharged by the dv normaliser and z3 "
        "for all inputs. Trusted: JAX tracer, VC generator, z3; floats read as reals. ")
PY = ("Contracts on the functions of /repo; the current Python source is executed symbolically over all paths with the file "
      "system and h5py replaced by their contracts; path conditions are decided by z3. Trusted: the proxies, the assumed contracts, z3. ")
checks = []
for p in props:
    if p["id"] not in idx:
        continue
    mods = idx[p["id"]]
    py = [m for m in mods if m.startswith("py:")]
    jx = [m for m in mods if not m.startswith("py:")]
    t = "contract-based deductive verification (" + ("VCs from the traced jaxpr, normaliser + z3" if jx else "") + \
        (" and " if jx and py else "") + ("symbolic execution of the Python source, z3" if py else "") + ")"
    checks.append(dict(property=p["id"], quick_cmd="./check.sh %s --tier quick" % p["id"],
                       thorough_cmd="./check.sh %s --tier thorough" % p["id"], technique=t, level="proof",
                       level_note=((BASE if jx else "") + (PY if py else "") + NOTE.get(p["id"], "")).strip()))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "contracts not written yet")) for p in props if p["id"] not in idx],
         notes="See DESIGN.md. Each check runs python -m dv.run on the current working tree of /repo.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
