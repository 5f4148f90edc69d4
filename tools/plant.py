"""Write and validate planted bugs:  plant.py SPEC.py [id ...]
SPEC defines BUGS = [dict(id, prop, file, subs=[(old, new)], needs, breaks, demo)]"""
import json
import os
import runpy
import shutil
import subprocess
import sys

SEED = "/verif/seeded"
W = "/tmp/plant/wt"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in spec:
        if want and b["id"] not in want:
            continue
        shutil.rmtree(W, ignore_errors=True)
        sh("cp -a /repo %s && cd %s && git checkout -q -- ." % (W, W))
        edits = b.get("edits") or [(b["file"], b["subs"])]
        ok = True
        for f, subs in edits:
            s = open(W + "/" + f).read()
            for old, new in subs:
                if s.count(old) != 1:
                    print(b["id"], "pattern occurs %d times: %r" % (s.count(old), old[:60]))
                    ok = False
                s = s.replace(old, new)
            open(W + "/" + f, "w").write(s)
        if not ok:
            continue
        d = "/tmp/plant/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("cd %s && git diff" % W).stdout)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write("#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH=\"$PWD\"\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        c = sh("cd /repo && bash %s/demo.sh" % d)
        p = sh("cd %s && bash %s/demo.sh" % (W, d))
        if c.returncode != 0 or p.returncode == 0:
            print(b["id"], "DEMO clean rc", c.returncode, "patched rc", p.returncode, (c.stdout + c.stderr)[-600:], (p.stdout + p.stderr)[-300:])
            continue
        t = sh("cd %s && PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider dsps 2>&1 | tail -40" % W)
        last = t.stdout.strip().splitlines()[-1] if t.stdout else "?"
        fails = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) and "test_load_emline_info" not in l]
        bad = bool(fails) or "passed" not in last
        print(b["id"], "tests:", last, "" if not bad else t.stdout[-500:])
        if bad:
            continue
        shutil.rmtree(SEED + "/" + b["id"], ignore_errors=True)
        shutil.copytree(d, SEED + "/" + b["id"])
        print(b["id"], "KEPT")
    shutil.rmtree(W, ignore_errors=True)


main()
