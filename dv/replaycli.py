"""./check.sh --replay FILE: run the recorded failing input on the current real code again."""
import json
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    import numpy as np
    from . import props

    d = json.load(open(sys.argv[1]))
    print("property", d["property"], "contract", d["contract"], "target", d.get("target"))
    for o in d["failed_obligations"]:
        print("  failed obligation:", o["name"], "(%s)" % str(o.get("why"))[:200])
        if o.get("goal"):
            print("    goal:", o["goal"][:400])
    m = d.get("failing")
    if not m:
        print("no failing input was found: the obligation above is what failed")
        return 0
    if m.get("statement"):
        print("recorded:", m["why"])
        sys.path.insert(0, "/repo")
        try:
            exec(m["statement"], {})
            print("now: specification satisfied")
            return 0
        except ImportError as ex:
            print("now: STILL VIOLATED: ImportError: %s" % ex)
            return 1
    kind, obj = props.load(d["contract"])
    if kind == "py":
        print(m.get("why"))
        r = obj.replay(m) if hasattr(obj, "replay") else None
        print("now:", r)
        return 0
    from . import contract as C, replay

    c = C.REGISTRY[d["contract"]]
    c.target = m.get("target", c.target)
    V = {k: np.asarray(v, np.uint32) if c.args[k] == "key" else np.asarray(v) for k, v in m["input"].items()}
    if m.get("history"):
        import jax
        from .replay import real_eval
        print("calls made before: about", m["why"].split(":")[0])
        for k in range(300):
            jax.clear_caches()
            r = replay.run_one(c, V, m["dims"])
            if r is not None:
                print("after %d calls: STILL VIOLATED: %s" % (k + 1, r["why"]))
                return 1
        print("now: specification satisfied in 300 calls")
        return 0
    print("recorded:", m["why"])
    print("input:", json.dumps(m["input"])[:3000])
    r = replay.run_one(c, V, m["dims"])
    print("now:", "specification satisfied" if r is None else "STILL VIOLATED: " + r["why"])
    return 1 if r is not None else 0


if __name__ == "__main__":
    sys.exit(main())
