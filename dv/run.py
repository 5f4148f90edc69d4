"""Check runner:  python -m dv.run <property> [--tier quick|thorough] [--seed N]"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def worker(args):
    """verify one contract in its own process"""
    pid, cid, tier, seed = args
    try:
        return _worker(pid, cid, tier, seed)
    except Exception as ex:
        return dict(cid=cid, obls=[], fatal="%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()))


def _worker(pid, cid, tier, seed):
    from . import props

    kind, obj = props.load(cid)
    if kind == "py":
        from . import exports
        res = obj.run(tier=tier, seed=seed)
        try:
            al = exports.aliases(obj.target)
        except Exception as ex:
            al = [("import: %s: %s" % (type(ex).__name__, ex), "missing")]
        for pk, how in al:
            res["obls"].append(dict(name="%s.exported_by_%s" % (cid, pk), ok=how == "same", why="" if how == "same" else
                                    "%s offers %s" % (pk, "no such function" if how == "missing" else "another function"), dt=0, backend="import"))
            if how == "missing" and not res["violation"] and ":" not in pk:
                res["violation"] = exports.missing(obj.target, pk)
        return res
    from . import jx

    jx.setup_jax("/repo")
    from . import contract as C

    c = C.REGISTRY[cid]
    if tier == "thorough":
        from . import second
        second.install()
    res = verify(c, cid, tier, seed)
    from . import exports
    for pk, how in exports.aliases(c.target):
        name = "%s.exported_by_%s" % (cid, pk)
        if how == "other":
            c2 = exports.clone(c, pk)
            C.REGISTRY[cid] = c2
            r2 = verify(c2, cid, tier, seed)
            bad = [o for o in r2["obls"] if not o["ok"]]
            for o in bad:
                o["name"] += "@" + pk
            res["obls"] += bad
            if r2["violation"] and not res["violation"]:
                res["violation"] = r2["violation"]
                res["violation"]["target"] = c2.target
            ok, why = not bad and not r2["violation"], "another function under the same name: contract verified for it too"
        else:
            ok, why = how == "same", "the same object" if how == "same" else "%s does not offer %s" % (pk, c.target.split(":")[1])
            if not ok and not res["violation"]:
                res["violation"] = exports.missing(c.target, pk)
        res["obls"].append(dict(name=name, ok=ok, why=why, dt=0, backend="import"))
    return res


def verify(c, cid, tier, seed):
    from . import contract as C, replay, frame, prover as P

    rep = C.check(c, scale=1.0 if tier == "quick" else 6.0)
    res = dict(cid=cid, target=c.target, obls=[], functions=sorted("%s @ %s" % k for k in rep.functions),
               bounded=rep.bounded, notes=rep.notes, stats=rep.stats, lemmas=rep.lemmas, wall=rep.wall,
               prims=rep.prims, violation=None, why_undecided=None)
    for o in rep.obls:
        d = dict(name=o.name, ok=o.ok, why=o.why, dt=round(o.dt, 3), backend=o.backend)
        if not o.ok:
            r = o.res
            if r is not None and getattr(r, "ctx", None) is not None:
                from . import terms as T
                d["goal"] = T.show(r.goal, 300)
                d["branch"] = [T.show(f, 60) for f in r.ctx.facts[:40]]
            if hasattr(o, "tb"):
                d["tb"] = o.tb
        res["obls"].append(d)
    if hasattr(rep, "tb"):
        res["tb"] = rep.tb
    failed = rep.failed
    # vacuity + bounded cross-check of the extraction on the real code
    t0 = time.time()
    if c.sample is not None:
        n = c.nsamples if tier == "quick" else 12 * c.nsamples
        extra = []
        if failed:
            from . import models
            for o in failed:
                try:
                    extra += models.candidates(c, o)
                except Exception as ex:
                    res["notes"].append("model: %s: %s" % (type(ex).__name__, ex))
        tmax = 25 if tier == "quick" else 240
        done, m = replay.search(c, seed, n, tmax)
        # integer-valued arguments
        if rep.int_ok or rep.int_bad or rep.int_rej:
            bad = sorted(rep.int_bad)
            d2, m2 = replay.search_ints(c, seed, bad, 10 if tier == "quick" else 60) if bad and m is None else (0, None)
            okn = len(rep.int_ok - rep.int_bad)
            if okn or m2 is not None:
                res["obls"].append(dict(name=cid + ".integer_arguments", ok=m2 is None, why=m2["why"] if m2 else "", dt=0,
                                        backend="congruence of the traced programs (%d sets of arguments)" % okn))
            res["integers"] = dict(proved=okn, rejected_with_TypeError=[",".join(x) for x in sorted(rep.int_rej)],
                                   bounded_samples={"sets": [",".join(x) for x in bad], "samples": d2} if bad else None)
            m = m or m2
        if rep.frame0 is not None:
            ch = frame.difference(rep.frame0, frame.snapshot())
            res["obls"].append(dict(name=cid + ".frame", ok=not ch, why="state changed by a call: " + ", ".join(ch[:5]) if ch else "",
                                    dt=0, backend="fingerprint"))
            if ch and m is None:
                d2, m = replay.search_history(c, seed, 60)
                done += d2
        if m is None and failed:
            d2, m = replay.search(c, seed + 1, 4000, 60 if tier == "quick" else 200, hard=True, extra=extra)
            done += d2
        elif m is None and tier == "thorough":
            d2, m = replay.search(c, seed + 1, 60 * c.nsamples, 120, hard=True)
            done += d2
        res["samples"] = done
        res["sample_wall"] = time.time() - t0
        res["violation"] = m
        if done == 0:
            res["obls"].append(dict(name=cid + ".requires_satisfiable", ok=False,
                                    why="no sampled input satisfies the precondition", dt=0, backend="witness"))
        else:
            res["obls"].append(dict(name=cid + ".requires_satisfiable", ok=True, why="", dt=0, backend="witness"))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    from . import props

    pid = a.property
    cids = props.PROPS[pid]
    if a.only:
        cids = [c for c in cids if a.only in c]
    ctxm = mp.get_context("fork")
    jobs = [(pid, c, a.tier, a.seed) for c in cids]
    nproc = a.j or min(8, len(jobs), os.cpu_count() or 1)
    results = []
    with ctxm.Pool(nproc, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(worker, jobs, chunksize=1):
            results.append(r)
    results.sort(key=lambda r: cids.index(r["cid"]))
    return report(pid, a.tier, a.seed, results, t0, a.v)


def report(pid, tier, seed, results, t0, verbose):
    from . import props

    known = props.known_findings()
    obls = [o for r in results for o in r["obls"]]
    fatal = [r for r in results if r.get("fatal")]
    for r in fatal:
        obls.append(dict(name=r["cid"] + ".engine", ok=False, why=r["fatal"], dt=0, backend=""))
    nviol = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for r in results:
        bad = [o for o in r["obls"] if not o["ok"]]
        if r.get("fatal"):
            bad.append(dict(name=r["cid"] + ".engine", ok=False, why=r["fatal"]))
        m = r.get("violation")
        if not bad and not m:
            continue
        kf = {k["obligation"]: k for k in known if k["property"] == pid and k["contract"] == r["cid"]}
        for o in bad:
            if o["name"] in kf:
                print("KNOWN-FINDING: property=%s %s" % (pid, kf[o["name"]]["what"]))
        if bad and all(o["name"] in kf for o in bad):
            continue
        path = os.path.join(rdir, "%s-%s.json" % (pid, r["cid"]))
        with open(path, "w") as fh:
            json.dump(dict(property=pid, contract=r["cid"], target=r.get("target"), failing=m,
                           failed_obligations=bad, notes=r.get("notes"), traceback=r.get("tb"),
                           replay_cmd="cd %s && ./check.sh --replay %s" % (HERE, path)), fh, indent=1, default=str)
        for o in bad[:6]:
            print("  failed obligation: %s (%s)" % (o["name"], str(o["why"])[:200]))
        nviol += 1
        if m:
            print("  failing input found for %s: %s" % (r["cid"], m["why"]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    from . import leanlem
    lo = leanlem.obligations({k for r in results for k in (r.get("lemmas") or {})}, tier)
    obls += lo
    if any(not o["ok"] for o in lo):
        nviol += 1
        path = os.path.join(rdir, "%s-lemmas.json" % pid)
        with open(path, "w") as fh:
            json.dump(dict(property=pid, failing=None, failed_obligations=[o for o in lo if not o["ok"]]), fh, indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    # failing inputs first
    lines.sort(key=lambda s: s.endswith("found"))
    ok = [o for o in obls if o["ok"]]
    st = {}
    for r in results:
        for k, v in (r.get("stats") or {}).items():
            st[k] = st.get(k, 0) + v
    lem = {}
    for r in results:
        for k, v in (r.get("lemmas") or {}).items():
            lem[k] = lem.get(k, 0) + v
    fns = sorted({r.get("target") for r in results if r.get("target")})
    bounded = {r["cid"]: r["bounded"] for r in results if r.get("bounded")}
    cov = dict(
        obligations=len(obls), discharged=len(ok),
        checker_cmd="./check.sh %s --tier %s" % (pid, tier),
        trusted_base=props.trusted_base(results),
        functions_under_contract=fns, n_functions=len(fns),
        callees_verified_inline=len({f for r in results for f in r.get("functions", [])}),
        contracts=[dict(contract=r["cid"], function=r.get("target"), obligations=len(r["obls"]),
                        discharged=sum(1 for o in r["obls"] if o["ok"]),
                        wall_s=round(r.get("wall", 0), 2), extracted_primitives=r.get("prims"),
                        cross_check_samples=r.get("samples", 0)) for r in results],
        solver=dict(backend="dv normaliser + z3 5.3.2" + (" (re-checked by cvc5)" if tier == "thorough" else ""),
                    queries=st.get("queries", 0), unsat=st.get("unsat", 0), seconds=round(st.get("time", 0), 2),
                    cvc5_confirmed=st.get("cvc5", 0), cvc5_unknown=st.get("cvc5_unknown", 0)),
        lemmas_used=lem, bounded_fallback=bounded,
        integer_arguments={r["cid"]: r["integers"] for r in results if r.get("integers")},
        cross_check_samples=sum(r.get("samples", 0) for r in results),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov,
              assumptions=props.assumptions(pid, results), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if verbose:
        for r in results:
            print(r["cid"], "wall", round(r.get("wall", 0), 2), "samples", r.get("samples"), round(r.get("sample_wall", 0), 1),
                  "bounded" if r.get("bounded") else "", r.get("notes") or "")
            for o in r["obls"]:
                if not o["ok"] or o["dt"] > 1:
                    print("   ", "ok  " if o["ok"] else "FAIL", o["name"], o["dt"], o["why"])
                    if not o["ok"] and o.get("goal"):
                        print("        goal:", o["goal"][:1500])
                        print("        ctx:", o["branch"])
                    if not o["ok"] and o.get("tb"):
                        print(o["tb"])
            if r.get("tb"):
                print(r["tb"])
    print("property %s: %d/%d obligations discharged, %d functions under contract, %d cross-check samples, %.1f s" % (
        pid, len(ok), len(obls), len(fns), cov["cross_check_samples"], time.time() - t0))
    if not obls:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, "none"))
        return 1
    for l in lines:
        print(l)
    return 1 if lines else 0


if __name__ == "__main__":
    sys.exit(main())
