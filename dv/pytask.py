"""A contract on a plain-Python function: the cases of its specification are proved on every
path of the real code (dv/pyvc.py); a sampled run of the real code supplies failing inputs."""
import inspect
import os
import random
import time
import traceback

from . import prover as P
from . import terms as T
from . import pyvc, pylib
from .terms import and_, or_, not_, TRUE

RAISE = "error"


class Case:
    def __init__(self, name, cond, kind, value=None, check=None):
        self.name, self.cond, self.kind, self.value, self.check = name, list(cond), kind, value, check


class World:
    """external state: handlers of callables, attributes of modules, module globals"""

    def __init__(self, table=(), attrs=(), glob=None):
        self.table, self.attrs, self.glob = dict(table), dict(attrs), glob or {}


def lemma(cx, inst):
    """instance (name, premises, conclusion) of a proved lemma: premises proved, conclusion assumed"""
    name, prem, concl = inst
    if not pyvc.prove(prem, cx):
        raise pyvc.Mismatch("premise of the lemma " + name)
    P.LEMMAS_USED[name] = P.LEMMAS_USED.get(name, 0) + 1
    return cx.assume(concl)


class PyTask:
    """cid, target text; setup(mode) -> (ctx, world(ex), run(ex), [Case])  for every mode;
    concrete(rng, dir, tier) -> None or failing input (dict with why)"""

    def __init__(self, cid, target, modes, setup, concrete, nsamples=40, assumes=(), budget=60, lemmas=None, stand_in=None):
        self.cid, self.target, self.modes, self.setup, self.concrete = cid, target, modes, setup, concrete
        self.nsamples, self.assumes, self.budget, self.lemmas = nsamples, list(assumes), budget, lemmas
        self.stand_in = stand_in        # what stands in, bounded, for code that the front end cannot follow

    def run(self, tier="quick", seed=1):
        t0 = time.time()
        res = dict(cid=self.cid, target=self.target, obls=[], functions=[], bounded=None, notes=[], stats={}, lemmas={},
                   wall=0, prims=None, violation=None, why_undecided=None, samples=0, assumes=self.assumes)
        fns = set()
        P.LEMMAS_USED.clear()
        if tier == "thorough":
            from . import second
            second.install()
        scale = 1 if tier == "quick" else 6
        for mode in self.modes:
            nm = "%s[%s]" % (self.cid, mode) if mode else self.cid
            lost = any(not o["ok"] for o in res["obls"])
            P.DEADLINE[0] = P.clock() + self.budget * scale / (8 if lost else 1)    # one failed obligation decides
            try:
                self.symbolic(mode, nm, res, fns)
            except (pyvc.Unsupported, P.GiveUp) as ex:
                res["obls"].append(dict(name=nm + ".execution", ok=False, why="%s: %s" % (type(ex).__name__, ex), dt=0, backend="dv",
                                        tb=traceback.format_exc()))
            except Exception as ex:
                res["obls"].append(dict(name=nm + ".execution", ok=False, why="%s: %s" % (type(ex).__name__, ex), dt=0, backend="dv",
                                        tb=traceback.format_exc()))
            finally:
                P.DEADLINE[0] = None
        res["functions"] = sorted(fns)
        res["lemmas"] = dict(P.LEMMAS_USED)
        for k in ("queries", "unsat", "time", "cvc5", "cvc5_unknown"):
            if k in P.STATS:
                res["stats"][k] = P.STATS[k]
        res["wall"] = time.time() - t0
        bad = any(not o["ok"] for o in res["obls"])
        n = self.nsamples * (1 if tier == "quick" else 10) * (5 if bad else 1)
        t1 = time.time()
        m, done = self.search(seed, n, 20 if tier == "quick" else 120)
        res["samples"], res["violation"], res["sample_wall"] = done, m, time.time() - t1
        lost = [o for o in res["obls"] if not o["ok"]]
        if self.stand_in and m is None and lost and all(o["name"].endswith(".execution") and o["why"].startswith(("Unsupported", "GiveUp"))
                                                        for o in lost):
            res["bounded"] = "%s (%s)" % (self.stand_in, lost[0]["why"][:200])
            res["obls"] = [o for o in res["obls"] if o["ok"]]
        return res

    def search(self, seed, n, tmax):
        """sampled runs of the real code, all in the same directory (rebuilt every time), so that
        whatever the code keeps from one call to the next shows"""
        import tempfile
        import shutil
        t1 = time.time()
        done = 0
        d = tempfile.mkdtemp(prefix="dvpy")
        try:
            for j in range(n):
                if time.time() - t1 > tmax:
                    break
                self.empty(d)
                m = self.one(seed, j, d)
                done += 1
                if m is not None:
                    m["seed"], m["sample"] = seed, j
                    return m, done
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return None, done

    @staticmethod
    def empty(d):
        import shutil
        for x in os.listdir(d):
            q = os.path.join(d, x)
            if os.path.isdir(q) and not os.path.islink(q):
                shutil.rmtree(q)
            else:
                os.remove(q)

    def one(self, seed, j, d):
        env = dict(os.environ)
        cwd = os.getcwd()
        import contextlib
        import io
        try:
            os.chdir(d)
            with contextlib.redirect_stdout(io.StringIO()):
                return self.concrete(random.Random("%s/%s/%s" % (self.cid, seed, j)), d)
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)

    def replay(self, m):
        """the failing sample alone; if that is satisfied, after the samples before it"""
        import tempfile
        import shutil
        d = tempfile.mkdtemp(prefix="dvpy")
        try:
            r = self.one(m["seed"], m["sample"], d)
            if r:
                return r
            for j in range(m["sample"] + 1):
                self.empty(d)
                r = self.one(m["seed"], j, d)
                if r:
                    r["why"] += " (after %d earlier calls)" % j
                    return r
            return "specification satisfied"
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def symbolic(self, mode, nm, res, fns):
        ctx, world, run, cases = self.setup(mode)
        lib = pylib.Lib()
        t = time.time()
        paths = pyvc.explore(run, ctx, lib, world=world)
        res["obls"].append(dict(name=nm + ".execution", ok=True, why="%d paths" % len(paths), dt=round(time.time() - t, 3), backend="dv"))
        # the cases of the specification cover every input
        t = time.time()
        ok = bool(pyvc.prove(or_(*[and_(*c.cond) for c in cases]), ctx))
        res["obls"].append(dict(name=nm + ".cases_cover", ok=ok, why="", dt=round(time.time() - t, 3), backend="dv+z3"))
        for c in cases:
            t = time.time()
            why = ""
            n = 0
            for j, p in enumerate(paths):
                fns.update(p.ex.functions)
                cx = p.ctx
                for f in c.cond:
                    cx = cx.assume(*pyvc.skolem(f))
                if pyvc.infeasible(cx):
                    continue
                n += 1
                if p.kind == "raise":
                    if c.kind != RAISE:
                        why = "the code raises %s" % p.value
                        break
                    continue
                if c.kind == RAISE:
                    why = "the code returns a value, the contract says an error"
                    break
                try:
                    if c.check is not None:
                        c.check(p.value, cx, p)
                    else:
                        pyvc.same(p.value, c.value, cx, "result")
                except pyvc.Mismatch as ex:
                    why = str(ex)
                    break
                except (pyvc.Unsupported, P.GiveUp) as ex:
                    why = "%s: %s" % (type(ex).__name__, ex)
                    break
            res["obls"].append(dict(name="%s.%s" % (nm, c.name), ok=not why, why=why[:600] or "%d paths" % n, dt=round(time.time() - t, 3),
                                    backend="dv+z3"))
