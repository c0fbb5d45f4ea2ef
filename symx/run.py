"""Run one property check:  python -m symx.run P01 --tier quick

For every configuration of the check the harness is executed symbolically over
the current sources of /repo; z3 decides every branch and every assertion.
A counterexample is replayed on the real package before it is reported.
"""
import argparse
import contextlib
import fnmatch
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction as Fr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.dont_write_bytecode = True
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

import numpy as rnp  # noqa: E402

from . import core as K  # noqa: E402
from . import engine as E  # noqa: E402
from . import modload, npshim  # noqa: E402
from .core import Bound, PathAbort, TRUE, Unsupported, band, bnot, bor  # noqa: E402
from .world import ConW, SymW  # noqa: E402

REPO = modload.REPO
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load_check(cid):
    return importlib.import_module("checks." + cid)


# ---------------------------------------------------------------------------
def envjson(env):
    return {k: (v if isinstance(v, (bool, int)) else str(v)) for k, v in (env or {}).items()}


def envload(d):
    return {k: (v if isinstance(v, (bool, int)) else Fr(v)) for k, v in d.items()}


def replay(chk, cfg, env, quiet=True):
    """Run the harness on the real package; returns (failures, raised, nchecks)."""
    W = ConW(dict(env))
    raised = None
    buf = io.StringIO()
    with warnings.catch_warnings(), rnp.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            with contextlib.ExitStack() as st:
                if quiet:
                    st.enter_context(contextlib.redirect_stdout(buf))
                    st.enter_context(contextlib.redirect_stderr(io.StringIO()))
                chk.harness(W, **cfg["args"])
        except PathAbort:
            return None, None, 0
        except Exception as ex:
            raised = "%s: %s" % (type(ex).__name__, ex)
            tb = traceback.extract_tb(ex.__traceback__)
            infra = [f for f in tb if f.filename.startswith(REPO + "/")]
            if not infra and tb and "/checks/" in tb[-1].filename:
                raised = "harness " + raised
        except SystemExit as ex:
            raised = "SystemExit: %s" % ex
        finally:
            W.unpatch()
            W.cleanup()
    return W.fails, raised, W.nchecks


class Explorer:
    def __init__(self, chk, cfg, tier, seed, budget):
        self.chk, self.cfg, self.tier, self.seed = chk, cfg, tier, seed
        self.deadline = time.time() + budget
        self.st = E.Stats()
        self.fail = None
        self.errors = []
        self.notes = []
        self.funcs = set()
        self.max_wit = cfg.get("witnesses", 6 if tier == "quick" else 25)
        self.sample = None
        self.wit_tries = 0

    def monitor(self):
        mon = sys.monitoring
        tid = 3
        mon.use_tool_id(tid, "symx")

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(REPO + "/") and not code.co_name.startswith("<"):
                self.funcs.add("%s:%s" % (os.path.relpath(fn, REPO), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tid, mon.events.PY_START, start)
        mon.set_events(tid, mon.events.PY_START)
        return lambda: (mon.set_events(tid, 0), mon.free_tool_id(tid))

    def run(self):
        L = modload.Loader()
        ctx = E.Ctx(self.st, timeout_ms=self.cfg.get("timeout_ms", 15000), seed=self.seed, deadline=self.deadline)
        ctx.feas_ms = self.cfg.get("feas_ms", 4000)
        E.set_ctx(ctx)
        stop = self.monitor()
        try:
            self._dfs(L, ctx)
        finally:
            stop()

    def _dfs(self, L, ctx):
        prefix = []
        maxp = self.cfg.get("max_paths", 3000)
        while True:
            ctx.new_path(prefix)
            npshim._UNINIT[0] = 0
            W = SymW(L, ctx)
            end = "ok"
            exc = None
            try:
                self.chk.harness(W, **self.cfg["args"])
            except PathAbort:
                end = "abort"
            except Unsupported as ex:
                end, exc = "unsupported", ex
            except Bound as ex:
                end, exc = "bound", ex
            except RecursionError as ex:
                end, exc = "unsupported", ex
            except (Exception, SystemExit) as ex:
                end, exc = "raised", ex
            finally:
                W.unpatch()
            self.st.paths += 1
            if end in ("unsupported", "bound"):
                self.errors.append("%s: %s @ %s" % (end, exc, _where(exc)))
                # the rest of this configuration is not explored
                return
            if end == "raised":
                if self._raised(ctx, exc):
                    return
            elif end == "ok":
                try:
                    if self._goals(ctx, W):
                        return
                except Bound as ex:
                    self.errors.append("bound: %s" % ex)
                    return
            else:
                self.st.cut += 1
            t = list(ctx.taken)
            while t and t[-1] != (True, False):
                t.pop()
            if not t:
                return
            t[-1] = (False, False)
            prefix = t
            if self.st.paths >= maxp:
                self.errors.append("bound: more than %d paths" % maxp)
                return
            if time.time() > self.deadline:
                self.errors.append("bound: time budget of this configuration")
                return

    # -- outcomes -----------------------------------------------------------
    def _raised(self, ctx, exc):
        msg = "%s: %s" % (type(exc).__name__, exc)
        status, env = ctx.find(TRUE)
        if status == "unsat":
            self.st.cut += 1
            return False
        if env is not None:
            fails, raised, _ = replay(self.chk, self.cfg, env)
            if fails or (raised and not raised.startswith("harness")):
                d = fails[0] if fails else ("raises", raised)
                self.fail = dict(label=d[0], detail=d[1], env=envjson(env), symbolic=msg)
                return True
        self.errors.append("encoding: %s @ %s (not reproduced on the real code)" % (msg, _where(exc)))
        return True

    def _goals(self, ctx, W):
        goals = W.goals
        if not goals:
            self.errors.append("vacuous: path without assertion")
            return True
        # trivial after normalisation: one batched solver query on the raw terms
        raws = []
        pend = []
        for g in goals:
            self.st.goals += 1
            f = ctx.simp(g.f)
            if f.op == "T":
                self.st.goals_trivial += 1
                if g.raw is not None:
                    raws.append(g.raw)
            else:
                pend.append((g, f))
        self._batch(ctx, raws)
        for g, f in pend:
            ng = bnot(f)
            r, _ = ctx.check(ctx.relevant(ng) + [ng])
            if r == "unsat":
                continue
            if self._counterexample(ctx, g, ng):
                return True
        # witness: the path is reachable and the encoding agrees with the real code
        if self.st.witnesses < self.max_wit and self.wit_tries < 2 * self.max_wit + 4:
            self.wit_tries += 1
            status, env = ctx.find(TRUE, tries=1, timeout=800)
            if status == "unsat":
                self.st.cut += 1
                return False
            if status == "sat":
                self.st.witnesses += 1
                fails, raised, n = replay(self.chk, self.cfg, env)
                if fails is None:
                    self.notes.append("witness left the assumptions after rounding to floats")
                elif raised or fails:
                    d = fails[0] if fails else ("raises", raised)
                    if raised and raised.startswith("harness"):
                        self.errors.append("witness: %s" % raised)
                        return True
                    self.fail = dict(label=d[0], detail=d[1], env=envjson(env), symbolic="witness replay disagrees")
                    return True
                else:
                    self.st.validated += 1
                    if self.sample is None:
                        self.sample = envjson(env)
        return False

    def _batch(self, ctx, raws):
        import z3
        if not raws:
            return
        tr = K.Tr()
        t0 = time.time()
        neg = []
        size = 0
        for a, b in raws:
            if isinstance(a, (bool, E.SBool, rnp.bool_)) or isinstance(b, (bool, E.SBool, rnp.bool_)):
                continue
            a, b = E.mk(a), E.mk(b)
            for x, y in ((a.re, b.re), (E._im(a), E._im(b))):
                if x.v != y.v or not x.plain() or not y.plain():
                    continue
                size += len(x.v.t)
                if size > 3000:
                    break
                neg.append(tr.poly(x.v) != tr.poly(y.v))
        if not neg:
            return
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Or(*neg))
        r = str(s.check())
        self.st.queries += 1
        self.st.solver_s += time.time() - t0
        setattr(self.st, r, getattr(self.st, r) + 1)

    def _counterexample(self, ctx, g, ng):
        tried = []
        last = None
        strong = g.strong() if callable(g.strong) else g.strong
        for i, extra in enumerate([band(ng, s) for s in strong if s.op != "F"] + [ng]):
            status, env = ctx.find(extra, tries=16 if strong and i == 0 else 24)
            last = status
            if status == "unsat":
                continue
            if env is None or status == "unknown" and not env:
                continue
            fails, raised, _ = replay(self.chk, self.cfg, env)
            if fails or (raised and not raised.startswith("harness")):
                d = fails[0] if fails else ("raises", raised)
                for f in fails or ():
                    if f[0] == g.label:
                        d = f
                self.fail = dict(label=d[0], detail=d[1], env=envjson(env), symbolic=g.label)
                return True
            tried.append(envjson(env))
        if last == "unsat":
            return False
        self.errors.append("inconclusive: %s (%s) %s" % (g.label, last, bnot(ng).str(2)[:300]))
        return True

    # -- fallback -------------------------------------------------------------
    def concrete_search(self, n=40):
        """Only used to turn an inconclusive result into a confirmed violation."""
        L = E.CTX.inputs if E.CTX else {}
        rng = random.Random(self.seed)
        for t in range(n):
            env = {}
            for name, kind in L.items():
                if kind == "b":
                    env[name] = rng.random() < 0.25
                else:
                    env[name] = E._sample(K.ATOMKEY[("var", name)], rng)
                    if kind == "i":
                        env[name] = int(env[name])
            fails, raised, _ = replay(self.chk, self.cfg, env)
            if fails or raised and not raised.startswith("harness"):
                d = fails[0] if fails else ("raises", raised)
                self.fail = dict(label=d[0], detail=d[1], env=envjson(env), symbolic="inconclusive: " + "; ".join(self.errors)[:300])
                return


def _where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    out = [f for f in tb if f.filename.startswith(REPO + "/")] or tb
    f = out[-1]
    g = tb[-1]
    return "%s:%d %s [%s:%d]" % (os.path.relpath(f.filename, REPO), f.lineno, f.name, os.path.basename(g.filename), g.lineno)


def worker(cid, idx, tier, seed, budget, conn):
    try:
        import ctypes
        import faulthandler
        import signal
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # die with the parent
        faulthandler.register(signal.SIGUSR1)
        sys.setrecursionlimit(20000)
        chk = load_check(cid)
        cfg = chk.configs(tier)[idx]
        t0 = time.time()
        ex = Explorer(chk, cfg, tier, seed, budget)
        try:
            ex.run()
        except BaseException as e:
            ex.errors.append("engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        if ex.fail is None and ex.errors and not cfg.get("nosearch"):
            try:
                ex.concrete_search()
            except BaseException as e:
                ex.errors.append("search: %s %s" % (type(e).__name__, e))
        s = ex.st
        res = dict(name=cfg["name"], fail=ex.fail, errors=ex.errors, notes=ex.notes, funcs=sorted(ex.funcs),
                   wall=time.time() - t0, sample=ex.sample,
                   stats=dict((k, getattr(s, k)) for k in ("queries", "sat", "unsat", "unknown", "solver_s", "paths",
                                                           "goals", "goals_trivial", "cut", "witnesses", "validated")))
        conn.send(res)
    except BaseException as e:
        conn.send(dict(name=str(idx), fail=None, errors=["worker: %s: %s" % (type(e).__name__, e)], notes=[], funcs=[],
                       wall=0, sample=None, stats={}))
    finally:
        conn.close()
        os._exit(0)


def run_all(cid, tier, seed, jobs, budget, only=None):
    chk = load_check(cid)
    cfgs = chk.configs(tier)
    ctxm = mp.get_context("fork")
    # load the real package once before forking
    for m in getattr(chk, "PRELOAD", ()):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            importlib.import_module(m)
    todo = [i for i, c in enumerate(cfgs) if only is None or fnmatch.fnmatch(c["name"], only)]
    todo.sort(key=lambda i: -cfgs[i].get("weight", 1))
    running, results = {}, {}
    t_end = time.time() + budget
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = ctxm.Pipe(False)
            left = max(5.0, min(cfgs[i].get("budget", budget), t_end - time.time()))
            p = ctxm.Process(target=worker, args=(cid, i, tier, seed, left, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time() + left + 60)
        for i, (p, a, lim) in list(running.items()):
            if a.poll(0.02):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = dict(name=cfgs[i]["name"], fail=None, errors=["worker died"], notes=[], funcs=[], wall=0,
                                      sample=None, stats={})
                p.join()
                del running[i]
            elif time.time() > lim or not p.is_alive() and not a.poll(0.2):
                p.kill()
                p.join()
                results[i] = dict(name=cfgs[i]["name"], fail=None, errors=["worker killed (time or memory limit)"], notes=[],
                                  funcs=[], wall=budget, sample=None, stats={})
                del running[i]
    return chk, cfgs, [results[i] for i in sorted(results)]


def known_findings(cid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == cid and k.get("kind") == "finding"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?")
    ap.add_argument("--selfcheck", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    cid = a.check
    if a.selfcheck:
        import z3
        x = z3.Real("x")
        sv = z3.Solver()
        sv.add(x * x < 0)
        assert str(sv.check()) == "unsat"
        assert os.path.isdir(os.path.join(REPO, "RMutils"))
        from . import selftest
        print(selftest.main())
        print("z3", z3.get_version_string(), "numpy", rnp.__version__, "python", sys.version.split()[0])
        return
    if a.replay:
        d = json.load(open(a.replay))
        chk = load_check(cid)
        cfg = [c for c in chk.configs(d.get("tier", "quick")) if c["name"] == d["config"]][0]
        fails, raised, n = replay(chk, cfg, envload(d["env"]), quiet=False)
        print("checks:", n, "failures:", fails, "raised:", raised)
        sys.exit(1 if fails or raised else 0)
    import faulthandler
    import signal
    faulthandler.register(signal.SIGUSR1)
    budget = a.budget or (700 if a.tier == "quick" else 3000)
    t0 = time.time()
    chk, cfgs, res = run_all(cid, a.tier, a.seed, a.jobs, budget, a.only)
    wall = time.time() - t0
    viol, errs, knownhit = [], [], []
    kf = known_findings(cid)
    rdir = os.path.join(EVID, "replays")
    for r in res:
        if a.v:
            print("%-40s %6.1fs %s" % (r["name"], r["wall"], r["stats"]))
        if r["fail"]:
            k = next((k for k in kf if fnmatch.fnmatch(r["name"], k["config"]) and fnmatch.fnmatch(r["fail"]["label"], k["label"])), None)
            if k is not None:
                knownhit.append((k, r))
                continue
            os.makedirs(rdir, exist_ok=True)
            f = os.path.join(rdir, "%s-%s.json" % (cid, "".join(c if c.isalnum() else "_" for c in r["name"])))
            json.dump(dict(property=cid, config=r["name"], tier=a.tier, **r["fail"]), open(f, "w"), indent=1)
            viol.append((f, r))
        elif r["errors"]:
            errs.append(r)
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in res for f in r["funcs"]))
    samples = [dict(config=r["name"], inputs=r["sample"]) for r in res if r.get("sample")][:5]
    ev = dict(property=cid, tier=a.tier, seed=a.seed, level="model_checking",
              coverage=dict(
                  states=max(1, int(tot.get("paths", 0))), transitions=max(1, int(tot.get("queries", 0))),
                  traces_validated_against_impl=int(tot.get("validated", 0)),
                  samples=samples or [dict(note="no witness")],
                  explanation="states = symbolic paths explored exhaustively; transitions = SMT queries discharged",
                  functions_encoded=funcs, bounds=getattr(chk, "BOUNDS", ""),
                  configurations=[r["name"] for r in res],
                  queries=int(tot.get("queries", 0)), unsat=int(tot.get("unsat", 0)), sat=int(tot.get("sat", 0)),
                  unknown=int(tot.get("unknown", 0)), solver_s=round(tot.get("solver_s", 0), 3),
                  assertions=int(tot.get("goals", 0)), assertions_closed_by_normalisation=int(tot.get("goals_trivial", 0)),
                  infeasible_or_cut_paths=int(tot.get("cut", 0)), witnesses=int(tot.get("witnesses", 0)),
                  inconclusive=[dict(config=r["name"], why=r["errors"][:3]) for r in errs]),
              wall_s=round(wall, 2), assumptions=list(getattr(chk, "ASSUME", [])) + COMMON,
              violations=[dict(config=r["name"], replay=f, **r["fail"]) for f, r in viol])
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, cid + ".json"), "w"), indent=1)
    for k, r in knownhit:
        print("KNOWN-FINDING: property=%s %s (config %s)" % (cid, k["what"], r["name"]))
    for f, r in viol:
        print("  %s: %s | %s | inputs %s" % (r["name"], r["fail"]["label"], r["fail"]["detail"], json.dumps(r["fail"]["env"])[:400]))
        print("VIOLATION property=%s replay=%s" % (cid, f))
    for r in errs:
        print("INCONCLUSIVE %s %s: %s" % (cid, r["name"], " | ".join(r["errors"][:3])))
    print("%s %s: %d configs, %d paths, %d assertions (%d by normalisation), %d queries (%.1fs solver, %d unknown), %d/%d witnesses validated, %.1fs"
          % (cid, a.tier, len(res), tot.get("paths", 0), tot.get("goals", 0), tot.get("goals_trivial", 0), tot.get("queries", 0),
             tot.get("solver_s", 0), tot.get("unknown", 0), tot.get("validated", 0), tot.get("witnesses", 0), wall))
    sys.exit(1 if viol else 2 if errs else 0)


COMMON = [
    "floating-point numbers are treated as exact reals plus NaN and +-inf; decimal literals are read as written",
    "numpy/math primitives behave as documented (symx/npshim.py); the finufft type-3 transform is the exact sum it documents",
]

if __name__ == "__main__":
    main()
