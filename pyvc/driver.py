"""Runs contracts: one exploration per contract, in parallel worker processes."""
import os, sys, time, traceback, json
import z3
from .core import *
from . import rt, vals as V, facades
from .load import World
from .vals import *

CONTRACTS = []
import re
ENGINE = re.compile(r"\b(SBytes|SInt|SReal|SBool|SStr|SOpaque|VList|VDict|SeqView|SRec|ndarray|Poison|PT|facade|BoolRef|ArithRef)\b")

class C:
    """handed to a contract harness"""
    def __init__(self, vc, world, spec):
        self.vc, self.world, self.spec = vc, world, spec
    def prove(self, name, f, ms=None):
        return self.vc.prove(name, f, ms=ms)
    def require(self, *fs):
        for f in fs: self.vc.fact(f)
    def lemma(self, name, vs, hyps, f, pats=None, ms=20000):
        """a mathematical lemma: hyps => f for all vs, proved on its own, then available quantified"""
        s = z3.Solver(); s.set("timeout", ms); s.add(*hyps); s.add(z3.Not(f))
        t = time.time(); ok = s.check() == z3.unsat; bk = "z3"
        if not ok:
            from .core import run_cvc5
            ok = run_cvc5(list(hyps) + [z3.Not(f)], ms / 1000.0) == "unsat"; bk = "cvc5"
        self.vc.record("lemma: " + name, ok, time.time() - t, bk, "", "lemma")
        if ok: self.vc.fact(z3.ForAll(list(vs), z3.Implies(z3.And(*hyps), f), **({"patterns": pats} if pats else {})))
    def get(self, key): return self.world.get(key)
    def call(self, f, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            if isinstance(f, str):
                key = f; f = self.world.get(key)
                if key in self.world.raw: self.vc.direct = key
            return f(*a, **k), None
        except Exception as e:
            return None, e
    def ok(self, f, *a, **k):
        """call that must not raise"""
        r, e = self.call(f, *a, **k)
        if e is not None and isinstance(e, (TypeError, AttributeError, ValueError)) and ENGINE.search(str(e)) and "NoneType" not in str(e):
            raise Unsupported("the engine does not model: %s" % e)
        if e is not None:
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if "/repo/" in t.filename or t.filename.startswith(str(self.repo()))]
            at = " at %s:%s" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ""
            if os.environ.get("RAISES"): print("RAISES", repr(e), at, flush=True); [print("    ", str(p)[:300]) for p, _ in list(self.vc.pc)[-int(os.environ["RAISES"]):]]
            self.vc.prove("does not raise", False)
            o = self.vc.obls.get("does not raise")
            if o is not None and o.status == "failed" and "raised" not in o.detail:
                o.detail = "raised %r%s\n" % (e, at) + o.detail
            raise PathEnd()
        return r
    def repo(self):
        from . import load
        return load.REPO

class Spec:
    def __init__(self, target, prop, fn, kw):
        self.target, self.prop, self.fn = target, prop, fn
        self.kw = kw
        self.name = kw.get("name") or target
        self.bounded = kw.get("bounded")

def contract(target, prop, **kw):
    """register a contract harness for the function `target` ('module:qualname')"""
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        CONTRACTS.append(Spec(target, list(props), fn, kw))
        return fn
    return deco

def core_dump(vc):
    s = z3.Solver(); s.set("smt.mbqi", False); s.set(unsat_core=True)
    asr = list(vc.axioms) + [p for p, _ in vc.pc]
    for i, a in enumerate(asr): s.assert_and_track(a, "a%d" % i)
    print("contradiction:", s.check())
    for x in s.unsat_core(): print("  ", x, str(asr[int(str(x)[1:])])[:600])

def run_contract(i, budget=240):
    spec = CONTRACTS[i]
    t0 = time.time()
    vc = VC(spec.name, deadline=t0 + spec.kw.get("budget", budget))
    for k in ("fork_ms", "prove_ms", "max_paths", "use_cvc5"):
        if k in spec.kw: setattr(vc, k, spec.kw[k])
    vc.inv_ms = spec.kw.get("inv_ms", VC.inv_ms)
    vc.base_inv = list(spec.kw.get("inv", ()))
    vc.base_hint = list(spec.kw.get("hints", ()))
    vc.axioms = []
    vc.template_errors = []
    res = dict(name=spec.name, target=spec.target, props=spec.prop, status="ok", reason="", obls=[], stats={}, uses=[], assumptions=[])
    VC.cur = vc
    try:
        vc.on = False
        vc.reset_path([])
        fac = dict(facades.DEFAULT); fac.update(spec.kw.get("facades", {}))
        vc.on = True
        world = World(fac, spec.kw.get("stubs", {}))
        if "axioms" in spec.kw: vc.axioms = list(spec.kw["axioms"]())
        c = C(vc, world, spec)
        def run():
            vc.direct = None; vc.auto_filter = None
            spec.fn(c)
            # reachability: the path condition behind the postconditions must not be contradictory
            if vc._check(z3.BoolVal(True), 1000)[0] != z3.unsat: vc.live += 1
            elif os.environ.get("PYVC_CORE"): core_dump(vc)
        vc.live = 0
        try:
            world.load(spec.target.split(":")[0])
        except (Unsupported,): raise
        vc.explore(run)
        if vc.returned_paths == 0 and not any(o.status == "failed" for o in vc.obls.values()):
            res["status"] = "vacuous"; res["reason"] = "no path reaches the postcondition"
        elif vc.live == 0 and vc.returned_paths and not any(o.status == "failed" for o in vc.obls.values()):
            res["status"] = "vacuous"; res["reason"] = "contradictory path conditions"
        elif not vc.obls:
            res["status"] = "vacuous"; res["reason"] = "no obligations"
    except Unsupported as e:
        res["status"] = "unsupported"; res["reason"] = str(e)
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    except RecursionError as e:
        res["status"] = "unsupported"; res["reason"] = "recursion"
    except (AttributeError, ImportError, TypeError, KeyError, NameError, IndexError, ValueError, NotImplementedError, z3.Z3Exception, AssertionError, TypeMismatch) as e:
        res["status"] = "unsupported"; res["reason"] = "%s: %s @ %s" % (type(e).__name__, str(e)[:300], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-4:]))
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    res["obls"] = [dict(name=o.name, status=o.status, secs=round(o.secs, 3), backend=o.backend, detail=o.detail, kind=o.kind) for o in vc.obls.values()]
    if res["status"] == "ok" and any(o.status == "failed" for o in vc.obls.values()): res["status"] = "failed"
    res["stats"] = dict(vc.stats, returned=vc.returned_paths, wall=round(time.time() - t0, 2))
    res["uses"] = sorted(vc.contract_uses)
    res["assumptions"] = sorted(vc.assumptions)
    res["template_errors"] = sorted(set(vc.template_errors))[:5]
    return res

def _worker(args):
    return run_contract(*args)

def run_props(props, jobs=8, budget=240, only=None, retries=0):
    """run every contract of the given properties; returns the list of results"""
    import multiprocessing as mp
    idx = [i for i, s in enumerate(CONTRACTS) if set(s.prop) & set(props) and (only is None or only in s.name)]
    ctx = mp.get_context("fork")
    out = []
    procs = []
    # one process per contract (z3 state is not shared); at most `jobs` at a time
    pending = list(idx); running = {}; first = {}; t0 = time.time()
    # an obligation the solver gives no answer to may only be bad luck: the contract is tried again with another seed and more time
    def settle(i, r, secs):
        if r["status"] in ("failed", "vacuous"):
            first.setdefault(i, []).append(r)
            if retries and len(first[i]) <= retries and secs < 150 and time.time() - t0 < 330: again.append(i); return
            r = first[i][0]
        elif i in first:
            if r["status"] == "ok": r["stats"]["attempts"] = len(first[i]) + 1
            else: r = first[i][0]
        out.append(r)
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, i, budget, len(first.get(i, ())))); p.start(); w.close()
            running[i] = (p, r, time.time())
        done, again = [], []
        for i, (p, r, t) in running.items():
            if r.poll(0.02):
                try: x = r.recv()
                except EOFError: x = _crash(i, "worker died")
                settle(i, x, time.time() - t)
                p.join(); done.append(i)
            elif time.time() - t > CONTRACTS[i].kw.get("budget", budget) + 60:
                p.kill(); p.join(); out.append(_crash(i, "time budget exhausted (killed)")); done.append(i)
        for i in done: running.pop(i)
        pending += again
    out.sort(key=lambda r: r["name"])
    return out

def _crash(i, why):
    s = CONTRACTS[i]
    return dict(name=s.name, target=s.target, props=s.prop, status="unsupported", reason=why, obls=[], stats={}, uses=[], assumptions=[], template_errors=[])

def _child(w, i, budget, attempt=0):
    if attempt:
        z3.set_param("smt.random_seed", 17 * attempt); z3.set_param("sat.random_seed", 17 * attempt)
        from . import core
        core.SCALE = 1 + attempt
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    sys.setrecursionlimit(20000)
    try: r = run_contract(i, budget)
    except BaseException as e:
        r = _crash(i, "%s: %s" % (type(e).__name__, str(e)[:300]))
    w.send(r); w.close()
    os._exit(0)
