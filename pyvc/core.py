"""Path exploration, path conditions, obligations, solvers, loops.

One VC object drives the verification of one function contract.  The (instrumented) real code runs on
symbolic values; `fork` decides branches, re-executing from scratch with a recorded decision prefix.
"""
import os, subprocess, tempfile, time
import z3

# patterns are not reference counted by this binding: keep them and their terms alive
_keep = []
_mp0 = z3.MultiPattern
def _mp(*a):
    p = _mp0(*a)
    _keep.append((a, p)); z3.Z3_inc_ref(p.ctx.ref(), p.as_ast())
    return p
z3.MultiPattern = z3.z3.MultiPattern = _mp

class PathEnd(BaseException):
    """The current path is finished (e.g. arrived back at a loop head)."""

class Infeasible(BaseException):
    pass

class Unsupported(BaseException):
    """The code uses something the engine cannot model: outside the verifier's reach."""

class Restart(BaseException):
    pass

class Obl:
    __slots__ = ("name", "status", "secs", "backend", "detail", "kind")
    def __init__(self, name, status, secs, backend, detail="", kind="ensures"):
        self.name, self.status, self.secs, self.backend, self.detail, self.kind = name, status, secs, backend, detail, kind

def _smt2(assertions):
    s = z3.Solver()
    s.add(*assertions)
    return s.to_smt2()

SCALE = 1
def run_cvc5(assertions, timeout):
    """Second opinion: is the conjunction unsatisfiable?"""
    try:
        txt = "(set-logic ALL)\n" + _smt2(assertions)
    except Exception:
        return "unknown"
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, txt.encode()); os.close(fd)
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--full-saturate-quant", p],
                           capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)

class Frame:
    """Decisions and path condition of one exploration (the top one or a nested summary)."""
    def __init__(self, prefix, parent=None):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.parent = parent

class Path(list):
    """the assumptions made so far, with a number that stands for exactly them"""
    id = 0

def has_quantifier(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        todo += x.children()
    return False

class VC:
    cur = None
    def __init__(self, name="", fork_ms=400, prove_ms=4000, use_cvc5=True, max_paths=4000, deadline=None):
        self.name = name
        self.fork_ms, self.prove_ms, self.use_cvc5 = fork_ms, prove_ms, use_cvc5
        self.max_paths = max_paths
        self.loopinfo = {}
        self.obls = {}
        self.stats = dict(z3=0, cvc5=0, fork=0, paths=0, restarts=0, solver_s=0.0)
        self.returned_paths = 0
        self.assumptions = set()
        self.contract_uses = set()
        self.deadline = deadline
        self.paths, self.answers, self.tried = {}, {}, {}
        self.axioms = []           # global lemma facts (quantified), name -> formula
        self.collect = True
        self.active_contracts = {}
        self.verifying = None
        self.proven_cache = {}
        self.nquant = 0

    # ---- path state ------------------------------------------------------------------------
    def reset_path(self, prefix):
        self.frame = Frame(prefix)
        self.pc = Path()             # list of (formula, kind)
        self.nquant = 0              # the same path gives the same formulas
        self.counter = 0
        self.cellcount = 0
        self.writes = []             # write logs (stack of sets)
        self.scope = []              # index variables of enclosing summaries
        self.objs = {}
        self.objkeep = []
        self.loopstack = []
        self.solver = z3.Solver()
        self.solver.set("smt.mbqi", False)
        self.solver.set("smt.qi.max_instances", 20000)
        for a in self.axioms:
            self.solver.add(a)
        self.ghost = {}
        self.hooks = {}
        self.inv_templates = list(self.base_inv)
        self.hint_templates = list(self.base_hint)
        self.born_templates = []

    def freshname(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def fresh(self, base, sort):
        nm = self.freshname(base)
        if self.scope:
            f = z3.Function(nm, *[v.sort() for v in self.scope], sort)
            return f(*self.scope)
        return z3.Const(nm, sort)

    def fact(self, f):
        self._add(f, "fact")

    assume = fact

    def cond(self, f):
        self._add(f, "cond")

    def _add(self, f, kind):
        if isinstance(f, bool):
            if f: return
            raise Infeasible()
        f2 = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f2): return
        if z3.is_false(f2): raise Infeasible()
        self.pc.append((f, kind))
        k = (self.pc.id, f.get_id())
        e = self.paths.get(k)
        if e is None: e = self.paths[k] = (len(self.paths) + 1, f)      # f is kept: its number is not given to another formula
        self.pc.id = e[0]
        self.solver.add(f)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def _check(self, extra, ms):
        """is the path with `extra` satisfiable?  Answers are remembered per path and formula"""
        k = (self.pc.id, extra.get_id())
        e = self.answers.get(k)
        if e is not None and (e[0][0] == z3.unsat or e[2] >= ms):
            self.stats["remembered"] = self.stats.get("remembered", 0) + 1
            return e[0]
        r = self._check1(extra, ms)
        self.answers[k] = (r, extra, ms)
        return r

    def _check1(self, extra, ms):
        self.tick()
        t = time.time()
        self.solver.push()
        self.solver.set("timeout", int(ms * SCALE if ms >= 1000 else ms))
        try:
            self.solver.add(extra)
            r = self.solver.check()
            m = None
            reason = ""
            if r == z3.unknown:
                reason = self.solver.reason_unknown()
            if r == z3.sat:
                try: m = self.solver.model()
                except z3.Z3Exception: m = None
        finally:
            self.solver.pop()
        self.stats["solver_s"] += time.time() - t
        return r, m, reason

    def feasible(self, f):
        self.stats["fork"] += 1
        r, _, _ = self._check(f, self.fork_ms)
        return r != z3.unsat

    def implied(self, f, ms=None):
        """Quick proof attempt inside a path."""
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        r, _, _ = self._check(z3.Not(f), ms or self.fork_ms)
        return r == z3.unsat

    def fork(self, c):
        """Branch on formula c; returns a Python bool for this path."""
        if isinstance(c, bool): return c
        s = z3.simplify(c)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        fr = self.frame
        i = len(fr.taken)
        if i < len(fr.prefix):
            d = fr.prefix[i]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                d = True
                fr.alts.append(fr.taken + [False])
            else:
                d = ft
        fr.taken.append(d)
        self.cond(c if d else z3.Not(c))
        return d

    def choose(self, n):
        fr = self.frame
        i = len(fr.taken)
        if i < len(fr.prefix):
            d = fr.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                fr.alts.append(fr.taken + [k])
        fr.taken.append(d)
        return d

    # ---- obligations -----------------------------------------------------------------------
    def prove(self, name, f, kind="ensures", ms=None, quiet=False, hard=False):
        """Discharge pc => f.  Returns True/False; records the obligation."""
        if self.dirty and not quiet: return True      # this exploration is repeated: nothing is recorded from it
        ms = ms or self.prove_ms
        t = time.time()
        detail = ""
        backend = "z3"
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        s = z3.simplify(f)
        if z3.is_true(s):
            ok, backend = True, "simplify"
        else:
            key = None
            r, m, reason = self._check(z3.Not(f), ms)
            ok = r == z3.unsat
            self.stats["z3"] += 1
            known = self.tried.get((self.pc.id, f.get_id()))
            if not ok and quiet and known is not None and known[1] >= ms: ok = known[0]
            elif not ok and not quiet and name in self.obls and self.obls[name].status == "failed": pass      # lost already
            elif not ok and r != z3.sat and not (quiet and not hard and "incomplete" in reason):
                # a fresh solver is often luckier than the incremental one
                s2 = z3.Solver(); s2.set("timeout", int(ms)); s2.set("smt.mbqi", False)
                asr = list(self.axioms) + [p for p, _ in self.pc] + [z3.Not(f)]
                s2.add(*asr)
                self.tick()
                r2 = s2.check()
                ok = r2 == z3.unsat
                if not ok and not quiet:
                    for seed, mb, th in ((5, False, 40), (11, True, 10)):
                        s2 = z3.Solver(); s2.set("timeout", int(ms * SCALE)); s2.set("smt.mbqi", mb); s2.set("smt.random_seed", seed); s2.set("smt.qi.eager_threshold", float(th))
                        s2.add(*asr); self.tick()
                        if s2.check() == z3.unsat: ok = True; break
                if not ok and self.use_cvc5 and not quiet:
                    self.tick()
                    c = run_cvc5(asr, max(ms / 1000.0, 3))
                    self.stats["cvc5"] += 1
                    if c == "unsat":
                        ok, backend = True, "cvc5"
                if quiet: self.tried[(self.pc.id, f.get_id())] = (ok, ms, f)
            if not ok:
                detail = "%s %s" % (r, reason)
                if m is not None:
                    detail += "\nmodel: " + str(m)[:3000]
                detail += "\ngoal: " + str(s)[:1500]
        if not quiet:
            self.record(name, ok, time.time() - t, backend, detail, kind)
        return ok

    def prove_from(self, name, premises, f, ms=None):
        """prove f from the ground facts and the given premises only (each of them is proved first)"""
        for k, p in enumerate(premises):
            if not self.implied(p, ms=ms or self.prove_ms): return self.prove(name, f, ms=ms)
        if self.dirty: return True
        t = time.time(); s2 = z3.Solver(); s2.set("timeout", int(ms or self.prove_ms)); s2.set("smt.mbqi", False)
        s2.add(*[a for a in list(self.axioms) + [p for p, _ in self.pc] if not has_quantifier(a)]); s2.add(*premises); s2.add(z3.Not(f))
        self.tick()
        if s2.check() == z3.unsat:
            self.record(name, True, time.time() - t, "z3", "", "ensures"); return True
        return self.prove(name, f, ms=ms)

    def record(self, name, ok, secs, backend, detail, kind):
        o = self.obls.get(name)
        if o is None:
            self.obls[name] = Obl(name, "proved" if ok else "failed", secs, backend, detail, kind)
        else:
            o.secs += secs
            if not ok:
                if o.status != "failed": o.detail = detail
                o.status = "failed"
            if backend == "cvc5": o.backend = "cvc5"

    # ---- nested exploration ----------------------------------------------------------------
    def sub(self, fn, scope_vars=(), guard=None):
        """Explore fn() from here without side effects; returns [(conds, facts, value, exception)]."""
        saved = (self.frame, self.pc, self.solver, self.scope, self.counter)
        base_cells = self.cellcount
        results = []
        stack = [[]]
        maxcounter = self.counter
        try:
            while stack:
                pre = stack.pop()
                self.frame = Frame(pre, saved[0])
                self.pc = Path(saved[1]); self.pc.id = saved[1].id
                n0 = len(self.pc)
                self.counter = maxcounter if False else saved[4] + 0
                # distinct fresh names per sub path
                self.counter = maxcounter
                self.solver = saved[2]
                self.solver.push()
                self.scope = saved[3] + list(scope_vars)
                self.writes.append({})
                val = exc = None
                end = False
                try:
                    if guard is not None:
                        self.cond(guard)
                    val = fn()
                except Infeasible:
                    end = True
                except PathEnd:
                    end = True
                except Exception as e:
                    exc = e
                finally:
                    self.solver.pop()
                    w = self.writes.pop()
                maxcounter = max(maxcounter, self.counter)
                stack.extend(self.frame.alts)
                if any(c.cid <= base_cells for c in w.values()):
                    raise Unsupported("side effect inside a summarised expression")
                if end: continue
                new = self.pc[n0:]
                results.append(([f for f, k in new if k == "cond"], [f for f, k in new if k == "fact"], val, exc))
        finally:
            self.frame, self.pc, self.solver, self.scope = saved[:4]
            self.counter = maxcounter
        return results

    # ---- driver ----------------------------------------------------------------------------
    def explore(self, run):
        """Run all paths of run(); loops restart the exploration when their invariants change."""
        VC.cur = self
        while True:
            self.obls = {}
            self.returned_paths = 0
            self.dirty = False
            stack = [[]]
            npaths = 0
            try:
                while stack:
                    pre = stack.pop()
                    npaths += 1
                    self.stats["paths"] += 1
                    if npaths > self.max_paths:
                        raise Unsupported("too many paths")
                    self.reset_path(pre)
                    try:
                        run()
                        self.returned_paths += 1
                    except PathEnd:
                        pass
                    except Infeasible:
                        pass
                    stack.extend(self.frame.alts)
                if self.dirty:
                    raise Restart()
                return
            except Restart:
                self.stats["restarts"] += 1
                if self.stats["restarts"] > 400:
                    raise Unsupported("too many restarts")
                continue
