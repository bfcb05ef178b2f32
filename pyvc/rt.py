"""Runtime called by the instrumented code: loops, displays, comprehensions, builtins."""
import time, re
import os
import builtins as B
import types
from fractions import Fraction
import typing
import z3
from .core import VC, PathEnd, Infeasible, Unsupported, Restart
from . import vals as V
from .vals import *
from .vals import _qv

# ---- VC extensions: write log -------------------------------------------------------------------
def note_write(self, cell, kv=None):
    for w in self.writes: w[cell.cid] = cell
def note_shared(self, cell):
    cell.shared = True
    for L in self.loopstack: L.info.shared_pending.add(cell.cid)
def widen(self, cell, ty):
    self.widened = getattr(self, "widened", {})
    self.widened[cell.cid] = ty
def obj_birth(self, o):
    k = id(o)
    if k not in self.objs:
        self.objs[k] = len(self.objs); self.objkeep.append(o)
    return self.objs[k]
def obj_moved(self, o):
    self.moved = getattr(self, "moved", set()); 
    self.obj_birth(o)
    self.movedset().add(id(o))
def movedset(self):
    s = self.ghost.get("__moved__")
    if s is None: s = self.ghost["__moved__"] = set()
    return s
VC.note_write, VC.note_shared, VC.widen, VC.obj_birth, VC.obj_moved, VC.movedset = note_write, note_shared, widen, obj_birth, obj_moved, movedset

LOOPDBG = os.environ.get("LOOPDBG")
class LoopInfo:
    def __init__(self):
        self.cells = {}        # cid -> Ty
        self.vars = {}         # name -> Ty | "same" | "poison"
        self.attrs = {}        # (objidx, attr) -> Ty | "poison"
        self.dead = set()      # dropped candidate invariants
        self.shared = set()
        self.shared_pending = set()
        self.proved = set()

class LazyOpt:
    """an optional value whose case is not decided yet"""
    def __init__(self, ty, term): self.ty, self.term = ty, term

class State:
    """typed snapshot at a loop head: terms only"""
    def __init__(self, it, n, seq):
        self.it, self.n, self.seq = it, n, seq
        self.items = {}      # path -> (Ty, term)
        self.mod = set()
        self.entry = {}      # path -> (Ty, term) at loop entry
        self.raw = {}
    def of(self, ty, mod=None):
        for p, (t, x) in sorted(self.items.items()):
            if t == ty and (mod is None or (p in self.mod) == mod): yield p, x
    def where(self, pred, mod=None):
        for p, (t, x) in sorted(self.items.items()):
            if pred(t) and (mod is None or (p in self.mod) == mod): yield p, t, x

class Loop:
    def __init__(self, lid, iterable, names, kind, const_true=False):
        v = VC.cur
        self.lid, self.names, self.kind, self.const_true = lid, names, kind, const_true
        self.mode = None
        self.done = False
        self.item = None
        self.i = -1
        self.iterable = iterable
        self.unroll = 0
        if kind == "for":
            it = iterable
            if hasattr(type(it), "__vc_iter__"): it = it.__vc_iter__()
            if isinstance(it, V.VDict) and it.items_ is None: it = it.keys()
            if isinstance(it, V.SSet): it = it.seq()
            if isinstance(it, (V.VList, V.SeqView)): self.seq = it
            elif isinstance(it, Sym) and not isinstance(it, V.VDict): raise Unsupported("iteration over %r" % it)
            else: self.seq = None; self.pyit = iter(it)
        else: self.seq = None

    # -- concrete iteration
    def _concrete_for(self):
        if self.seq is None: return True
        if isinstance(self.seq, V.VList):
            if self.seq.items is not None: return True
            s = z3.simplify(self.seq.n)
            return z3.is_int_value(s) and s.as_long() <= 8
        s = z3.simplify(self.seq.n)
        return z3.is_int_value(s) and s.as_long() <= 8 or (z3.is_int_value(s) and self.seq.kind == "range" and s.as_long() <= 300)

    def _next(self):
        self.i += 1
        if self.seq is None:
            try: self.item = next(self.pyit)
            except StopIteration: self.done = True
            return
        if isinstance(self.seq, V.VList) and self.seq.items is not None:
            if self.i < len(self.seq.items): self.item = self.seq.items[self.i]
            else: self.done = True
            return
        n = z3.simplify(self.seq.n).as_long()
        if self.i < n: self.item = self.seq.at(z3.IntVal(self.i))
        else: self.done = True

    def head(self, loc, cond=None):
        loc = dict(loc)      # CPython reuses the locals() dict
        VC.cur.tick()
        if self.mode == "body":
            self.end_body(loc)
        if self.kind == "for":
            if self.mode is None:
                if self._concrete_for(): self.mode = "conc"
                else: return self.cut(loc)
            self._next()
            return {}
        # while
        if self.mode is None:
            if not self.const_true:
                res = VC.cur.sub(cond)
                if len(res) == 1 and res[0][3] is None and not res[0][0]:
                    c = res[0][2]
                    if not isinstance(c, Sym) or isinstance(c, (V.VList, V.VDict)):
                        self.unroll += 1
                        if self.unroll > 300: raise Unsupported("loop unrolled too often")
                        self.val = bool(c)
                        self.probe = True
                        return {}
            if self.unroll: 
                pass
            return self.cut(loc)
        return {}

    def test(self, cond):
        if self.mode is None: return self.val
        c = cond()
        c = bool(c) if not self.const_true else True
        if self.mode == "body":
            if not c: raise Infeasible()
            return True
        if self.mode == "exit":
            if c: raise Infeasible()
            return False
        return c

    # -- cut
    def chain(self):
        f = VC.cur.frame; r = []
        while f is not None:
            r.append(tuple(f.taken)); f = f.parent
        return tuple(r)

    def typed_locals(self, loc):
        """path -> value, for every local and every attribute of local objects (two levels)"""
        out = {}
        self.owner = {}
        def add(p, x, d):
            if isinstance(x, (Sym, LazyOpt)) and not isinstance(x, V.SeqView): out[p] = x
            elif isinstance(x, (int, float, str, bytes, Fraction, tuple, type(None), bool)): out[p] = x
            elif isinstance(self.info.attrs.get(self.owner.get(p)), (TRec, TOpt)) or isinstance(self.info.vars.get(p), (TRec, TOpt)): out[p] = x
            elif d < 2 and hasattr(x, "__dict__") and not isinstance(x, (type, types.ModuleType, types.FunctionType, types.MethodType)) and id(x) in VC.cur.objs:
                for a, y in sorted(x.__dict__.items()):
                    self.owner[p + "." + a] = (VC.cur.objs[id(x)], a)
                    add(p + "." + a, y, d + 1)
        for n in sorted(loc):
            if n.startswith("_vc_") : continue
            add(n, loc[n], 0)
        for k, o in enumerate(VC.cur.ghost.get("spec_roots", ())):
            add("$%d" % k, o, 0)
        return out

    def snapshot(self, loc, it):
        v = VC.cur
        S = State(it, self.nterm, self.seq)
        S.loop = self
        for p, x in self.typed_locals(loc).items():
            ty = None
            if p in self.names or "." in p:
                t = self.info.vars.get(p)
                if isinstance(t, Ty): ty = t
            if isinstance(self.info.attrs.get(self.owner.get(p)), Ty): ty = self.info.attrs[self.owner[p]]
            if isinstance(x, Container) and x.loc is None and x.cid in self.info.cells:
                ty = self.info.cells[x.cid]
                S.mod.add(p)
            if isinstance(x, LazyOpt):
                S.items[p] = (x.ty, x.term); S.mod.add(p); continue
            if ty is None: ty = typeof(x)
            if ty is None or ty in (TEmptyList, TEmptyDict): continue
            try: S.items[p] = (ty, _ro(ty, x))
            except TypeMismatch: continue
            if p in self.info.vars and self.info.vars[p] != "same": S.mod.add(p)
            if self.owner.get(p) in self.info.attrs: S.mod.add(p)
            S.raw[p] = x
        S.entry = self.entry
        return S

    def cut(self, loc):
        v = VC.cur
        self.key = (self.lid, self.chain())
        info = v.loopinfo.get(self.key)
        if info is None: info = v.loopinfo[self.key] = LoopInfo()
        self.info = info
        info.shared_pending = set()
        self.mark = v.cellcount
        self.objmark = len(v.objs)
        self.nterm = self.seq.n if self.seq is not None else None
        if isinstance(self.seq, V.VList):
            rc = self.seq.root().cid
            if rc in info.cells:
                # either the body modifies it, or the number is that of another container of an earlier exploration: the body says which
                info.iterhits = getattr(info, "iterhits", 0) + 1
                if info.iterhits > 6: raise Unsupported("loop modifies the list it iterates over")
                del info.cells[rc]
            # freeze the iterated list
            frozen = self.seq
        self.cells = {c.cid: c for c in v.allcells}
        # make the modified cells symbolic (value preserving) so that terms exist at entry
        self.entry = {}
        for cid, ty in sorted(info.cells.items()):
            c = self.cells.get(cid)
            if c is None or isinstance(ty, str): continue
            if isinstance(c, V.VList): c.make_symbolic(ty.ty)
            elif isinstance(c, V.VDict): c.make_symbolic(ty)
        E = self.snapshot(loc, z3.IntVal(0))
        self.entry = dict(E.items)
        E.entry = self.entry
        v.loopstack.append(self)
        cands = self.candidates(E)
        for lab, f in cands:
            if lab in info.dead: continue
            if not v.prove("inv-init:" + lab, f, quiet=True, ms=v.inv_ms):
                info.dead.add(lab)
                if LOOPDBG: print("INIT-DEAD", self.lid.split(":")[-1], lab, str(z3.simplify(f))[:200])
        # (initial failures only shrink the set; nothing assumed yet on this path)
        init_labs = {lab for lab, _ in cands}
        self.user_labels = None
        br = v.choose(2)
        # havoc
        self.it = v.fresh("it", z3.IntSort()) if (br == 0 or self.kind == "while") else self.nterm
        if br == 0 or self.kind == "while": v.fact(self.it >= 0)
        if self.kind == "for":
            if br == 0: v.fact(self.it < self.nterm)
            else: v.fact(self.nterm >= 0)
        for cid, ty in sorted(info.cells.items()):
            c = self.cells.get(cid)
            if c is None: continue
            if isinstance(ty, str): raise Unsupported("loop modifies a container of unknown element type")
            v.note_write(c)      # enclosing loops see the effect of this loop
            c.havoc(ty)
            if cid in info.shared: c.shared = True
        for cid in info.shared:
            c = self.cells.get(cid)
            if c is not None: c.shared = True
            for L in v.loopstack:
                if L is not self: L.info.shared_pending.add(cid)
        upd = {}
        newloc = dict(loc)
        for n in self.names:
            if n not in loc:
                t = info.vars.get(n)
                if br == 1 and isinstance(t, Ty) and t not in (TEmptyList, TEmptyDict):
                    upd[n] = newloc[n] = LazyOpt(t, t.fresh(n)) if isinstance(t, TOpt) else t.new(n)
                elif br == 1 and t == "poison":
                    upd[n] = newloc[n] = Poison(n)
                continue
            t = info.vars.get(n, "same")
            if t == "same": continue
            upd[n] = newloc[n] = Poison(n) if t == "poison" else LazyOpt(t, t.fresh(n)) if isinstance(t, TOpt) else t.new(n)
        for (oi, a), t in sorted(info.attrs.items()):
            o = v.objkeep[oi]
            for L in v.loopstack:
                if L is not self and oi < L.objmark:
                    L.attrlog.add((oi, a))
                    if not hasattr(L, "attr_entry"): L.attr_entry = {}
                    if (oi, a) not in L.attr_entry: L.attr_entry[(oi, a)] = o.__dict__.get(a, V._MISSING)
            o.__dict__[a] = Poison(a) if isinstance(t, str) else LazyOpt(t, t.fresh(a)) if isinstance(t, TOpt) else t.new(a)
        S = self.snapshot({k: x for k, x in newloc.items() if k in loc}, self.it)
        for lab, f in self.candidates(S):
            if lab in info.dead: continue
            if lab not in init_labs:        # not established at entry
                info.dead.add(lab)
                if LOOPDBG: print("NO-INIT", self.lid.split(":")[-1], lab)
                continue
            v.fact(f)
        for f in self.hints(S): v.fact(f)
        self.S = S
        if br == 1:      # variables first assigned in the body: what holds at the end of every iteration holds after the last
            for lab, f in self.born({n: x for n, x in upd.items() if n not in loc}, self.it):
                if lab not in info.dead: v.fact(z3.Implies(self.it >= 1, f))
        for n, x in list(upd.items()):
            if isinstance(x, LazyOpt): upd[n] = x.ty.wrap(x.term)
        for (oi, a) in info.attrs:
            x = v.objkeep[oi].__dict__.get(a)
            if isinstance(x, LazyOpt): v.objkeep[oi].__dict__[a] = x.ty.wrap(x.term)
        v.writes.append({})
        self.attrlog = set()
        if br == 0:
            self.mode = "body"
            self.entry_locals = loc
            if self.kind == "for": self.item = self.seq.at(self.it)
        else:
            v.writes.pop()
            v.loopstack.pop()
            self.mode = "exit"
            self.done = True
        return upd

    def candidates(self, S):
        """all candidate invariants at state S: [(label, formula)]"""
        v = VC.cur
        out = []
        out += [] if v.auto_filter is False else auto_candidates(S) if v.auto_filter is None else [x for x in auto_candidates(S) if v.auto_filter(x[0])]
        for gi, g in enumerate(v.inv_templates):
            try:
                for lab, f in g(S):
                    out.append(("user%d:%s" % (gi, lab), f))
            except (KeyError, z3.Z3Exception, TypeMismatch) as e:
                v.template_errors.append("%s: %r" % (self.lid, e))
        return out

    def born(self, loc, it):
        """[(label, formula)] about variables first assigned in the body"""
        v = VC.cur
        if not v.born_templates: return []
        S = State(it, self.nterm, self.seq); S.loop = self; S.entry = self.entry
        for n, x in loc.items():
            ty = self.info.vars.get(n)
            if not isinstance(ty, Ty) or ty in (TEmptyList, TEmptyDict): continue
            try: S.items[n] = (ty, _ro(ty, x)); S.mod.add(n)
            except TypeMismatch: continue
        out = []
        for gi, g in enumerate(v.born_templates):
            for lab, f in g(S): out.append(("born%d:%s" % (gi, lab), f))
        return out

    def hints(self, S):
        out = []
        for g in VC.cur.hint_templates:
            out += list(g(S))
        return out

    def end_body(self, loc):
        v = VC.cur
        info = self.info
        w = v.writes.pop()
        changed = False
        src = self.seq
        while isinstance(src, V.SeqView): src = src.src
        if isinstance(src, Container) and not isinstance(self.seq, V.VList) and src.root().cid in w and not v.implied(src.n == self.nterm): raise Unsupported("loop changes the length of what it iterates over")
        for c in w.values():
            if c.cid <= self.mark and c.loc is None:
                t = typeof(c)
                if t is None or t in (TEmptyList, TEmptyDict): 
                    old = info.cells.get(c.cid)
                    if old is None:
                        info.cells[c.cid] = "?"; changed = True
                    continue
                wd = getattr(v, "widened", {}).get(c.cid)
                if wd is not None: t = join(t, wd)
                old = info.cells.get(c.cid)
                if isinstance(old, Ty): t = join(old, t)
                if t is None: raise Unsupported("container type varies in loop")
                if V.incomplete(t):      # holds an empty list of unknown kind: another path of this exploration may tell
                    info.unk = getattr(info, "unk", 0) + 1
                    if info.unk > 8: raise Unsupported("loop modifies a container of unknown element type")
                    v.dirty = True
                    continue
                if old != t:
                    info.cells[c.cid] = t; changed = True
        for (oi, a) in self.attrlog:
            if oi >= self.objmark: continue
            now = v.objkeep[oi].__dict__.get(a)
            t = typeof(now)
            old = info.attrs.get((oi, a))
            ent = self.attr_entry.get((oi, a), V._MISSING) if hasattr(self, "attr_entry") else V._MISSING
            if ent is not V._MISSING and t is not None: t = join(typeof(ent), t)
            if isinstance(old, Ty) and t is not None: t = join(old, t)
            t = t if t is not None and t not in (TEmptyList, TEmptyDict) else "poison"
            if old != t: info.attrs[(oi, a)] = t; changed = True
        for n in self.names:
            if n not in loc: continue
            now = loc[n]
            old = info.vars.get(n, None)
            if n in self.entry_locals:
                ent = self.entry_locals[n]
                if now is ent or (not isinstance(now, Sym) and not isinstance(ent, Sym) and type(now) is type(ent) and isinstance(now, (int, float, str, bool, Fraction)) and now == ent):
                    t = old if old is not None else "same"
                elif isinstance(now, Container) and isinstance(ent, Container) and now is ent:
                    t = "same"
                else:
                    te, tn = typeof(ent), typeof(now)
                    t = join(te, tn) if te is not None and tn is not None else None
                    if isinstance(old, Ty) and t is not None: t = join(old, t)
                    if t is None or t in (TEmptyList, TEmptyDict) : t = "poison"
                    if old == "poison": t = "poison"
            else:
                t = typeof(now)
                if t is None or t in (TEmptyList, TEmptyDict): t = "poison"
                if isinstance(old, Ty):
                    t = join(old, t) if t != "poison" else "poison"
                    t = t or "poison"
                if old == "poison": t = "poison"
            if t != old:
                info.vars[n] = t; changed = True
        if not info.shared_pending <= info.shared:
            info.shared |= info.shared_pending; changed = True
        if changed:
            for li in v.loopinfo.values(): li.dead = set()
            v.dirty = True
            raise Restart()
        S2 = self.snapshot({k: x for k, x in loc.items() if k in self.entry_locals}, self.it + 1)
        dead = []
        labs = dict(self.candidates(S2))
        for lab, f in self.candidates(self.S):
            if lab in info.dead: continue
            g = labs.get(lab)
            if LOOPDBG: t0_ = time.time(); ok_ = g is not None and v.prove("inv-step:" + lab, g, quiet=True, ms=v.inv_ms, hard=lab.startswith("user")); print("STEP", self.lid.split("#")[-1], lab, ok_, round(time.time() - t0_, 2), flush=True)
            if g is None or not v.prove("inv-step:" + lab, g, quiet=True, ms=v.inv_ms, hard=lab.startswith("user")):
                dead.append(lab)
                if LOOPDBG and LOOPDBG in lab and g is not None:
                    sd = z3.Solver(); sd.add(*v.axioms); sd.add(*[p for p, _ in v.pc]); sd.add(z3.Not(g))
                    open("/tmp/loop_%d.smt2" % len(dead), "w").write(sd.to_smt2())
                if LOOPDBG: print("STEP-DEAD", self.lid.split(":")[-1], lab, "no candidate" if g is None else str(z3.simplify(g))[:200])
        for lab, f in self.born({n: loc[n] for n in self.names if n in loc and n not in self.entry_locals}, self.it + 1):
            if lab not in info.dead and not v.prove("inv-step:" + lab, f, quiet=True, ms=v.inv_ms, hard=True):
                dead.append(lab)
                if LOOPDBG: print("STEP-DEAD", self.lid.split(":")[-1], lab)
        if dead:
            # the exploration goes on (other candidates may die too) and is repeated without them afterwards
            info.dead |= set(dead)
            v.dirty = True
            v.loopstack.pop()
            raise PathEnd()
        for lab in labs:
            if lab not in info.dead:
                v.record("loop %s: invariant %s preserved" % (self.lid.split(":")[-1], lab), True, 0, "z3", "", "invariant")
        v.loopstack.pop()
        raise PathEnd()

def _ro(ty, x):
    """term of x at type ty without side effects on x; compound container terms get a name"""
    t = ty.unwrap(x)
    return named(ty, t)

def named(ty, t):
    if isinstance(ty, (TList, TDict, TRec)) and z3.is_app(t) and not (t.num_args() == 0 or t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        cache = VC.cur.ghost.setdefault("__named__", {})
        k = t.get_id()
        if k not in cache:
            c = VC.cur.fresh("st", ty.sort)
            VC.cur.fact(c == t)
            cache[k] = (c, t)
        return cache[k][0]
    return t

def auto_candidates(S):
    out = []
    for p, (ty, t) in sorted(S.items.items()):
        if p not in S.mod: continue
        e = S.entry.get(p)
        if e is None or e[0] != ty: continue
        e0 = e[1]
        if ty == TInt:
            out.append(("%s=entry+it" % p, t == e0 + S.it))
            out.append(("%s=entry-it" % p, t == e0 - S.it))
            out.append(("%s>=entry" % p, t >= e0))
            out.append(("%s<=entry" % p, t <= e0))
        elif ty == TReal:
            out.append(("%s>=entry" % p, t >= e0))
        elif isinstance(ty, TOpt):
            out.append(("%s none iff first" % p, ty.is_none(t) == (S.it == 0)))
            out.append(("%s none only first" % p, z3.Implies(ty.is_none(t), S.it == 0)))
        elif isinstance(ty, TList):
            n, n0 = ty.len(t), ty.len(e0)
            out.append(("len(%s)=entry+it" % p, n == n0 + S.it))
            out.append(("len(%s)>=entry" % p, n >= n0))
            out.append(("len(%s)=entry" % p, n == n0))
            out.append(("len(%s)<=entry+it" % p, n <= n0 + S.it))
            j = _qv("j")
            out.append(("%s prefix" % p, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n0), ty.at(t, j) == ty.at(e0, j)), patterns=[ty.at(t, j)])))
            if isinstance(ty.ty, TList):
                iy = ty.ty
                out.append(("%s inner lens" % p, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n0), iy.len(ty.at(t, j)) == iy.len(ty.at(e0, j))), patterns=[ty.at(t, j)])))
                if isinstance(iy.ty, TList):
                    k = _qv("k"); jy = iy.ty
                    out.append(("%s inner inner lens" % p, z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < n0, k >= 0, k < iy.len(ty.at(e0, j))), jy.len(iy.at(ty.at(t, j), k)) == jy.len(iy.at(ty.at(e0, j), k))), patterns=[iy.at(ty.at(t, j), k)])))
        elif isinstance(ty, TDict):
            out.append(("n(%s)=entry" % p, ty.n(t) == ty.n(e0)))
            out.append(("n(%s)=entry+it" % p, ty.n(t) == ty.n(e0) + S.it))
    for p, (ty, t) in sorted(S.items.items()):
        if ty == TInt and p not in S.mod and not z3.is_int_value(t):
            out.append(("it<=max(%s,0)" % p, S.it <= z3.If(t > 0, t, 0)))
            out.append(("it<=max(%s+1,0)" % p, S.it <= z3.If(t + 1 > 0, t + 1, 0)))
    # paired counters: i and len(L)
    ints = [(p, t) for p, (ty, t) in sorted(S.items.items()) if ty == TInt and p in S.mod]
    for p, t in ints:
        for q, (ty, u) in sorted(S.items.items()):
            if isinstance(ty, TList) and S.kind_small():
                out.append(("%s<=len(%s)" % (p, q), t <= ty.len(u)))
                out.append(("%s=len(%s)" % (p, q), t == ty.len(u)))
                out.append(("%s<len(%s)" % (p, q), t < ty.len(u)))
            if ty == TInt and q != p:
                out.append(("%s<=%s" % (p, q), t <= u))
        out.append(("%s>=0" % p, t >= 0))
        if S.n is not None: out.append(("%s<=n" % p, t <= S.n))
    return out

def kind_small(self): return sum(1 for p, (ty, t) in self.items.items() if isinstance(ty, TList)) <= 8
State.kind_small = kind_small

# ---- the __vc__ object ----------------------------------------------------------------------------
class RT:
    def floop(self, lid, it, names): return Loop(lid, it, list(names), "for")
    def wloop(self, lid, ct, names): return Loop(lid, None, list(names), "while", ct)
    def mklist(self, l): return real_zeros(V.VList.of(l)) if VC.cur is not None and VC.cur.on else l
    def mkdict(self, items):
        if VC.cur is None or not VC.cur.on: return dict(items)
        d = V.VDict.of({})
        for k, x in items: d[k] = x
        return d
    def is_(self, a, b):
        if a is b: return True
        if not (isinstance(a, Sym) or isinstance(b, Sym)): return False
        if a is None or b is None or isinstance(a, B.type) or isinstance(b, B.type): return False
        if isinstance(a, V.SBool) or isinstance(b, V.SBool):
            if isinstance(a, (V.SBool, bool)) and isinstance(b, (V.SBool, bool)): return V.mkbool(TBool.unwrap(a) == TBool.unwrap(b))
            return False
        if isinstance(a, Container) and isinstance(b, Container):
            if type(a) is not type(b): return False
            if a.loc is None and b.loc is None: return False      # separate top-level cells
            raise Unsupported("identity of nested containers")
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b): raise Unsupported("identity of symbolic values")
        if isinstance(a, V.SOpaque) or isinstance(b, V.SOpaque):
            raise Unsupported("identity of an opaque value")
        if isinstance(a, (V.SInt, V.SReal, V.SStr, V.SBytes)) and isinstance(b, (int, float, Fraction, str, bytes)) or isinstance(b, (V.SInt, V.SReal, V.SStr, V.SBytes)) and isinstance(a, (int, float, Fraction, str, bytes)):
            if isinstance(a, bool) or isinstance(b, bool): return False
            raise Unsupported("identity of symbolic values")
        return False
    def isnot(self, a, b):
        r = self.is_(a, b)
        return (not r) if isinstance(r, bool) else V.mkbool(z3.Not(r.t))
    def fstr(self, parts):
        sym = VC.cur is not None and VC.cur.on and any(p[0] == "v" and isinstance(p[1], Sym) for p in parts)
        h = VC.cur.hooks.get("fstr") if sym else None
        if h is not None:
            r = h(parts)
            if r is not None: return r
        out = []
        for p in parts:
            if p[0] == "s": out.append(p[1])
            else:
                x = p[1] if p[2] == -1 else {115: B.str, 114: B.repr, 97: B.ascii}[p[2]](p[1])
                out.append(B.format(x, p[3]))
        return "".join(out)
    def pct(self, fmt, a):
        if isinstance(a, Sym) or (isinstance(a, tuple) and any(isinstance(x, Sym) for x in a)):
            fmt = re.sub(r"%[-+ 0#]*[0-9.]*[diufgeExXo]", "%s", fmt)
        return fmt % a
    def mkset(self, items):
        if any(isinstance(x, Sym) for x in items): return V.SSet.of(items)
        return set(items)
    def setof(self, l):
        return vset(l)
    def dictof(self, l): return vdict(l)
    def setattr(self, o, a, x):
        v = VC.cur
        if v is None or not v.on or isinstance(o, (type, types.ModuleType)):
            setattr(o, a, x); return
        if isinstance(o, V.SRec): setattr(o, a, x); return
        if id(o) in v.movedset(): raise Unsupported("write to an object stored by value")
        oi = v.obj_birth(o)
        for L in v.loopstack:
            if oi < L.objmark:
                L.attrlog.add((oi, a))
                if not hasattr(L, "attr_entry"): L.attr_entry = {}
                if (oi, a) not in L.attr_entry: L.attr_entry[(oi, a)] = o.__dict__.get(a, V._MISSING)
        setattr(o, a, x)
    def iop(self, op, a, b):
        if op == "+":
            if isinstance(a, (V.VList,)) and isinstance(b, (V.VList, V.SeqView, list, tuple)):
                a.extend(b); return a
            return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "/": return vtruediv(a, b)
        if op == "//": return a // b
        if op == "%": return a % b
        if op == "**": return a ** b
        if op == "|": return a | b
        if op == "&": return a & b
        if op == "^": return a ^ b
        if op == "<<": return a << b
        if op == ">>": return a >> b
    def unpack(self, x, n):
        if isinstance(x, tuple):
            if len(x) != n: raise ValueError("unpack")
            return x
        if isinstance(x, (V.VList, V.SeqView)):
            if isinstance(x, V.VList) and x.items is not None:
                if len(x.items) != n: raise ValueError("unpack")
                return tuple(x.items)
            if not VC.cur.fork(x.n == n): raise ValueError("unpack")
            return tuple(x.at(z3.IntVal(i)) for i in range(n))
        if isinstance(x, Sym): raise TypeError("cannot unpack non-iterable")
        r = tuple(x)
        if len(r) != n: raise ValueError("unpack")
        return r
    def listcomp(self, lid, it, f, c):
        return listcomp(it, f, c)
    def flatcomp(self, lid, it, f, c):
        s = as_seq(it)
        items = s.concrete_items()
        if items is None: raise Unsupported("nested comprehension over a symbolic sequence")
        out = V.VList.of([])
        for x in items:
            if c is None or bool(c(x)): out.extend(f(x))
        return out

def real_zeros(l):
    """where the contract says so, lists of zeros are lists of real numbers (sums start from them)"""
    if VC.cur.ghost.get("zeros_are_real") and l.items and all(type(x) is int and x == 0 for x in l.items): l.ety = TReal
    return l

def listcomp(it, f, c):
    v = VC.cur
    if v is None or not v.on:
        return [f(x) for x in it if c is None or c(x)]
    if not isinstance(it, Sym):
        return real_zeros(V.VList.of([f(x) for x in it if c is None or c(x)]))
    s = as_seq(it)
    items = s.concrete_items()
    if items is not None:
        return real_zeros(V.VList.of([f(x) for x in items if c is None or c(x)]))
    j = _qv("j")
    rng = z3.And(j >= 0, j < s.n)
    if c is None:
        res = v.sub(lambda: f(s.at(j)), scope_vars=[j], guard=rng)
        res = raise_summarised(res, j, rng)
        ety, term, facts = merge_results(res)
        a = v.fresh("cmp", z3.ArraySort(z3.IntSort(), ety.sort))
        v.fact(z3.ForAll([j], z3.Implies(rng, z3.And(z3.Select(a, j) == term, *facts)), patterns=[z3.Select(a, j)]))
        return V.VList(ety, term=TList(ety).mk(s.n, a))
    resc = v.sub(lambda: bool(c(s.at(j))), scope_vars=[j], guard=rng)
    resc = raise_summarised(resc, j, rng)
    _, ct, cf = merge_results(resc, TBool)
    res = v.sub(lambda: f(s.at(j)), scope_vars=[j], guard=z3.And(rng, ct))
    res = raise_summarised(res, j, z3.And(rng, ct))
    ety, term, facts = merge_results(res)
    return filtered(s.n, j, ct, term, ety, list(facts) + list(cf))

def raise_summarised(res, j, rng):
    v = VC.cur
    out = []
    for conds, facts, val, exc in res:
        if exc is None: out.append((conds, facts, val, exc)); continue
        e = z3.Exists([j], z3.And(rng, *conds))
        if v.implied(z3.Not(e), ms=2000): continue
        if v.fork(e): raise exc
    if not out:
        # every element raises; reached only when there is no element
        v.fact(z3.ForAll([j], z3.Not(rng)))
        raise Infeasible()
    return out

def filtered(n, j, c, term, ety, facts=()):
    """the list of term(j) for the j in [0,n) with c(j), in order"""
    v = VC.cur
    I = z3.IntSort()
    nm = v.freshname("flt")
    cnt = z3.Function(nm + ".cnt", *[x.sort() for x in v.scope], I, I)
    src = z3.Function(nm + ".src", *[x.sort() for x in v.scope], I, I)
    C = lambda i: cnt(*v.scope, i)
    Sr = lambda i: src(*v.scope, i)
    a = v.fresh("fl", z3.ArraySort(I, ety.sort))
    rng = z3.And(j >= 0, j < n)
    sub = lambda f, x: z3.substitute(f, (j, x))
    v.fact(C(z3.IntVal(0)) == 0)
    v.fact(z3.ForAll([j], z3.Implies(rng, z3.And(C(j + 1) == C(j) + z3.If(c, 1, 0), C(j) >= 0, C(j) <= C(n), C(j) <= j)), patterns=[C(j)]))
    m = C(n)
    v.fact(z3.And(m >= 0, m <= n))
    v.fact(z3.ForAll([j], z3.Implies(z3.And(rng, c), z3.And(z3.Select(a, C(j)) == term, C(j) < m, Sr(C(j)) == j, *facts)), patterns=[C(j)]))
    for (fn, fcond, fcnt, fsrc) in v.ghost.get("filters", ()):
        # the contract already names this filter's position functions: same length, same predicate => same functions
        if not v.scope and v.implied(fn == n, 1500) and v.implied(z3.ForAll([j], z3.Implies(rng, fcond(j) == c)), 3000):
            x = _qv("x")
            v.fact(z3.ForAll([x], z3.And(C(x) == fcnt(x)), patterns=[C(x)]))
            v.fact(z3.ForAll([x], z3.And(C(x) == fcnt(x)), patterns=[fcnt(x)]))
            v.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), Sr(x) == fsrc(x)), patterns=[Sr(x)]))
            v.fact(C(n) == fcnt(n))
            v.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < m), Sr(x) == fsrc(x)), patterns=[z3.Select(a, x)]))
            break
    i = _qv("i")
    v.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(Sr(i) >= 0, Sr(i) < n, sub(c, Sr(i)), C(Sr(i)) == i, z3.Select(a, i) == sub(term, Sr(i)))), patterns=[z3.Select(a, i)]))
    i2 = _qv("i")
    v.fact(z3.ForAll([i, i2], z3.Implies(z3.And(i >= 0, i < i2, i2 < m), Sr(i) < Sr(i2)), patterns=[z3.MultiPattern(Sr(i), Sr(i2))]))
    r = V.VList(ety, term=TList(ety).mk(m, a))
    r.filter_of = (C, Sr)
    return r

# ---- builtins -------------------------------------------------------------------------------------
def vlen(x):
    if isinstance(x, (V.VList, V.VDict, V.SeqView)): return x.vlen()
    h = getattr(x, "__vc_len__", None)
    if h is not None: return h()
    if isinstance(x, (V.SReal, V.SInt, V.SBool)): raise TypeError("object of a number type has no len()")
    return B.len(x)

def vrange(*a):
    if not any(isinstance(x, Sym) for x in a):
        return B.range(*a)
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    for x in (lo, hi, st):
        if not isintlike(x): raise TypeError("range of a non-integer")
    lo_, hi_ = TInt.unwrap(lo), TInt.unwrap(hi)
    v = VC.cur
    if st == 1:
        n = z3.simplify(z3.If(hi_ > lo_, hi_ - lo_, 0))
        if v.implied(hi_ >= lo_): n = z3.simplify(hi_ - lo_)
        return SeqView(n, lambda i: mkint(lo_ + i), ety=TInt, kind="range", haskey=lambda t: z3.And(t >= lo_, t < hi_))
    if st == -1:
        n = z3.simplify(z3.If(lo_ > hi_, lo_ - hi_, 0))
        if v.implied(lo_ >= hi_): n = z3.simplify(lo_ - hi_)
        return SeqView(n, lambda i: mkint(lo_ - i), ety=TInt, kind="range", haskey=lambda t: z3.And(t <= lo_, t > hi_))
    st_ = TInt.unwrap(st)
    if v.implied(st_ > 0):
        # n = number of steps: lo + (n-1)*st < hi <= lo + n*st
        n = v.fresh("steps", z3.IntSort())
        v.fact(z3.And(n >= 0, (n == 0) == (hi_ <= lo_), z3.Implies(n > 0, z3.And(lo_ + (n - 1) * st_ < hi_, hi_ <= lo_ + n * st_))))
        def at(i):
            # i <= n-1 and st > 0, so i*st <= (n-1)*st
            v.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(lo_ + i * st_ < hi_, i * st_ >= 0)))
            return mkint(lo_ + i * st_)
        def hk(t): raise Unsupported("membership in a stepped range")
        return SeqView(n, at, ety=TInt, kind="range", haskey=hk)
    raise Unsupported("range step")

def venumerate(x, start=0):
    if not isinstance(x, Sym): return B.enumerate(x, start)
    s = as_seq(x)
    if isinstance(s, V.VList) and s.items is not None: return V.VList.of(list(B.enumerate(s.items, start)))
    st = TInt.unwrap(start)
    return SeqView(s.n, lambda i: (mkint(i + st), s.at(i)), ety=TTuple(TInt, s.ety) if s.ety else None, src=s, kind="enumerate")

def vzip(*xs):
    if not any(isinstance(x, Sym) for x in xs): return B.zip(*xs)
    ss = [as_seq(x) for x in xs]
    if all(isinstance(s, V.VList) and s.items is not None for s in ss): return V.VList.of(list(B.zip(*[s.items for s in ss])))
    n = ss[0].n
    for s in ss[1:]:
        if VC.cur.implied(n == s.n): continue
        n = z3.If(s.n < n, s.n, n)
    ets = [s.ety or (s.elem_type() if isinstance(s, V.VList) and s.items is not None else None) for s in ss]
    return SeqView(z3.simplify(n), lambda i: tuple(s.at(i) for s in ss), ety=TTuple(*ets) if all(ets) else None, kind="zip")

def vreversed(x):
    if not isinstance(x, Sym): return B.reversed(x)
    s = as_seq(x)
    if s.concrete_items() is not None: return V.VList.of(list(B.reversed(s.concrete_items())))
    return SeqView(s.n, lambda i: s.at(s.n - 1 - i), ety=s.ety, kind="reversed")

_TYMAP = {}
def visinstance(x, c):
    if isinstance(c, tuple): return any(visinstance(x, y) for y in c)
    c = _TYMAP.get(c, c) if isinstance(c, B.type) or callable(c) else c
    if c in (typing.List, list): return B.isinstance(x, (list, V.VList))
    if c in (typing.Tuple, tuple): return B.isinstance(x, tuple)
    if c in (typing.Dict, dict): return B.isinstance(x, (dict, V.VDict))
    if c is typing.Callable: return callable(x)
    if B.isinstance(x, Sym):
        if B.isinstance(x, V.SInt): return c in (B.int, B.object) or (getattr(c, "__vc_num__", None) in ("int", "num"))
        if B.isinstance(x, V.SReal): return c in (B.float, B.object) or (getattr(c, "__vc_num__", None) in ("float", "num"))
        if B.isinstance(x, V.SBool): return c in (B.bool, B.int, B.object)
        if B.isinstance(x, V.SStr): return c in (B.str, B.object)
        if B.isinstance(x, V.SBytes): return c in (B.bytes, B.object)
        if B.isinstance(x, V.SRec): return x.ty_.cls is not None and B.isinstance(c, B.type) and issubclass(x.ty_.cls, c)
        if B.isinstance(x, V.SOpaque):
            h = VC.cur.hooks.get(("isinstance", x.ty.name))
            return bool(h(x, c)) if h else False
        return B.isinstance(x, c) if B.isinstance(c, B.type) else False
    if B.isinstance(x, Fraction) and c is B.float: return True
    if getattr(c, "__vc_num__", None): return c.check(x)
    return B.isinstance(x, c)

def vint(x=0, *a):
    if isinstance(x, V.SInt): return x
    if isinstance(x, V.SBool): return mkint(TInt.unwrap(x))
    if isinstance(x, V.SReal):
        t = x.t
        if VC.cur.implied(t >= 0): return mkint(z3.ToInt(t))
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(x, (V.SStr, V.SOpaque, V.SBytes)):
        h = VC.cur.hooks.get("int")
        if h: return h(x)
        raise Unsupported("int() of %r" % x)
    return B.int(x, *a)

def vfloat(x=0.0):
    if isinstance(x, V.SReal): return x
    if isinstance(x, (V.SInt, V.SBool)): return mkreal(TReal.unwrap(x))
    if isinstance(x, Fraction): return x
    if isinstance(x, (V.SStr, V.SOpaque)):
        h = VC.cur.hooks.get("float")
        if h: return h(x)
        raise Unsupported("float() of %r" % x)
    return B.float(x)

def vbool(x=False):
    return B.bool(x)

def vstr(x="", *a):
    if isinstance(x, V.SStr): return x
    if isinstance(x, Sym):
        h = VC.cur.hooks.get("str")
        if h: return h(x)
        return "<sym>"
    return B.str(x, *a)

def vbytes(x=b"", *a):
    if isinstance(x, V.SBytes): return x
    if isinstance(x, Sym):
        h = VC.cur.hooks.get("bytes")
        if h: return h(x, *a)
        raise Unsupported("bytes() of a symbolic value")
    return B.bytes(x, *a)

def vtruediv(a, b): return a / b

def vabs(x):
    return x.__abs__() if isinstance(x, V.SNum) else B.abs(x)

def _fold2(a, b, lt):
    """max/min of two numbers (b wins if strictly better)"""
    c = (b > a) if lt else (b < a)
    if isinstance(c, V.SBool):
        if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
            return mkreal(z3.If(c.t, TReal.unwrap(b), TReal.unwrap(a)))
        return mkint(z3.If(c.t, TInt.unwrap(b), TInt.unwrap(a)))
    return b if c else a

def vmax(*a, **kw): return _mm(a, kw, True)
def vmin(*a, **kw): return _mm(a, kw, False)
def _mm(a, kw, ismax):
    if len(a) == 1:
        s = as_seq(a[0]) if not isinstance(a[0], Sym) or isinstance(a[0], (V.VList, V.SeqView, V.VDict)) else None
        items = s.concrete_items()
        if items is None: return _mm_sym(s, kw, ismax)
    else: items = list(a)
    key = kw.get("key")
    if not items:
        if "default" in kw: return kw["default"]
        raise ValueError("max() arg is an empty sequence")
    if key is None and all(isnum(x) for x in items):
        r = items[0]
        for x in items[1:]: r = _fold2(r, x, ismax)
        return r
    k = key or (lambda x: x)
    r = items[0]; kr = k(r)
    for x in items[1:]:
        kx = k(x)
        if (kx > kr) if ismax else (kx < kr): r, kr = x, kx
    return r

def _mm_sym(s, kw, ismax):
    """first maximal/minimal element of a symbolic sequence"""
    v = VC.cur
    if not v.implied(s.n > 0):
        if v.fork(s.n <= 0):
            if "default" in kw: return kw["default"]
            raise ValueError("max() arg is an empty sequence")
    key = kw.get("key") or (lambda x: x)
    j = _qv("j"); rng = z3.And(j >= 0, j < s.n)
    res = raise_summarised(v.sub(lambda: key(s.at(j)), scope_vars=[j], guard=rng), j, rng)
    ety, term, facts = merge_results(res)
    if ety not in (TInt, TReal): raise Unsupported("max over non-numbers")
    m = v.fresh("argm", z3.IntSort())
    v.fact(z3.And(m >= 0, m < s.n))
    tm = z3.substitute(term, (j, m))
    better = (lambda a, b: a <= b) if ismax else (lambda a, b: a >= b)
    v.fact(z3.ForAll([j], z3.Implies(rng, z3.And(better(term, tm), z3.Implies(j < m, term != tm), *facts))))
    return s.at(m)

def vsum(x, start=0):
    s = as_seq(x)
    items = s.concrete_items()
    if items is not None:
        r = start
        for y in items: r = r + y
        return r
    h = VC.cur.hooks.get("sum")
    if h: return h(s, start)
    return symsum(s, start)

def symsum(s, start=0):
    v = VC.cur
    j = _qv("j"); rng = z3.And(j >= 0, j < s.n)
    res = raise_summarised(v.sub(lambda: s.at(j), scope_vars=[j], guard=rng), j, rng)
    ety, term, facts = merge_results(res)
    if ety not in (TInt, TReal): raise Unsupported("sum of non-numbers")
    nm = v.freshname("sum")
    F = z3.Function(nm, *[x.sort() for x in v.scope], z3.IntSort(), ety.sort)
    f = lambda i: F(*v.scope, i)
    v.fact(f(z3.IntVal(0)) == 0)
    v.fact(z3.ForAll([j], z3.Implies(rng, z3.And(f(j + 1) == f(j) + term, *facts)), patterns=[f(j + 1)]))
    return ety.wrap(f(s.n)) + start

def vany(x):
    s = as_seq(x); items = s.concrete_items()
    if items is not None: return B.any(items)
    v = VC.cur; j = _qv("j"); rng = z3.And(j >= 0, j < s.n)
    _, t, f = merge_results(v.sub(lambda: bool(s.at(j)), scope_vars=[j], guard=rng), TBool)
    return mkbool(z3.Exists([j], z3.And(rng, t)))
def vall(x):
    s = as_seq(x); items = s.concrete_items()
    if items is not None: return B.all(items)
    v = VC.cur; j = _qv("j"); rng = z3.And(j >= 0, j < s.n)
    _, t, f = merge_results(v.sub(lambda: bool(s.at(j)), scope_vars=[j], guard=rng), TBool)
    return mkbool(z3.ForAll([j], z3.Implies(rng, t)))

def vlist(x=()):
    if not VC.cur or not VC.cur.on: return B.list(x)
    if isinstance(x, V.VList): return x.copy()
    if isinstance(x, V.SeqView): return x.to_list()
    if isinstance(x, V.VDict): return vlist(x.keys())
    if isinstance(x, Sym): raise TypeError("not iterable")
    return V.VList.of(B.list(x))

def vtuple(x=()):
    if isinstance(x, (V.VList, V.SeqView)):
        c = x.concrete_items()
        if c is None: raise Unsupported("tuple of a symbolic sequence")
        return B.tuple(c)
    return B.tuple(x)

def vdict(x=(), **kw):
    if not VC.cur or not VC.cur.on: return B.dict(x, **kw)
    if isinstance(x, V.VDict): d = x.copy()
    elif isinstance(x, (V.VList, V.SeqView)):
        c = x.concrete_items()
        if c is None:
            return dict_from_pairs(x)
        d = V.VDict.of({})
        for p in c:
            k, y = RT_.unpack(p, 2); d[k] = y
    else:
        d = V.VDict.of({})
        for k, y in B.dict(x).items(): d[k] = y
    for k, y in kw.items(): d[k] = y
    return d

def dict_from_pairs(x):
    """dict of a symbolic sequence of pairs (last value wins); exact when keys are distinct"""
    v = VC.cur
    l = x if isinstance(x, V.VList) else x.to_list()
    e = l.ety
    if not isinstance(e, TTuple) or len(e.ts) != 2: raise Unsupported("dict() of %s" % e)
    L = l.lty(); t = l.term; n = L.len(t)
    i, j = _qv("i"), _qv("j")
    key = lambda i: e.acc(0, L.at(t, i))
    D = TDict(e.ts[0], e.ts[1])
    distinct = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), key(i) != key(j)))
    d = D.fresh("dct")
    if v.implied(distinct, ms=1500):
        v.fact(D.n(d) == n)
        v.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(D.keyat(d), i) == key(i), z3.Select(D.pos(d), key(i)) == i, D.val(d, key(i)) == e.acc(1, L.at(t, i)))), patterns=[L.at(t, i)]))
        v.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(D.keyat(d), i) == key(i), z3.Select(D.pos(d), key(i)) == i, D.val(d, key(i)) == e.acc(1, L.at(t, i)))), patterns=[z3.Select(D.keyat(d), i)]))
        return V.VDict(D, term=d)
    last = z3.Function(v.freshname("last"), e.ts[0].sort, z3.IntSort())
    first = z3.Function(v.freshname("first"), e.ts[0].sort, z3.IntSort())
    k = _qv("k", e.ts[0].sort)
    inl = lambda p: z3.And(p >= 0, p < n)
    v.fact(z3.ForAll([i], z3.Implies(inl(i), z3.And(D.has(d, key(i)), last(key(i)) >= i, first(key(i)) <= i)), patterns=[L.at(t, i)]))
    v.fact(z3.ForAll([k], z3.Implies(D.has(d, k), z3.And(inl(last(k)), key(last(k)) == k, inl(first(k)), key(first(k)) == k, D.val(d, k) == e.acc(1, L.at(t, last(k))))), patterns=[z3.Select(D.pos(d), k)]))
    return V.VDict(D, term=d)

def vset(x=()):
    if isinstance(x, (V.VList, V.SeqView)):
        c = x.concrete_items()
        if c is None or any(isinstance(y, Sym) for y in c):
            h = VC.cur.hooks.get("set")
            if h: return h(x)
            return V.SSet.of(x)
        return B.set(c)
    if isinstance(x, V.SSet): return V.SSet(x.ety, x.mem)
    if isinstance(x, V.VDict) and x.items_ is None: return V.SSet.of(x)
    return B.set(x)

def vsorted(x, key=None, reverse=False):
    if not isinstance(x, Sym): 
        l = B.list(x)
        if not any(isinstance(y, Sym) for y in l): 
            r = B.sorted(l, key=key, reverse=reverse)
            return V.VList.of(r) if VC.cur and VC.cur.on else r
    h = VC.cur.hooks.get("sorted")
    if h: return h(x, key, reverse)
    if isinstance(x, V.VList) and x.items is not None and len(x.items) <= 1: return x.copy()
    return symsorted(as_seq(x), key, reverse)

def symsorted(s, key, reverse):
    """contract of sorted: a stable permutation of the elements with ordered keys"""
    v = VC.cur
    l = s if isinstance(s, V.VList) and s.items is None else s.to_list() if isinstance(s, V.SeqView) else s.copy()
    if l.items is not None:
        if len(l.items) <= 1: return l.copy()
        l.make_symbolic()
    if reverse is not False and reverse is not True: raise Unsupported("sort order")
    L = l.lty(); t = l.term; n = L.len(t)
    j = _qv("j"); rng = z3.And(j >= 0, j < n)
    if key is None: kt, kterm, facts = l.ety, L.at(t, j), []
    else: kt, kterm, facts = merge_results(raise_summarised(v.sub(lambda: key(l.at(j)), scope_vars=[j], guard=rng), j, rng))
    if kt not in (TInt, TReal): raise Unsupported("sort by %s" % kt)
    K = lambda i: z3.substitute(kterm, (j, i))
    if facts: v.fact(z3.ForAll([j], z3.Implies(rng, z3.And(*facts))))
    I = z3.IntSort()
    P, Q = z3.Function(v.freshname("perm"), I, I), z3.Function(v.freshname("mrep"), I, I)
    a = v.fresh("sorted", z3.ArraySort(I, l.ety.sort))
    inr = lambda x: z3.And(x >= 0, x < n)
    v.fact(z3.ForAll([j], z3.Implies(rng, z3.And(inr(P(j)), Q(P(j)) == j, z3.Select(a, j) == L.at(t, P(j)))), patterns=[z3.Select(a, j)]))
    v.fact(z3.ForAll([j], z3.Implies(rng, z3.And(inr(Q(j)), P(Q(j)) == j, z3.Select(a, Q(j)) == L.at(t, j))), patterns=[L.at(t, j)]))
    i = _qv("i")
    le = (lambda x, y: x >= y) if reverse else (lambda x, y: x <= y)
    v.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.And(le(K(P(i)), K(P(j))), z3.Implies(K(P(i)) == K(P(j)), P(i) < P(j)))), patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))]))
    r = V.VList(l.ety, term=L.mk(n, a))
    if l.ety.mutable: r.shared = True; v.note_shared(l.root())
    return r

def vmap(f, *xs):
    if any(isinstance(x, Sym) for x in xs):
        if len(xs) == 1: return listcomp(xs[0], f, None)
        return listcomp(vzip(*xs), lambda t: f(*t), None)
    return V.VList.of(list(B.map(f, *xs))) if VC.cur and VC.cur.on else B.map(f, *xs)

def vfilter(f, x):
    return listcomp(x, lambda y: y, f or (lambda y: y))

def vpow(a, b, m=None):
    if m is None: return a ** b if isinstance(a, Sym) or isinstance(b, Sym) else B.pow(a, b)
    if any(isinstance(x, Sym) for x in (a, b, m)):
        h = VC.cur.hooks.get("powmod")
        if h: return h(a, b, m)
        raise Unsupported("modular power")
    return B.pow(a, b, m)

def vround_(x, nd=None): return V.vround(x, nd)

def vtype(x, *a):
    if a: return B.type(x, *a)
    if isinstance(x, V.SInt): return vint
    if isinstance(x, V.SReal): return vfloat
    if isinstance(x, V.SBool): return vbool
    if isinstance(x, V.SStr): return vstr
    if isinstance(x, V.VList): return vlist if B.type(x) is V.VList else B.type(x)
    if isinstance(x, V.VDict): return vdict
    if isinstance(x, V.SRec): return x.ty_.cls
    t = B.type(x)
    for k, y in _TYMAP.items():
        if y is t: return k
    return t

def vhash(x):
    if isinstance(x, Sym): raise Unsupported("hash")
    return B.hash(x)

def vdivmod(a, b): return (a // b, a % b)

def viter(x):
    return x if isinstance(x, Sym) else B.iter(x)

def vgetattr(o, a, *d):
    return B.getattr(o, a, *d)
def vsetattr(o, a, x): RT_.setattr(o, a, x)

class _VMeta(B.type):
    def __instancecheck__(cls, x): return visinstance(x, cls.__vc_py__)
    def __call__(cls, *a, **k): return cls.__vc_fn__(*a, **k)
    def __eq__(cls, o): return o is cls or o is cls.__vc_py__
    def __hash__(cls): return B.hash(cls.__vc_py__)
def _mk(py, fn):
    ns = {"__vc_py__": py, "__vc_fn__": staticmethod(fn)}
    for extra in ("fromkeys",):
        if hasattr(py, extra): pass
    c = _VMeta(py.__name__, (), ns)
    return c

vint_, vfloat_, vbool_, vstr_, vlist_, vtuple_, vdict_, vset_ = (_mk(int, vint), _mk(float, vfloat), _mk(bool, vbool), _mk(str, vstr), _mk(list, vlist), _mk(tuple, vtuple), _mk(dict, vdict), _mk(set, vset))
for a_, b_ in ((vint_, int), (vfloat_, float), (vbool_, bool), (vstr_, str), (vlist_, list), (vtuple_, tuple), (vdict_, dict), (vset_, set)): _TYMAP[a_] = b_
vbytes_ = _mk(bytes, vbytes); _TYMAP[vbytes_] = bytes
vint2, vfloat2 = vint, vfloat
def vtype(x, *a):
    if a: return B.type(x, *a)
    m = {V.SInt: vint_, V.SReal: vfloat_, V.SBool: vbool_, V.SStr: vstr_, V.VList: vlist_, V.VDict: vdict_, V.SBytes: vbytes_}
    for k, y in m.items():
        if B.type(x) is k: return y
    if isinstance(x, V.SRec): return x.ty_.cls
    if isinstance(x, V.SOpaque) and VC.cur is not None and ("type", x.ty.name) in VC.cur.hooks: return VC.cur.hooks[("type", x.ty.name)]
    t = B.type(x)
    if t is Fraction: return vfloat_
    for k, y in _TYMAP.items():
        if y is t: return k
    return t
_mk_type = _VMeta("type", (), {"__vc_py__": type, "__vc_fn__": staticmethod(vtype)})

OVERRIDES = dict(len=vlen, range=vrange, enumerate=venumerate, zip=vzip, reversed=vreversed, isinstance=visinstance,
                 int=vint_, float=vfloat_, bool=vbool_, str=vstr_, list=vlist_, tuple=vtuple_, dict=vdict_, set=vset_, bytes=vbytes_,
                 abs=vabs, max=vmax, min=vmin, sum=vsum, any=vany, all=vall, sorted=vsorted, map=vmap, filter=vfilter,
                 pow=vpow, round=vround_, type=vtype, hash=vhash, divmod=vdivmod, print=lambda *a, **k: None, setattr=vsetattr)
RT_ = RT()
VC.on = True
VC.inv_ms = 3000
VC.base_inv = []
VC.base_hint = []
VC.inv_templates = []
VC.hint_templates = []
VC.template_errors = []
_oldinit = V.Container._init
def _cinit(self, loc):
    _oldinit(self, loc)
    VC.cur.allcells.append(self)
V.Container._init = _cinit
_oldrec = V.SRec.__init__
def _rinit(self, ty, term=None, loc=None):
    _oldrec(self, ty, term, loc)
    VC.cur.allcells.append(self)
V.SRec.__init__ = _rinit
_oldreset = VC.reset_path
def _reset(self, prefix):
    self.allcells = []
    _oldreset(self, prefix)
VC.reset_path = _reset
