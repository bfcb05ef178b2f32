"""C12: histograms are exact sums."""
from .common import *
from .ptable import *
from .split import iv, rv
FH = "ml.tree.feateur_histogram:FeatureHistogram"
I, R, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_ix = z3.Datatype("CellIx"); _ix.declare("ix", *[("ix%d" % k, I) for k in range(4)]); IX = _ix.create()
class TCells(TOpaque):
    """contents of a histogram: (node, feature, bin, entry) -> number"""
    def mksort(self): return z3.ArraySort(IX, R)
CELLS = TCells("Cells")
ix = IX.ix

class Hist(Sym):
    """a histogram: nested lists, all distinct, nodes x features x bins x 3; its shape never changes, its contents
    are the attribute `cells` of an object the loops know about"""
    def __init__(self, c, name):
        self.N, self.F, self.B = TInt.new(name + "_nodes").t, z3.Function(name + "_features", I, I), z3.Function(name + "_bins", I, I, I)
        n, f = qv("n"), qv("f")
        c.require(self.N >= 0, z3.ForAll([n], self.F(n) >= 0, patterns=[self.F(n)]), z3.ForAll([n, f], self.B(n, f) >= 0, patterns=[self.B(n, f)]))
        self.store = Obj(cells=CELLS.new(name)); c.vc.obj_birth(self.store)
        c.vc.ghost.setdefault("spec_roots", []).append(self.store)
        self.t0 = self.store.cells.t
        self.path = []
    @property
    def t(self): return self.store.cells.t
    def size(self, path):
        return [lambda: self.N, lambda: self.F(*path), lambda: self.B(*path), lambda: z3.IntVal(3)][len(path)]()
    def __vc_len__(self): return V.mkint(self.size(()))
    def at(self, path, i):
        if isinstance(i, slice): raise Unsupported("slice of a histogram")
        k = TInt.unwrap(i); n = self.size(path); v = VC.cur
        if not v.implied(z3.And(k >= 0, k < n)):
            if v.fork(z3.And(k >= -n, k < 0)): k = k + n
            elif not v.fork(z3.And(k >= 0, k < n)): raise IndexError("list index out of range")
        return tuple(path) + (z3.simplify(k),)
    def __getitem__(self, i): return Part(self, self.at((), i))
    def __setitem__(self, i, x): raise Unsupported("part of a histogram replaced")
class Part(Sym):
    def __init__(self, h, path): self.h, self.path = h, path
    def __vc_len__(self): return V.mkint(self.h.size(self.path))
    def __getitem__(self, i):
        p = self.h.at(self.path, i)
        return Part(self.h, p) if len(p) < 4 else V.SReal(z3.Select(self.h.t, ix(*p)))
    def __setitem__(self, i, x):
        p = self.h.at(self.path, i)
        if len(p) < 4: raise Unsupported("part of a histogram replaced")
        rt.RT_.setattr(self.h.store, "cells", CELLS.wrap(z3.Store(self.h.t, ix(*p), rv(x))))

def places(S):
    """the iteration numbers of the loops, from the outermost to this one"""
    st = VC.cur.loopstack
    k = st.index(S.loop) if S.loop in st else len(st)
    return [L.it for L in st[:k]] + [S.it]

def before(pos, at):
    """at (node, feature, bin...) comes before the place the nested loops have reached"""
    if not pos: return z3.BoolVal(False)
    if len(pos) == 1 or len(at) == 1: return at[0] < pos[0]
    return z3.Or(at[0] < pos[0], z3.And(at[0] == pos[0], before(pos[1:], at[1:])))

@contract(FH + ".accumulate_histogram", ["C12", "C13"])
def _(c):
    h = Hist(c, "histograms"); t0 = h.t0
    n0, f0, r0 = [TInt.new(x).t for x in ("n0", "f0", "r0")]
    c.require(n0 >= 0, n0 < h.N, f0 >= 0, f0 < h.F(n0), r0 >= 0, r0 < 3)
    A = z3.Function("running_total", I, R); b = qv("b")
    old = lambda b: z3.Select(t0, ix(n0, f0, b, r0))
    c.require(A(0) == old(z3.IntVal(0)), z3.ForAll([b], z3.Implies(b >= 1, A(b) == A(b - 1) + old(b)), patterns=[A(b)]))
    def inv(S):
        pos = places(S)
        if len(pos) == 3: pos = pos[:2] + [pos[2] + 1]       # the first bin is its own total
        for p, x in S.of(CELLS, mod=True):
            yield p + " totals so far", forall(h.B(n0, f0), lambda b: z3.Select(x, ix(n0, f0, b, r0)) == z3.If(before(pos, (n0, f0, b)), A(b), old(b)), pats=lambda b: z3.Select(x, ix(n0, f0, b, r0)))
    c.vc.inv_templates = [inv]; c.vc.auto_filter = False
    r = c.ok(c.get(FH).accumulate_histogram, h)
    if r is not h: raise Unsupported("result is another structure")
    b0 = TInt.new("b0").t; c.vc.fact(z3.And(b0 >= 0, b0 < h.B(n0, f0)))
    c.prove("every bin holds the total of the bins up to it", z3.Select(h.t, ix(n0, f0, b0, r0)) == A(b0))

@contract(FH + ".aggregate_histogram", ["C12"])
def _(c):
    h, k = Hist(c, "first"), Hist(c, "second"); n, f = qv("n"), qv("f")
    c.require(h.N == k.N, z3.ForAll([n], h.F(n) == k.F(n), patterns=[h.F(n)]), z3.ForAll([n, f], h.B(n, f) == k.B(n, f), patterns=[h.B(n, f)]))
    at = [TInt.new(x).t for x in ("n0", "f0", "b0", "r0")]; n0, f0, b0, r0 = at
    c.require(n0 >= 0, n0 < h.N, f0 >= 0, f0 < h.F(n0), b0 >= 0, b0 < h.B(n0, f0), r0 >= 0, r0 < 3)
    old = lambda t: z3.Select(t, ix(*at))
    def inv(S):
        for p, x in S.of(CELLS, mod=True):
            yield p + " so far", old(x) == z3.If(before(places(S), at), old(h.t0) + old(k.t0), old(h.t0))
    c.vc.inv_templates = [inv]; c.vc.auto_filter = False
    r = c.ok(c.get(FH).aggregate_histogram, h, k)
    if not isinstance(r, Hist): raise Unsupported("result is another structure")
    c.prove("entries are added position by position", old(r.t) == old(h.t0) + old(k.t0))

INST = TOpaque("BinnedRow"); T2 = TTuple(TInt, TInt); GH = TTuple(TReal, TReal)
ROWV = TTuple(TTuple(INST, T2), GH); KV = TTuple(K, ROWV); KVL = TList(KV)
ID = TDict(TInt, TInt); SPL = TList(TList(TReal)); BL = TList(TBool); IL = TList(TInt); RL = TList(TReal); NL_ = TList(INST)
CE = TList(TReal); BI = TList(CE); FE = TList(BI); HI = TList(FE)     # cell, bins of a feature, features of a node, nodes
DATA = z3.Function("row_features", INST.sort, ID.sort)
def cell(t, n, f, b, r): return CE.at(BI.at(FE.at(HI.at(t, n), f), b), r)
class SV:
    def __init__(self, t): self.t = t
    def get_all_data(self): return V.VDict(ID, term=DATA(self.t)).items()
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("row method " + a)
class Rows:
    """the rows of a partition, the selected features, the nodes of the batch"""
    def __init__(self, c, valid=True):
        vc = c.vc; I_ = z3.IntVal
        self.rows = KVL.new("rows"); t = self.t = self.rows.term; self.n = KVL.len(t)
        self.sp = SPL.new("bin_split_points"); self.spt = self.sp.term; self.F = SPL.len(self.spt)
        self.nm = ID.new("node_map"); m = self.m = self.nm.term
        self.zero = ID.new("bin_sparse_points"); self.z = self.zero.term
        if valid: self.vf = BL.new("valid_features"); self.vt = self.vf.term; c.require(BL.len(self.vt) == self.F)
        else: self.vf = None
        vc.hooks[("attr", "BinnedRow", "features")] = lambda o: SV(o.t)
        k = qv("k"); self.N = ID.n(m); c.require(self.N >= 1)
        c.require(z3.ForAll([k], z3.Implies(ID.has(m, k), z3.And(ID.val(m, k) >= 0, ID.val(m, k) < self.N)), patterns=[ID.val(m, k)]))
        c.require(forall(self.F, lambda f: z3.And(ID.has(self.z, f), ID.val(self.z, f) >= 0, ID.val(self.z, f) < self.B(f)), pats=lambda f: [ID.val(self.z, f), z3.Select(ID.pos(self.z), f)]))
        o = z3.Const("o?row", INST.sort); j = qv("j")
        d = DATA(o); key = z3.Select(ID.keyat(d), j)
        c.require(z3.ForAll([o], z3.And(*ID.wf(d)), patterns=[d]) if ID.wf(d) else z3.BoolVal(True))
        c.require(z3.ForAll([o, j], z3.Implies(z3.And(j >= 0, j < ID.n(d)), z3.And(key >= 0, key < self.F, ID.val(d, key) >= 0, ID.val(d, key) < self.B(key))), patterns=[key]))
        # the kept rows in table order: the i-th row, if kept, is number cnt(i) among them
        self.cnt, self.src = z3.Function("kept_before", I, I), z3.Function("kept_row", I, I)
        c.require(self.cnt(0) == 0, forall(self.n, lambda i: z3.And(self.cnt(i) >= 0, self.cnt(i + 1) == self.cnt(i) + z3.If(self.keep(i), 1, 0), z3.Implies(self.keep(i), self.src(self.cnt(i)) == i)), pats=lambda i: self.cnt(i + 1)))
        self.K = self.cnt(self.n)
    def B(self, f): return TList(TReal).len(SPL.at(self.spt, f)) + 1
    def nbins(self, f): return z3.If(self.valid(f), self.B(f), z3.IntVal(0))
    def row(self, i): return KV.acc(1, KVL.at(self.t, i))
    def inst(self, i): return TTuple(INST, T2).acc(0, ROWV.acc(0, self.row(i)))
    def state(self, i): return T2.acc(0, TTuple(INST, T2).acc(1, ROWV.acc(0, self.row(i))))
    def node(self, i): return T2.acc(1, TTuple(INST, T2).acc(1, ROWV.acc(0, self.row(i))))
    def amount(self, r, i): return GH.acc(r, ROWV.acc(1, self.row(i))) if r < 2 else z3.RealVal(1)
    def keep(self, i): return z3.And(self.state(i) != 0, ID.has(self.m, self.node(i)))
    def valid(self, f): return BL.at(self.vt, f) if self.vf is not None else z3.BoolVal(True)

def batch(valid):
    @contract(FH + ".batch_calculate_histogram", "C12", name="batch_calculate_histogram, " + ("selected features" if valid else "all features"), budget=900, inv_ms=1500)
    def _(c):
        Q = Rows(c, valid); c.vc.ghost["zeros_are_real"] = True
        n0, f0, b0 = [TInt.new(x).t for x in ("n0", "f0", "b0")]
        c.require(n0 >= 0, n0 < Q.N, f0 >= 0, f0 < Q.F, Q.valid(f0), b0 >= 0, b0 < Q.B(f0))
        def at(i): return z3.And(ID.has(Q.m, Q.node(i)), ID.val(Q.m, Q.node(i)) == n0)
        def has(i): return ID.has(DATA(Q.inst(i)), f0)
        def bin(i): return ID.val(DATA(Q.inst(i)), f0)
        def fold(name, cond):
            fs = [z3.Function("%s_%d" % (name, r), I, R) for r in range(3)]
            k = qv("k")
            for r, f in enumerate(fs):
                i = Q.src(k)
                c.require(f(0) == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < Q.K), f(k + 1) == f(k) + z3.If(cond(i), Q.amount(r, i), z3.RealVal(0))), patterns=[f(k + 1)]))
            return fs
        inbin = fold("present_in_bin", lambda i: z3.And(at(i), has(i), bin(i) == b0))
        present = fold("present", lambda i: z3.And(at(i), has(i)))
        node = fold("at_node", at)
        def all3(x, n, len1, len2, tag):
            """shape of a histogram: nodes < n"""
            k, f, b = qv("k"), qv("f"), qv("b")
            yield tag + " features", forall(n, lambda k: FE.len(HI.at(x, k)) == Q.F, pats=lambda k: HI.at(x, k))
            yield tag + " bins", z3.ForAll([k, f], z3.Implies(z3.And(k >= 0, k < n, f >= 0, f < Q.F), BI.len(FE.at(HI.at(x, k), f)) == Q.nbins(f)), patterns=[FE.at(HI.at(x, k), f)])
            e = BI.at(FE.at(HI.at(x, k), f), b)
            yield tag + " entries", z3.ForAll([k, f, b], z3.Implies(z3.And(k >= 0, k < n, f >= 0, f < Q.F, b >= 0, b < Q.nbins(f)), CE.len(e) == 3), patterns=[e])
        def zeros(x, n, f, b): return z3.And(*[cell(x, n, f, b, r) == 0 for r in range(3)])
        amt = lambda r, i: Q.amount(r, i)
        def inv(S):
            pos = places(S); it = S.it; C_ = Q.cnt(it)
            if any(True for _ in S.of(NL_, mod=True)):
                for p, x in S.of(TInt, mod=True): yield p + " kept", x == C_
            for ty, f in ((NL_, Q.inst), (IL, Q.node)):
                for p, x in S.of(ty, mod=True):
                    yield p + " number", ty.len(x) == C_
                    yield p + " rows", forall(C_, lambda k: ty.at(x, k) == f(Q.src(k)), pats=lambda k: ty.at(x, k))
            for p, x in S.of(IL, mod=True): yield p + " known nodes", forall(C_, lambda k: ID.has(Q.m, IL.at(x, k)), pats=lambda k: IL.at(x, k))
            for p, x in S.of(RL, mod=True):
                yield p + " number", RL.len(x) == C_
                for r in (0, 1): yield p + " rows %d" % r, forall(C_, lambda k: RL.at(x, k) == amt(r, Q.src(k)), pats=lambda k: RL.at(x, k))
            # building
            hs, fs_ = list(S.of(HI, mod=True)), list(S.of(FE, mod=True))
            rows = bool(hs and fs_)         # sums are collected
            for p, x in hs:
                if not rows and len(pos) == 1:
                    yield p + " built", HI.len(x) == it
                    yield from all3(x, it, None, None, p + " built")
                    yield p + " built zero", z3.Implies(n0 < it, zeros(x, n0, f0, b0))
                yield p + " nodes", HI.len(x) == Q.N
                yield from all3(x, Q.N, None, None, p + " all")
            for p, x in fs_:
                if rows: break
                yield p + " built", FE.len(x) == it
                yield p + " built bins", forall(it, lambda f: BI.len(FE.at(x, f)) == Q.nbins(f), pats=lambda f: FE.at(x, f))
                f, b = qv("f"), qv("b"); e = BI.at(FE.at(x, f), b)
                yield p + " built entries", z3.ForAll([f, b], z3.Implies(z3.And(f >= 0, f < it, b >= 0, b < Q.nbins(f)), CE.len(e) == 3), patterns=[e])
                yield p + " built zero", z3.Implies(f0 < it, z3.And(*[CE.at(BI.at(FE.at(x, f0), b0), r) == 0 for r in range(3)]))
            for p, x in fs_:
                if not rows: break
                yield p + " nodes", FE.len(x) == Q.N
                k, f = qv("k"), qv("f"); e = BI.at(FE.at(x, k), f)
                yield p + " nodes features", forall(Q.N, lambda k: BI.len(FE.at(x, k)) == Q.F, pats=lambda k: FE.at(x, k))
                yield p + " nodes entries", z3.ForAll([k, f], z3.Implies(z3.And(k >= 0, k < Q.N, f >= 0, f < Q.F), CE.len(e) == 3), patterns=[e])
            for p, x in S.of(BI, mod=True):
                yield p + " nodes", BI.len(x) == Q.N
                yield p + " nodes entries", forall(Q.N, lambda k: CE.len(BI.at(x, k)) == 3, pats=lambda k: BI.at(x, k))
            # sums over the rows
            if len(pos) == 1: r_, i_ = it, None
            else: r_, i_ = pos[0], Q.src(pos[0])
            def upto(f, r, cond):
                if i_ is None: return f[r](r_)
                return f[r](r_) + z3.If(z3.And(cond(i_), z3.Select(ID.pos(DATA(Q.inst(i_))), f0) < it), amt(r, i_), z3.RealVal(0))
            for p, x in S.of(HI, mod=True):
                for r in range(3):
                    if rows: yield p + " rows %d" % r, cell(x, n0, f0, b0, r) == upto(inbin, r, lambda i: z3.And(at(i), has(i), bin(i) == b0))
                    else: yield p + " completion %d" % r, cell(x, n0, f0, b0, r) == inbin[r](Q.K) + z3.If(z3.And(before(pos, (n0, f0)), b0 == ID.val(Q.z, f0)), node[r](Q.K) - present[r](Q.K), z3.RealVal(0))
            for p, x in S.of(FE, mod=True):
                if not rows: break
                for r in range(3): yield p + " rows %d" % r, CE.at(BI.at(FE.at(x, n0), f0), r) == upto(present, r, lambda i: z3.And(at(i), has(i)))
            for p, x in S.of(BI, mod=True):
                for r in range(3): yield p + " rows %d" % r, CE.at(BI.at(x, n0), r) == node[r](it)
        def born(S):
            for p, x in S.of(FE, mod=True): yield p + " features", FE.len(x) == Q.F
        c.vc.inv_templates = [inv]; c.vc.born_templates = [born]; c.vc.auto_filter = False
        r = c.ok(c.get(FH).batch_calculate_histogram, Q.rows, bin_split_points=Q.sp, bin_sparse_points=Q.zero, valid_features=Q.vf, node_map=Q.nm)
        c.prove("one histogram per partition", isinstance(r, V.VList) and r.items is not None and len(r.items) == 1)
        x = r.items[0].to_term(HI)
        c.prove("nodes", HI.len(x) == Q.N); c.prove("features", FE.len(HI.at(x, n0)) == Q.F); c.prove("bins", BI.len(FE.at(HI.at(x, n0), f0)) == Q.B(f0))
        for r in range(3): c.prove("entry %d: those in the bin, and in the bin of zero those without a value" % r, cell(x, n0, f0, b0, r) == inbin[r](Q.K) + z3.If(b0 == ID.val(Q.z, f0), node[r](Q.K) - present[r](Q.K), z3.RealVal(0)))
batch(True)
batch(False)

@contract(FH + ".batch_calculate_histogram", "C12", name="lemma: what was collected plus the completion is the sum over the samples in the bin")
def _(c):
    # induction over the samples: collected(k) + [bin is zero's bin] * (node(k) - present(k)) = wanted(k)
    k = TInt.new("k").t; b, z, v = [TInt.new(x).t for x in ("bin", "zero_bin", "value_bin")]; at, has = TBool.new("at_node").t, TBool.new("present").t; a = TReal.new("amount").t
    fs = {n: z3.Function(n, I, R) for n in ("collected", "present_sum", "node_sum", "wanted")}
    cond = {"collected": z3.And(at, has, v == b), "present_sum": z3.And(at, has), "node_sum": at, "wanted": z3.And(at, z3.If(has, v, z) == b)}
    c.require(*[f(0) == 0 for f in fs.values()]); c.require(*[f(k + 1) == f(k) + z3.If(cond[n], a, z3.RealVal(0)) for n, f in fs.items()])
    P = lambda k: fs["collected"](k) + z3.If(b == z, fs["node_sum"](k) - fs["present_sum"](k), z3.RealVal(0)) == fs["wanted"](k)
    c.prove("no samples", P(z3.IntVal(0)))
    c.prove("one more sample", z3.Implies(P(k), P(k + 1)))

@contract(FH + ".calculate_histogram", ["C12"], stubs={FH + ".batch_calculate_histogram": lambda vc, orig, *a, **k: vc.ghost["batch"](*a, **k), FH + ".aggregate_histogram": lambda vc, orig, *a, **k: vc.ghost["agg"](*a, **k)})
def _(c):
    sp, zero, vf, nm = SPL.new("splits"), ID.new("zero"), BL.new("valid"), ID.new("nodes")
    row, gh, rows, part, one, two = Obj(row=1), Obj(gh=1), Obj(rows=1), Obj(part=1), Obj(one=1), Obj(two=1)
    log = []
    def args(names, a, k):
        d = dict(zip(names, a)); d.update(k); return d
    def batch(*a, **k):
        d = args(("kv_iterator", "bin_split_points", "bin_sparse_points", "valid_features", "node_map"), a, k)
        c.prove("rows are counted with the given split points, zero bins, selection and nodes", d.get("kv_iterator") is rows and d.get("bin_split_points") is sp and d.get("bin_sparse_points") is zero and d.get("valid_features") is vf and d.get("node_map") is nm)
        return part
    def agg(*a, **k):
        d = args(("batch_histogram1", "batch_histogram2", "node_map"), a, k)
        c.prove("histograms of partitions are added in pairs", d.get("batch_histogram1") is one and d.get("batch_histogram2") is two)
        log.append("agg"); return part
    c.vc.ghost["batch"], c.vc.ghost["agg"] = batch, agg
    final = Obj(final=1)
    class Joined:
        def mapPartitions(self, f):
            c.prove("the histogram of a partition is what the table of partitions holds", f(rows) is part)
            return Parts()
    class Parts:
        def reduce(self, f):
            c.prove("reduced by adding", f(one, two) is part and log == ["agg"])
            return final
    class Data:
        def join(self, o, f=None):
            r = f(row, gh) if f is not None else row
            c.prove("rows are joined with their gradients", o is ghs and isinstance(r, (tuple, V.VList)) and len(r) == 2 and r[0] is row and r[1] is gh)
            return Joined()
    ghs = Obj(ghs=1)
    r = c.ok(c.get(FH).calculate_histogram, Data(), ghs, sp, zero, vf, nm)
    c.prove("the sum over all partitions", r is final)
