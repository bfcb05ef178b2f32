"""C13: gain formula, split search on both parties, identification of host candidates, choice over all parties."""
from .common import *
from .ptable import *
from pyvc import facades as Fa
from fractions import Fraction as Fr
R, I, Bo = z3.RealSort(), z3.IntSort(), z3.BoolSort()
rv = TReal.unwrap
def iv(x): return TInt.unwrap(x)
def bare(c, key, **kw):
    """an object of the class `key` with the given attributes"""
    cls = c.get(key)
    o = cls.__new__(cls)
    o.__dict__["logger"] = Fa.Logger()
    for k, x in kw.items(): o.__dict__[k] = x
    c.vc.obj_birth(o)
    return o
XG = "ml.tree.creterion:XgboostCriterion."
SP = "ml.tree.splitter:Splitter."
NG = z3.Function("node_gain", R, R, R)
NW = z3.Function("node_weight", R, R, R)
def ng_stub(vc, orig, self, g, h):
    return V.SReal(NG(rv(g), rv(h)))
def nw_stub(vc, orig, self, g, h):
    return V.SReal(NW(rv(g), rv(h)))
GAIN = {XG + "node_gain": ng_stub, XG + "node_weight": nw_stub}
def gain_of(g, h, gl, hl): return NG(gl, hl) + NG(g - gl, h - hl) - NG(g, h)

# ---- the gain --------------------------------------------------------------------------------------
@contract(XG + "node_gain", ["C13", "C14"])
def _(c):
    lam, g, h = TReal.new("lambda"), TReal.new("g"), TReal.new("h"); c.require(h.t + lam.t > 0)
    o = c.ok(c.get("ml.tree.creterion:XgboostCriterion"), lam)
    r = rv(c.ok(o.node_gain, g, h))
    c.prove("gain of a node is G^2/(H+lambda)", r == g.t * g.t / (h.t + lam.t))
    r = rv(c.ok(o.node_weight, g, h))
    c.prove("weight of a node is -G/(H+lambda)", r == -g.t / (h.t + lam.t))

@contract(XG + "split_gain", "C13", stubs=GAIN)
def _(c):
    v = [TReal.new(n) for n in ("g", "h", "gl", "hl", "gr", "hr")]
    g, h, gl, hl, gr, hr = [x.t for x in v]
    o = c.ok(c.get("ml.tree.creterion:XgboostCriterion"), TReal.new("lambda"))
    P = V.VList.of
    r = rv(c.ok(o.split_gain, P(v[0:2]), P(v[2:4]), P(v[4:6])))
    c.prove("gain of a split = gain(left) + gain(right) - gain(node)", r == NG(gl, hl) + NG(gr, hr) - NG(g, h))

@contract(SP + "split_gain", ["C13", "C14"], name="the splitter's gain and weight", stubs=GAIN)
def _(c):
    lam = TReal.new("lambda")
    mi = TReal.new("min_impurity"); ms, ml = TInt.new("min_sample"), TInt.new("min_leaf")
    o = c.ok(c.get("ml.tree.splitter:Splitter"), "xgboost", V.VList.of([lam, 1]), mi, ms, ml)
    c.prove("the first criterion parameter is lambda", rv(o.criterion.reg_lambda) == lam.t)
    c.prove("limits are stored", z3.And(rv(o.min_impurity_split) == mi.t, iv(o.min_sample_split) == ms.t, iv(o.min_leaf_node) == ml.t))
    v = [TReal.new(n) for n in ("g", "h", "gl", "hl", "gr", "hr")]
    g, h, gl, hl, gr, hr = [x.t for x in v]
    c.prove("gain of a split from the six sums", rv(c.ok(o.split_gain, *v)) == NG(gl, hl) + NG(gr, hr) - NG(g, h))
    c.prove("node gain", rv(c.ok(o.node_gain, v[0], v[1])) == NG(g, h))
    c.prove("node weight", rv(c.ok(o.node_weight, v[0], v[1])) == NW(g, h))

# ---- split search --------------------------------------------------------------------------------
class Hist:
    """an accumulated histogram of one node: features x bins x (grad, hess, count), running totals"""
    def __init__(self, c, gty=TReal):
        self.B = TTuple(gty, gty, TInt); self.F = TList(self.B); self.L = TList(self.F)
        self.h = self.L.new("histogram"); self.t = self.h.term; self.n = self.L.len(self.t)
        self.VL = TList(TBool); self.v = self.VL.new("valid"); self.vt = self.v.term
        c.require(self.VL.len(self.vt) == self.n)
        self.mi = TReal.new("min_impurity"); self.ms, self.ml = TInt.new("min_sample"), TInt.new("min_leaf")
        c.require(self.mi.t >= 0, self.ms.t >= 1, self.ml.t >= 1)
        f = qv("f")
        tot = z3.Int("node_count")
        # a node's samples are counted once per feature (C12): the last running total is the same for each
        c.require(forall(self.n, lambda f: z3.Implies(self.nb(f) > 0, self.cnt(f, self.nb(f) - 1) == tot), pats=lambda f: self.feat(f)))
        c.require(forall(self.n, lambda f: self.nb(f) >= 0, pats=lambda f: self.feat(f)))
    def feat(self, f): return self.L.at(self.t, f)
    def nb(self, f): return self.F.len(self.feat(f))
    def bin(self, f, b): return self.F.at(self.feat(f), b)
    def g(self, f, b): return self.B.acc(0, self.bin(f, b))
    def hs(self, f, b): return self.B.acc(1, self.bin(f, b))
    def cnt(self, f, b): return self.B.acc(2, self.bin(f, b))
    def cand(self, f, b):
        """an admissible candidate: selected feature, both sides large enough"""
        l = self.nb(f) - 1
        return z3.And(f >= 0, f < self.n, self.VL.at(self.vt, f), b >= 0, b < self.nb(f), self.cnt(f, l) >= self.ms.t, self.cnt(f, b) >= self.ml.t, self.cnt(f, l) - self.cnt(f, b) >= self.ml.t)
    def gain(self, f, b):
        l = self.nb(f) - 1
        return gain_of(self.g(f, l), self.hs(f, l), self.g(f, b), self.hs(f, b))

def splitter(c, H): 
    return bare(c, "ml.tree.splitter:Splitter", criterion=bare(c, "ml.tree.creterion:XgboostCriterion", reg_lambda=TReal.new("lambda")), min_impurity_split=H.mi, min_sample_split=H.ms, min_leaf_node=H.ml)

def seen(S, f0, b0):
    """ways in which the candidate (f0,b0) has been passed by the loops"""
    yield "earlier feature", f0 < S.it
    for p, (ty, t) in sorted(S.items.items()):
        if ty == TInt and p not in S.mod and "." not in p: yield "up to here (%s)" % p, z3.Or(f0 < t, z3.And(f0 == t, b0 < S.it))

def optvals(S, ty):
    """modified variables holding a ty or None: (name, is none, value)"""
    o = TOpt(ty)
    for p, (t, x) in sorted(S.items.items()):
        if p not in S.mod: continue
        if t == o: yield p, o.is_none(x), o.val(x)
        elif t == ty: yield p, z3.BoolVal(False), x
@contract(SP + "find_split_single_histogram_guest", "C13", stubs=GAIN, budget=400)
def _(c):
    H = Hist(c)
    f0, b0 = z3.Ints("f0 b0")
    A = z3.And(H.cand(f0, b0), H.gain(f0, b0) > H.mi.t)
    eps = TReal.unwrap(c.get("ml.utils.consts:FLOAT_ZERO"))
    def inv(S):
        opts = list(optvals(S, TInt)); sums = list(optvals(S, TReal)); reals = [(p, x) for p, x in S.of(TReal, mod=True)]
        for p, x in reals:
            for lab, s in seen(S, f0, b0): yield "%s beats %s" % (p, lab), z3.Implies(z3.And(A, s), x >= H.gain(f0, b0))
            for q, fn, f in opts:
                yield "%s/%s start" % (p, q), z3.Implies(fn, x == H.mi.t - eps)
                yield "%s/%s above" % (p, q), z3.Implies(z3.Not(fn), x > H.mi.t)
        for q, fn, fv in opts:
            for r, bn, bv in opts:
                if q == r: continue
                some = z3.Not(fn)
                yield "%s,%s together" % (q, r), fn == bn
                for k, a in enumerate(H.cand(fv, bv).children()): yield "%s,%s admissible %d" % (q, r, k), z3.Implies(some, a)
                for p, x in reals: yield "%s,%s gain %s" % (q, r, p), z3.Implies(some, x == H.gain(fv, bv))
                for s, un, u in sums:
                    yield "%s,%s,%s some" % (q, r, s), fn == un
                    yield "%s,%s grad %s" % (q, r, s), z3.Implies(some, u == H.g(fv, bv))
                    yield "%s,%s hess %s" % (q, r, s), z3.Implies(some, u == H.hs(fv, bv))
    c.vc.inv_templates = [inv]
    o = splitter(c, H)
    r = c.ok(o.find_split_single_histogram_guest, H.h, H.v)
    guest = c.get("ml.utils.consts:GUEST")
    c.prove("the candidate belongs to the guest", r.sitename == guest)
    gn = rv(r.gain)
    if r.best_fid is None:
        c.prove("no split only if no candidate is admissible", z3.Not(A))
        c.prove("no split: no bin either", r.best_bid is None)
        c.prove("no split: the gain says so", gn <= H.mi.t)
    else:
        f, b = iv(r.best_fid), iv(r.best_bid)
        c.prove("the chosen split is admissible", H.cand(f, b))
        c.prove("the gain reported is that of the chosen split", gn == H.gain(f, b))
        c.prove("the gain exceeds the minimum", gn > H.mi.t)
        c.prove("no admissible candidate has a larger gain", z3.Implies(A, gn >= H.gain(f0, b0)))
        c.prove("the sums reported are those of the left side", z3.And(rv(r.sum_grad) == H.g(f, b), rv(r.sum_hess) == H.hs(f, b)))

ET = TOpaque("Cipher")
def split_rec(c, gty=ET, gain=TNone):
    cls = c.get("ml.tree.node:SplitInfo")
    return TRec("SplitInfo", [("sitename", TStr), ("best_fid", TInt), ("best_bid", TInt), ("sum_grad", gty), ("sum_hess", gty), ("gain", gain)], cls)

@contract(SP + "find_split_single_histogram_host", "C13", budget=400)
def _(c):
    H = Hist(c, ET)
    S_ = split_rec(c); L = TList(S_); P = TTuple(ET, ET); Q = TList(P)
    f0, b0 = z3.Ints("f0 b0")
    A = H.cand(f0, b0)
    site = TStr.new("site")
    fid, bid = lambda x, j: S_.get(L.at(x, j), "best_fid"), lambda x, j: S_.get(L.at(x, j), "best_bid")
    def good(x, j):
        e = L.at(x, j); f, b = fid(x, j), bid(x, j)
        return z3.And(H.cand(f, b), S_.get(e, "sum_grad") == H.g(f, b), S_.get(e, "sum_hess") == H.hs(f, b), S_.get(e, "sitename") == site.t)
    def inv(S):
        for p, x in S.of(L, mod=True):
            yield p + " entries", forall(L.len(x), lambda j: good(x, j), pats=lambda j: L.at(x, j))
            for lab, s in seen(S, f0, b0): yield "%s has %s" % (p, lab), z3.Implies(z3.And(A, s), exists(L.len(x), lambda j: z3.And(fid(x, j) == f0, bid(x, j) == b0)))
            for q, y in S.of(Q, mod=True):
                yield "%s,%s lengths" % (p, q), L.len(x) == Q.len(y)
                yield "%s,%s sums" % (p, q), forall(L.len(x), lambda j: z3.And(P.acc(0, Q.at(y, j)) == H.g(fid(x, j), bid(x, j)), P.acc(1, Q.at(y, j)) == H.hs(fid(x, j), bid(x, j))), pats=lambda j: L.at(x, j))
    c.vc.inv_templates = [inv]
    o = splitter(c, H)
    a, b = c.ok(o.find_split_single_histogram_host, H.h, H.v, site)
    x, y = a.to_term(L), b.to_term(Q)
    n = L.len(x)
    c.prove("one pair of sums per candidate", n == Q.len(y))
    c.prove("candidates are admissible, in this party's name, with the sums of their left side", forall(n, lambda j: good(x, j)))
    c.prove("the sums sent for position j are those of candidate j", forall(n, lambda j: z3.And(P.acc(0, Q.at(y, j)) == H.g(fid(x, j), bid(x, j)), P.acc(1, Q.at(y, j)) == H.hs(fid(x, j), bid(x, j)))))
    c.prove("every admissible candidate is listed", z3.Implies(A, exists(n, lambda j: z3.And(fid(x, j) == f0, bid(x, j) == b0))))

# ---- many nodes ------------------------------------------------------------------------------------
HT, ST, GT = TOpaque("Histogram"), TOpaque("Split"), TOpaque("Sums")
LTF = {"computing.d_table": list_table}
best = z3.Function("best_split", HT.sort, ST.sort)
infos, sums_ = z3.Function("host_splits", HT.sort, ST.sort), z3.Function("host_sums", HT.sort, GT.sort)
def one_guest(vc, orig, self, histogram, valid_features):
    h, v = histogram, valid_features
    vc.prove("the node's histogram is searched with the selected features", v is vc.ghost["valid"])
    return SOpaque(ST, best(HT.unwrap(h)))
def one_host(vc, orig, self, histogram, valid_features, sitename):
    h, v, site = histogram, valid_features, sitename
    vc.prove("the node's histogram is searched with the selected features for this party", v is vc.ghost["valid"] and site is vc.ghost["site"])
    return (SOpaque(ST, infos(HT.unwrap(h))), SOpaque(GT, sums_(HT.unwrap(h))))
@contract(SP + "find_split", "C13", facades=LTF, stubs={SP + "find_split_single_histogram_guest": one_guest})
def _(c):
    L = TList(HT); hs = L.new("histograms"); t = hs.term; n = L.len(t)
    c.vc.ghost["valid"] = v = Obj()
    o = bare(c, "ml.tree.splitter:Splitter")
    r = c.ok(o.find_split, hs, v)
    Q = TList(ST); u = r.to_term(Q)
    c.prove("one split per node", Q.len(u) == n)
    c.prove("node i gets the best split of histogram i", forall(n, lambda i: Q.at(u, i) == best(L.at(t, i))))

@contract(SP + "find_split_host", "C13", facades=LTF, stubs={SP + "find_split_single_histogram_host": one_host})
def _(c):
    L = TList(HT); hs = L.new("histograms"); t = hs.term; n = L.len(t)
    c.vc.ghost["valid"], c.vc.ghost["site"] = v, site = Obj(), Obj()
    def inv(S):
        for ty, f in ((TList(ST), infos), (TList(GT), sums_)):
            for p, x in S.of(ty, mod=True): yield p + " so far", forall(S.it, lambda i: ty.at(x, i) == f(L.at(t, i)), pats=lambda i: ty.at(x, i))
    c.vc.inv_templates = [inv]
    o = bare(c, "ml.tree.splitter:Splitter")
    r = c.ok(o.find_split_host, hs, v, site)
    a, b = r
    A, B = TList(ST), TList(GT)
    a, b = a.to_term(A), b.to_term(B)
    c.prove("one list of candidates and one of sums per node", z3.And(A.len(a) == n, B.len(b) == n))
    c.prove("candidates and sums of node i come from histogram i", forall(n, lambda i: z3.And(A.at(a, i) == infos(L.at(t, i)), B.at(b, i) == sums_(L.at(t, i)))))
