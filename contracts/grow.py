"""C14: node bookkeeping of a grown tree."""
from .common import *
from .ptable import *
from .split import *
from .choose import GT_, HT_, guest_tree, Link, Crypt
from pyvc import facades as Fa
OI = TOpt(TInt)
NODE_F = [("id", TInt), ("sitename", TStr), ("fid", OI), ("bid", OI), ("weight", TReal), ("is_leaf", TBool), ("sum_grad", TReal), ("sum_hess", TReal), ("left_nodeid", TInt), ("right_nodeid", TInt)]
def node_rec(c): return TRec("Node", NODE_F, c.get("ml.tree.node:Node"))
def spl_rec(c): return TRec("SplitInfo", [("sitename", TStr), ("best_fid", OI), ("best_bid", OI), ("sum_grad", TReal), ("sum_hess", TReal), ("gain", TReal)], c.get("ml.tree.node:SplitInfo"))

class Lv:
    """the contract of growing one level: queue q (Q nodes) with splits s, tree t (T nodes) -> tree t2, queue q2"""
    def __init__(self, c, md=None):
        self.N, self.S = node_rec(c), spl_rec(c); self.NL, self.SL = TList(self.N), TList(self.S)
        self.guest = z3.IntVal(V.strid(c.get("ml.utils.consts:GUEST")))
    def g(self, e, f): return self.N.get(e, f)
    def internal(self, e): return z3.Not(self.g(e, "is_leaf"))
    def fresh_node(self, e):
        """a node that has not been processed yet: its weight is that of its sums"""
        return z3.And(self.g(e, "weight") == NW(self.g(e, "sum_grad"), self.g(e, "sum_hess")), z3.Not(self.g(e, "is_leaf")), self.g(e, "left_nodeid") == -1, self.g(e, "right_nodeid") == -1, self.g(e, "sitename") == self.guest)
    def processed(self, e, q, s, mi, eps, deep):
        """node e is node q after processing with split s"""
        N, S = self.N, self.S
        leaf = z3.Or(deep, S.get(s, "gain") <= mi + eps)
        return z3.And(self.g(e, "id") == self.g(q, "id"), self.g(e, "sum_grad") == self.g(q, "sum_grad"), self.g(e, "sum_hess") == self.g(q, "sum_hess"), self.g(e, "weight") == self.g(q, "weight"),
            self.g(e, "is_leaf") == leaf,
            z3.If(leaf, z3.And(self.g(e, "sitename") == self.g(q, "sitename"), self.g(e, "left_nodeid") == -1, self.g(e, "right_nodeid") == -1),
                z3.And(self.g(e, "right_nodeid") == self.g(e, "left_nodeid") + 1, self.g(e, "sitename") == S.get(s, "sitename"), self.g(e, "fid") == S.get(s, "best_fid"),
                       z3.If(S.get(s, "sitename") == self.guest, OI.is_none(self.g(e, "bid")), self.g(e, "bid") == S.get(s, "best_bid")))))

class Level:
    """What growing one level does: queue q (Q nodes) with splits s, tree t (T nodes), mask m -> tree t2, queue q2, mask m2, last
    number num2.  r counts the splits before a queue node, back gives the queue node a new node comes from; both are defined by
    the axioms in `defs` (r by recursion; back as the inverse of i -> 2r(i), 2r(i)+1, which is injective on split nodes)."""
    def __init__(self, W, q, t, s, m, mi, eps, deep, tag=""):
        self.__dict__.update(W=W, q=q, t=t, s=s, m=m, mi=mi, eps=eps, deep=deep)
        self.Q, self.T = W.NL.len(q), W.NL.len(t)
        self.r, self.back = z3.Function("splits_before" + tag, I, I), z3.Function("from" + tag, I, I)
    def at(self, i): return self.W.NL.at(self.q, i)
    def sp(self, i, f): return self.W.S.get(self.W.SL.at(self.s, i), f)
    def spat(self, i): return self.W.SL.at(self.s, i)
    def leaf(self, i): return z3.Or(self.deep, self.sp(i, "gain") <= self.mi + self.eps)
    def defs(self):
        i = qv("i"); r, b = self.r, self.back
        return [r(0) == 0,
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.Q), z3.And(r(i + 1) == r(i) + z3.If(self.leaf(i), 0, 1), r(i) >= 0)), patterns=[self.at(i), self.spat(i)]),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.Q, z3.Not(self.leaf(i))), z3.And(b(2 * r(i)) == i, b(2 * r(i) + 1) == i)), patterns=[r(i)])]
    def pre(self, num):
        W, NL = self.W, self.W.NL
        return [("one split per node of the level", W.SL.len(self.s) == self.Q), ("the last number given out is that of the last node", num == self.T + self.Q - 1),
            ("the nodes of the level are numbered on from the tree", forall(self.Q, lambda i: W.g(self.at(i), "id") == self.T + i, pats=lambda i: self.at(i))),
            ("the nodes of the level have the weight of their sums and no children yet", forall(self.Q, lambda i: W.fresh_node(self.at(i)), pats=lambda i: self.at(i))),
            ("the guest's own splits name a bin", forall(self.Q, lambda i: z3.Implies(z3.And(self.sp(i, "gain") > self.mi, self.sp(i, "sitename") == W.guest), z3.Not(OI.is_none(self.sp(i, "best_bid")))), pats=lambda i: self.spat(i)))]
    def left(self, i): return self.T + self.Q + 2 * self.r(i)
    def node_ok(self, e, i):
        W = self.W
        return z3.And(W.processed(e, self.at(i), self.spat(i), self.mi, self.eps, self.deep), z3.Implies(z3.Not(self.leaf(i)), W.g(e, "left_nodeid") == self.left(i)))
    def kids(self, x, i):
        """the children of split node i in the new queue x"""
        W, NL = self.W, self.W.NL
        a, b = NL.at(x, 2 * self.r(i)), NL.at(x, 2 * self.r(i) + 1)
        G_, H_ = W.g(self.at(i), "sum_grad"), W.g(self.at(i), "sum_hess")
        sg, sh = self.sp(i, "sum_grad"), self.sp(i, "sum_hess")
        return z3.And(W.g(a, "sum_grad") == sg, W.g(a, "sum_hess") == sh, W.g(b, "sum_grad") == G_ - sg, W.g(b, "sum_hess") == H_ - sh)
    def origin(self, j):
        b = self.back(j)
        return z3.And(b >= 0, b < self.Q, z3.Not(self.leaf(b)), z3.Or(j == 2 * self.r(b), j == 2 * self.r(b) + 1))
    def recorded(self, d, i):
        return z3.Implies(z3.And(z3.Not(self.leaf(i)), self.sp(i, "sitename") == self.W.guest), z3.And(MD.has(d, self.T + i), MD.val(d, self.T + i) == OI.val(self.sp(i, "best_bid"))))
    def kept_at(self, d, k):
        m0 = self.m
        return z3.Implies(z3.Or(k < self.T, k >= self.T + self.Q), z3.And(MD.has(d, k) == MD.has(m0, k), MD.val(d, k) == MD.val(m0, k)))
    def kept(self, d, k0=None):
        """for an arbitrary key k0, or for all of them"""
        if k0 is not None: return self.kept_at(d, k0)
        k = qv("k")
        return z3.ForAll([k], self.kept_at(d, k), patterns=[MD.val(d, k), MD.val(self.m, k)])
    def rank(self, n):
        r = self.r
        return forall(n, lambda i: z3.And(r(i) >= 0, r(i) <= r(n), z3.Implies(z3.Not(self.leaf(i)), r(i) + 1 <= r(n))), pats=lambda i: r(i))
    def new_node(self, e, j): return z3.And(self.W.g(e, "id") == self.T + self.Q + j, self.W.fresh_node(e), OI.is_none(self.W.g(e, "fid")), OI.is_none(self.W.g(e, "bid")))
    def post(self, t, q, d, num, k0=None, j0=None):
        W, NL, T, Q, r = self.W, self.W.NL, self.T, self.Q, self.r
        return [("the tree keeps its nodes", forall(T, lambda i: NL.at(t, i) == NL.at(self.t, i), pats=lambda i: [NL.at(t, i), NL.at(self.t, i)])),
            ("the processed nodes join the tree", NL.len(t) == T + Q),
            ("a node becomes a leaf at the maximum depth or without an admissible split; otherwise it gets two new children", forall(Q, lambda i: self.node_ok(NL.at(t, T + i), i), pats=lambda i: self.at(i))),
            ("two new nodes per split", z3.And(NL.len(q) == 2 * r(Q), r(Q) >= 0)),
            ("new nodes are numbered on from the tree, with the weight of their sums", forall(NL.len(q), lambda j: self.new_node(NL.at(q, j), j), pats=lambda j: NL.at(q, j))),
            ("the left child has the sums of the split, the right child the rest", forall(Q, lambda i: z3.Implies(z3.Not(self.leaf(i)), self.kids(q, i)), pats=lambda i: self.at(i))),
            ("splits are counted", self.rank(Q)), ("no node is added below the maximum depth", z3.Implies(self.deep, r(Q) == 0)),
            ("every new node is the child of a split node", forall(NL.len(q), lambda j: self.origin(j), pats=lambda j: NL.at(q, j)) if j0 is None else z3.Implies(z3.And(j0 >= 0, j0 < NL.len(q)), self.origin(j0))),
            ("the last number given out", num == T + Q - 1 + 2 * r(Q)),
            ("the guest's split positions are recorded under their node", forall(Q, lambda i: self.recorded(d, i), pats=lambda i: [self.at(i), self.spat(i)])),
            ("what was recorded for other nodes stays", self.kept(d, k0))]
MD = TDict(TInt, TInt)

@contract(GT_ + ".update_tree_node_queue", "C14", budget=600, inv_ms=8000, stubs={**GAIN, GT_ + ".update_feature_importance": lambda vc, orig, self, splitinfo: None})
def _(c):
    from .choose import Grid
    W = Lv(c); NL, SL, N = W.NL, W.SL, W.N
    q0 = NL.new("queue").term; t0l = NL.new("tree"); t0 = t0l.term
    sp = SL.new("splits"); num = TInt.new("tree_node_num")
    mi = TReal.new("min_impurity"); deep = TBool.new("max_depth_reach"); eps = rv(c.get("ml.utils.consts:FLOAT_ZERO"))
    mask = MD.new("split_maskdict")
    L = Level(W, q0, t0, sp.term, mask.term, mi.t, eps, deep.t); T, Q, at, r = L.T, L.Q, L.at, L.r
    c.require(*[f for _, f in L.pre(num.t)]); c.require(*L.defs())
    ncls = c.get("ml.tree.node:Node")
    def mk(i, j):
        e = at(j); o = ncls.__new__(ncls)
        for f, ty in NODE_F:
            if isinstance(ty, TOpt): o.__dict__[f] = None
            else: o.__dict__[f] = ty.wrap(N.get(e, f))
        return o
    c.require(forall(Q, lambda i: z3.And(OI.is_none(W.g(at(i), "fid")), OI.is_none(W.g(at(i), "bid"))), pats=lambda i: at(i)))
    queue = Grid(z3.IntVal(1), lambda i: Q, mk)[0]
    k0, j0 = z3.Int("any_key"), z3.Int("any_new_node")
    def inv(S):
        for p, x in S.of(NL, mod=True):
            yield p + " length T", NL.len(x) == T + S.it
            yield p + " length new", NL.len(x) == 2 * r(S.it)
            yield p + " old", forall(T, lambda i: NL.at(x, i) == NL.at(t0, i), pats=lambda i: NL.at(x, i))
            yield p + " processed", forall(S.it, lambda i: L.node_ok(NL.at(x, T + i), i), pats=lambda i: at(i))
            yield p + " new nodes", forall(NL.len(x), lambda j: L.new_node(NL.at(x, j), j), pats=lambda j: NL.at(x, j))
            yield p + " kids", forall(S.it, lambda i: z3.Implies(z3.Not(L.leaf(i)), L.kids(x, i)), pats=lambda i: at(i))
        for p, x in S.of(TInt, mod=True): yield p + " last number", x == T + Q - 1 + 2 * r(S.it)
        yield "rank", L.rank(S.it)
        yield "rank>=0", r(S.it) >= 0
        yield "deep", z3.Implies(L.deep, r(S.it) == 0)
        yield "origin", z3.Implies(z3.And(j0 >= 0, j0 < 2 * r(S.it)), z3.And(L.origin(j0), L.back(j0) < S.it))
        for p, d in S.of(MD, mod=True):
            yield p + " recorded", forall(S.it, lambda i: L.recorded(d, i), pats=lambda i: [at(i), L.spat(i)])
            yield p + " kept", L.kept(d, k0)
    c.vc.inv_templates = [inv]; c.vc.auto_filter = lambda lab: lab.endswith("=entry+it") and "len" not in lab and "n(" not in lab
    o = guest_tree(c, tree_node_queue=queue, tree_=t0l, tree_node_num=num, min_impurity_split=mi, split_maskdict=mask)
    c.ok(o.update_tree_node_queue, sp, deep)
    for n, f in L.post(o.tree_.to_term(NL), o.tree_node_queue.to_term(NL), o.split_maskdict.to_term(MD), iv(o.tree_node_num), k0, j0): c.prove(n, f)

# ---- growing a whole tree ----------------------------------------------------------------------------
def fit_stubs():
    G = GT_ + "."
    none = lambda vc, orig, self, *a, **k: None
    g = lambda name: (lambda vc, orig, self, *a, **k: vc.ghost["do_" + name](self, *a, **k))
    st = {G + n: none for n in ("sync_encrypted_grad_and_hess", "sync_tree_node_queue", "sync_node_positions", "federated_find_split", "redispatch_node", "sync_tree", "convert_bin_to_real")}
    st.update({G + n: g(n) for n in ("dispatch_all_node_to_root", "get_grad_hess_sum", "get_histograms", "sync_final_split_host", "merge_splitinfo", "update_tree_node_queue")})
    st["ml.tree.splitter:Splitter.find_split"] = g("find_split")
    st.update(GAIN)
    return st
IL = TList(TInt)
class WF:
    """a tree t of T nodes with a level q of Q nodes still to be processed; par and lev are ghost: the parent and the level of a node"""
    def __init__(self, W, t, q, par, lev): self.W, self.t, self.q, self.par, self.lev = W, t, q, par, lev; self.T, self.Q = W.NL.len(t), W.NL.len(q)
    def node(self, j, f): return z3.If(j < self.T, self.W.g(self.W.NL.at(self.t, j), f), self.W.g(self.W.NL.at(self.q, j - self.T), f))
    def tn(self, i, f): return self.W.g(self.W.NL.at(self.t, i), f)
    def clauses(self, G, H):
        W, NL, T, Q = self.W, self.W.NL, self.T, self.Q
        pt = lambda i: NL.at(self.t, i)
        par, lev = lambda j: IL.at(self.par, j), lambda j: IL.at(self.lev, j)
        inner = lambda i: z3.Not(self.tn(i, "is_leaf"))
        l = lambda i: self.tn(i, "left_nodeid"); r = lambda i: self.tn(i, "right_nodeid")
        yield "node i of the tree has identifier i", forall(T, lambda i: self.tn(i, "id") == i, pats=pt)
        yield "a node's output is that of its sums", forall(T, lambda i: self.tn(i, "weight") == NW(self.tn(i, "sum_grad"), self.tn(i, "sum_hess")), pats=pt)
        yield "a leaf is the guest's and has no children", forall(T, lambda i: z3.Implies(z3.Not(inner(i)), z3.And(self.tn(i, "sitename") == W.guest, l(i) == -1, r(i) == -1)), pats=pt)
        yield "an internal node has two children with larger identifiers", forall(T, lambda i: z3.Implies(inner(i), z3.And(l(i) > i, r(i) == l(i) + 1, r(i) < T + Q)), pats=pt)
        yield "the sums of siblings add up to their parent's", forall(T, lambda i: z3.Implies(inner(i), z3.And(*[self.node(l(i), f) + self.node(r(i), f) == self.tn(i, f) for f in ("sum_grad", "sum_hess")])), pats=pt)
        yield "no node has two parents", forall(T, lambda i: z3.Implies(inner(i), z3.And(par(l(i)) == i, par(r(i)) == i)), pats=pt)
        yield "every node but the root has a parent", forall(T + Q, lambda j: z3.And(par(j) >= 0, par(j) < j, par(j) < T, inner(par(j)), z3.Or(l(par(j)) == j, r(par(j)) == j)), lo=1, pats=par)
        yield "a node's level is one more than its parent's", z3.And(lev(z3.IntVal(0)) == 1, forall(T + Q, lambda j: lev(j) == lev(par(j)) + 1, lo=1, pats=lev))
        yield "one parent and one level per node", z3.And(IL.len(self.par) == T + Q, IL.len(self.lev) == T + Q, T + Q >= 1)
        yield "the root has the sums of all samples", z3.And(self.node(z3.IntVal(0), "sum_grad") == G, self.node(z3.IntVal(0), "sum_hess") == H)
    def pending(self, it):
        """the level still to be processed, before level it+1"""
        W, NL, T, Q = self.W, self.W.NL, self.T, self.Q
        lev = lambda j: IL.at(self.lev, j)
        yield "level: identifiers", forall(Q, lambda i: z3.And(W.g(NL.at(self.q, i), "id") == T + i, W.fresh_node(NL.at(self.q, i))), pats=lambda i: NL.at(self.q, i))
        yield "level: fields", forall(Q, lambda i: z3.And(OI.is_none(W.g(NL.at(self.q, i), "fid")), OI.is_none(W.g(NL.at(self.q, i), "bid"))), pats=lambda i: NL.at(self.q, i))
        yield "levels so far", forall(T + Q, lambda j: lev(j) == z3.If(j < T, lev(j), it + 1), pats=lev)
        yield "levels done", forall(T, lambda j: lev(j) <= it, pats=lev)

def grown(vc, L, t2, q2, m2, n2, p0, l0):
    """facts about the state after a level: the contract of update_tree_node_queue, and the definition of the ghosts"""
    W = L.W; NL = W.NL
    T, Q = L.T, L.Q; T2, Q2 = T + Q, NL.len(q2)
    for f in L.defs(): vc.fact(f)
    for n, f in L.post(t2, q2, m2, n2): vc.fact(f)
    # the same facts, indexed by the place in the tree
    vc.fact(forall(T2, lambda i: z3.And(L.node_ok(NL.at(t2, i), i - T), z3.Implies(z3.Not(L.leaf(i - T)), L.kids(q2, i - T)), L.r(i - T) >= 0, L.r(i - T) <= L.r(Q), z3.Implies(z3.Not(L.leaf(i - T)), L.r(i - T) + 1 <= L.r(Q))), lo=T, pats=lambda i: NL.at(t2, i)))
    p2, l2 = IL.new("par"), IL.new("lev")
    for a, b in ((p2.term, p0), (l2.term, l0)): vc.fact(z3.And(IL.len(a) == T2 + Q2, forall(T2, lambda j: IL.at(a, j) == IL.at(b, j), pats=lambda j: [IL.at(a, j), IL.at(b, j)])))
    vc.fact(forall(T2 + Q2, lambda j: z3.And(IL.at(p2.term, j) == T + L.back(j - T2), L.origin(j - T2)), lo=T2, pats=lambda j: IL.at(p2.term, j)))
    vc.fact(forall(T2 + Q2, lambda j: z3.And(IL.at(l2.term, j) == IL.at(l0, T + L.back(j - T2)) + 1, L.origin(j - T2)), lo=T2, pats=lambda j: IL.at(l2.term, j)))
    return p2, l2
def level_lemma(part):
    @contract(GT_ + ".fit", "C14", name="lemma: a well-formed tree stays well-formed when a level is grown (%d)" % part, prove_ms=30000)
    def _(c):
        W = Lv(c); NL, SL = W.NL, W.SL
        q, t, s, m = NL.new("queue").term, NL.new("tree").term, SL.new("splits").term, MD.new("mask").term
        p0, l0 = IL.new("par").term, IL.new("lev").term
        mi, eps, deep, num, dep = TReal.new("mi").t, rv(c.get("ml.utils.consts:FLOAT_ZERO")), TBool.new("deep").t, TInt.new("num").t, TInt.new("depth").t
        G, H = TReal.new("G").t, TReal.new("H").t
        w = WF(W, t, q, p0, l0); L = Level(W, q, t, s, m, mi, eps, deep)
        for n, f in w.clauses(G, H): c.require(f)
        for n, f in w.pending(dep): c.require(f)
        c.require(SL.len(s) == L.Q, num == w.T + w.Q - 1, dep >= 0)
        t2, q2, m2, n2 = NL.new("tree").term, NL.new("queue").term, MD.new("mask").term, TInt.new("num").t
        p2, l2 = grown(c.vc, L, t2, q2, m2, n2, p0, l0)
        w2 = WF(W, t2, q2, p2.term, l2.term)
        goals = list(w2.clauses(G, H)) + list(w2.pending(dep + 1)) + [("the last number is that of the last node", n2 == w2.T + w2.Q - 1), ("nothing is left at the maximum depth", z3.Implies(deep, w2.Q == 0))]
        for i, (n, f) in enumerate(goals):
            if i % 3 == part: c.prove(n, f)
for part in range(3): level_lemma(part)

@contract(GT_ + ".fit", "C14", budget=800, stubs=fit_stubs())
def _(c):
    vc = c.vc
    W = Lv(c); NL, SL, N = W.NL, W.SL, W.N
    mi, lam = TReal.new("min_impurity"), TReal.new("lambda"); eps = rv(c.get("ml.utils.consts:FLOAT_ZERO"))
    md, ms = TInt.new("max_depth"), TInt.new("max_split_nodes"); c.require(md.t >= 1, ms.t >= 1)
    G, H = TReal.new("G"), TReal.new("H")
    best = z3.Function("best_split", I, W.S.sort); i_ = qv("i")
    sget = lambda e, f: W.S.get(e, f)
    c.require(z3.ForAll([i_], z3.Implies(z3.And(sget(best(i_), "gain") > mi.t, sget(best(i_), "sitename") == W.guest), z3.Not(OI.is_none(sget(best(i_), "best_bid")))), patterns=[best(i_)]))
    # good: the well-formedness of tree, level, ghosts and depth (class WF; the lemmas above show that growing a level preserves it)
    good = z3.Function("well_formed", NL.sort, NL.sort, IL.sort, IL.sort, I, z3.BoolSort())
    gh = Obj(depth=0, par=V.VList.of([0]), lev=V.VList.of([1])); vc.obj_birth(gh); vc.ghost["spec_roots"] = [gh]
    tag = {}
    def tk(name):
        tag[name] = Obj(); return tag[name]
    gh_tab = object()
    class Tab:
        def join(self, other, f): return object()
    def state(): return o.tree_.to_term(NL), o.tree_node_queue.to_term(NL), gh.par.to_term(IL), gh.lev.to_term(IL)
    def do_sync_encrypted_grad_and_hess(self): pass
    def do_get_grad_hess_sum(self, t): c.prove("the root has the sums of the gradient table", t is gh_tab); return (G, H)
    def do_dispatch_all_node_to_root(self, root_id=0):
        c.prove("samples start at node 0", root_id == 0)
        for x, ty in ((o.tree_, N), (o.tree_node_queue, N), (gh.par, TInt), (gh.lev, TInt)): x.make_symbolic(ty)
        t, q, p, l = state(); w = WF(W, t, q, p, l)
        for n, f in w.clauses(G.t, H.t): c.prove("the root: " + n, f)
        for n, f in w.pending(z3.IntVal(0)): c.prove("the root: " + n, f)
        vc.fact(good(t, q, p, l, 0))
    def do_get_histograms(self, node_map={}):
        cur = self.cur_split_nodes.to_term(NL); n = NL.len(cur); d = node_map.to_term(MD) if isinstance(node_map, V.VDict) else None
        if d is None: raise Unsupported("node map")
        c.prove("histograms are numbered by the position of the node in the batch", z3.And(MD.n(d) == n, forall(n, lambda k: z3.And(MD.has(d, W.g(NL.at(cur, k), "id")), MD.val(d, W.g(NL.at(cur, k), "id")) == k), pats=lambda k: NL.at(cur, k))))
        return tk("hist")
    def do_find_split(self, h, vf): c.prove("the guest searches the histograms of the batch", h is tag.get("hist") and vf is vfeat); return tk("guest")
    def do_sync_final_split_host(self, dep=-1, batch=-1): return tk("host")
    def do_merge_splitinfo(self, g, h):
        c.prove("the choice is over the guest's and the hosts' splits of the batch", g is tag.get("guest") and h is tag.get("host"))
        cur = o.cur_split_nodes.to_term(NL); n = NL.len(cur); out = SL.new("chosen"); u = out.term
        vc.fact(z3.And(SL.len(u) == n, forall(n, lambda k: SL.at(u, k) == best(W.g(NL.at(cur, k), "id")), pats=lambda k: SL.at(u, k))))
        return out
    def do_update_tree_node_queue(self, splits, deep):
        t, q, p, l = state(); m = self.split_maskdict.to_term(MD)
        u = splits.to_term(SL); num = iv(self.tree_node_num); dp = z3.BoolVal(deep) if isinstance(deep, bool) else TBool.unwrap(deep)
        dep = iv(gh.depth)
        c.prove("the last level is the one of the configured depth", dp == (dep + 1 == md.t))
        c.prove("a level is grown from a well-formed tree", good(t, q, p, l, dep))
        L = Level(W, q, t, u, m, mi.t, eps, dp, tag="!%d" % vc.counter)
        for n, f in L.pre(num): c.prove("growing a level: " + n, f)
        c.prove("every node of the level is grown with the split chosen for it", forall(L.Q, lambda i: L.spat(i) == best(W.g(L.at(i), "id")), pats=lambda i: L.spat(i)))
        t2, q2, m2, n2, p2, l2 = NL.new("tree"), NL.new("queue"), MD.new("mask"), TInt.new("num"), IL.new("par"), IL.new("lev")
        w = WF(W, t2.term, q2.term, p2.term, l2.term)
        vc.fact(good(t2.term, q2.term, p2.term, l2.term, dep + 1))
        for n, f in w.pending(dep + 1):
            if n.startswith("level: "): vc.fact(f)
        vc.fact(n2.t == w.T + w.Q - 1); vc.fact(z3.Implies(dp, w.Q == 0))
        S = rt.RT_.setattr
        S(self, "tree_", t2); S(self, "tree_node_queue", q2); S(self, "split_maskdict", m2); S(self, "tree_node_num", n2)
        S(gh, "par", p2); S(gh, "lev", l2); S(gh, "depth", gh.depth + 1)
    for k, f in list(locals().items()):
        if k.startswith("do_"): vc.ghost[k] = f
    def inv(S):
        get = lambda ty, nm: next((x for p, x in S.of(ty) if p.endswith(nm)), None)
        t, q = get(NL, "tree_"), get(NL, "tree_node_queue")
        mp, ml, dp = get(IL, "par"), get(IL, "lev"), get(TInt, "depth")
        if any(p.endswith(".depth") for p in S.mod) and t is not None and q is not None and mp is not None and ml is not None and dp is not None:
            w = WF(W, t, q, mp, ml)
            yield "well formed", good(t, q, mp, ml, dp)
            for n, f in w.pending(dp):
                if n.startswith("level: "): yield n, f
            yield "at the end", z3.Implies(dp == md.t, w.Q == 0)
            yield "depth", dp == S.it
            nm = get(TInt, "tree_node_num")
            if nm is not None: yield "last number", nm == w.T + w.Q - 1
        elif q is not None:
            pos = z3.If(S.it * ms.t < NL.len(q), S.it * ms.t, NL.len(q))
            for p, x in S.of(SL, mod=True):
                yield p + " one split per node", SL.len(x) == pos
                yield p + " splits", forall(pos, lambda j: SL.at(x, j) == best(W.g(NL.at(q, j), "id")), pats=lambda j: SL.at(x, j))
            for p, x in S.of(NL):
                if not p.endswith("cur_split_nodes"): continue
                for pd, d in S.of(MD, mod=True): yield pd + " batch", z3.And(MD.n(d) == S.it, forall(S.it, lambda k: z3.And(z3.Select(MD.keyat(d), k) == W.g(NL.at(x, k), "id"), z3.Select(MD.pos(d), W.g(NL.at(x, k), "id")) == k, MD.val(d, W.g(NL.at(x, k), "id")) == k), pats=lambda k: [NL.at(x, k), z3.Select(MD.keyat(d), k)]))
    c.vc.inv_templates = [inv]; c.vc.auto_filter = lambda lab: lab.endswith('=entry+it') and "len" not in lab and "n(" not in lab
    vfeat = Obj()
    o = guest_tree(c, tree_=V.VList.of([]), tree_node_num=0, min_impurity_split=mi, split_maskdict=MD.new("mask0"), max_depth=md, max_split_nodes=ms, grad_and_hess=gh_tab, data_bin=Tab(), node_dispatch=object(), valid_features=vfeat, tree_node_queue=None, cur_split_nodes=None, best_splitinfo_guest=None, data_bin_with_node_dispatch=None)
    c.ok(o.fit)
    t, q, p, l = state(); d = iv(gh.depth)
    c.prove("the grown tree is well-formed", good(t, q, p, l, d))
    c.prove("every node has been processed", NL.len(q) == 0)
    c.prove("no node is deeper than the configured depth", d <= md.t)

@contract(GT_ + ".get_grad_hess_sum", ["C14"])
def _(c):
    a, b = [(TReal.new("g"), TReal.new("h")) for _ in range(2)]
    class T:
        """contract of reduce (C03): the fold of the function over all rows"""
        def reduce(self, f):
            r = f(a, b)
            c.prove("gradients and hessians are added up separately", z3.And(rv(r[0]) == a[0].t + b[0].t, rv(r[1]) == a[1].t + b[1].t))
            return r
    o = guest_tree(c)
    r = c.ok(o.get_grad_hess_sum, T())
    c.prove("the sums are those of the table", z3.And(rv(r[0]) == a[0].t + b[0].t, rv(r[1]) == a[1].t + b[1].t))
