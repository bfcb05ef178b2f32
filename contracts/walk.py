"""C16: prediction follows the path the features dictate."""
from .common import *
from .ptable import *
from .split import *
from .choose import GT_, HT_, guest_tree, host_tree, Link
from .grow import OI, NODE_F, Lv, node_rec
from .route import T2, Tab, TAB, Recorder, HostTabs, tabs
from .ptable import *
from .route import ROW as ROWU
MR = TDict(TInt, TReal)
val = z3.Function("feature_value", I, I, R)       # feature number, default -> value, at the party at hand
class FeatR:
    def __init__(self, gh=None): self.gh = gh
    def get_data(self, fid, default=None):
        if self.gh is not None: rt.RT_.setattr(self.gh, "steps", self.gh.steps + 1)
        return V.SReal(val(iv(fid), iv(default)))
class Sample:
    """a sample as the party at hand sees it; counts the questions"""
    def __init__(self, gh=None): self.features = FeatR(gh)
def counter(c):
    gh = Obj(steps=0); c.vc.obj_birth(gh); c.vc.ghost["spec_roots"] = [gh]
    return gh
def ends(c, w, gh, frm, k): c.prove("every step moves on, so that the walk ends", iv(gh.steps) <= k - frm)

class Walk:
    """a finished tree (contract C14: children come later), with the thresholds of the party at hand, and the path of one sample:
    left(i) says where the owner of node i sends it; leafof(i) is the leaf its path from i ends at (by recursion, children come later)"""
    def __init__(self, c, site=None):
        self.W = W = Lv(c); NL = W.NL
        self.list = NL.new("tree"); self.t = self.list.term; self.n = NL.len(self.t)
        self.mask = MR.new("split_maskdict"); self.m = self.mask.term
        self.left, self.leafof = z3.Function("goes_left", I, B_), z3.Function("leaf_of", I, I)
        self.site = W.guest if site is None else site
        i, N = qv("i"), self.n
        at = lambda i: NL.at(self.t, i)
        self.at = at
        g = lambda i, f: W.g(at(i), f)
        self.f = g
        self.child = lambda i: z3.If(self.left(i), g(i, "left_nodeid"), g(i, "right_nodeid"))
        self.mine = lambda i: z3.And(z3.Not(g(i, "is_leaf")), g(i, "sitename") == self.site)
        rng = z3.And(i >= 0, i < N)
        c.require(N >= 1,
            z3.ForAll([i], z3.Implies(z3.And(rng, z3.Not(g(i, "is_leaf"))), z3.And(g(i, "left_nodeid") > i, g(i, "left_nodeid") < N, g(i, "right_nodeid") > i, g(i, "right_nodeid") < N)), patterns=[at(i)]),
            z3.ForAll([i], z3.Implies(z3.And(rng, g(i, "is_leaf")), g(i, "sitename") == W.guest), patterns=[at(i)]),
            # the owner of a node knows its feature and its threshold, and compares as the property says
            z3.ForAll([i], z3.Implies(z3.And(rng, self.mine(i)), z3.And(z3.Not(OI.is_none(g(i, "fid"))), MR.has(self.m, i), self.left(i) == (val(OI.val(g(i, "fid")), 0) <= MR.val(self.m, i)))), patterns=[at(i)]),
            z3.ForAll([i], z3.Implies(rng, self.leafof(i) == z3.If(g(i, "is_leaf"), i, self.leafof(self.child(i)))), patterns=[at(i)]))
B_ = z3.BoolSort()

def walk_inv(w, nid0):
    def inv(S):
        steps = next((x for p, x in S.of(TInt) if p == "$0.steps"), None)
        for p, x in S.of(TInt, mod=True):
            if p.startswith("$"): continue
            yield p + " range", z3.And(x >= nid0, x < w.n)
            yield p + " steps", x - nid0 >= steps
            yield p + " path", w.leafof(x) == w.leafof(nid0)
            yield p + " moved", z3.Implies(S.it >= 1, x > nid0)
    return inv

@contract(GT_ + ".traverse_tree", "C16")
def _(c):
    w = Walk(c); nid = TInt.new("nodeid"); c.require(nid.t >= 0, nid.t < w.n)
    c.vc.inv_templates = [walk_inv(w, nid.t)]
    G = c.get(GT_)
    gh = counter(c)
    r = c.ok(G.traverse_tree, (nid, TInt.new("tag")), Sample(gh), tree_=w.list, decoder=G.decode, split_maskdict=w.mask)
    if isinstance(r, tuple):
        k = iv(r[0])
        c.prove("otherwise it stops at a node of a host", z3.And(k >= nid.t, k < w.n, z3.Not(w.f(k, "is_leaf")), w.f(k, "sitename") != w.W.guest))
        c.prove("on the path the features dictate", w.leafof(k) == w.leafof(nid.t))
        ends(c, w, gh, nid.t, k)
        c.prove("and hands over the node, marked as the guest's", len(r) == 2 and r[1] == 1)
    else: c.prove("at the end of the path: the weight of its leaf", rv(r) == w.f(w.leafof(nid.t), "weight"))

@contract(HT_ + ".traverse_tree", "C16")
def _(c):
    me = TStr.new("my_site"); w = Walk(c, me.t); c.require(me.t != w.W.guest)
    nid, tag = TInt.new("nodeid"), TInt.new("tag"); c.require(nid.t >= 0, nid.t < w.n)
    c.vc.inv_templates = [walk_inv(w, nid.t)]
    H = c.get(HT_); st = (nid, tag)
    gh = counter(c)
    r = c.ok(H.traverse_tree, st, Sample(gh), tree_=w.list, decoder=H.decode, split_maskdict=w.mask, sitename=me)
    if r is st: c.prove("a node of another party is handed back", z3.Not(w.mine(nid.t))); return
    c.prove("the answer is a node and the host's mark", isinstance(r, tuple) and len(r) == 2 and r[1] == 0)
    k = iv(r[0]); ends(c, w, gh, nid.t, k)
    c.prove("the host moves on from its own nodes only", w.mine(nid.t))
    c.prove("to a node that is not its own", z3.And(k > nid.t, k < w.n, w.f(k, "sitename") != me.t))
    c.prove("on the path the features dictate", w.leafof(k) == w.leafof(nid.t))

def opt_tabs(S):
    """the tables a loop modifies: path, table, is it None"""
    return [(p, x, z3.BoolVal(False)) for p, x in S.of(TAB, mod=True)] + [(p, TOpt(TAB).val(x), TOpt(TAB).is_none(x)) for p, x in S.of(TOpt(TAB), mod=True)]
def tb(x): return z3.BoolVal(x) if isinstance(x, bool) else TBool.unwrap(x)
def g_trav(vc, orig, state, data, tree_=None, decoder=None, split_maskdict=None): return vc.ghost["trav"](state, data, tree_, split_maskdict, None)
def h_trav(vc, orig, state, data, tree_=None, decoder=None, split_maskdict=None, sitename=None): return vc.ghost["trav"](state, data, tree_, split_maskdict, sitename)
@contract(GT_ + ".predict", "C16", stubs={GT_ + ".traverse_tree": g_trav}, budget=600)
def _(c):
    vc = c.vc
    w = Walk(c); L0 = w.leafof(z3.IntVal(0)); sample = Sample()
    H = TInt.new("hosts").t
    gh = Obj(at=0, rounds=0, state=0, open=True); vc.obj_birth(gh); vc.ghost["spec_roots"] = [gh]
    S_ = rt.RT_.setattr
    def node(x):
        u = ROWU.unwrap(x)
        c.prove("what travels is a pair of node and mark", ROWU.is_(1, u))
        return T2.acc(0, ROWU.val(1, u))
    def trav(state, data, tree, mask, _):
        # contract of the guest's traverse_tree (above)
        c.prove("the guest walks its own tree with its own data and thresholds", data is sample and tree is w.list and mask is w.mask)
        k = node(state)
        c.prove("from the node the sample is at", k == iv(gh.at))
        x = TInt.new("next")
        if vc.fork(TBool.new("ends").t): S_(gh, "open", False); return V.SReal(w.f(w.leafof(k), "weight"))
        vc.fact(z3.And(x.t >= k, x.t < w.n, z3.Not(w.f(x.t, "is_leaf")), w.f(x.t, "sitename") != w.W.guest, w.leafof(x.t) == w.leafof(k)))
        S_(gh, "at", x)
        return (x, 1)
    vc.ghost["trav"] = trav
    class Conn(Link):
        q = None
        def send_data_to_hosts(self, x, idx=-1):
            c.prove("all hosts are told", idx == -1)
            if isinstance(x, bool):
                c.prove("a round starts after the answers of the last", iv(gh.state) == 0)
                S_(gh, "state", 3 if x else 1)
            elif isinstance(x, Tab):
                c.prove("the hosts are told first that there is more", iv(gh.state) == 1)
                self.q = x; S_(gh, "state", 2)
            else: c.prove("hosts get a flag or the open samples", False)
        def recv_data_from_hosts(self, idx=-1):
            c.prove("the hosts are asked before they answer", z3.And(iv(gh.state) == 2, idx == -1))
            if self.q is None: raise PathEnd()
            q = self.q; S_(gh, "state", 0)
            live = tb(q.has); k = iv(gh.at)
            c.prove("hosts are asked about samples at their nodes", z3.Implies(live, z3.And(ROWU.unwrap(q.row) == ROWU.mk(1, T2.mk(k, z3.IntVal(1))), k < w.n, z3.Not(w.f(k, "is_leaf")), w.f(k, "sitename") != w.W.guest)))
            c.prove("every round moves every open sample on, so that the rounds end", z3.Implies(live, z3.And(k >= iv(gh.rounds), k < w.n)))
            S_(gh, "rounds", gh.rounds + 1)
            own, x = TInt.new("owner").t, TInt.new("host_next")
            # contract of the hosts' predict and traverse_tree (below): the owner moves the sample on, the others hand it back
            vc.fact(z3.Implies(live, z3.And(own >= 0, own < H, x.t > k, x.t < w.n, w.leafof(x.t) == w.leafof(k))))
            S_(gh, "at", V.mkint(z3.If(live, x.t, k)))
            vc.ghost["mine"] = (own, x.t, k)
            return HostTabs(H, own, q.has, (x, 0), q.row)
    conn = Conn()
    class Data:
        """the samples to predict: every sample has a row"""
        def mapValues(self, f): return Tab(True, f(sample))
    data = Tab(True, sample)
    def inv(S):
        get = lambda ty, nm: next((x for p, x in S.of(ty) if p == "$0." + nm), None)
        at, rounds, st, op = get(TInt, "at"), get(TInt, "rounds"), get(TInt, "state"), get(TBool, "open")
        if "$0.at" in S.mod:      # the loop over rounds
            yield "at", z3.And(at >= 0, at < w.n, w.leafof(at) == L0, z3.Implies(op, at >= rounds))
            yield "state", st == 0
            yield "first", z3.Implies(S.it == 0, op)
            for p, x, none in opt_tabs(S):
                has, row = TAB.get(x, "has"), TAB.get(x, "row")
                yield p + " open samples", z3.And(z3.Not(none), has == op, z3.Implies(op, z3.And(ROWU.is_(1, row), T2.acc(0, ROWU.val(1, row)) == at)))
                yield p + " none", none == (S.it == 0)
                yield p + " predictions", z3.Implies(z3.Not(none), z3.And(has == z3.Not(op), z3.Implies(has, row == ROWU.mk(0, w.f(L0, "weight")))))
        elif "mine" in vc.ghost:      # the loop over the hosts
            own, x, k = vc.ghost["mine"]
            for p, t in S.of(TAB, mod=True):
                live = TAB.get(t, "has")
                if p in S.entry and S.entry[p][0] == TAB: yield p + " live", live == TAB.get(S.entry[p][1], "has")
                yield p + " answer", z3.Implies(live, TAB.get(t, "row") == ROWU.mk(1, T2.mk(z3.If(own < S.it, x, k), z3.If(own < S.it, z3.IntVal(0), z3.IntVal(1)))))
    vc.inv_templates = [inv]; vc.auto_filter = lambda lab: False
    o = guest_tree(c, tree_=w.list, split_maskdict=w.mask, transfer_inst=conn)
    r = c.ok(o.predict, data)
    c.prove("the hosts are told to stop", iv(gh.state) == 3)
    if not isinstance(r, Tab): raise Unsupported("result is not a table")
    c.prove("every sample is predicted", tb(r.has))
    c.prove("its prediction is the weight at the end of the path the features dictate", z3.And(ROWU.unwrap(r.row) == ROWU.mk(0, w.f(L0, "weight"))))

@contract(HT_ + ".predict", "C16", stubs={HT_ + ".traverse_tree": h_trav})
def _(c):
    vc = c.vc
    me = TStr.new("my_site"); w = Walk(c, me.t); sample = Sample()
    known, q0, row = TBool.new("known"), TBool.new("asked"), object()
    ans = object()
    class Row:
        pass
    ask, reply = Row(), Row()
    def trav(state, data, tree, mask, site):
        c.prove("the host walks its own tree with its own data and thresholds, as itself", data is sample and tree is w.list and mask is w.mask and isinstance(site, SStr) and z3.eq(site.t, me.t))
        c.prove("from the state the guest sent", state is ask)
        return reply
    vc.ghost["trav"] = trav
    gh = Obj(state=0); vc.obj_birth(gh); vc.ghost["spec_roots"] = [gh]
    S_ = rt.RT_.setattr
    class Conn(Link):
        def recv_data_from_guest(self):
            if vc.fork(iv(gh.state) == 0):
                stop = vc.fork(TBool.new("finished").t); S_(gh, "state", 3 if stop else 1)
                return stop
            c.prove("nothing more is read after the guest said stop, and no question before the last is answered", iv(gh.state) == 1)
            S_(gh, "state", 2); return Tab(q0, ask)
        def send_data_to_guest(self, x):
            c.prove("one answer per question", z3.And(iv(gh.state) == 2, isinstance(x, Tab)))
            if not isinstance(x, Tab): raise PathEnd()
            c.prove("the answer is about exactly the samples asked for", tb(x.has) == q0.t)
            if vc.fork(tb(x.has)): c.prove("each sample moves as the walk says", x.row is reply)
            S_(gh, "state", 0)
    conn = Conn()
    vc.inv_templates = [lambda S: [(p, x == 0) for p, x in S.of(TInt, mod=True) if p == "$0.state"]]
    c.require(z3.Implies(q0.t, known.t))       # guest and host predict the same samples
    o = host_tree(c, tree_=w.list, split_maskdict=w.mask, sitename=me, transfer_inst=conn)
    c.ok(o.predict, Tab(known, sample))
    c.prove("the host stops when told", iv(gh.state) == 3)

# ---- thresholds --------------------------------------------------------------------------------
sp_at = z3.Function("split_point", I, R, R)
class SP:
    """the split points of the party at hand: feature, bin -> value"""
    def __init__(self, f=None): self.f = f
    def __getitem__(self, k): return SP(iv(k)) if self.f is None else V.SReal(sp_at(self.f, rv(k)))
def convert(c, host):
    vc = c.vc
    W = Lv(c); N, NL = W.N, W.NL
    me = TStr.new("my_site") if host else None
    site = me.t if host else W.guest
    if host: c.require(me.t != W.guest)
    t0l = NL.new("tree"); t0 = t0l.term; n = NL.len(t0)
    mask = MR.new("split_maskdict"); m0 = mask.term
    at = lambda i: NL.at(t0, i)
    own = lambda i: z3.And(i >= 0, i < n, z3.Not(W.g(at(i), "is_leaf")), W.g(at(i), "sitename") == site)
    # the tree numbers its nodes (C14), the party recorded the bins of its own nodes (C13, C14)
    c.require(forall(n, lambda i: W.g(at(i), "id") == i, pats=lambda i: at(i)))
    c.require(forall(n, lambda i: z3.Implies(own(i), z3.And(MR.has(m0, i), z3.Not(OI.is_none(W.g(at(i), "fid"))))), pats=lambda i: at(i)))
    k0 = z3.Int("any_number")
    point = lambda i: sp_at(OI.val(W.g(at(i), "fid")), MR.val(m0, i))
    same = lambda x, i: z3.And(*[W.g(NL.at(x, i), f) == W.g(at(i), f) for f, _ in NODE_F if f != "bid"], OI.is_none(W.g(NL.at(x, i), "bid")) == z3.Or(own(i), OI.is_none(W.g(at(i), "bid"))), z3.Implies(z3.Not(own(i)), W.g(NL.at(x, i), "bid") == W.g(at(i), "bid")))
    def so_far(d, it, k): return z3.And(MR.has(d, k) == MR.has(m0, k), MR.val(d, k) == z3.If(z3.And(own(k), k < it), point(k), MR.val(m0, k)))
    IL = TList(TInt)
    def inv(S):
        for p, x in S.of(NL, mod=True):
            yield p + " length", NL.len(x) == n
            yield p + " done", forall(S.it, lambda i: same(x, i), pats=lambda i: NL.at(x, i))
            yield p + " rest", forall(n, lambda i: NL.at(x, i) == at(i), lo=S.it, pats=lambda i: NL.at(x, i))
        for p, d in S.of(MR, mod=True):
            yield p + " points", so_far(d, S.it, k0)
            yield p + " own points", forall(n, lambda i: z3.Implies(own(i), so_far(d, S.it, i)), pats=lambda i: at(i))
            if p in S.entry:
                e = S.entry[p][1]
                for s, place, el in vc.ghost.get("sets", ())[-1:]:
                    yield p + " removed", z3.And(MR.has(d, k0) == z3.And(MR.has(e, k0), z3.Not(z3.And(s.mem(k0), place(k0) < S.it))), MR.val(d, k0) == MR.val(e, k0))
                    yield p + " to come", forall(IL.len(el), lambda i: MR.has(d, IL.at(el, i)), lo=S.it, pats=lambda i: IL.at(el, i))
        for p, x in S.of(IL, mod=True):
            yield p + " own", forall(IL.len(x), lambda j: z3.And(own(IL.at(x, j)), IL.at(x, j) < S.it), pats=lambda j: IL.at(x, j))
            yield p + " any", z3.Implies(z3.And(own(k0), k0 < S.it), z3.Exists([qj], z3.And(qj >= 0, qj < IL.len(x), IL.at(x, qj) == k0), patterns=[IL.at(x, qj)]))
    qj = qv("j")
    vc.inv_templates = [inv]; vc.auto_filter = lambda lab: False
    kw = dict(tree_=t0l, split_maskdict=mask, bin_split_points=SP())
    o = host_tree(c, sitename=me, **kw) if host else guest_tree(c, **kw)
    c.ok(o.convert_bin_to_real)
    t, d = o.tree_.to_term(NL), o.split_maskdict.to_term(MR)
    c.prove("the threshold of an own node is the split point of the bin recorded for it", z3.Implies(own(k0), z3.And(MR.has(d, k0), MR.val(d, k0) == point(k0))))
    if host: c.prove("nothing else stays recorded", z3.Implies(z3.Not(own(k0)), z3.Not(MR.has(d, k0))))
    else: c.prove("other records stay", z3.Implies(z3.Not(own(k0)), z3.And(MR.has(d, k0) == MR.has(m0, k0), MR.val(d, k0) == MR.val(m0, k0))))
    c.prove("the tree keeps its shape, features and weights; bins of own nodes are not left in it", z3.And(NL.len(t) == n, forall(n, lambda i: same(t, i), pats=lambda i: NL.at(t, i))))
@contract(GT_ + ".convert_bin_to_real", "C16")
def _(c): convert(c, False)
@contract(HT_ + ".convert_bin_to_real", "C16")
def _(c): convert(c, True)
