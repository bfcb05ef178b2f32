"""C15: samples move to the child their owner's feature says."""
from .common import *
from .ptable import *
from .split import *
from .choose import GT_, HT_, guest_tree, host_tree, Link
from .grow import OI, MD, NODE_F, Lv, node_rec
T2 = TTuple(TInt, TInt)
T7 = TTuple(TInt, OI, OI, TStr, TInt, TInt, TInt)
ROW = TUnion(TReal, T2, T7)
class Tab:
    """a table seen at one arbitrary key (contracts C01, C02): has it the key, and the row under it"""
    def __init__(self, has, row=(0, 0)): self.has, self.row = has, row
    def mapValues(self, f): return Tab(True, f(self.row)) if self.has else Tab(False)
    def filter(self, f): return Tab(True, self.row) if self.has and f(None, self.row) else Tab(False)
    def join(self, o, f=None):
        if not (self.has and o.has): return Tab(False)
        return Tab(True, f(self.row, o.row) if f is not None else self.row)
    def union(self, o, f=None):
        if not self.has: return Tab(o.has, o.row)
        if not o.has: return Tab(True, self.row)
        return Tab(True, f(self.row, o.row) if f is not None else self.row)
    def count(self):
        n = TInt.new("rows"); VC.cur.fact(z3.And(n.t >= 0, z3.Implies(TBool.unwrap(self.has), n.t >= 1)))
        return n
    def subtractByKey(self, o): return Tab(self.has, self.row) if not o.has else Tab(False)
TAB = TRec("Tab", [("has", TBool), ("row", ROW)], Tab)

feat = z3.Function("feature_bin", I, I, I)     # feature number, default -> bin
class Feat:
    def get_data(self, fid, default=None): return V.mkint(feat(iv(fid), iv(default)))
def inst(): return Obj(features=Feat())

class Tree:
    """a symbolic tree with its guest thresholds"""
    def __init__(self, c):
        self.W = W = Lv(c); NL = W.NL
        self.list = NL.new("tree"); self.t = self.list.term; self.n = NL.len(self.t)
        self.mask = MD.new("split_maskdict"); self.m = self.mask.term
        self.sp = MD.new("bin_sparse_points"); self.s = self.sp.term
        self.nid = TInt.new("nodeid"); c.require(self.nid.t >= 0, self.nid.t < self.n)
    def g(self, f): return self.W.g(self.W.NL.at(self.t, self.nid.t), f)
    def fid(self): return OI.val(self.g("fid"))
    def goes_left(self, m=None, s=None): return feat(self.fid(), MD.val(self.s, self.fid())) <= MD.val(self.m, self.nid.t)
    def own(self): return z3.And(MD.has(self.m, self.nid.t), z3.Not(OI.is_none(self.g("fid"))), MD.has(self.s, self.fid()))
    def child(self, left): return z3.If(left, self.g("left_nodeid"), self.g("right_nodeid"))

def seven(tr):
    return T7.mk(z3.IntVal(1), tr.g("fid"), tr.g("bid"), tr.g("sitename"), tr.nid.t, tr.g("left_nodeid"), tr.g("right_nodeid"))

@contract(GT_ + ".dispatch_node", "C15")
def _(c):
    tr = Tree(c); guest = tr.W.guest
    c.require(z3.Implies(z3.And(z3.Not(tr.g("is_leaf")), tr.g("sitename") == guest), tr.own()))
    G = c.get(GT_)
    r = c.ok(G.dispatch_node, (inst(), (1, tr.nid)), tree_=tr.list, decoder=G.decode, split_maskdict=tr.mask, bin_sparse_points=tr.sp)
    u = ROW.unwrap(r)
    c.prove("at a leaf: the weight of the leaf", z3.Implies(tr.g("is_leaf"), z3.And(ROW.is_(0, u), ROW.val(0, u) == tr.g("weight"))))
    c.prove("at a guest node: the child the guest's feature says", z3.Implies(z3.And(z3.Not(tr.g("is_leaf")), tr.g("sitename") == guest), z3.And(ROW.is_(1, u), T2.acc(0, ROW.val(1, u)) == 1, T2.acc(1, ROW.val(1, u)) == tr.child(tr.goes_left()))))
    c.prove("at a host node: the question to the host", z3.Implies(z3.And(z3.Not(tr.g("is_leaf")), tr.g("sitename") != guest), z3.And(ROW.is_(2, u), ROW.val(2, u) == seven(tr))))

@contract(HT_ + ".find_dispatch", "C15")
def _(c):
    site, me = TStr.new("node_site"), TStr.new("my_site")
    fid, nid, l, r_ = TInt.new("fid"), TInt.new("nid"), TInt.new("left"), TInt.new("right")
    bid = OI.new("bid")
    m, s = MD.new("split_maskdict"), MD.new("bin_sparse_points")
    left = feat(fid.t, MD.val(s.term, fid.t)) <= MD.val(m.term, nid.t)
    c.require(z3.Implies(site.t == me.t, z3.And(MD.has(m.term, nid.t), MD.has(s.term, fid.t))))
    m0, s0 = m.term, s.term
    row = (1, fid, bid, site, nid, l, r_)
    asked, known = TBool.new("asked"), TBool.new("known")
    c.require(z3.Implies(asked.t, known.t))       # guest and host hold the same samples
    sent = []
    o = host_tree(c, sitename=me, split_maskdict=m, bin_sparse_points=s, data_bin=Tab(known, inst()), transfer_inst=Recorder(sent))
    c.ok(o.find_dispatch, Tab(asked, row))
    if len(sent) != 1 or sent[0][0] != "send_data_to_guest": c.prove("the host answers once", False); return
    a = sent[0][1][0]
    if not isinstance(a, Tab): raise Unsupported("answer is not a table")
    has = z3.BoolVal(a.has) if isinstance(a.has, bool) else TBool.unwrap(a.has)
    c.prove("the answer is about exactly the samples asked for", has == asked.t)
    u = ROW.unwrap(a.row)
    c.prove("for the host's own node: the child its feature says", z3.Implies(z3.And(asked.t, site.t == me.t), z3.And(ROW.is_(1, u), T2.acc(0, ROW.val(1, u)) == 1, T2.acc(1, ROW.val(1, u)) == z3.If(left, l.t, r_.t))))
    c.prove("a question for another host is handed back", z3.Implies(z3.And(asked.t, site.t != me.t), z3.And(ROW.is_(2, u), ROW.val(2, u) == T7.unwrap(row))))

class Recorder(Link):
    def __init__(self, log, **recv): self.__dict__["log"] = log; self.__dict__["recv"] = recv
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        if a.startswith("send_"): return lambda *x: self.log.append((a, x))
        if a in self.recv: return self.recv[a]
        raise Unsupported("connection method " + a)

class HostTabs(Sym):
    """the answers of the hosts, in host order: host k owns the node and answers, the others hand the question back"""
    def __init__(self, n, k, has, mine, other): self.n, self.k, self.has, self.mine, self.other = n, k, has, mine, other
    def __vc_len__(self): return V.mkint(self.n)
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of the answers")
        j = iv(i)
        if not VC.cur.fork(z3.And(j >= 0, j < self.n)): raise IndexError("list index out of range")
        if VC.cur.fork(j == self.k): return Tab(self.has, self.mine)
        return Tab(self.has, self.other)

def tabs(S):
    """values of the table variables a loop modifies"""
    return [(p, x) for p, x in S.of(TAB, mod=True)] + [(p, TOpt(TAB).val(x)) for p, x in S.of(TOpt(TAB), mod=True)]

def redispatch(first):
    @contract(GT_ + ".redispatch_node", "C15", name="redispatch_node, %s" % ("no sample has reached a leaf yet" if first else "some samples are at leaves"))
    def _(c):
        tr = Tree(c); guest = tr.W.guest
        inner = z3.Not(tr.g("is_leaf"))
        c.require(z3.Implies(z3.And(inner, tr.g("sitename") == guest), tr.own()))
        H, k, hl = TInt.new("hosts").t, TInt.new("owner").t, TBool.new("host_says_left").t
        c.require(H >= 0, z3.Implies(z3.And(inner, tr.g("sitename") != guest), z3.And(k >= 0, k < H)))
        live = TBool.new("live"); done = TBool.new("done"); w0 = TReal.new("weight0")
        # a sample is either still moving or has its weight
        if first: c.require(live.t)
        else: c.require(live.t != done.t)
        log = []
        two = (1, V.mkint(tr.child(hl)))
        def answers(idx=-1):
            c.prove("every host is asked before the answers are read", len(log) == 1 and log[0][0] == "send_data_to_hosts")
            c.prove("all hosts answer", idx == -1)
            q = log[0][1][0]
            if not isinstance(q, Tab): raise Unsupported("question is not a table")
            has = z3.BoolVal(q.has) if isinstance(q.has, bool) else TBool.unwrap(q.has)
            host = z3.And(live.t, inner, tr.g("sitename") != guest)
            c.prove("hosts are asked exactly about samples at their nodes", has == host)
            c.prove("the question names node, feature and children", z3.Implies(host, ROW.unwrap(q.row) == ROW.mk(2, seven(tr))))
            return HostTabs(H, k, q.has, two, q.row)
        def inv(S):
            hostrow = ROW.mk(2, seven(tr)); mine = ROW.mk(1, T2.unwrap(two))
            host = z3.And(live.t, inner, tr.g("sitename") != guest)
            for p, x in S.of(TOpt(TAB), mod=True): yield p + " set", TOpt(TAB).is_none(x) == (S.it == 0)
            for p, x in tabs(S):
                yield p + " has", z3.Implies(S.it >= 1, TAB.get(x, "has") == host)
                yield p + " row", z3.Implies(z3.And(S.it >= 1, host), TAB.get(x, "row") == z3.If(k < S.it, mine, hostrow))
        c.vc.inv_templates = [inv]
        pw = None if first else Tab(done, w0)
        o = guest_tree(c, tree_=tr.list, split_maskdict=tr.mask, bin_sparse_points=tr.sp, tree_node_num=TInt.new("num"), predict_weights=pw, node_dispatch=Tab(live, (1, tr.nid)),
                       data_bin_with_node_dispatch=Tab(live, (inst(), (1, tr.nid))), transfer_inst=Recorder(log, recv_data_from_hosts=answers))
        c.ok(o.redispatch_node, TInt.new("dep"))
        tb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else TBool.unwrap(x)
        nd, pd = o.node_dispatch, o.predict_weights
        moving, rest = tb(nd.has), tb(pd.has)
        c.prove("a sample moves on exactly when it was at an internal node", moving == z3.And(live.t, inner))
        c.prove("a sample has its weight exactly when it was at a leaf", rest == (z3.And(live.t, tr.g("is_leaf")) if first else z3.Or(done.t, z3.And(live.t, tr.g("is_leaf")))))
        if c.vc.fork(moving):
            u = ROW.unwrap(nd.row)
            left = z3.If(tr.g("sitename") == guest, tr.goes_left(), hl)
            c.prove("it goes to the child the owner of the feature says", z3.And(ROW.is_(1, u), T2.acc(0, ROW.val(1, u)) == 1, T2.acc(1, ROW.val(1, u)) == tr.child(left)))
        if c.vc.fork(rest):
            u = ROW.unwrap(pd.row)
            c.prove("its weight is that of the leaf", z3.And(ROW.is_(0, u), z3.If(live.t, ROW.val(0, u) == tr.g("weight"), ROW.val(0, u) == w0.t)))
        c.prove("the tree is not changed", o.tree_.to_term(tr.W.NL) == tr.t)
redispatch(True); redispatch(False)

@contract(GT_ + ".dispatch_all_node_to_root", "C15")
def _(c):
    o = guest_tree(c, data_bin=Tab(True, inst()), node_dispatch=None)
    c.ok(o.dispatch_all_node_to_root)
    u = ROW.unwrap(o.node_dispatch.row)
    c.prove("every sample starts at node 0", o.node_dispatch.has is True and u == ROW.unwrap((1, 0)))

from .grow import fit_stubs as _fs, grown
def fit15_stubs():
    st = dict(_fs()); G = GT_ + "."
    g = lambda name: (lambda vc, orig, self, *a, **k: vc.ghost["do_" + name](self, *a, **k))
    none = lambda vc, orig, self, *a, **k: None
    for n in ("get_histograms", "sync_final_split_host", "merge_splitinfo"): st.pop(G + n)
    # the search for splits does not touch the samples (frame: contracts of C12, C13)
    st.update({G + "get_histograms": none, G + "sync_final_split_host": none, "ml.tree.splitter:Splitter.find_split": none, G + "merge_splitinfo": lambda vc, orig, self, a, b: []})
    st.update({G + n: g(n) for n in ("get_grad_hess_sum", "redispatch_node", "update_tree_node_queue", "sync_node_positions")})
    st.pop(G + "dispatch_all_node_to_root", None)
    return st
@contract(GT_ + ".fit", "C15", name="fit: every sample ends at exactly one leaf", stubs=fit15_stubs(), budget=600)
def _(c):
    vc = c.vc
    W = Lv(c); NL = W.NL
    md, ms = TInt.new("max_depth"), TInt.new("max_split_nodes"); c.require(md.t >= 1, ms.t >= 1)
    leaf, child, lw = z3.Function("leaf", I, z3.BoolSort()), z3.Function("child", I, I), z3.Function("leaf_weight", I, R)
    gh = Obj(depth=0, T=0, T0=0, at=0); vc.obj_birth(gh); vc.ghost["spec_roots"] = [gh]
    tb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else TBool.unwrap(x)
    i_ = qv("i")
    S = rt.RT_.setattr
    def term(x):
        """table -> (has, row) as terms"""
        if not isinstance(x, Tab) and not isinstance(x, V.SRec): raise Unsupported("not a table")
        t = TAB.unwrap(x); return TAB.get(t, "has"), TAB.get(t, "row")
    token = object()
    class Data:
        """the samples: every sample has a row"""
        def mapValues(self, f): return Tab(True, f(data))
        def join(self, o, f=None):
            r = f(data, token) if f is not None else data
            c.prove("a moving sample keeps its data and its position", isinstance(r, tuple) and len(r) == 2 and r[0] is data and r[1] is token)
            return Obj(joined=o)
    def do_get_grad_hess_sum(self, t): return (TReal.new("G"), TReal.new("H"))
    def do_sync_node_positions(self, dep): pass
    def do_update_tree_node_queue(self, splits, deep):
        # contract of growing a level (C14): the level joins the tree, its split nodes have their children in the new level
        q = self.tree_node_queue.to_term(NL); T, Q = iv(gh.T), NL.len(q)
        dp = tb(deep)
        c.prove("the last level is the one of the configured depth", dp == (iv(gh.depth) + 1 == md.t))
        q2 = NL.new("queue"); Q2 = NL.len(q2.term)
        vc.fact(z3.ForAll([i_], z3.Implies(z3.And(i_ >= T, i_ < T + Q, z3.Not(leaf(i_))), z3.And(child(i_) >= T + Q, child(i_) < T + Q + Q2)), patterns=[child(i_)]))
        vc.fact(z3.Implies(dp, z3.And(Q2 == 0, z3.ForAll([i_], z3.Implies(z3.And(i_ >= T, i_ < T + Q), leaf(i_)), patterns=[leaf(i_)]))))
        S(self, "tree_node_queue", q2); S(gh, "T0", gh.T); S(gh, "T", V.mkint(T + Q)); S(gh, "depth", gh.depth + 1)
    def do_redispatch_node(self, dep=-1):
        # contract of redispatch_node (above); no weights yet is an empty table
        h, row = term(self.node_dispatch); hp, wrow = term(self.predict_weights); nid = iv(gh.at)
        j = self.data_bin_with_node_dispatch
        c.prove("the samples redispatched are those still moving", isinstance(j, Obj) and j.joined is self.node_dispatch)
        c.prove("a moving sample is at its node", z3.Implies(h, row == ROW.mk(1, T2.mk(z3.IntVal(1), nid))))
        c.prove("a sample is either moving or has a weight", z3.Not(z3.And(h, hp)))
        mv = z3.And(h, z3.Not(leaf(nid)))
        S(self, "node_dispatch", TAB.wrap(TAB.mk(mv, ROW.mk(1, T2.mk(z3.IntVal(1), child(nid))))))
        S(self, "predict_weights", TAB.wrap(TAB.mk(z3.Or(hp, z3.And(h, leaf(nid))), z3.If(h, ROW.mk(0, lw(nid)), wrow))))
        S(gh, "at", V.mkint(z3.If(mv, child(nid), nid)))
    for k, f in list(locals().items()):
        if k.startswith("do_"): vc.ghost[k] = f
    def inv(S_):
        get = lambda ty, nm: next((x for p, x in S_.of(ty) if p.endswith(nm)), None)
        q, T, at, d = get(NL, "tree_node_queue"), get(TInt, "$0.T"), get(TInt, "$0.at"), get(TInt, "$0.depth")
        if q is None or T is None or at is None or d is None or not any(p.endswith(".depth") for p in S_.mod): return
        def tab(nm):
            for ty in (TAB, TOpt(TAB)):
                x = get(ty, nm)
                if x is not None: return (x, z3.BoolVal(False)) if ty == TAB else (TOpt(TAB).val(x), TOpt(TAB).is_none(x))
            return None
        nd, pw = tab("node_dispatch"), tab("predict_weights")
        Q = NL.len(q)
        yield "depth", d == S_.it
        yield "T", T >= 0
        yield "at the end", z3.Implies(d == md.t, Q == 0)
        if nd is None: return
        x, none = nd
        live = z3.And(z3.Not(none), TAB.get(x, "has"))
        yield "table of positions", z3.Not(none)
        yield "where", z3.Implies(live, z3.And(at >= T, at < T + Q, TAB.get(x, "row") == ROW.mk(1, T2.mk(z3.IntVal(1), at))))
        yield "exactly one", live == z3.Not(z3.And(z3.Not(pw[1]), TAB.get(pw[0], "has"))) if pw is not None else live
        if pw is not None: yield "weights", z3.Implies(z3.Not(live), TAB.get(pw[0], "row") == ROW.mk(0, lw(at)))
        yield "at leaf", z3.Implies(z3.Not(live), leaf(at))
    c.vc.inv_templates = [inv]; c.vc.auto_filter = lambda lab: False
    data = inst()
    o = guest_tree(c, tree_=[], tree_node_num=0, min_impurity_split=TReal.new("mi"), max_depth=md, max_split_nodes=ms, grad_and_hess=object(), data_bin=Data(), node_dispatch=None, predict_weights=Tab(False), valid_features=None, tree_node_queue=None, cur_split_nodes=None, best_splitinfo_guest=None, data_bin_with_node_dispatch=None)
    c.ok(o.fit)
    h, row = term(o.node_dispatch); hp, wrow = term(o.predict_weights)
    c.prove("no sample is left at an internal node", z3.Not(h))
    c.prove("every sample has a weight", hp)
    c.prove("the weight is that of the leaf it was moved to", z3.And(leaf(iv(gh.at)), wrow == ROW.mk(0, lw(iv(gh.at)))))
