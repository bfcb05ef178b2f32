"""C21: a tree exported on either party loads back to the same tree."""
from .common import *
from .choose import GT_, HT_
from .grow import OI, NODE_F, node_rec
MR = TDict(TInt, TReal)
NP_F = [("id", TInt), ("sitename", TStr), ("fid", TInt), ("bid", TReal), ("weight", TReal), ("is_leaf", TBool), ("left_nodeid", TInt), ("right_nodeid", TInt)]
KEPT = ("id", "sitename", "weight", "is_leaf", "left_nodeid", "right_nodeid")
OR_ = TOpt(TReal)
NF = [(f, {"bid": OR_, "sum_grad": OR_, "sum_hess": OR_}.get(f, t)) for f, t in NODE_F]      # a loaded node has no sums

def make(c, which, **kw):
    """a tree object built by the real constructor, with arbitrary parameters"""
    P = c.get("ml.param.boosting_tree_param:DecisionTreeParam")
    p = P(); d = p.__dict__
    d.update(max_depth=TInt.new("max_depth"), min_sample_split=TInt.new("min_sample_split"), min_impurity_split=TReal.new("min_impurity"), min_leaf_node=TInt.new("min_leaf"), criterion_method="xgboost", criterion_params=V.VList.of([TReal.new("lambda")]))
    return c.get(which)(p)

def roundtrip(which, guest):
    def body(c):
        N = TRec("LoadedNode", NF, c.get("ml.tree.node:Node")); NL = TList(N)
        pb = c.get("arch.api.boosting_tree_model_param_pb2:DecisionTreeModelParam")
        NPc = c.get("arch.api.boosting_tree_model_param_pb2:NodeParam")
        NP = TRec("NodeParam", NP_F, NPc); PL = TList(NP)
        src = NL.new("tree"); t = src.term; n = NL.len(t)
        at = lambda i: NL.at(t, i)
        i = qv("i"); rng = z3.And(i >= 0, i < n)
        # contract C14: only leaves have no feature
        c.require(z3.ForAll([i], z3.Implies(z3.And(rng, z3.Not(N.get(at(i), "is_leaf"))), z3.Not(OI.is_none(N.get(at(i), "fid")))), patterns=[at(i)]))
        k0 = TInt.new("node").t
        c.require(k0 >= 0, k0 < n)
        OI_ = lambda a: z3.If(OI.is_none(a), 0, OI.val(a))
        def same(P, a, e):
            """record a (of type P) says what node e says"""
            f = P.get(a, "fid")
            fid = (OI_(f) if dict(P.fields)["fid"] == OI else f) == OI_(N.get(e, "fid"))
            return z3.And(fid, *[P.get(a, x) == N.get(e, x) for x in KEPT])
        def inv(S):
            for p, x in S.of(PL, mod=True):
                yield p + " one record for each node", PL.len(x) == S.it
                yield p + " which says what the node says", forall(S.it, lambda j: same(NP, PL.at(x, j), at(j)), pats=lambda j: PL.at(x, j))
            for p, x in S.of(NL, mod=True):
                yield p + " one node for each record", NL.len(x) == S.it
                yield p + " which says what the record says", forall(S.it, lambda j: z3.And(same(N, NL.at(x, j), at(j)), z3.Or(N.get(at(j), "is_leaf"), z3.Not(OI.is_none(N.get(NL.at(x, j), "fid"))))), pats=lambda j: NL.at(x, j))
        c.vc.inv_templates = [inv]
        a = make(c, which); b = make(c, which)
        m = MR.new("split_maskdict"); mt = m.term
        a.__dict__["tree_"], a.__dict__["split_maskdict"] = src, m
        # left over from an earlier model
        b.__dict__["tree_"], b.__dict__["split_maskdict"] = NL.new("old_tree"), MR.new("old_mask")
        if c.vc.choose(2): b = make(c, which)
        want = {x: a.__dict__[x] for x in ("max_depth", "min_sample_split", "min_impurity_split", "min_leaf_node")}
        crit = list(a.__dict__["criterion_params"].items) if guest else None
        meta, param = c.ok(a.get_model)
        c.ok(b.load_model, meta, param)
        for x, v in want.items(): c.prove("%s is what it was" % x, rv(b.__dict__[x]) == rv(v))
        if guest:
            c.prove("the criterion is what it was", b.criterion_method == "xgboost")
            l = b.criterion_params
            c.prove("with its parameters", len(l.items) == len(crit) and z3.And([rv(x) == rv(y) for x, y in zip(l.items, crit)]))
        P, L = N, NL
        tt = b.tree_.to_term(NL)
        c.prove("as many nodes", L.len(tt) == n)
        e, f = L.at(tt, k0), at(k0)
        for x in KEPT: c.prove("the %s of any node" % x, P.get(e, x) == N.get(f, x))
        fd = P.get(e, "fid"); fd_ = OI_(fd) if dict(P.fields)["fid"] == OI else fd
        c.prove("the feature of any inner node", z3.Implies(z3.Not(N.get(f, "is_leaf")), fd_ == OI.val(N.get(f, "fid"))))
        if dict(P.fields)["fid"] == OI: c.prove("the feature of any inner node is known", z3.Implies(z3.Not(N.get(f, "is_leaf")), z3.Not(OI.is_none(fd))))
        d = b.split_maskdict; dt = d.to_term(MR); q = TInt.new("nid").t
        c.prove("the thresholds are those of the same nodes", MR.has(dt, q) == MR.has(mt, q))
        c.prove("and the same", z3.Implies(MR.has(mt, q), MR.val(dt, q) == MR.val(mt, q)))
        c.prove("loading does not touch the tree exported", z3.And(a.tree_.to_term(NL) == t, a.split_maskdict.to_term(MR) == mt))
        c.prove("its own nodes are its own", b.tree_ is not a.tree_ and b.split_maskdict is not a.split_maskdict)
    return body
from .split import rv, iv
from .ptable import Obj
contract(GT_ + ".load_model", "C21", name="ml.tree.hetero_decision_tree_guest export and load")(roundtrip(GT_, True))
contract(HT_ + ".load_model", "C21", name="ml.tree.hetero_decision_tree_host export and load")(roundtrip(HT_, False))

# ---- the host's boosted model: trees fitted, exported, kept in order; loaded and asked in the same order ---------
from .boost import booster, pos_int, self_set, noret, fit_stub
from pyvc import facades as Fa
HB = "ml.tree.hetero_secureboosting_tree_host:HeteroSecureBoostingTreeHost."
TH = "ml.tree.hetero_decision_tree_host:HeteroDecisionTreeHost."
PT_, MT = TOpaque("TreeParam"), TOpaque("TreeMeta")
I = z3.IntSort()
def host_booster(c, **kw):
    cls = c.get(HB[:-1]); o = cls.__new__(cls); o.__dict__["logger"] = Fa.Logger()
    o.__dict__.update(kw); c.vc.obj_birth(o); return o
def hs(*names): return {TH + n: fit_stub("t_" + n) for n in names}
def bs(*names): return {HB + n: fit_stub(n) for n in names}
def counting(c, dim):
    """NN(i, t): number of trees before tree t of round i, by recursion"""
    NN = ufn("trees_before", I, I, I); i, t = qv("i"), qv("t")
    c.require(NN(0, 0) == 0, z3.ForAll([i], NN(i, dim) == NN(i + 1, 0), patterns=[NN(i, dim)]), z3.ForAll([i, t], NN(i, t + 1) == NN(i, t) + 1, patterns=[NN(i, t)]))
    return NN
def count_inv(NN, extra=None):
    def inv(S):
        outer = [t for p, (ty, t) in sorted(S.items.items()) if ty == TInt and "." not in p and not p.startswith("$")]
        for p, x in S.of(TInt, mod=True):
            if not p.startswith("$0."): continue
            yield p + " after full rounds", x == NN(S.it, 0)
            for k, i in enumerate(outer): yield p + " inside round %d" % k, x == NN(i, S.it)
        if extra: yield from extra(S, outer)
    return inv

@contract(HB + "fit", ["C21", "C20"], name="the host's boosting loop", stubs={**bs("convert_feature_to_bin", "sync_tree_dim", "sync_stop_flag", "sample_valid_features", "generate_flowid"),
    HB + "gen_feature_fid_mapping": lambda *a: None, "ml.tree.boosting_tree:BoostingTree.gen_feature_fid_mapping": lambda *a: None, "ml.tree.boosting_tree:BoostingTree.data_alignment": fit_stub("align"),
    **hs("__init__", "set_inputinfo", "set_valid_features", "set_flowid", "set_runtime_idx", "fit", "get_model"), "ml.tree.decision_tree:DecisionTree.set_transfer_inst": fit_stub("t_link")})
def _(c):
    dim, trees = pos_int(c, "tree_dim"), pos_int(c, "num_trees")
    NN = counting(c, dim.t); exp = ufn("exported_tree", I, PT_); L = TList(PT_)
    stop = c.vc.fork(z3.Bool("n_iter_no_change"))
    STOP = ufn("stopped_after", I, z3.BoolSort())     # what the guest says at the end of a round
    gh = Obj(fitted=0, asked=0); c.vc.obj_birth(gh); c.vc.ghost["spec_roots"] = [gh]
    meta, link, tp, me = MT.new("meta"), object(), object(), object()
    raw, aligned, bins, sp, spp = Obj(schema=None), Obj(schema=None), object(), object(), object()
    def align(self, d): c.prove("the data is aligned first", d is raw); return aligned
    def convert(self, d): c.prove("the aligned data is binned", d is aligned); self_set(self, "data_bin", bins); self_set(self, "bin_split_points", sp); self_set(self, "bin_sparse_points", spp)
    def t_input(self, data_bin=None, grad_and_hess=None, bin_split_points=None, bin_sparse_points=None):
        c.prove("a tree is grown on the host's own binned data and split points", data_bin is bins and bin_split_points is sp and bin_sparse_points is spp); self.__dict__["inp"] = True
    def t_fit(self):
        c.prove("a tree knows its data, its place and its connection before it is fitted", self.__dict__.get("inp") and self.__dict__.get("me") is me and self.__dict__.get("li") is link)
        self.__dict__["no"] = gh.fitted; self_set(gh, "fitted", gh.fitted + 1)
    def flag(self, *a):
        k = iv(gh.asked); self_set(gh, "asked", gh.asked + 1)
        return mkbool(STOP(k))
    def put(a): return lambda self, x: self.__dict__.__setitem__(a, x)
    c.vc.ghost["fit"] = dict(align=align, convert_feature_to_bin=convert, sync_tree_dim=lambda self: self_set(self, "tree_dim", dim), sync_stop_flag=flag, sample_valid_features=lambda self: None, generate_flowid=lambda *a: "id",
        t___init__=lambda self, p: c.prove("a tree gets the tree parameters", p is tp), t_set_inputinfo=t_input, t_set_valid_features=lambda *a: None, t_set_flowid=lambda *a: None, t_set_runtime_idx=put("me"), t_link=put("li"),
        t_fit=t_fit, t_get_model=lambda self: (meta, SOpaque(PT_, exp(iv(self.no)))))
    def extra(S, outer):
        fit = [x for p, x in S.of(TInt) if p == "$0.fitted"]
        for p, x in S.of(L, mod=True):
            for f in fit: yield p + " one for each tree fitted", L.len(x) == f
            for k, i in enumerate(outer): yield p + " as many as before plus those of the round %d" % k, L.len(x) == NN(i, S.it)
            yield p + " as many as fitted", L.len(x) == NN(S.it, 0)
            yield p + " exported, in order", forall(L.len(x), lambda k: L.at(x, k) == exp(k), pats=lambda k: L.at(x, k))
        for p, x in S.of(TInt, mod=True):
            if p == "$0.asked":
                yield "asked once a round", x == S.it
                yield "not stopped before", forall(S.it, lambda k: z3.Not(STOP(k)), pats=lambda k: STOP(k))
    c.vc.inv_templates = [count_inv(NN, extra)]
    o = host_booster(c, trees_=V.VList.of([]), tree_dim=None, num_trees=trees, tree_param=tp, tree_meta=None, transfer_inst=link, runtime_idx=me, flowid="x", n_iter_no_change=bool(stop))
    c.ok(o.fit, raw)
    f = iv(gh.fitted)
    n = iv(o.trees_.vlen())
    c.prove("one exported tree is kept for each tree fitted", n == f)
    if o.trees_.items is None or o.trees_.items:
        x = o.trees_.to_term(L)
        c.prove("the trees kept are the exported trees, in order", forall(L.len(x), lambda k: L.at(x, k) == exp(k)))
    r = z3.Int("r*")
    done = f == NN(trees.t, 0)
    early = z3.Exists([r], z3.And(r >= 0, r < trees.t, f == NN(r + 1, 0), STOP(r), forall(r, lambda k: z3.Not(STOP(k)))))
    c.prove("the host stops when the guest says so, and not before", z3.Or(z3.And(done, forall(trees.t, lambda k: z3.Not(STOP(k)))), early) if stop else done)

@contract(HB + "predict", ["C21", "C20"], name="the host's part of a prediction", stubs={**bs("generate_flowid"), "ml.tree.boosting_tree:BoostingTree.data_alignment": fit_stub("align"),
    **hs("__init__", "load_model", "set_flowid", "set_runtime_idx", "predict"), "ml.tree.decision_tree:DecisionTree.set_transfer_inst": fit_stub("t_link")})
def _(c):
    dim, rounds = pos_int(c, "tree_dim"), pos_int(c, "rounds", 0)
    L = TList(PT_); tr = L.new("trees"); T = tr.term
    c.require(L.len(T) == rounds.t * dim.t)
    i, t = qv("i"), qv("t")
    i1, t1 = z3.Int("i1"), z3.Int("t1")
    def fdiv(x, y):
        c.prove("number of rounds: all trees, in groups of one per class", z3.And(y == dim.t, x == rounds.t * dim.t))
        return rounds.t
    c.vc.hooks["fdiv"] = fdiv
    gh = Obj(asked=0); c.vc.obj_birth(gh); c.vc.ghost["spec_roots"] = [gh]
    meta, link, tp, me = MT.new("meta"), object(), object(), object()
    raw, aligned = Obj(), Obj()
    def align(self, d): c.prove("the data is aligned first", d is raw); return aligned
    def load(self, m, par):
        c.prove("a tree is loaded with the model's meta data", m is meta); self.__dict__["par"] = par
    def put(a): return lambda self, x: self.__dict__.__setitem__(a, x)
    def pred(self, d):
        c.prove("the tree looks at the aligned data, knows its place and its connection", d is aligned and self.__dict__.get("me") is me and self.__dict__.get("li") is link)
        c.prove("the trees are asked in the order they were kept", PT_.unwrap(self.par) == L.at(T, iv(gh.asked)))
        self_set(gh, "asked", gh.asked + 1)
    c.vc.ghost["fit"] = dict(align=align, generate_flowid=lambda *a: "id", t___init__=lambda self, p: c.prove("a tree gets the tree parameters", p is tp), t_load_model=load, t_set_flowid=lambda *a: None, t_set_runtime_idx=put("me"), t_link=put("li"), t_predict=pred)
    def inv(S):
        outer = [t for p, (ty, t) in sorted(S.items.items()) if ty == TInt and "." not in p and not p.startswith("$")]
        for p, x in S.of(TInt, mod=True):
            if not p.startswith("$0."): continue
            yield p + " after full rounds", x == S.it * dim.t
            for k, i in enumerate(outer): yield p + " inside round %d" % k, x == i * dim.t + S.it
    c.vc.inv_templates = [inv]
    c.lemma("position of a tree", [i1, t1], [i1 >= 0, i1 < rounds.t, t1 >= 0, t1 < dim.t, dim.t >= 1], z3.And(i1 * dim.t + t1 >= 0, i1 * dim.t + t1 < rounds.t * dim.t))
    o = host_booster(c, trees_=tr, tree_dim=dim, tree_param=tp, tree_meta=meta, transfer_inst=link, runtime_idx=me, flowid="x")
    c.ok(o.predict, raw)
    c.prove("every tree kept is asked once", iv(gh.asked) == rounds.t * dim.t)
