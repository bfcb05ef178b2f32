"""C20 (and the training use of C19): scores, labels, stopping."""
from .common import *
from .ptable import *
from pyvc import facades as Fa
from fractions import Fraction as Fr
R, I = z3.RealSort(), z3.IntSort()
G = "ml.tree.hetero_secureboosting_tree_guest:"
GB = G + "HeteroSecureBoostingTreeGuest."

def booster(c, **kw):
    cls = c.get(G + "HeteroSecureBoostingTreeGuest")
    o = cls.__new__(cls)
    o.__dict__["logger"] = Fa.Logger()
    for k, x in kw.items(): o.__dict__[k] = x
    c.vc.obj_birth(o)
    return o
def num(x): return TReal.unwrap(x.v) if isinstance(x, Fa.ndarray) else TReal.unwrap(x)
def pos_int(c, name, lo=1):
    n = TInt.new(name); c.require(n.t >= lo); return n

@contract(GB + "update_f_value", "C20", name="score update after a tree")
def _(c):
    dim = pos_int(c, "tree_dim"); tidx = TInt.new("tidx"); c.require(tidx.t >= 0, tidx.t < dim.t)
    lr = TReal.new("learning_rate"); w = TReal.new("weight")
    f = Fa.ndarray.fresh("score", dim.t); f0 = num(f)
    has_f, has_w = c.vc.fork(z3.Bool("scored")), c.vc.fork(z3.Bool("weighted"))
    o = booster(c, tree_dim=dim, learning_rate=lr, F=PT(f if has_f else ABSENT), init_score=None)
    c.ok(o.update_f_value, new_f=PT(w if has_w else ABSENT), tidx=tidx)
    r = o.F
    if not (has_f and has_w):
        c.prove("no score appears for a sample the tree does not know", isinstance(r, PT) and r.row is ABSENT); return
    c.prove("the sample keeps a score per class", isinstance(r, PT) and isinstance(r.row, Fa.ndarray) and z3.eq(r.row.size, dim.t))
    c.prove("new score = old score + learning rate * leaf weight at the class of the tree", num(r.row) == z3.If(f.idx == tidx.t, f0 + TReal.unwrap(lr) * TReal.unwrap(w), f0))

class Ini:
    def __init__(self, c, dim): self.c, self.dim, self.calls = c, dim, []
    def initialize(self, *a, **k):
        self.calls.append((a, k))
        return self.F, self.s

@contract(GB + "update_f_value", "C20", name="initial scores come from the loss")
def _(c):
    dim = pos_int(c, "tree_dim")
    y = PT(TReal.new("y")); L = Ini(c, dim); L.F, L.s = PT(1), object()
    o = booster(c, tree_dim=dim, learning_rate=TReal.new("lr"), F=None, y=y, loss=L, init_score=None)
    c.ok(o.update_f_value)
    ok = len(L.calls) == 1 and L.calls[0][0][:1] == (y,)
    c.prove("the loss initialises the scores from the labels", ok and o.F is L.F and o.init_score is L.s)
    a, k = L.calls[0]
    d = a[1] if len(a) > 1 else k.get("dims", 1)
    c.prove("one score per class", TInt.unwrap(d) == dim.t)

@contract("ml.loss.cross_entropy:SoftmaxCrossEntropyLoss.initialize", "C20", name="classification starts from zero", facades={"numpy": lambda w: npz(w)})
def _(c):
    for nm, a in (("Softmax", (pos_int(c, "dims"),)), ("Sigmoid", ())):
        cls = c.get("ml.loss.cross_entropy:%sCrossEntropyLoss" % nm if nm == "Softmax" else "ml.loss.cross_entropy:SigmoidBinaryCrossEntropyLoss")
        t, s = c.ok(cls.initialize, PT(TInt.new("y")), *a)
        d = a[0].t if a else z3.IntVal(1)
        c.prove(nm + ": every score starts at zero", isinstance(t, PT) and isinstance(t.row, Fa.ndarray) and z3.And(num(t.row) == 0, t.row.size == d))
        c.prove(nm + ": the initial score used for prediction is the same", isinstance(s, Fa.ndarray) and z3.And(num(s) == 0, s.size == d))
        c.prove(nm + ": samples do not share one array", t.row is not s)
def npz(w):
    m = Fa.numpy_facade(w)
    def zeros(n, *a, **k):
        x = Fa.ndarray.fresh("z", TInt.unwrap(n)); x.v = Fr(0); return x
    m.zeros = zeros
    m.full = lambda n, v, *a, **k: setv(Fa.ndarray.fresh("f", TInt.unwrap(n)), v)
    def arr1(x, *a, **k):
        if isinstance(x, V.VList) and x.items is not None and len(x.items) == 1:
            return setv(Fa.ndarray.fresh("a", 1), x.items[0])
        return Fa.as_array(x)
    m.array = m.asarray = arr1
    return m
def setv(x, v): x.v = TReal.wrap(TReal.unwrap(v)); return x

class Summary:
    """contract of MultivariateStatisticalSummary (its get_mean is the mean of the column, its get_median the median)"""
    def __init__(self, c): self.c = c
for _n, _stat in (("LeastSquaredErrorLoss", "mean"), ("LeastAbsoluteErrorLoss", "median"), ("HuberLoss", "mean"), ("FairLoss", "mean"), ("LogCoshLoss", "mean")):
    def _mk(n, stat):
        S = "ml.statistic.statics:MultivariateStatisticalSummary."
        def init(vc, orig, self, data, *a, **k): vc.ghost["sdata"] = (self, data)
        def getter(st):
            def g(vc, orig, self, *a, **k):
                vc.ghost["stat"] = st
                return V.VDict.of({"label": V.SReal(z3.Real("statistic"))})
            return g
        @contract("ml.loss.regression_loss:%s.initialize" % n, "C20", name="%s starts from the %s of the labels" % (n, stat), facades={"numpy": lambda w: npz(w)},
                  stubs={S + "__init__": init, S + "get_mean": getter("mean"), S + "get_median": getter("median")})
        def _(c):
            cls = c.get("ml.loss.regression_loss:" + n)
            y = TReal.new("y")
            t, s = c.ok(cls.initialize, PT(y))
            d = c.vc.ghost["sdata"][1]
            inst = d.row
            c.prove("the statistic is taken over the labels", isinstance(d, PT) and num(inst.features) == y.t if isinstance(getattr(inst, "features", None), Fa.ndarray) else False)
            c.prove("it is the %s" % stat, c.vc.ghost["stat"] == stat)
            m = z3.Real("statistic")
            c.prove("every score starts at that statistic", isinstance(t, PT) and isinstance(t.row, Fa.ndarray) and z3.And(num(t.row) == m, num(s) == m))
            c.prove("samples do not share one array", t.row is not s)
    _mk(_n, _stat)

# ---- gradients used for training -----------------------------------------------------------------
class LossFn:
    """an arbitrary loss with uninterpreted predict, gradient and hessian"""
    def __init__(self):
        D = TOpaque("Score"); self.D = D
        Rr = TOpaque("Grad")
        self.P, self.g, self.h = ufn("predict_", D, D), ufn("grad_", TInt, D, Rr), ufn("hess_", TInt, D, Rr)
        self.Rr = Rr
    def predict(self, s): return SOpaque(self.D, self.P(self.D.unwrap(s)))
    def compute_grad(self, y, s): return SOpaque(self.Rr, self.g(TInt.unwrap(y), self.D.unwrap(s)))
    def compute_hess(self, y, s): return SOpaque(self.Rr, self.h(TInt.unwrap(y), self.D.unwrap(s)))
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("loss method " + a)

@contract(GB + "compute_grad_and_hess", ["C19", "C20"])
def _(c):
    L = LossFn(); consts = c.get("ml.utils.consts:CLASSIFICATION")
    reg = c.get("ml.utils.consts:REGRESSION")
    for task in (consts, reg):
        s, y = L.D.new("score"), TInt.new("y")
        o = booster(c, loss=L, task_type=task, y=PT(y), F=PT(s), grad_and_hess=None)
        c.ok(o.compute_grad_and_hess)
        r = o.grad_and_hess.row
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, SOpaque) for x in r)
        p = L.P(s.t) if task is consts else s.t
        c.prove("%s: the gradient is the loss gradient at the prediction for the current score" % task, r[0].t == L.g(y.t, p) if ok else False)
        c.prove("%s: the hessian is the loss hessian at the prediction for the current score" % task, r[1].t == L.h(y.t, p) if ok else False)

@contract(GB + "get_grad_and_hess", ["C19", "C20"])
def _(c):
    dim = pos_int(c, "tree_dim"); tidx = TInt.new("tidx"); c.require(tidx.t >= 0, tidx.t < dim.t)
    g, h = Fa.ndarray.fresh("g", dim.t), Fa.ndarray.fresh("h", dim.t)
    o = booster(c, tree_dim=dim, grad_and_hess=PT((g, h)))
    r = c.ok(o.get_grad_and_hess, tidx)
    c.prove("each tree is grown on the gradients of its class", isinstance(r.row, tuple) and z3.And(num(r.row[0]) == num(g.at(tidx.t)), num(r.row[1]) == num(h.at(tidx.t))))

# ---- stopping -------------------------------------------------------------------------------------
@contract("ml.optim.convergence:DiffConverge.is_converge", "C20")
def _(c):
    eps = TReal.new("eps")
    first = c.vc.fork(z3.Bool("first"))
    d = c.ok(c.get("ml.optim.convergence:DiffConverge"), eps=eps)
    pre = TReal.new("previous")
    if not first:
        c.ok(d.is_converge, pre)
    loss, nxt = TReal.new("loss"), TReal.new("next")
    r = c.ok(d.is_converge, loss)
    b = TBool.unwrap(r) if not isinstance(r, bool) else z3.BoolVal(r)
    diff = TReal.unwrap(loss) - TReal.unwrap(pre)
    if first: c.prove("the first loss never stops training", z3.Not(b))
    else: c.prove("converged exactly when the loss changed by less than the tolerance", b == z3.And(diff < eps.t, -diff < eps.t))
    r2 = c.ok(d.is_converge, nxt)
    b2 = TBool.unwrap(r2) if not isinstance(r2, bool) else z3.BoolVal(r2)
    d2 = nxt.t - loss.t
    c.prove("the loss is compared with the one of the round before", b2 == z3.And(d2 < eps.t, -d2 < eps.t))

@contract(GB + "check_convergence", "C20")
def _(c):
    tol = TReal.new("tol")
    o = booster(c, tol=tol, convegence=None)
    l = [TReal.new("loss") for _ in range(3)]
    tb = lambda r: z3.BoolVal(r) if isinstance(r, bool) else TBool.unwrap(r)
    r = [tb(c.ok(o.check_convergence, x)) for x in l]
    c.prove("the first round never stops training", z3.Not(r[0]))
    for i in (1, 2):
        d = l[i].t - l[i - 1].t
        c.prove("round %d stops training exactly when the change of the loss is below tol" % (i + 1), r[i] == z3.And(d < tol.t, -d < tol.t))

# ---- labels ---------------------------------------------------------------------------------------
@contract("ml.utils.classfiy_label_checker:ClassifyLabelChecker.get_all_class", "C20")
def _(c):
    P = TTuple(K, TReal); L = TList(P); rows = L.new("rows"); t = rows.term; n = L.len(t)
    lab = lambda j: P.acc(1, L.at(t, j))
    D = TDict(TReal, TBool)
    w = z3.Function("witness", R, I)
    def inv(S):
        for p, d in S.of(D, mod=True):
            k = qv("k", R)
            yield p + " seen", forall(S.it, lambda j: D.has(d, lab(j)), pats=lambda j: L.at(t, j))
            yield p + " only seen", forall(D.n(d), lambda i: exists(S.it, lambda j: lab(j) == z3.Select(D.keyat(d), i)), pats=lambda i: z3.Select(D.keyat(d), i))
    c.vc.inv_templates = [inv]
    mx = c.get("ml.utils.consts:MAX_CLASSNUM")
    r, e = c.call("ml.utils.classfiy_label_checker:ClassifyLabelChecker.get_all_class", rows)
    if e is not None:
        c.prove("refused only with too many classes", isinstance(e, ValueError)); return
    ok = isinstance(r, V.VList) and r.items is not None and len(r.items) == 1 and isinstance(r.items[0], V.VDict)
    if not ok: c.prove("one dictionary of classes per partition", False); return
    d = r.items[0].to_term(D)
    c.prove("every label is a class", forall(n, lambda j: D.has(d, lab(j)), pats=lambda j: L.at(t, j)))
    c.prove("every class is a label", forall(D.n(d), lambda i: exists(n, lambda j: lab(j) == z3.Select(D.keyat(d), i))))
    c.prove("at most the allowed number of classes", D.n(d) <= mx)

def fake_validate(vc, orig, y):
    vc.ghost["validated"] = y
    l = vc.ghost["classes"]
    return mkint(l.lty().len(l.term)), l.copy()
def label_contract(ty, what):
    @contract(GB + "check_label", "C20", name="labels map one to one to class numbers (%s)" % what,
          stubs={"ml.utils.classfiy_label_checker:ClassifyLabelChecker.validate_y": fake_validate, GB + "set_loss": lambda vc, orig, self, p: vc.ghost.__setitem__("loss", (self.num_classes, p))})
    def _(c):
        L = TList(ty); l = L.new("classes"); t = l.term; n = L.len(t)
        j0 = z3.Int("rowclass")
        c.require(n >= 1, forall2(n, n, lambda i, j: z3.Implies(i != j, L.at(t, i) != L.at(t, j)), pats=lambda i, j: z3.MultiPattern(L.at(t, i), L.at(t, j))))
        c.require(j0 >= 0, j0 < n)
        def inv(S):
            yield "the labels seen so far are zero", forall(S.it, lambda j: L.at(t, j) == 0, pats=lambda j: L.at(t, j)) if ty == TInt else S.it == 0
            for p, b in S.of(TBool, mod=True):
                # a flag saying that the labels are the class numbers already
                yield p + " means the labels seen so far are zero", z3.Implies(b, forall(S.it, lambda j: L.at(t, j) == 0, pats=lambda j: L.at(t, j)) if ty == TInt else S.it == 0)
        c.vc.inv_templates = [inv]
        y = ty.wrap(L.at(t, j0))
        c.vc.ghost["classes"] = l
        po = object()
        o = booster(c, task_type=c.get("ml.utils.consts:CLASSIFICATION"), y=PT(y), objective_param=po, num_classes=0, classes_=[], tree_dim=1, classify_target="binary")
        y0 = o.y
        c.ok(o.check_label)
        c.prove("the classes are taken from the labels", c.vc.ghost.get("validated") is y0)
        cl = o.classes_
        if not isinstance(cl, V.VList): raise Unsupported("classes are not a list")
        u = cl.to_term(L)
        z = ty.unwrap(y)
        m = o.y.row
        c.prove("as many classes as distinct labels", z3.And(TInt.unwrap(o.num_classes) == n, L.len(u) == n))
        try: mt = TInt.unwrap(m)
        except TypeMismatch:
            mt = z3.ToInt(TReal.unwrap(m)); c.prove("class numbers are integers", z3.ToReal(mt) == TReal.unwrap(m))
        c.prove("the class number of a label is the position of the label", z3.And(mt >= 0, mt < n, L.at(u, mt) == z))
        c.prove("different positions hold different labels", forall2(n, n, lambda i, j: z3.Implies(i < j, L.at(u, i) < L.at(u, j))))
        c.prove("trees per round: one per class with more than two classes", TInt.unwrap(o.tree_dim) == z3.If(n > 2, n, 1))
        c.prove("the loss is chosen after the classes are known", "loss" in c.vc.ghost and c.vc.ghost["loss"][1] is po and TInt.unwrap(c.vc.ghost["loss"][0]) == n)
label_contract(TReal, "real labels")
label_contract(TInt, "integer labels")

@contract(GB + "set_loss", "C20")
def _(c):
    two = pos_int(c, "num_classes")
    C_, R_ = c.get("ml.utils.consts:CLASSIFICATION"), c.get("ml.utils.consts:REGRESSION")
    k = TReal.new("param"); c.require(k.t >= 1)
    for task, obj, want in ((C_, "cross_entropy", None), (R_, "lse", "LeastSquaredErrorLoss"), (R_, "lae", "LeastAbsoluteErrorLoss"), (R_, "huber", "HuberLoss"), (R_, "fair", "FairLoss"), (R_, "tweedie", "TweedieLoss"), (R_, "log_cosh", "LogCoshLoss"), (C_, "lse", 0), (R_, "cross_entropy", 0), ("other", "lse", 0)):
        o = booster(c, task_type=task, num_classes=two, loss=None)
        r, e = c.call(o.set_loss, Obj(objective=obj, params=V.VList.of([k])))
        if want == 0: c.prove("an unknown objective is refused (%s, %s)" % (task, obj), isinstance(e, NotImplementedError)); continue
        if e is not None: c.prove("a known objective is accepted (%s)" % obj, False); continue
        nm = type(o.loss).__name__
        if want: c.prove("objective %s" % obj, nm == want)
        else: c.prove("two classes use the sigmoid, more use softmax", z3.If(two.t == 2, z3.BoolVal(nm.startswith("Sigmoid")), z3.BoolVal(nm.startswith("Softmax"))))
        if obj in ("huber", "fair"): c.prove("objective parameter is used (%s)" % obj, TReal.unwrap(o.loss.delta if obj == "huber" else o.loss.c) == k.t)

# ---- prediction -----------------------------------------------------------------------------------
LBL = TOpaque("Label")
def predict_stubs():
    return {GB + "predict_f_value": lambda vc, orig, self, d: vc.ghost["setF"](self, d), "ml.tree.boosting_tree:BoostingTree.data_alignment": lambda vc, orig, self, d: vc.ghost.setdefault("aligned", PT(d.row, d.key))}
@contract(GB + "predict", "C20", name="predicted class, two classes", stubs=predict_stubs())
def _(c):
    p = TReal.new("probability"); th = TReal.new("threshold"); sc = TOpaque("Score").new("score")
    c0, c1 = LBL.new("class0"), LBL.new("class1"); lab = LBL.new("label")
    def setF(self, d):
        c.prove("prediction scores the aligned data", d is c.vc.ghost.get("aligned")); self.F = PT(sc)
    c.vc.ghost["setF"] = setF
    class Ls:
        def predict(self, s): c.prove("the probability is that of the score", s is sc); return p
    o = booster(c, task_type=c.get("ml.utils.consts:CLASSIFICATION"), num_classes=2, classes_=V.VList.of([c0, c1]), loss=Ls(), predict_param=Obj(threshold=th), F=None)
    r = c.ok(o.predict, PT(Obj(label=lab)))
    row = r.row
    if not isinstance(row, V.VList) or row.items is None or len(row.items) != 4: raise Unsupported("result row")
    row = row.items
    c.prove("the true label is passed on", row[0] is lab)
    c.prove("the class is the second one exactly above the threshold", LBL.unwrap(row[1]) == z3.If(p.t > th.t, c1.t, c0.t))
    c.prove("the score is the probability", TReal.unwrap(row[2]) == p.t)
    d = row[3]
    c.prove("both probabilities are given", isinstance(d, V.VDict) and d.items_ is not None and set(d.items_) == {"0", "1"} and z3.And(TReal.unwrap(d.items_["1"]) == p.t, TReal.unwrap(d.items_["0"]) == 1 - p.t))

@contract(GB + "predict", "C20", name="predicted class, several classes", stubs=predict_stubs())
def _(c):
    n = pos_int(c, "classes", 3); nt = n.t
    LL = TList(LBL); cl = LL.new("classes_"); c.require(LL.len(cl.term) == nt)
    PL = TList(TReal); pr = PL.new("probabilities"); c.require(PL.len(pr.term) == nt)
    lab = LBL.new("label"); sc = TOpaque("Score").new("score")
    def setF(self, d): self.F = PT(sc)
    c.vc.ghost["setF"] = setF
    class Ls:
        def predict(self, s): c.prove("the probabilities are those of the score", s is sc); return pr
    c.vc.hooks["str"] = lambda x: SOpaque(TOpaque("Name"), ufn("name_of", LBL, TOpaque("Name"))(LBL.unwrap(x)))
    a, b = qv("a", LBL.sort), qv("b", LBL.sort)
    nm = ufn("name_of", LBL, TOpaque("Name"))
    c.require(forall2(nt, nt, lambda i, j: z3.Implies(i != j, nm(LL.at(cl.term, i)) != nm(LL.at(cl.term, j))), pats=lambda i, j: z3.MultiPattern(LL.at(cl.term, i), LL.at(cl.term, j))))
    o = booster(c, task_type=c.get("ml.utils.consts:CLASSIFICATION"), num_classes=n, classes_=cl, loss=Ls(), predict_param=Obj(threshold=TReal.new("th")), F=None)
    ct, pt = cl.term, pr.term
    r = c.ok(o.predict, PT(Obj(label=lab)))
    row = r.row
    if not isinstance(row, V.VList) or row.items is None or len(row.items) != 4: raise Unsupported("result row")
    row = row.items
    c.prove("the true label is passed on", row[0] is lab)
    best = lambda k: z3.And(k >= 0, k < nt, forall(nt, lambda j: PL.at(pt, j) <= PL.at(pt, k)))
    c.prove("the class is one of largest probability", z3.Exists([z3.Int("k*")], z3.And(best(z3.Int("k*")), LBL.unwrap(row[1]) == LL.at(ct, z3.Int("k*")))))
    m = TReal.unwrap(row[2])
    c.prove("the score is the largest probability", z3.And(forall(nt, lambda j: PL.at(pt, j) <= m), exists(nt, lambda j: PL.at(pt, j) == m)))

@contract(GB + "predict", "C20", name="predicted value, regression", stubs=predict_stubs(), facades={"numpy": lambda w: npz(w)})
def _(c):
    lab = LBL.new("label")
    s = TReal.new("score")
    def setF(self, d): self.F = PT(s)
    c.vc.ghost["setF"] = setF
    for obj in ("lse", "lae", "huber", "log_cosh", "fair", "tweedie"):
        o = booster(c, task_type=c.get("ml.utils.consts:REGRESSION"), objective_param=Obj(objective=obj), loss=None, F=None)
        r = c.ok(o.predict, PT(Obj(label=lab)))
        row = r.row.items
        c.prove("the prediction is the score (%s)" % obj, len(row) == 4 and z3.And(TReal.unwrap(row[1]) == s.t, TReal.unwrap(row[2]) == s.t))

# ---- the boosting loop ----------------------------------------------------------------------------
FT, GT, WT, PT_, MT, LS = TOpaque("Scores"), TOpaque("GradTable"), TOpaque("Weights"), TOpaque("TreeParam"), TOpaque("TreeMeta"), TOpaque("Loss")
TG = "ml.tree.hetero_decision_tree_guest:HeteroDecisionTreeGuest."
class Boosting:
    """ghost description of boosting: score state Fs(round, class), gradients of a round, weights of a tree"""
    def __init__(self, c, dim):
        self.dim = dim
        self.upd = ufn("upd", FT, WT, I, FT)
        self.Fs = ufn("Fs", I, I, FT); self.N = ufn("treeno", I, I, I)
        self.GH, self.SUB = ufn("gradients", FT, GT), ufn("of_class", GT, I, GT)
        self.fitw, self.par, self.parw = ufn("fitted_weights", GT, WT), ufn("exported", WT, PT_), ufn("predicted_weights", PT_, WT)
        self.loss, self.conv = ufn("lossof", FT, R), ufn("converged", R, z3.BoolSort())
        i, t = qv("i"), qv("t")
        self.Np = ufn("treeparam", I, PT_)
        c.require(z3.ForAll([i], z3.And(self.Fs(i, dim) == self.Fs(i + 1, 0), self.N(i, dim) == self.N(i + 1, 0)), patterns=[self.Fs(i, dim)]), self.N(0, 0) == 0)
    def step(self, c, w):
        i, t = qv("i"), qv("t")
        c.require(z3.ForAll([i, t], z3.And(self.Fs(i, t + 1) == self.upd(self.Fs(i, t), w(i, t), t), self.N(i, t + 1) == self.N(i, t) + 1), patterns=[self.Fs(i, t)]))

def boost_inv(B, extra=None):
    def g(S):
        ints = [t for p, (ty, t) in sorted(S.items.items()) if ty == TInt and "." not in p]
        for p, f in S.of(FT, mod=True):
            yield p + " after full rounds", f == B.Fs(S.it, 0)
            for k, i in enumerate(ints): yield p + " inside round %d" % k, f == B.Fs(i, S.it)
        if extra: yield from extra(S, ints)
    return g

@contract(GB + "predict_f_value", ["C20", "C21"], stubs={GB + "update_f_value": lambda vc, orig, self, new_f=None, tidx=-1: vc.ghost["upd"](self, new_f, tidx),
    GB + "generate_flowid": lambda vc, orig, *a: "id", TG + "__init__": lambda vc, orig, self, p=None: noret(vc.ghost["tree"](self, p)),
    TG + "load_model": lambda vc, orig, self, meta, par: vc.ghost["load"](self, meta, par), TG + "set_flowid": lambda *a: None, "ml.tree.decision_tree:DecisionTree.set_transfer_inst": lambda vc, orig, self, t: self.__dict__.__setitem__("gt", t),
    TG + "predict": lambda vc, orig, self, d: vc.ghost["pred"](self, d)})
def _(c):
    dim, rounds = pos_int(c, "tree_dim"), pos_int(c, "rounds", 0)
    B = Boosting(c, dim.t)
    L = TList(PT_); tr = L.new("trees"); T = tr.term
    c.require(L.len(T) == rounds.t * dim.t)
    B.step(c, lambda i, t: B.parw(L.at(T, i * dim.t + t)))
    i, t = qv("i"), qv("t")
    c.lemma("position of a tree", [i, t], [i >= 0, i < rounds.t, t >= 0, t < dim.t, dim.t >= 1], z3.And(i * dim.t + t >= 0, i * dim.t + t < rounds.t * dim.t), pats=[B.Fs(i, t)])
    def fdiv(x, y):
        c.prove("number of rounds: all trees, in groups of one per class", z3.And(y == dim.t, x == rounds.t * dim.t))
        return rounds.t
    c.vc.hooks["fdiv"] = fdiv
    meta, link, tp = MT.new("meta"), object(), object()
    ini = V.VList.of([Fr(0)])
    class Data:
        def mapValues(self, f):
            s1 = f(Obj()); s2 = f(Obj())
            c.prove("prediction starts from the initial score, one fresh copy per sample", isinstance(s1, V.VList) and s1 is not ini and s1 is not s2 and bool(s1 == ini))
            return SOpaque(FT, B.Fs(0, 0))
    data = Data()
    def upd(self, new_f, tidx):
        c.prove("the score is updated with the tree's output", isinstance(new_f, SOpaque) and new_f.ty == WT)
        self_set(self, "F", SOpaque(FT, B.upd(FT.unwrap(self.F), new_f.t, TInt.unwrap(tidx))))
    c.vc.ghost["upd"] = upd
    c.vc.ghost["tree"] = lambda self, p: c.prove("trees get the tree parameters", p is tp)
    def load(self, m, par):
        c.prove("each tree is loaded with the model's meta data", m is meta); self.__dict__["par"] = par
    c.vc.ghost["load"] = load
    def pred(self, d):
        c.prove("each tree predicts the given data over the given connection", d is data and self.gt is link)
        return SOpaque(WT, B.parw(PT_.unwrap(self.par)))
    c.vc.ghost["pred"] = pred
    c.vc.inv_templates = [boost_inv(B)]
    o = booster(c, trees_=tr, tree_dim=dim, tree_param=tp, tree_meta=meta, init_score=ini, transfer_inst=link, F=None, flowid="x")
    c.ok(o.predict_f_value, data)
    c.prove("the score is the initial score plus the contribution of every tree, each for its class", FT.unwrap(o.F) == B.Fs(rounds.t, 0))
def self_set(o, a, x): rt.RT_.setattr(o, a, x)

def noret(x): return None
def fit_stub(name):
    if name == "t___init__": return lambda vc, orig, self, *a, **k: noret(vc.ghost["fit"][name](self, *a, **k))
    return lambda vc, orig, self, *a, **k: vc.ghost["fit"][name](self, *a, **k)
@contract(GB + "fit", ["C20", "C21"], name="the boosting loop", budget=400, stubs={
    **{GB + n: fit_stub(n) for n in ("convert_feature_to_bin", "set_y", "update_f_value", "generate_encrypter", "sync_tree_dim", "compute_grad_and_hess", "get_grad_and_hess", "sample_valid_features", "update_feature_importance", "compute_loss", "check_convergence", "sync_stop_flag", "generate_flowid")},
    "ml.tree.boosting_tree:BoostingTree.gen_feature_fid_mapping": lambda *a: None, "ml.tree.boosting_tree:BoostingTree.data_alignment": fit_stub("align"),
    **{TG + n: fit_stub("t_" + n) for n in ("__init__", "set_inputinfo", "set_valid_features", "set_encrypter", "set_encrypted_mode_calculator", "set_flowid", "fit", "get_model", "get_feature_importance")}, "ml.tree.decision_tree:DecisionTree.set_transfer_inst": fit_stub("t_set_transfer_inst")})
def _(c):
    dim, trees = pos_int(c, "tree_dim"), pos_int(c, "num_trees")
    B = Boosting(c, dim.t)
    w = lambda i, t: B.fitw(B.SUB(B.GH(B.Fs(i, 0)), t))
    B.step(c, w)
    L = TList(PT_)
    i, t = qv("i"), qv("t")
    c.require(z3.ForAll([i, t], B.Np(B.N(i, t)) == B.par(w(i, t)), patterns=[B.Fs(i, t)]))
    stop = c.vc.fork(z3.Bool("n_iter_no_change"))
    meta, link, tp, enc, calc = MT.new("meta"), object(), object(), object(), object()
    raw, aligned = Obj(schema=None), Obj(schema=None)
    bins, sp, spp = object(), object(), object()
    def align(self, d): c.prove("the data is aligned first", d is raw); return aligned
    def convert(self, d): c.prove("the aligned data is binned", d is aligned); self_set(self, "data_bin", bins); self_set(self, "bin_split_points", sp); self_set(self, "bin_sparse_points", spp)
    def sety(self): self_set(self, "y_ready", True)
    def update(self, new_f=None, tidx=-1):
        if new_f is None:
            c.prove("scores are initialised once labels are known", self.__dict__.get("y_ready") is True)
            self_set(self, "F", SOpaque(FT, B.Fs(0, 0))); return
        c.prove("the score is updated with the fitted tree's weights", isinstance(new_f, SOpaque) and new_f.ty == WT)
        self_set(self, "F", SOpaque(FT, B.upd(FT.unwrap(self.F), new_f.t, TInt.unwrap(tidx))))
    def grads(self): self_set(self, "grad_and_hess", SOpaque(GT, B.GH(FT.unwrap(self.F))))
    def sub(self, k): return SOpaque(GT, B.SUB(GT.unwrap(self.grad_and_hess), TInt.unwrap(k)))
    def loss(self): return SReal_(B.loss(FT.unwrap(self.F)))
    def conv(self, l): return mkbool(B.conv(TReal.unwrap(l)))
    def flag(self, f, *a):
        b = z3.BoolVal(f) if isinstance(f, bool) else TBool.unwrap(f)
        c.prove("the hosts are told to stop exactly when the loss has converged", b == B.conv(B.loss(FT.unwrap(self.F))))
        c.vc.ghost["told"] = c.vc.ghost.get("told", 0) + 1
    def t_input(self, d, gh, a, b):
        c.prove("a tree is grown on the binned data and its split points", d is bins and a is sp and b is spp); self.__dict__["gh"] = GT.unwrap(gh)
    def t_init(self, p): c.prove("a tree gets the tree parameters", p is tp)
    def t_enc(self, e): c.prove("a tree gets the encrypter", e is enc)
    def t_calc(self, e): c.prove("a tree gets the encryption calculator", e is calc)
    def t_link(self, e): c.prove("a tree gets the connection", e is link)
    def t_fit(self): self.__dict__["predict_weights"] = SOpaque(WT, B.fitw(self.gh))
    def gen(self): self_set(self, "encrypter", enc); self_set(self, "encrypted_calculator", calc)
    none = lambda *a, **k: None
    c.vc.ghost["fit"] = dict(align=align, convert_feature_to_bin=convert, set_y=sety, update_f_value=update, generate_encrypter=gen, sync_tree_dim=none, compute_grad_and_hess=grads, get_grad_and_hess=sub,
        sample_valid_features=none, update_feature_importance=none, compute_loss=loss, check_convergence=conv, sync_stop_flag=flag, generate_flowid=lambda *a: "id", t___init__=t_init, t_set_inputinfo=t_input, t_set_valid_features=none,
        t_set_encrypter=t_enc, t_set_encrypted_mode_calculator=t_calc, t_set_flowid=none, t_set_transfer_inst=t_link, t_fit=t_fit, t_get_model=lambda self: (meta, SOpaque(PT_, B.par(self.predict_weights.t))), t_get_feature_importance=none)
    def extra(S, ints):
        for p, g in S.of(GT, mod=True):
            for k, i in enumerate(ints): yield p + " of this round %d" % k, g == B.GH(B.Fs(i, 0))
        for p, x in S.of(L, mod=True):
            yield p + " count", L.len(x) == B.N(S.it, 0)
            yield p + " kept", forall(L.len(x), lambda k: L.at(x, k) == B.Np(k), pats=lambda k: L.at(x, k))
            for k, i in enumerate(ints): yield p + " count in round %d" % k, L.len(x) == B.N(i, S.it)
        if stop: yield "not converged before", z3.Implies(S.it > 0, z3.Not(B.conv(B.loss(B.Fs(S.it, 0)))))
        D = TList(TReal)
    c.vc.inv_templates = [boost_inv(B, extra)]
    o = booster(c, trees_=V.VList.of([]), tree_dim=dim, num_trees=trees, tree_param=tp, tree_meta=None, transfer_inst=link, F=None, flowid="x", n_iter_no_change=bool(stop), history_loss=V.VList.of([]), feature_importances_={})
    c.ok(o.fit, raw)
    f = FT.unwrap(o.F)
    k = z3.Int("k*")
    full = f == B.Fs(trees.t, 0)
    early = z3.Exists([k], z3.And(k >= 0, k < trees.t, f == B.Fs(k + 1, 0), B.conv(B.loss(f))))
    c.prove("training runs all rounds or stops at a converged loss", z3.Or(full, early) if stop else full)
    if isinstance(o.trees_, V.VList) and (o.trees_.items is None or o.trees_.items):
        x = o.trees_.to_term(L)
        c.prove("the trees kept are the exported fitted trees, in order", forall(L.len(x), lambda k: L.at(x, k) == B.Np(k)))
def SReal_(t): return V.SReal(t)
