"""C19: losses and link functions.  The closed forms required here are proved to be derivatives of one another
in lemmas/c19_losses.lean (same formulas, one theorem per pair).  exp, log, tanh, cosh and sqrt are the
mathematical functions: uninterpreted for the solver except for the listed facts."""
from .common import *
from pyvc import facades as Fa
R = z3.RealSort()
EXP, LOG, TANH, COSH, SQRT = [z3.Function(n, R, R) for n in ("exp", "log", "tanh", "cosh", "sqrt")]
def rv(x): return z3.RealVal(x)
def ab(t): return z3.If(t >= 0, t, -t)
def facts_sqrt(t): return [SQRT(t) >= 0, SQRT(t) * SQRT(t) == t]
def val(x):
    """real term of a scalar or of an array's arbitrary element"""
    if isinstance(x, Fa.ndarray): return TReal.unwrap(x.v)
    return TReal.unwrap(x)

class Rows:
    """stands for the joined table of labels and predictions: DTable.join and DTable.reduce are under contract
    in contracts/table.py; here they are used through those contracts"""
    def __init__(self, c, y, p, f=None): self.c, self.y, self.p, self.f = c, y, p, f
    def join(self, other, func): 
        self.c.prove("labels are joined with predictions", other is self.other)
        return Rows(self.c, self.y, self.p, func)
    def reduce(self, g):
        c = self.c
        row = self.f(self.y, self.p)
        ok = isinstance(row, tuple) and len(row) == 2
        c.prove("each row gives its loss and a count of one", ok and not isinstance(row[1], Sym) and row[1] == 1)
        if not ok: raise PathEnd()
        self.c.vc.ghost["rowloss"] = row[0]
        arr = isinstance(row[0], Fa.ndarray)
        a, b = [(row[0].like(TReal.new(n)) if arr else TReal.new(n)) for n in "ab"]
        m, n = TInt.new("m"), TInt.new("n")
        r = g((a, m), (b, n))
        c.prove("losses and counts are added up", z3.And(val(r[0]) == val(a) + val(b), TInt.unwrap(r[1]) == TInt.unwrap(m) + TInt.unwrap(n)))
        S, N = TReal.new("total"), TInt.new("rows")
        c.require(TInt.unwrap(N) >= 1)
        c.vc.ghost["sn"] = (TReal.unwrap(S), TInt.unwrap(N))
        return (row[0].like(S) if arr else S, N)
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("table method " + a)

def loss_of(c, obj, y, p, spec, facts=()):
    t, u = Rows(c, y, p), Rows(c, y, p); t.other = u
    c.require(*facts)
    r = c.ok(obj.compute_loss, t, u)
    c.prove("the loss of a row is the advertised one", val(c.vc.ghost["rowloss"]) == spec)
    S, N = c.vc.ghost["sn"]
    c.prove("the loss is the mean over the rows", val(r) == S / z3.ToReal(N))

REGR = "ml.loss.regression_loss:"
def pw(c):
    """x ** 1.5 is x * sqrt(x)"""
    def h(a, b):
        if not isinstance(b, Sym) and isinstance(b, (float, Fr)) and Fr(b) == Fr(3, 2): return a * V.sqrt(a)
        return NotImplemented
    c.vc.hooks["pow"] = h
from fractions import Fraction as Fr
def form(c, arr, name):
    return Fa.ndarray.fresh(name, 1) if arr else TReal.new(name)
def regression(name, arg, spec):
    """spec(d, c) -> (loss, gradient, hessian, facts), d = score - label"""
    for arr in (False, True):
        kind = "arrays" if arr else "numbers"
        @contract(REGR + name + ".compute_grad", "C19", name="%s on %s" % (name, kind))
        def _(c, arr=arr):
            cls = c.get(REGR + name); pw(c)
            if arg:
                k = TReal.new("c"); kt = TReal.unwrap(k)
                z = TReal.unwrap(c.get("ml.utils.consts:FLOAT_ZERO"))
                c.require(kt >= z)
                obj = cls(k)
            else: obj, kt = cls(), None
            y = TReal.new("y")
            p = form(c, arr, "score")
            d = val(p) - val(y)
            L, g, h, facts = spec(d, kt)
            c.require(*facts)
            p0 = val(p)
            gr = c.ok(obj.compute_grad, y, p)
            c.prove("the gradient is the derivative of the loss", g(val(gr), d) if callable(g) else val(gr) == g)
            he = c.ok(obj.compute_hess, y, p)
            c.prove("the hessian is the derivative of the gradient", val(he) == h)
            c.prove("the score is not overwritten", val(p) == p0)
            if arr: c.prove("one gradient per score", isinstance(gr, Fa.ndarray) and isinstance(he, Fa.ndarray))
            loss_of(c, obj, y, p, L)
            c.prove("prediction is the score itself", val(c.ok(obj.predict, p)) == p0)
regression("LeastSquaredErrorLoss", False, lambda d, k: (d * d, 2 * d, rv(2), []))
regression("LeastAbsoluteErrorLoss", False, lambda d, k: (ab(d), lambda g, d: z3.And(z3.Implies(d > rv("1/1000000"), g == 1), z3.Implies(d < rv("-1/1000000"), g == -1), z3.Implies(d == 0, g == 0)), rv(1), []))
def huber(d, k):
    u = 1 + (d / k) * (d / k); s = SQRT(u)
    return k * k * (s - 1), d / s, 1 / (s * s * s), facts_sqrt(u)
regression("HuberLoss", True, huber)
regression("FairLoss", True, lambda d, k: (k * ab(d) - k * k * LOG(ab(d) / k + 1), k * d / (ab(d) + k), (k * k) / ((ab(d) + k) * (ab(d) + k)), []))
regression("LogCoshLoss", False, lambda d, k: (LOG(COSH(d)), TANH(d), 1 - TANH(d) * TANH(d), [COSH(d) == COSH(-d), COSH(d) > 0, TANH(-d) == -TANH(d)]))

@contract(REGR + "HuberLoss.__init__", "C19", name="loss constants default")
def _(c):
    z = TReal.unwrap(c.get("ml.utils.consts:FLOAT_ZERO"))
    for n, a in (("HuberLoss", "delta"), ("FairLoss", "c")):
        o = c.ok(c.get(REGR + n), None)
        c.prove(n + " without a constant uses the default", TReal.unwrap(getattr(o, a)) == z)
        k = TReal.new("k"); kt = TReal.unwrap(k)
        o = c.ok(c.get(REGR + n), k)
        c.prove(n + " keeps its constant, or the default when it is zero", TReal.unwrap(getattr(o, a)) == z3.If(ab(kt) < z, z, kt))

CE = "ml.loss.cross_entropy:"
def overflow_hook(c):
    """no argument of exp is positive, so no exponential overflows"""
    def h(x): c.prove("exp is only applied to numbers that are not positive", TReal.unwrap(x) <= 0)
    c.vc.hooks["exparg"] = h

@contract("ml.optim.activation:sigmoid", "C19")
def _(c):
    for arr in (False, True):
        x = form(c, arr, "x"); xt = val(x)
        c.require(EXP(xt) * EXP(-xt) == 1, EXP(xt) > 0, EXP(-xt) > 0, EXP(z3.RealVal(0)) == 1)
        overflow_hook(c)
        r = c.ok("ml.optim.activation:sigmoid", x)
        w = " (array)" if arr else ""
        c.prove("the sigmoid is 1/(1+exp(-x))" + w, val(r) == 1 / (1 + EXP(-xt)))
        c.prove("the sigmoid lies strictly between 0 and 1" + w, z3.And(val(r) > 0, val(r) < 1))
        c.prove("the argument is left alone" + w, val(x) == xt)
        m = c.ok("ml.optim.activation:sigmoid", -x)
        c.prove("the sigmoid mirrors around zero" + w, val(m) + val(r) == 1)

@contract(CE + "SigmoidBinaryCrossEntropyLoss.compute_grad", "C19", stubs={"ml.optim.activation:sigmoid": lambda vc, orig, x: sg_stub(vc, x)})
def _(c):
    o = c.get(CE + "SigmoidBinaryCrossEntropyLoss")()
    for arr in (False, True):
        x = form(c, arr, "x")
        c.vc.ghost["sgarg"] = None
        p = c.ok(o.predict, x)
        w = " (array)" if arr else ""
        c.prove("the prediction is the sigmoid of the score" + w, z3.And(c.vc.ghost["sgarg"] == val(x), val(p) == SG(val(x))) if c.vc.ghost["sgarg"] is not None else False)
        y = TInt.new("y"); c.require(z3.Or(y.t == 0, y.t == 1)); yt = z3.ToReal(y.t)
        pt = val(p)
        g = c.ok(o.compute_grad, y, p); h = c.ok(o.compute_hess, y, p)
        c.prove("the gradient is the derivative of the loss" + w, val(g) == pt - yt)
        c.prove("the hessian is the derivative of the gradient" + w, val(h) == pt * (1 - pt))
        c.prove("the probability is not overwritten" + w, val(p) == pt)
        loss_of(c, o, y, p, -(yt * LOG(pt) + (1 - yt) * LOG(1 - pt)))
SG = z3.Function("sigmoid", R, R)
def sg_stub(vc, x):
    vc.ghost["sgarg"] = val(x)
    t = SG(val(x))
    vc.fact(z3.And(t > 0, t < 1))
    return x.like(V.SReal(t)) if isinstance(x, Fa.ndarray) else V.SReal(t)

@contract("ml.optim.activation:softmax", "C19", axioms=lambda: [z3.ForAll([z3.Real("e?")], EXP(z3.Real("e?")) > 0, patterns=[EXP(z3.Real("e?"))])])
def _(c):
    n = TInt.new("classes"); nt = TInt.unwrap(n); c.require(nt >= 1)
    x = Fa.ndarray.fresh("x", nt); x0 = val(x)
    overflow_hook(c)
    X = lambda i: z3.substitute(x0, (x.idx, i))
    E = z3.Function("E", z3.IntSort(), R)      # partial sums of exp(x)
    k = z3.Int("k*")
    c.require(E(0) == 0)
    i0 = x.idx
    def onsum(S, arr):
        at = lambda i: TReal.unwrap(arr.at(i))
        m = find_shift(at(k), X(k))
        if m is None: c.prove("the scores are shifted by a constant before exp", False); raise PathEnd()
        em = EXP(m)
        # exp(x - m) exp(m) = exp(x): instances at the two positions used
        c.require(EXP(X(k) - m) * em == EXP(X(k)), EXP(X(i0) - m) * em == EXP(X(i0)))
        c.vc.fact(z3.And(S(0) == 0, S(k + 1) == S(k) + at(k), E(k + 1) == E(k) + EXP(X(k)), k >= 0))
        c.prove("induction base: S(0) exp(m) = E(0)", S(0) * em == E(0))
        c.prove("induction step: S(k) exp(m) = E(k)", z3.Implies(S(k) * em == E(k), S(k + 1) * em == E(k + 1)))
        c.prove("induction step: partial sums are positive", z3.Implies(S(k) >= 0, S(k + 1) > 0))
        c.vc.fact(z3.And(S(nt) * em == E(nt), S(nt) > 0))     # by the inductions, n >= 1
        c.require(E(nt) > 0)
    c.vc.hooks["npsum"] = onsum
    r = c.ok("ml.optim.activation:softmax", x)
    c.prove("softmax is exp(x_i) / sum of exp(x_j)", val(r) * E(nt) == EXP(X(i0)))
    c.prove("softmax probabilities are positive", val(r) > 0)
    c.prove("the argument is left alone", val(x) == x0)
def find_shift(t, xk):
    """m with t = exp(xk - m), up to arithmetic"""
    if not (z3.is_app(t) and t.decl().name() == "exp"): return None
    return z3.simplify(xk - t.arg(0))

@contract(CE + "SoftmaxCrossEntropyLoss.compute_grad", "C19", stubs={"ml.optim.activation:softmax": lambda vc, orig, x, *a: sm_stub(vc, x)})
def _(c):
    o = c.get(CE + "SoftmaxCrossEntropyLoss")()
    n = TInt.new("classes"); nt = TInt.unwrap(n); c.require(nt >= 1)
    x = Fa.ndarray.fresh("x", nt)
    p = c.ok(o.predict, x)
    c.prove("the prediction is the softmax of the scores", isinstance(p, Fa.ndarray) and val(p).eq(SM(val(x))))
    y = TInt.new("y"); c.require(y.t >= 0, y.t < nt)
    p0 = val(p); i = x.idx
    g = c.ok(o.compute_grad, y, p)
    c.prove("the gradient is the derivative of the loss", val(g) == p0 - z3.If(i == y.t, rv(1), rv(0)))
    c.prove("the probabilities are not overwritten", val(p) == p0)
    h = c.ok(o.compute_hess, y, p)
    c.prove("the hessian is the derivative of the gradient", val(h) == p0 * (1 - p0))
    c.require(SM(z3.substitute(val(x), (i, y.t))) > 0)
    loss_of(c, o, y, p, -LOG(z3.substitute(p0, (i, y.t))))
SM = z3.Function("softmax_of", R, R)
def sm_stub(vc, x):
    t = SM(val(x)); vc.fact(t > 0)
    return x.like(V.SReal(t))
