"""C19 (and the initial scores of C20) on the real losses."""
from .base import *
import math
import numpy as np
FL = ("ml/loss/cross_entropy.py", "ml/loss/regression_loss.py", "ml/optim/activation.py")
def score(rng):
    r = rng.random()
    if r < .1: return 0.0
    if r < .2: return rng.choice([1.0, -1.0, 0.5, 1e-3, -1e-3])
    if r < .85: return rng.uniform(-6, 6)
    return rng.uniform(-30, 30)
def T(rows):
    t = api("computing.d_table:DTable")(True, list(rows)); return t
def f1(x): return float(np.asarray(x).reshape(-1)[0])
def near(a, b, r=1e-9, s=0.0): return abs(a - b) <= r * max(abs(a), abs(b)) + max(s, 1e-12)
def quiet_np(fn):
    with np.errstate(over="raise", invalid="raise", divide="raise"): return fn()
def lncosh(d): d = abs(d); return d + math.log1p(math.exp(-2 * d)) - math.log(2)
REG = {
 "LeastSquaredErrorLoss": (lambda c: (), lambda d, c: d * d, lambda d, c: 2 * d, lambda d, c: 2),
 "LeastAbsoluteErrorLoss": (lambda c: (), lambda d, c: abs(d), lambda d, c: 0 if abs(d) <= 1e-6 else math.copysign(1, d), lambda d, c: 1),
 "HuberLoss": (lambda c: (c,), lambda d, c: c * c * (math.hypot(1, d / c) - 1), lambda d, c: d / math.hypot(1, d / c), lambda d, c: (1 + (d / c) ** 2) ** -1.5),
 "FairLoss": (lambda c: (c,), lambda d, c: c * abs(d) - c * c * math.log1p(abs(d) / c), lambda d, c: c * d / (abs(d) + c), lambda d, c: (c / (abs(d) + c)) ** 2),
 "LogCoshLoss": (lambda c: (), lambda d, c: lncosh(d), lambda d, c: math.tanh(d), lambda d, c: 1 / math.cosh(d) ** 2 if abs(d) < 300 else 0.),
}
@dyn("C19", 800, 15000)
def regression(rng, case):
    name = rng.choice(sorted(REG)); mk, loss, grad, hess = REG[name]
    c = rng.choice([0.25, 0.5, 1.0, 2.0, 3.5, rng.uniform(.1, 5)])
    L = api("ml.loss.regression_loss:" + name)(*mk(c))
    y, s = rng.choice([score(rng), float(rng.randint(-3, 3))]), score(rng)
    if rng.random() < .1: s = y + rng.choice([0, 0.0, 2e-6, -2e-6])
    d = s - y
    arrays = rng.random() < .5
    info = dict(loss=name, label=y, score=s, parameter=c, arrays=arrays)
    A = (lambda v: np.asarray([v])) if arrays else (lambda v: v)
    if name == "LeastAbsoluteErrorLoss" and 5e-7 < abs(d) < 1.5e-6: return
    arg = A(s)
    g, h = L.compute_grad(y, arg), L.compute_hess(y, arg)
    if arrays: expect(np.shape(g) == (1,) and np.shape(h) == (1,) and f1(arg) == s, "the shape changes or the score is overwritten", got=(g, h, arg), **info)
    expect(near(f1(g), grad(d, c), 1e-9, 1e-12), "the gradient is not the derivative of the loss", got=f1(g), want=grad(d, c), **info)
    expect(near(f1(h), hess(d, c), 1e-6, 1e-12), "the hessian is not the derivative of the gradient", got=f1(h), want=hess(d, c), **info)
    ids = rng.sample(range(50), rng.randint(1, 6)); ys = {i: score(rng) for i in ids}; ps = {i: ys[i] + rng.uniform(-4, 4) for i in ids}
    ids2 = list(ids); rng.shuffle(ids2)
    got = L.compute_loss(T([(i, ys[i]) for i in ids]), T([(i, A(ps[i])) for i in ids2]))
    want = sum(loss(ps[i] - ys[i], c) for i in ids) / len(ids)
    expect(near(f1(got), want, 1e-7, 1e-9), "the loss is not the mean of the rows' losses", got=f1(got), want=want, labels=ys, scores=ps, name=name, parameter=c)
def sg(x): return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))
@dyn("C19", 500, 10000)
def sigmoid(rng, case):
    S = api("ml.optim.activation:sigmoid"); L = api("ml.loss.cross_entropy:SigmoidBinaryCrossEntropyLoss")()
    x = rng.choice([score(rng), rng.choice([-1, 1]) * rng.choice([35, 36, 50, 700, 745, 800, 1e4, 1e300])])
    arrays = rng.random() < .5
    A = (lambda v: np.asarray([v])) if arrays else (lambda v: v)
    arg = A(x); p = f1(quiet_np(lambda: S(arg))); q = f1(quiet_np(lambda: S(A(-x))))
    expect(f1(arg) == x, "the sigmoid overwrites its argument", x=x)
    expect(near(p, sg(x) if abs(x) < 700 else float(x > 0), 1e-9, 1e-300 if x > -700 else 1e-300) and near(p + q, 1, 1e-12), "the sigmoid is wrong", x=x, got=p, mirror=q)
    expect(0 <= p <= 1 and (abs(x) > 36 or 0 < p < 1), "a probability outside (0, 1)", x=x, got=p)
    if abs(x) > 30: return
    for y in (0, 1):
        pr = L.predict(A(x))
        expect(near(f1(L.compute_grad(y, pr)), sg(x) - y, 1e-9) and near(f1(L.compute_hess(y, pr)), sg(x) * sg(-x), 1e-4 if abs(x) > 25 else 1e-6), "gradient or hessian of the cross entropy is wrong", label=y, x=x, got=(L.compute_grad(y, pr), L.compute_hess(y, pr)))
    ids = rng.sample(range(50), rng.randint(1, 5)); ys = {i: rng.randint(0, 1) for i in ids}; xs = {i: rng.uniform(-8, 8) for i in ids}
    got = L.compute_loss(T([(i, ys[i]) for i in ids]), T([(i, L.predict(A(xs[i]))) for i in ids[::-1]]))
    want = sum(math.log1p(math.exp(-abs(z))) + max(-z, 0) for z in [xs[i] if ys[i] else -xs[i] for i in ids]) / len(ids)
    expect(near(f1(got), want, 1e-6), "the loss is not the mean cross entropy", got=f1(got), want=want, labels=ys, scores=xs)
@dyn("C19", 500, 10000)
def softmax(rng, case):
    S = api("ml.optim.activation:softmax"); L = api("ml.loss.cross_entropy:SoftmaxCrossEntropyLoss")()
    k = rng.randint(1, 6); big = rng.random() < .2
    x = np.array([rng.choice([score(rng), rng.choice([-1, 1]) * rng.choice([700, 800, 1e4])]) if big else rng.uniform(-8, 8) for _ in range(k)])
    x0 = x.copy()
    p = quiet_np(lambda: S(x))
    m = max(x.tolist()); e = [math.exp(v - m) for v in x.tolist()]; want = [v / sum(e) for v in e]
    expect(np.shape(p) == (k,) and all(near(a, b) for a, b in zip(p.tolist(), want)) and (x == x0).all(), "softmax is wrong or overwrites its argument", x=x0, got=p, want=want)
    expect(near(sum(p.tolist()), 1) and (big or min(p.tolist()) > 0), "softmax probabilities are not positive or do not add up to one", x=x0, got=p)
    for y in range(k):
        q = L.predict(x); q0 = q.copy()
        g, h = L.compute_grad(y, q), L.compute_hess(y, q)
        expect((q == q0).all(), "the gradient overwrites the probabilities", x=x0, label=y)
        expect(all(near(a, want[j] - (j == y), 1e-9, 1e-12) for j, a in enumerate(g.tolist())), "the gradient of the softmax cross entropy is wrong", x=x0, label=y, got=g)
        expect(all(near(a, w * (1 - w), 1e-6, 1e-12) for a, w in zip(h.tolist(), want)), "the hessian of the softmax cross entropy is wrong", x=x0, label=y, got=h)
    if not big:
        ids = rng.sample(range(50), rng.randint(1, 5)); ys = {i: rng.randrange(k) for i in ids}; xs = {i: np.array([rng.uniform(-8, 8) for _ in range(k)]) for i in ids}
        got = L.compute_loss(T([(i, ys[i]) for i in ids]), T([(i, L.predict(xs[i])) for i in ids[::-1]]))
        def nl(v, y): m = max(v); return m + math.log(sum(math.exp(a - m) for a in v)) - v[y]
        want = sum(nl(xs[i].tolist(), ys[i]) for i in ids) / len(ids)
        expect(near(f1(got), want, 1e-6, 1e-9), "the loss is not the mean cross entropy", got=f1(got), want=want, labels=ys, scores=xs)
@dyn("C19", 200, 3000)
def other_activations(rng, case):
    M = api("ml.optim.activation")
    x = score(rng)
    table = dict(hard_sigmoid=min(1, max(0, .2 * x + .5)), softplus=math.log1p(math.exp(-abs(x))) + max(x, 0), softsign=x / (1 + abs(x)), tanh=math.tanh(x), log_logistic=-(math.log1p(math.exp(-abs(x))) + max(-x, 0)))
    for k, w in table.items():
        fn = getattr(M, k, None)
        if fn is not None: expect(near(f1(fn(x)), w, 1e-6, 1e-9), "the activation %s is wrong" % k, x=x, got=f1(fn(x)), want=w)
@dyn("C20", 200, 4000)
def initial_score(rng, case):
    name = rng.choice(sorted(REG)); L = api("ml.loss.regression_loss:" + name)(*REG[name][0](1.0))
    n = rng.randint(1, 40); ids = rng.sample(range(1000), n)
    ys = {i: rng.choice([float(rng.randint(-5, 5)), rng.uniform(-9, 9)]) for i in ids}
    F, init = L.initialize(T([(i, ys[i]) for i in ids]))
    v = f1(init); rows = dict(F.collect())
    expect(set(rows) == set(ids) and all(f1(x) == v for x in rows.values()) and np.shape(init) == (1,), "not every row starts from the initial score", got=rows, init=init)
    expect(len({id(x) for x in rows.values()}) == n and all(x is not init for x in rows.values()), "rows share one score object", labels=ys)
    if name != "LeastAbsoluteErrorLoss": expect(near(v, sum(ys.values()) / n, 1e-9, 1e-9), "the initial score is not the mean label", loss=name, got=v, labels=ys)
    else:
        below, upto = sum(y < v for y in ys.values()), sum(y <= v for y in ys.values()); mid = math.ceil(n / 2)
        expect(upto > 0 and v in ys.values() and below <= mid + 1 and upto >= mid - 1, "the initial score is not the median label", got=v, labels=ys)
@dyn("C20", 60, 600)
def initial_score_classes(rng, case):
    C = api("ml.loss.cross_entropy")
    n = rng.randint(1, 20); t = T([(i, rng.randint(0, 2)) for i in range(n)]); k = rng.randint(2, 5)
    for F, init, d in ((*C.SigmoidBinaryCrossEntropyLoss.initialize(t), 1), (*C.SoftmaxCrossEntropyLoss.initialize(t, k), k)):
        rows = dict(F.collect())
        expect(set(rows) == set(range(n)) and all(np.shape(x) == (d,) and not np.any(x) for x in rows.values()) and np.shape(init) == (d,) and not np.any(init), "classification does not start from zero scores", got=rows, init=init)
        expect(len({id(x) for x in rows.values()}) == n and all(x is not init for x in rows.values()), "rows share one score object")
