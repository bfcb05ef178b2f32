"""C20, C16, C17 on whole boosted models: guest and hosts in process, real Paillier keys (small)."""
from .base import *
from . import fed
import copy, math, builtins
import numpy as np
from fractions import Fraction as Fr
FB = ("ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/boosting_tree.py", "ml/optim/convergence.py", "ml/utils/classfiy_label_checker.py")
def tolerant_float(x=0):
    """numpy of the project's era converts arrays of one element"""
    if isinstance(x, np.ndarray) and x.size == 1: return builtins.float(x.reshape(-1)[0])
    return builtins.float(x)
def mods():
    G = api("ml.tree.hetero_secureboosting_tree_guest:HeteroSecureBoostingTreeGuest"); H = api("ml.tree.hetero_secureboosting_tree_host:HeteroSecureBoostingTreeHost")
    api("ml.tree.hetero_secureboosting_tree_guest").float = tolerant_float
    return G, H
def table(rows):
    I = api("ml.feature.instance:Instance"); DT = api("computing.d_table:DTable"); SV = api("ml.feature.sparse_vector:SparseVector")
    out = []
    for i, x, y, sp in rows:
        f = np.array(x, dtype=float)
        if sp: f = SV([j for j in range(len(x)) if x[j] != 0], [x[j] for j in range(len(x)) if x[j] != 0], len(x))
        out.append((i, I(inst_id=i, features=f, label=y)))
    t = DT(True, out); t.schema = {"header": ["x%d" % j for j in range(len(rows[0][1]))]}
    return t
def sig(x): return 1 / (1 + math.exp(-x)) if x > -700 else 0.0
def softmax(v):
    m = max(v); e = [math.exp(x - m) for x in v]; s = sum(e); return [x / s for x in e]

def build(rng, task=None, n=None, tol=None, alone=None):
    G, H = mods()
    BP = api("ml.param.boosting_tree_param:BoostingTreeParam"); TP = api("ml.param.boosting_tree_param:DecisionTreeParam"); OP = api("ml.param.boosting_tree_param:ObjectiveParam"); EP = api("ml.param.encrypt_param:EncryptParam")
    MP = api("ml.param.encrypted_mode_calculation_param:EncryptedModeCalculatorParam"); PP = api("ml.param.predict_param:PredictParam")
    f = type("Fed", (), {})()
    f.task = task or rng.choice(["binary", "binary", "multi", "lse", "other"])
    n = n or rng.choice([4, 8, 14])
    f.ids = rng.sample(range(1000), n) if rng.random() < .5 else ["r%d" % k for k in range(n)]
    nh = rng.choice([1, 1, 2])
    if alone is None and rng.random() < .12:      # the copy without federation
        nh = 0; G = api("xgboost.hetero_secureboosting_tree_guest:HeteroSecureBoostingTreeGuest"); api("xgboost.hetero_secureboosting_tree_guest").float = tolerant_float
    f.d = [rng.randint(1, 3) for _ in range(nh + 1)]
    grid = [x / 2 + .25 for x in range(-8, 8)]
    f.raw = [{i: [rng.choice([0.0, rng.choice(grid), rng.choice(grid), 1e-8]) for _ in range(d)] for i in f.ids} for d in f.d]
    if f.task == "binary": f.labels = rng.choice([[0, 1], [-1, 1], [1, 2], ["no", "yes"], [0, 5], ["0", "1"], [1009, 2003], [1, 0], [10, 9]])
    elif f.task == "multi": f.labels = rng.choice([[0, 1, 2], [3, 1, 2], ["a", "c", "b"], ["2", "10", "1"], [101, 202, 303, 404], [2, 1, 0]])
    else: f.labels = None
    if f.labels:
        f.y = {i: rng.choice(f.labels) for i in f.ids}
        for k, l in enumerate(rng.sample(f.labels, len(f.labels))): f.y[f.ids[k % n]] = l
        f.labels = sorted(set(f.y.values()))
        if f.task == "multi" and len(f.labels) < 3: f.task = "binary"
    else: f.y = {i: rng.choice([rng.randint(-5, 5), round(rng.uniform(-5, 5), 3)]) + .0625 for i in f.ids}
    f.obj = "cross_entropy" if f.labels else ("lse" if f.task == "lse" else rng.choice(["lae", "huber", "fair", "log_cosh"]))
    f.delta = rng.choice([0.5, 1.0, 2.0])
    f.lr = rng.choice([0.3, 0.1, 1.0, 0.5]); f.lam = rng.choice([0.1, 1.0, 0.0 if f.obj == "lse" else 0.5])
    f.rounds = rng.randint(1, 4); f.stop = rng.random() < .6; f.tol = tol if tol is not None else rng.choice([0.0001, 0.05, 0.3, 0.0])
    f.threshold = rng.choice([0.5, 0.5, 0.3, 0.7])
    tp = TP(criterion_params=[f.lam], max_depth=rng.randint(1, 4), min_leaf_node=rng.choice([1, 1, 2]), min_imputiry_split=rng.choice([0.001, 0.01]), max_split_nodes=rng.choice([1, 2, 65536]))
    f.mode = rng.choice(["strict", "fast", "balance", "confusion_opt", "strict"])
    f.mode = f.mode if f.mode in ("strict", "fast", "balance") else "strict"
    p = BP(tree_param=tp, task_type="classification" if f.labels else "regression", objective_param=OP(f.obj, [f.delta]), learning_rate=f.lr, num_trees=f.rounds, subsample_feature_rate=rng.choice([1.0, 1.0, 0.6]),
           n_iter_no_change=f.stop, tol=f.tol, encrypt_param=EP(key_length=256), bin_num=rng.choice([2, 4, 8]), encrypted_mode_calculator_param=MP(mode=f.mode, re_encrypted_rate=rng.choice([1, 0.5, 0.0])), predict_param=PP(threshold=f.threshold))
    f.guest = G(); f.guest._init_model(p); f.guest.flowid = "0"
    f.hosts = []
    f.bus = fed.Bus(nh); f.guest.set_transfer_inst(fed.GuestLink(f.bus))
    for k in range(nh):
        h = H(); h._init_model(copy.deepcopy(p)); h.flowid = "0"; h.set_runtime_idx(k); h.set_transfer_inst(fed.HostLink(f.bus, k)); f.hosts.append(h)
    f.sparse = [rng.random() < .3 for _ in range(nh + 1)]
    def tab(p, ids, y=True): return table([(i, f.raw[p][i], f.y[i] if y and p == 0 else None, f.sparse[p]) for i in ids])
    f.tab = tab
    orders = [rng.sample(f.ids, n) for _ in range(nh)]
    tabs = [tab(0, f.ids)] + [tab(k + 1, orders[k]) for k in range(nh)]
    f.before = [repr(t.collect()) for t in tabs]
    fed.run(f.bus, lambda: f.guest.fit(tabs[0]), [lambda k=k: f.hosts[k].fit(tabs[k + 1]) for k in range(nh)])
    f.after = [repr(t.collect()) for t in tabs]
    return f
def info(f): return dict(task=f.task, objective=f.obj, rate=f.lr, lam=f.lam, labels=f.y, rows=f.raw, history=f.guest.history_loss, tol=f.tol, stop=f.stop)
def walk(f, t, i):
    tree = f.guest.trees_[t]; k = 0
    for _ in range(1000):
        nd = tree.tree_[k]
        if nd.is_leaf: return k, nd.weight
        if nd.sitename == "guest": p, mask = 0, tree.split_maskdict
        else:
            q = int(nd.sitename.split(".")[1]); p, mask = q + 1, f.hosts[q].trees_[t].split_maskdict
        x = f.raw[p][i][nd.fid]
        if abs(x) < 1e-6 and not f.sparse[p]: x = 0.0
        expect(k in mask, "the owner of a node does not know its threshold", node=k, tree=t, **info(f))
        k = nd.left_nodeid if x <= mask[k] else nd.right_nodeid
    expect(False, "a walk does not end", tree=t)
def oracle(f):
    """raw scores after every round, gradients before it"""
    multi = f.task == "multi"; dim = len(f.labels) if multi else 1
    cls = {l: k for k, l in enumerate(f.labels)} if f.labels else None
    ys = [f.y[i] for i in f.ids]
    if f.labels: init = [0.0] * dim
    elif f.obj == "lae": init = [float(np.asarray(f.guest.init_score)[0])]
    else: init = [sum(ys) / len(ys)]
    def gh(i, F):
        y = f.y[i]
        if multi:
            p = softmax(F); return [p[k] - (cls[y] == k) for k in range(dim)], [q * (1 - q) for q in p]
        if f.labels:
            p = sig(F[0]); return [p - cls[y]], [p * (1 - p)]
        d = F[0] - y; c = f.delta
        return {"lse": ([2 * d], [2.]), "lae": ([float(np.sign(d)) if abs(d) > 1e-6 else 0.], [1.]), "huber": ([d / math.sqrt(1 + d * d / c ** 2)], [1. / (1 + d * d / c ** 2) ** 1.5]),
                "fair": ([c * d / (abs(d) + c)], [c ** 2 / (abs(d) + c) ** 2]), "log_cosh": ([math.tanh(d)], [1 - math.tanh(d) ** 2])}[f.obj]
    def loss(F):
        t = 0.
        for i in f.ids:
            y = f.y[i]
            if multi: t += -math.log(max(softmax(F[i])[cls[y]], 1e-300))
            elif f.labels: p = sig(F[i][0]); t += -math.log(max(p if cls[y] else 1 - p, 1e-300))
            else:
                d = F[i][0] - y; c = f.delta
                t += {"lse": d * d, "lae": abs(d), "huber": c ** 2 * (math.sqrt(1 + (d / c) ** 2) - 1), "fair": c * abs(d) - c ** 2 * math.log(abs(d) / c + 1), "log_cosh": math.log(math.cosh(d))}[f.obj]
        return t / len(f.ids)
    return dim, init, gh, loss
def near(a, b, r=1e-6): return abs(a - b) <= r * max(1, abs(a), abs(b))
@dyn("C20", 60, 700, limit=120)
def training(rng, case):
    f = build(rng); D = info(f)
    dim, init, gh, loss = oracle(f)
    g = f.guest
    expect(f.before == f.after, "training changes the caller's rows", before=f.before, after=f.after)
    expect(g.tree_dim == dim and all(h.tree_dim == dim for h in f.hosts), "one tree per class and round (one for two classes)", got=(g.tree_dim, [h.tree_dim for h in f.hosts]), **D)
    if f.labels: expect(list(g.classes_) == f.labels, "the classes are not the labels present", got=g.classes_, **D)
    expect([near(a, b) for a, b in zip(np.asarray(g.init_score).tolist(), init)] == [True] * dim, "the initial score is wrong", got=g.init_score, want=init, **D)
    n = len(g.trees_)
    expect(n % dim == 0 and n // dim == len(g.history_loss) and all(len(h.trees_) == n for h in f.hosts), "parties disagree on the number of trees", got=(n, len(g.history_loss), [len(h.trees_) for h in f.hosts]), **D)
    F = {i: list(init) for i in f.ids}; hist = []
    for r in range(n // dim):
        GH = {i: gh(i, F[i]) for i in f.ids}
        newF = {i: list(v) for i, v in F.items()}
        for c in range(dim):
            t = r * dim + c; leaf = {}
            for i in f.ids:
                k, w = walk(f, t, i); leaf.setdefault((k, w), []).append(i); newF[i][c] = F[i][c] + f.lr * w
            for (k, w), ids in leaf.items():
                G, H = sum(GH[i][0][c] for i in ids), sum(GH[i][1][c] for i in ids)
                if H + f.lam > 1e-4: expect(near(w, -G / (H + f.lam), 1e-4 if H + f.lam < .1 else 1e-6), "a leaf of a trained tree is not -G/(H+lambda) of its samples at the scores before the round", tree=t, leaf=k, samples=ids, got=w, want=-G / (H + f.lam), **D)
                else: return
        F = newF; hist.append(loss(F))
    got = {i: np.asarray(v).tolist() for i, v in g.F.collect()}
    expect(set(got) == set(f.ids) and all(near(a, b) for i in f.ids for a, b in zip(got[i], F[i])), "the raw scores are not initial score plus rate times leaf weights", got=got, want=F, **D)
    expect(all(near(a, b, 1e-5) for a, b in zip(g.history_loss, hist)), "the losses recorded are not the losses of the rounds", got=g.history_loss, want=hist, **D)
    h = g.history_loss
    if f.stop:
        first = next((k + 1 for k in range(1, len(h)) if abs(h[k] - h[k - 1]) < f.tol), None)
        if first is None: expect(len(h) == f.rounds, "training stops although the loss changed more than the tolerance", rounds=f.rounds, **D)
        else: expect(len(h) == first, "training goes on although the loss changed less than the tolerance", first=first, **D)
    else: expect(len(h) == f.rounds, "the number of rounds is not the one asked for", rounds=f.rounds, **D)
    # prediction on the training rows and on new ones
    new = {}
    for q in range(rng.randint(1, 4)):
        i = "new%d" % q; new[i] = True; f.y[i] = f.y[f.ids[0]]
        for p in range(len(f.raw)): f.raw[p][i] = [rng.choice([0.0, rng.uniform(-4, 4), rng.choice(list(f.raw[p].values()))[j]]) for j in range(f.d[p])]
    ids = rng.sample(f.ids, rng.randint(0, len(f.ids))) + list(new); rng.shuffle(ids)
    for again in range(2 if rng.random() < .3 else 1):
        res = fed.run(f.bus, lambda: g.predict(f.tab(0, ids)), [lambda k=k: f.hosts[k].predict(f.tab(k + 1, rng.sample(ids, len(ids)))) for k in range(len(f.hosts))])
        out = dict(res.collect())
        expect(set(out) == set(ids) and res.count() == len(ids), "prediction loses or repeats rows", got=out, **D)
        for i in ids:
            s = list(init)
            for r in range(n // dim):
                for c in range(dim): s[c] += f.lr * walk(f, r * dim + c, i)[1]
            v = out[i]
            if f.task == "multi":
                p = softmax(s); best = max(p)
                expect(v[0] == f.y[i] and near(v[2], best) and near(p[f.labels.index(v[1])], best) and all(near(v[3][str(l)], p[k]) for k, l in enumerate(f.labels)), "the predicted class is not the most probable one", row=i, got=v, want=p, **D)
            elif f.labels and len(f.labels) == 2:
                p = sig(s[0])
                expect(v[0] == f.y[i] and near(v[2], p) and near(v[3]["1"], p) and near(v[3]["0"], 1 - p), "the predicted probability is wrong", row=i, got=v, want=p, **D)
                if abs(p - f.threshold) > 1e-9: expect(v[1] == f.labels[1 if p > f.threshold else 0], "the predicted class is not decided by the threshold", row=i, got=v, want=p, threshold=f.threshold, **D)
            elif not f.labels: expect(v[0] == f.y[i] and all(near(float(np.asarray(x).reshape(-1)[0]), s[0]) for x in (v[1], v[2], v[3]["label"])), "the predicted value is not the raw score", row=i, got=v, want=s, **D)
@dyn("C20", 300, 4000)
def convergence(rng, case):
    DC = api("ml.optim.convergence:DiffConverge")
    eps = rng.choice([0.0, 0.5, 1, 1e-6, 0.25]); c = DC(eps=eps)
    prev = None
    x = Fr(rng.randint(-8, 8), 4)
    for _ in range(rng.randint(1, 8)):
        got = c.is_converge(float(x))
        expect(got is (prev is not None and abs(x - prev) < Fr(eps)), "convergence is not 'the change of the loss is within the tolerance'", loss=x, previous=prev, eps=eps, got=got)
        prev = x; x += Fr(rng.choice([0, 1, -1, 2, -2, 1]), rng.choice([4, 2, 1]))
@dyn("C20", 200, 3000)
def labels(rng, case):
    C = api("ml.utils.classfiy_label_checker:ClassifyLabelChecker"); DT = api("computing.d_table:DTable"); R = api("ml.utils.classfiy_label_checker:RegressionLabelChecker")
    pool = rng.choice([[0, 1], [5, -3, 8], ["a", "b"], list(range(rng.choice([999, 1000, 1001])))])
    ys = [rng.choice(pool) for _ in range(rng.randint(1, 30))] if len(pool) < 900 else list(pool)
    t = DT(True, list(enumerate(ys)))
    try: n, cl = C.validate_y(t)
    except ValueError as e:
        expect(len(set(ys)) > 1000, "admissible labels are refused", labels=len(set(ys))); return
    expect(len(set(ys)) <= 1000 and n == len(set(ys)) and sorted(cl) == sorted(set(ys)), "the classes are not the distinct labels", got=(n, list(cl))[:100], want=sorted(set(ys))[:100])
    for y in (1, 2.5, "3.5", "-1e3"): R.validate_y(DT(True, [(0, 1.0), (1, y)]))
    for y in ("abc", None, [1, 2]):
        try: R.validate_y(DT(True, [(0, 1.0), (1, y)]))
        except ValueError: continue
        expect(False, "a label that is no number passes in regression", label=y)

# ---------------------------------------------------------------- C17
def scan(o, on, path="", seen=None):
    """call on(path, leaf) for every leaf; ciphertexts and keys are leaves"""
    seen = seen if seen is not None else set()
    t = type(o).__name__
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, Fr, np.generic)) or t in ("PaillierEncryptedNumber", "PaillierPublicKey", "PaillierPrivateKey", "Enc") or callable(o) and not hasattr(o, "__dict__"):
        on(path, o); return
    if id(o) in seen: return
    seen.add(id(o))
    if isinstance(o, dict):
        for k, v in o.items(): scan(k, on, path + ".key", seen); scan(v, on, path + "[%r]" % (k,), seen)
    elif isinstance(o, (list, tuple, set, frozenset)):
        for k, v in enumerate(o): scan(v, on, path + "[%d]" % k, seen)
    elif isinstance(o, np.ndarray):
        for k, v in enumerate(o.reshape(-1)): scan(v, on, path + "[%d]" % k, seen)
    else:
        for k, v in getattr(o, "__dict__", {}).items(): scan(v, on, path + "." + k, seen)
        for k in getattr(type(o), "__slots__", ()):
            if hasattr(o, k): scan(getattr(o, k), on, path + "." + k, seen)
def judge(d, k, obj, secret_ints=(), private=(), stage="", nodes=100000):
    def on(path, x):
        t = type(x).__name__
        where = "message %d %s%s" % (k, d, path)
        expect(t != "PaillierPrivateKey", "the private key is sent", where=where)
        if t == "PaillierEncryptedNumber":
            c = x.ciphertext(False) if callable(getattr(x, "ciphertext", None)) else x.ciphertext
            n = x.public_key.n
            if d == "guest->host": expect((c - 1) % n != 0, "a number is sent under an encryption without randomness, readable with the public key", where=where)
            return
        if isinstance(x, (float, complex, Fr, np.floating)) and not isinstance(x, bool):
            expect(False, "a number is sent in the clear", where=where, value=x)
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            expect(x not in private, "a part of the private key is sent", where=where)
            expect(x not in secret_ints, "a label or value is sent in the clear", where=where, value=x)
        if isinstance(x, (str, bytes)): expect(x not in secret_ints, "a label is sent in the clear", where=where, value=x)
    scan(obj, on)
@dyn("C17", 120, 3000)
def tree_messages(rng, case):
    import pickle
    from . import c12_tree as ct
    f = ct.grow(rng, hosts=rng.choice([1, 1, 2, 3]))
    for k, (d, i, b) in enumerate(f.bus.log): judge(d, k, pickle.loads(b))
    for h in f.hts: hide(h)
    n = len(f.bus.log)
    ids = list(f.ids)
    fed.run(f.bus, lambda: f.gt.predict(f.guest.table(ids, f.guest.raw, {i: 0 for i in ids})), [lambda k=k: f.hts[k].predict(f.hosts[k].table(ids, f.hosts[k].raw)) for k in range(len(f.hosts))])
    for k, (d, i, b) in enumerate(f.bus.log[n:]): judge(d, k, pickle.loads(b), stage="predict")
def hide(h):
    for nd in h.tree_:
        expect(not nd.weight and nd.sum_grad is None and nd.sum_hess is None, "a host holds leaf weights or gradient sums in the clear", node=nd.__dict__)
        if nd.sitename != h.sitename: expect(nd.bid is None, "a host learns another party's split", node=nd.__dict__)
@dyn("C17", 25, 300, limit=120)
def model_messages(rng, case):
    import pickle
    f = build(rng, alone=False, n=rng.choice([4, 8]), task=rng.choice(["binary", "multi", "lse", "other"]))
    pk = getattr(f.guest.encrypter, "privacy_key", None)
    private = [x for x in (getattr(pk, "p", None), getattr(pk, "q", None)) if x is not None]
    secret = [l for l in (f.labels or []) if isinstance(l, str) and l not in ("0", "1", "2", "10") or isinstance(l, int) and l > 1000]
    for k, (d, i, b) in enumerate(f.bus.log): judge(d, k, pickle.loads(b), secret, private)
    n = len(f.bus.log)
    fed.run(f.bus, lambda: f.guest.predict(f.tab(0, f.ids)), [lambda k=k: f.hosts[k].predict(f.tab(k + 1, f.ids)) for k in range(len(f.hosts))])
    for k, (d, i, b) in enumerate(f.bus.log[n:]): judge(d, k, pickle.loads(b), secret, private)
