"""C23 on the real readers and the split of the two scripts."""
from .base import *
import os, sys, importlib
import numpy as np
def num(rng): return rng.choice([0.0, 1.0, -1.5, rng.uniform(-9, 9), rng.gauss(0, 1) * 10 ** rng.randint(-8, 8), 1e-7, 5e-324, 1e300, float(rng.randint(-99, 99)), 0.1 + 0.2, 123456789.123456789])
def write(rng, ids, cols, labels, rows, path, newline="\n"):
    def s(x): return rng.choice([repr(x), repr(x), "%.17g" % x])
    lines = [",".join(["id"] + (["y"] if labels is not None else []) + cols)]
    for i, r in enumerate(rows): lines.append(",".join([ids[i]] + ([labels[i]] if labels is not None else []) + [s(x) for x in r]))
    with open(path, "w", newline="") as f: f.write(newline.join(lines) + (newline if rng.random() < .7 else ""))
@dyn("C23", 200, 4000)
def read(rng, case):
    n = rng.choice([0, 1, 2, 7, 25]); d = rng.randint(1, 5)
    ids = ["u%d" % k if rng.random() < .5 else str(k) for k in rng.sample(range(1000), n)]; cols = ["x%d" % j for j in range(d)]
    if d > 1 and rng.random() < .3: rng.shuffle(cols)
    if d > 2 and rng.random() < .2: cols[-1] = "y"
    rows = [[num(rng) for _ in range(d)] for _ in range(n)]
    labels = [rng.choice(["0", "1", "-1", "a", "2.5", ""]) for _ in range(n)] if rng.random() < .5 else None
    path = "t.csv"; write(rng, ids, cols, labels, rows, path, rng.choice(["\n", "\n", "\r\n"]))
    R = api("i_o.utils:read_from_csv_with_lable" if labels is not None else "i_o.utils:read_from_csv_with_no_lable")
    got = R(path)
    header, gi, gf = got[:3]
    info = dict(text=open(path).read(), got=got)
    expect(list(header) == cols, "the header is not the feature columns in order", **info)
    expect(list(gi) == ids, "identifiers are lost, changed or out of order", **info)
    expect(len(gf) == n and all(isinstance(f, np.ndarray) and f.tolist() == r for f, r in zip(gf, rows)), "features are lost, changed or out of order", **info)
    if labels is not None: expect(list(got[3]) == labels, "labels are lost, changed or out of order", **info)
class Recorder:
    def __init__(self): self.seen = {}; self.model_param = type("P", (), {})()
    def _init_model(self, p): pass
    def set_transfer_inst(self, t): pass
    def set_runtime_idx(self, i): self.idx = i
    def fit(self, data_instances): self.seen["train"] = data_instances
    def predict(self, t, *a, **k):
        self.seen["test"] = t
        return t.mapValues(lambda v: [v.label, v.label, 0, {}]) if t.count() else api("computing.d_table:DTable")(False, [[1, 1]])
def script(mod, cls, tr, argv, fn):
    m = api(mod); rec = Recorder()
    saved = {k: getattr(m, k) for k in (cls, tr, "getArgs") if hasattr(m, k)}
    if len(saved) < 3: raise __import__("dyn.env").env.Unavailable("entry points of " + mod)
    setattr(m, cls, lambda *a, **k: rec); setattr(m, tr, lambda *a, **k: None); m.getArgs = lambda: argv
    try: getattr(m, fn)()
    finally:
        for k, v in saved.items(): setattr(m, k, v)
    return rec
@dyn("C23", 60, 800)
def both_scripts(rng, case):
    """guest.py and host.py on files listing the same identifiers: same split, nothing lost"""
    n = rng.choice([1, 2, 3, 5, 10, 33]); ids = ["u%d" % k for k in rng.sample(range(1000), n)]; ratio = rng.choice(["0.8", "0.5", "0.7", "1", "0", "0.05", "0.99", "%.3f" % rng.random()])
    dg, dh = rng.randint(1, 3), rng.randint(1, 3)
    rg, rh = [[num(rng) for _ in range(dg)] for _ in ids], [[num(rng) for _ in range(dh)] for _ in ids]; lab = [rng.choice(["0", "1"]) for _ in ids]
    write(rng, ids, ["x%d" % j for j in range(dg)], lab, rg, "g.csv"); write(rng, ids, ["x%d" % j for j in range(dh)], None, rh, "h.csv")
    np.random.seed(rng.randint(0, 99)); import random as rnd; rnd.seed(rng.random())
    g = script("guest", "HeteroSecureBoostingTreeGuest", "TransferInstGuest", ["g.csv", "1", ratio, "CLASSIFICATION", "1"], "test_hetero_secure_boost_guest")
    rnd.seed(rng.random())
    h = script("host", "HeteroSecureBoostingTreeHost", "TransferInstHost", ["h.csv", ratio, "1", "3"], "test_hetero_seucre_boost_host")
    expect(h.idx == 3, "the host's number is not passed on")
    k = int(n * float(ratio)); info = dict(n=n, ratio=ratio)
    for part in ("train", "test"):
        a = [(key, v.inst_id) for key, v in g.seen[part].collect()]; b = [(key, v.inst_id) for key, v in h.seen[part].collect()]
        expect(a == b, "guest and host disagree on the %s rows" % part, guest=a, host=b, **info)
        expect(len(a) == (k if part == "train" else n - k), "the %s part has the wrong size" % part, got=len(a), **info)
        for key, v in g.seen[part].collect():
            q = ids.index(v.inst_id); expect(v.label == lab[q] and v.features.tolist() == rg[q], "a row gets another row's label or features", row=v, **info)
        for key, v in h.seen[part].collect():
            q = ids.index(v.inst_id); expect(v.features.tolist() == rh[q], "a row gets another row's features", row=v, **info)
        expect(g.seen[part].schema.get("header") == ["x%d" % j for j in range(dg)] and h.seen[part].schema.get("header") == ["x%d" % j for j in range(dh)], "the header is lost", **info)
    both = [v.inst_id for part in ("train", "test") for _, v in g.seen[part].collect()]
    expect(sorted(both) == sorted(ids), "training and test rows together are not every row once", got=both, want=ids, **info)
@dyn("C23", 200, 4000)
def split(rng, case):
    n = rng.choice([0, 1, 2, 3, 10, 50]); items = [object() for _ in range(n)]; ratio = rng.choice([0, 1, 0.5, 0.8, rng.random(), 1 / max(n, 1)])
    shuffle, seed = rng.random() < .7, rng.choice([2, 7, None])
    outs = []
    for mod in ("guest", "host"):
        l = list(items); a, b = api(mod + ":data_split")(l, ratio, shuffle, seed)
        expect(sorted(map(id, list(a) + list(b))) == sorted(map(id, items)), "the two parts are not every row once", n=n, ratio=ratio)
        expect(len(a) == int(n * ratio), "the first part has the wrong size", got=len(a), n=n, ratio=ratio)
        if not shuffle: expect(list(a) + list(b) == items, "the order changes without shuffling", n=n, ratio=ratio)
        outs.append(list(a) + list(b))
    if not shuffle or seed is not None: expect(outs[0] == outs[1], "the parties split differently", n=n, ratio=ratio, seed=seed)
