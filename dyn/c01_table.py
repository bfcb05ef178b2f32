"""C01-C03 on the real DTable, against plain-Python models."""
from .base import *
F = ("computing/d_table.py",)
def T(): return api("computing.d_table:DTable")

KEYS = [lambda r: r.randint(-5, 40), lambda r: "k%d" % r.randint(0, 40), lambda r: (r.randint(0, 6), r.randint(0, 6)), lambda r: str(r.randint(0, 40)), lambda r: r.choice([None, "", 0.5, -1, "a", (), True])]
def vals(rng):
    k = rng.randrange(5)
    return [lambda: rng.randint(-9, 9), lambda: [rng.randint(0, 9) for _ in range(rng.randint(0, 3))], lambda: rng.choice(["", "x", 0, False, 0.0, [], (), {}]), lambda: {"a": rng.randint(0, 3)}, lambda: rng.random() * 10 - 5][k]
def pairs(rng, n=None):
    n = small_int(rng, F, 0, 60) if n is None else n
    mk, mv = rng.choice(KEYS), vals(rng)
    if rng.random() < .3: mv = vals(rng)
    out, seen = [], set()
    for _ in range(n):
        k = mk(rng)
        if k in seen: continue
        seen.add(k); out.append((k, mv()))
    rng.shuffle(out)
    return out
def rows(t): return [(k, v) for k, v in t.collect()]
def copies(p): 
    import copy
    return copy.deepcopy(p)
def unchanged(t, before, what): expect(rows(t) == before and [k for k, _ in rows(t)] == [k for k, _ in before], what + ": the table it was called on changed", got=rows(t), want=before)
class Log(list):
    def fn(self, f):
        def g(*a): self.append(a); return f(*a)
        return g

@dyn("C01", 400, 6000)
def transforms(rng, case):
    DT = T(); p = pairs(rng); before = copies(p)
    t = DT(True, p)
    expect(rows(t) == before, "construction keeps every row under its key in order", got=rows(t), want=before)
    expect(list(t.get_keys()) == [k for k, _ in before] and list(t.get_values()) == [v for _, v in before] and list(t.get_kvs()) == before, "views of the table", got=list(t.get_kvs()), want=before)
    expect(t.count() == len(before), "count", got=t.count(), want=len(before))
    L = Log(); r = t.map(L.fn(lambda k, v: (v, k, 1)))
    expect(rows(r) == [(k, (v, k, 1)) for k, v in before], "map pairs every key with the function of its key and row, in order", got=rows(r), want=before); unchanged(t, before, "map")
    r = t.mapValues(lambda v: ["f", v])
    expect(rows(r) == [(k, ["f", v]) for k, v in before], "mapValues pairs every key with the function of its row, in order", got=rows(r), want=before); unchanged(t, before, "mapValues")
    c = rng.randrange(4)
    none = rng.random() < .3
    g = (lambda v: None) if none else (lambda v: v)
    r = t.mapValues(g)
    expect(rows(r) == [(k, g(v)) for k, v in before], "mapValues keeps rows whatever the function returns", got=rows(r)); unchanged(t, before, "mapValues")
    m = rng.randint(1, 4); ix = {k: i for i, (k, _) in enumerate(before)}
    preds = [lambda k, v: ix[k] % m == 0, lambda k, v: False, lambda k, v: True, lambda k, v: bool(v)]
    f = preds[c]
    if rng.random() < .3:
        import numpy as np
        f0 = f; f = lambda k, v: rng_kind(f0(k, v))
        rng_kind = rng.choice([np.bool_, int, float])
    r = t.filter(f)
    expect(rows(r) == [(k, v) for k, v in before if f(k, v)], "filter keeps exactly the rows for which the predicate is true, in order", got=rows(r), table=before); unchanged(t, before, "filter")
    for n in {0, 1, -1, small_int(rng, F, 0, 60), len(before), len(before) + 1}:
        r = t.take(n)
        expect(list(r) == before[:max(n, 0)], "take(%d) is the first rows" % n, got=r, want=before[:max(n, 0)]); unchanged(t, before, "take")
    expect(list(t.take()) == before[:1], "take() is the first row", got=t.take())
    r = t.first()
    expect(r == (before[0][1] if before else None), "first row", got=r, table=before); unchanged(t, before, "first")
    # growing the result leaves the source alone
    vs = [v for _, v in before]; u = DT(False, vs)
    expect(rows(u) == list(enumerate(vs)), "construction without keys numbers the rows", got=rows(u), want=vs)
    if before:
        dup = copies(before); dup.insert(rng.randint(0, len(dup)), copies(rng.choice(dup)))
        try: DT(True, dup)
        except Exception: pass
        else: expect(False, "duplicate keys are refused", data=dup)

@dyn("C01", 60, 400)
def partitions(rng, case):
    DT = T(); p = pairs(rng); before = copies(p); t = DT(True, p); seen = []
    out = [rng.randint(0, 9) for _ in range(rng.randint(0, 5))]
    r = t.mapPartitions(lambda kvs: (seen.append(list(kvs)), list(out))[1])
    expect(len(seen) == 1 and seen[0] == before, "the partition mapper sees every row once in order", got=seen, want=before)
    expect(rows(r) == list(enumerate(out)), "mapPartitions numbers the mapper's output from zero", got=rows(r), want=out); unchanged(t, before, "mapPartitions")

@dyn("C02", 500, 6000)
def set_algebra(rng, case):
    DT = T(); mk = rng.choice(KEYS); mv, mw = vals(rng), vals(rng)
    univ = []
    for _ in range(small_int(rng, F, 0, 40)):
        k = mk(rng)
        if k not in univ: univ.append(k)
    a = [(k, mv()) for k in univ if rng.random() < rng.choice([.5, .9, .1])]; b = [(k, mw()) for k in univ if rng.random() < rng.choice([.5, .9, .1])]
    rng.shuffle(a); rng.shuffle(b)
    ba, bb = copies(a), copies(b); t, u = DT(True, a), DT(True, b); A, B_ = dict(ba), dict(bb)
    f = lambda x, y: ("L", x, "R", y)
    for nm, fn in (("combiner", f), ("default", None)):
        g = fn or (lambda x, y: x)
        ar = (fn,) if fn else ()
        r = t.join(u, *ar); want = {k: g(A[k], B_[k]) for k in A if k in B_}
        expect(dict(rows(r)) == want and len(rows(r)) == len(want), "join (%s)" % nm, got=rows(r), left=ba, right=bb)
        unchanged(t, ba, "join"); unchanged(u, bb, "join")
        r = t.union(u, *ar); want = {k: (g(A[k], B_[k]) if k in A and k in B_ else A[k] if k in A else B_[k]) for k in list(A) + list(B_)}
        expect(dict(rows(r)) == want and len(rows(r)) == len(want), "union (%s)" % nm, got=rows(r), left=ba, right=bb)
        unchanged(t, ba, "union"); unchanged(u, bb, "union")
    r = t.subtractByKey(u); want = {k: v for k, v in A.items() if k not in B_}
    expect(dict(rows(r)) == want and len(rows(r)) == len(want), "subtractByKey", got=rows(r), left=ba, right=bb)
    unchanged(t, ba, "subtract"); unchanged(u, bb, "subtract")
    # combining functions that update their first argument in place must not reach the inputs
    la, lb = [(k, [1]) for k, _ in a], [(k, [2]) for k, _ in b]
    t2, u2 = DT(True, copies(la)), DT(True, copies(lb))
    r = t2.union(u2, lambda x, y: x + y); 
    expect(dict(rows(r)) == {k: ([1] if k in A else []) + ([2] if k in B_ else []) for k in list(A) + list(B_)}, "union of lists", got=rows(r))
    unchanged(t2, la, "union"); unchanged(u2, lb, "union")
    def inplace(x, y): x.extend(y); return x
    r = t2.union(u2, inplace)
    expect(dict(rows(r)) == {k: ([1] if k in A else []) + ([2] if k in B_ else []) for k in list(A) + list(B_)}, "union with an updating combiner", got=rows(r))
    unchanged(t2, la, "union with an updating combiner"); unchanged(u2, lb, "union with an updating combiner")

@dyn("C03", 500, 6000)
def reductions(rng, case):
    DT = T(); p = [(k, rng.choice([0, "", (), 1, "ab", (1,), False, [], [3]]) if rng.random() < .5 else rng.randint(0, 9)) for k, _ in pairs(rng)]
    before = copies(p); t = DT(True, p)
    f = lambda x, y: ("f", x, y)
    r = t.reduce(f); w = None
    for i, (_, v) in enumerate(before): w = v if i == 0 else f(w, v)
    expect(r == w, "reduce is the left fold of all rows", got=r, want=w, rows=before); unchanged(t, before, "reduce")
    ks = [rng.choice([0, 1, 2, "a", "", (1, 2)]) for _ in range(small_int(rng, F, 0, 40))]
    em = [(k, rng.choice([0, [], "", 5, i])) for i, k in enumerate(ks)]; seen = []
    r = t.mapReducePartitions(lambda kvs: (seen.append(list(kvs)), copies(em))[1], f)
    want = {}
    for k, v in em: want[k] = v if k not in want else f(want[k], v)
    expect(len(seen) == 1 and seen[0] == before, "the mapper sees every row once in order", got=seen, want=before)
    expect(dict(rows(r)) == want and len(rows(r)) == len(want), "mapReducePartitions folds per emitted key in emission order", got=rows(r), want=want, emitted=em); unchanged(t, before, "mapReducePartitions")
    out = [rng.choice([0, None, "x", []]) for _ in range(small_int(rng, F, 0, 20))]
    r = t.mapPartitions(lambda kvs: list(out))
    expect(rows(r) == list(enumerate(out)), "mapPartitions numbers the mapper's output from zero", got=rows(r), want=out); unchanged(t, before, "mapPartitions")
    # a whole-table mapper that produces per-row lists, as the callers use it
    r = t.mapReducePartitions(lambda kvs: [(len(str(k)), [v]) for k, v in kvs], lambda a, b: a + b)
    want = {}
    for k, v in before: want.setdefault(len(str(k)), []).append(v)
    expect(dict(rows(r)) == want, "mapReducePartitions groups", got=rows(r), want=want)
