"""C10, C11 on the real binning and quantile summaries."""
from .base import *
import copy, math, bisect
import numpy as np
FB = ("ml/feature/binning/base_binning.py", "ml/feature/binning/quantile_binning.py"); FQ = ("ml/feature/quantile_summaries.py",)
def mk():
    return (api("ml.feature.binning.quantile_binning:QuantileBinning"), api("ml.param.feature_binning_param:FeatureBinningParam"), api("ml.feature.instance:Instance"), api("ml.feature.sparse_vector:SparseVector"), api("computing.d_table:DTable"))
def value(rng, kind):
    ints, floats, _ = mined(*(FB + FQ))
    r = rng.random()
    if r < .12: return 0.0
    if r < .2: return float(rng.choice(ints + floats or [1]))
    if r < .26: return rng.choice([1.0, -1.0, 0.5, -0.5, 1e-7, -1e-7, 1e-6, -1e-6, 1e300, -1e300, 2.0 ** 31])
    if kind == 0: return float(rng.randint(-4, 4))
    if kind == 1: return rng.uniform(-2, 2)
    if kind == 2: return rng.gauss(0, 1) * 10 ** rng.randint(-3, 3)
    return float(rng.randint(0, 30))
def rows_of(rng, n, d):
    kinds = [rng.randrange(4) for _ in range(d)]
    return [[value(rng, kinds[j]) if rng.random() < .8 else 0.0 for j in range(d)] for _ in range(n)]
def table(rng, rows, sparse, header, explicit=None):
    QB, P, I, SV, T = mk()
    out = []
    for i, r in enumerate(rows):
        if sparse:
            idx = [j for j in range(len(r)) if r[j] != 0 or (explicit and (i, j) in explicit)]
            if rng.random() < .3: idx = idx[::-1]
            f = SV(list(idx), [r[j] for j in idx], len(r))
        else: f = np.array(r, dtype=float)
        out.append((i, I(inst_id=i, features=f, label=rng.choice([0, 1]))))
    t = T(True, out); t.schema = {"header": list(header)}
    return t
def feats(inst):
    f = inst.features
    return dict(f.get_all_data()) if type(f).__name__ == "SparseVector" else [x for x in f]
def first_not_smaller(x, sp):
    for i, s in enumerate(sp):
        if x <= s: return i
    return len(sp)
def cp(x): return copy.deepcopy(x)

@dyn("C10", 600, 10000)
def convert(rng, case):
    QB, P, I, SV, T = mk()
    d = rng.randint(1, 5); n = rng.choice([1, 2, 5, 20, 60]); rows = rows_of(rng, n, d)
    header = ["x%d" % i for i in range(d)]; rng.shuffle(header)
    explicit = {(i, j) for i in range(n) for j in range(d) if rng.random() < .1}
    sparse = rng.random() < .5
    t = table(rng, rows, sparse, header, explicit)
    cols = -1
    if rng.random() < .3: cols = sorted(rng.sample(range(d), rng.randint(1, d)))
    p = P(bin_num=rng.choice([2, 3, 4, 10, 32]), cols=cols); b = QB(p)
    b.fit_split_points(t)
    fitted = list(range(d)) if cols == -1 else cols
    own = None
    if rng.random() < .5:
        # arbitrary increasing split points
        own = {h: sorted({value(rng, rng.randrange(4)) for _ in range(rng.randint(0 if rng.random() < .2 else 1, 6))}) for h in header}
        b.split_points = {header[j]: own[header[j]] for j in fitted}
    sp = b.split_points
    sel = -1 if rng.random() < .6 else sorted(rng.sample(fitted, rng.randint(1, len(fitted))))
    chosen = fitted if sel == -1 else sel
    target, trows = t, rows
    if rng.random() < .3:
        trows = rows_of(rng, rng.randint(1, 10), d); target = table(rng, trows, sparse, header)
    before = [(k, cp(feats(v)), v.label, v.inst_id) for k, v in target.collect()]
    insts = {k: v for k, v in target.collect()}; fobj = {k: v.features for k, v in insts.items()}
    new, sp_out, zero = b.convert_feature_to_bin(target, sel) if sel != -1 else b.convert_feature_to_bin(target)
    got = dict(new.collect())
    expect(sorted(got) == list(range(len(trows))), "one converted row per row", got=sorted(got))
    for i, r in enumerate(trows):
        f = feats(got[i])
        for j in range(d):
            if isinstance(f, dict):
                present = r[j] != 0 or (target is t and (i, j) in explicit)
                expect((j in f) == present, "the same features are present", row=i, col=j, got=f)
                if not present: continue
            want = first_not_smaller(r[j], sp[header[j]]) if j in chosen else r[j]
            expect(f[j] == want, "bin number of a feature value" if j in chosen else "a feature not selected keeps its value", value=r[j], splits=list(sp[header[j]]) if j in chosen else None, got=f[j], want=want)
        expect(got[i].label == insts[i].label and got[i].inst_id == i, "label and identifier are kept", row=i)
        if isinstance(f, dict): expect(got[i].features.get_shape() == d, "shape is kept", got=got[i].features.get_shape())
    for j in chosen: expect(zero[j] == first_not_smaller(0, sp[header[j]]), "bin of zero", splits=list(sp[header[j]]), got=zero[j])
    k = 0
    for j in range(d):
        if header[j] in sp:
            expect(list(sp_out[k]) == list(sp[header[j]]), "the split points are returned in column order", col=j, got=sp_out[k], want=sp[header[j]]); k += 1
    expect([(k, cp(feats(v)), v.label, v.inst_id) for k, v in target.collect()] == before and all(target.collect()) and all(insts[k] is v for k, v in target.collect()) and all(v.features is fobj[k] for k, v in insts.items()), "the caller's rows are unchanged", before=before, after=[(k, feats(v)) for k, v in target.collect()])
    expect((new.schema or {}).get("header") == header, "the header is kept", got=new.schema)
    # converting again gives the same
    again = dict((b.convert_feature_to_bin(target, sel) if sel != -1 else b.convert_feature_to_bin(target))[0].collect())
    expect(all(feats(again[k]) == feats(got[k]) if isinstance(feats(again[k]), dict) else list(feats(again[k])) == list(feats(got[k])) for k in got), "converting twice gives the same bins")

@dyn("C10", 300, 4000)
def dense_and_sparse(rng, case):
    QB, P, I, SV, T = mk()
    d = rng.randint(1, 4); rows = rows_of(rng, rng.choice([1, 3, 10, 40]), d); header = ["a%d" % i for i in range(d)]
    sp = {h: sorted({value(rng, rng.randrange(4)) for _ in range(rng.randint(1, 6))}) for h in header}
    res = []
    for sparse in (False, True):
        t = table(rng, rows, sparse, header, None)
        b = QB(P(bin_num=4)); b.fit_split_points(t); b.split_points = sp
        new, _, zero = b.convert_feature_to_bin(t)
        full = []
        for i in range(len(rows)):
            f = feats(dict(new.collect())[i])
            full.append([f.get(j, zero[j]) for j in range(d)] if isinstance(f, dict) else [int(x) for x in f])
        res.append((full, dict(zero)))
    expect(res[0] == res[1], "dense and sparse rows with the same values get the same bins", rows=rows, splits=sp, dense=res[0], sparse=res[1])

@dyn("C10", 400, 4000)
def bin_search(rng, case):
    QB = mk()[0]
    sp = sorted({value(rng, rng.randrange(4)) for _ in range(rng.randint(0, 8))})
    for x in [value(rng, rng.randrange(4)) for _ in range(5)] + sp + [s + 1e-9 for s in sp[:2]] + [np.nextafter(s, 1e308) for s in sp[:2]] + [np.nextafter(s, -1e308) for s in sp[:2]]:
        expect(QB.get_bin_num(x, sp) == first_not_smaller(x, sp), "bin number", value=x, splits=sp, got=QB.get_bin_num(x, sp))
        expect(QB.get_bin_num(x, np.array(sp)) == first_not_smaller(x, sp), "bin number (array)", value=x, splits=sp)

# ---- quantile summaries -----------------------------------------------------------------------------
def stream(rng, n):
    k = rng.randrange(7)
    if k == 0: return [float(rng.randint(0, 9)) for _ in range(n)]
    if k == 1: return [rng.random() for _ in range(n)]
    if k == 2: return [float(i) for i in range(n)]
    if k == 3: return [float(n - i) for i in range(n)]
    if k == 4: return [rng.gauss(0, 1) for _ in range(n)]
    if k == 5: return [float(i if i % 2 else n - i) for i in range(n)]
    return [0.0] * n if rng.random() < .3 else [float(i // 7) for i in range(n)]
def true_rank(srt, v): return bisect.bisect_left(srt, v) + 1, bisect.bisect_right(srt, v)
def check_summary(s, vals, what, **info):
    srt = sorted(vals)
    w = [x.g for x in s.sampled]
    expect(s.count == sum(w) and s.count + len(s.head_sampled) == len(vals), "%s: the weights add up to the number of values inserted" % what, weights=sum(w), count=s.count, buffered=len(s.head_sampled), inserted=len(vals), **info)
    vs = [x.value for x in s.sampled]
    expect(vs == sorted(vs), "%s: retained values are in order" % what, values=vs[:50], **info)
    expect(not set(vs) - set(srt), "%s: retained values are inserted ones" % what, extra=list(set(vs) - set(srt))[:5], **info)
def check_query(s, vals, rng, what, **info):
    srt = sorted(vals); n = len(srt)
    if not n: return
    prev = None
    for p in sorted([0.0, 1.0, .5, s.error, 1 - s.error] + [rng.random() for _ in range(12)] + [i / 8 for i in range(1, 8)]):
        if not 0 <= p <= 1: continue
        v = s.query(p)
        expect(v in set(srt), "%s: a quantile is an inserted value" % what, p=p, got=v, **info)
        lo, hi = true_rank(srt, v); r = math.ceil(p * n); tol = math.ceil(s.error * n) + 1
        expect(lo - tol <= r <= hi + tol, "%s: a quantile is within its rank error" % what, p=p, n=n, error=s.error, wanted_rank=r, got_rank=(lo, hi), got=v, **info)
    check_summary(s, vals, what + " after a query", **info)
@dyn("C11", 500, 8000)
def summaries(rng, case):
    S = api("ml.feature.quantile_summaries:QuantileSummaries")
    err = rng.choice([.0001, .001, .01, .05, .1, .2, .3]); ct = rng.choice([2, 5, 10, 50, 1000]); hs = rng.choice([1, 2, 3, 7, 20, 100])
    pool = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s, vals = S(ct, hs, err), []
        for x in stream(rng, rng.choice([0, 1, 2, 5, 30, 150, 400])):
            s.insert(x); vals.append(x)
            if rng.random() < .02: s.compress()
        pool.append((s, vals))
    info = dict(rel_error=err, compress_thres=ct, head_size=hs)
    for s, v in pool: check_summary(s, v, "after inserts", **info)
    if rng.random() < .7:
        for s, v in pool: check_query(s, v, rng, "inserts", **info)
    while len(pool) > 1:
        (a, va), (b, vb) = pool[0], pool[1]
        nb = len(vb)
        a.merge(b); va = va + vb
        check_summary(a, va, "after a merge", **info); check_summary(b, vb, "the other summary after a merge", **info)
        if rng.random() < .5:
            for x in stream(rng, rng.randint(1, 60)): a.insert(x); va.append(x)
            check_summary(a, va, "inserts after a merge", **info)
            check_summary(b, vb, "the other summary after a merge and inserts", **info)
        check_query(a, va, rng, "merged", **info)
        check_summary(b, vb, "the other summary after the merged one is queried", **info)
        pool = [(a, va)] + pool[2:]
    s, v = pool[0]
    s.compress(); check_summary(s, v, "after compress", **info); check_query(s, v, rng, "compressed", **info)
    for bad in (-.1, 1.1):
        try: s.query(bad)
        except ValueError: pass
        else: expect(False, "a quantile outside [0, 1] is refused", p=bad)
@dyn("C11", 100, 1000)
def abnormal(rng, case):
    S = api("ml.feature.quantile_summaries:QuantileSummaries")
    ab = [float(rng.randint(0, 5)), -9999.0]
    s = S(rng.choice([5, 100]), rng.choice([1, 4, 50]), .05, abnormal_list=list(ab)); vals = []
    for x in [float(rng.randint(0, 9)) for _ in range(rng.randint(1, 80))]:
        s.insert(x)
        if x not in ab: vals.append(x)
    check_summary(s, vals, "with abnormal values")
    check_query(s, vals, rng, "with abnormal values")
@dyn("C11", 300, 5000)
def split_points(rng, case):
    QB, P, I, SV, T = mk()
    d = rng.randint(1, 4); n = rng.choice([1, 2, 3, 10, 50, 300]); header = ["x%d" % i for i in range(d)]
    sparse = rng.random() < .5
    colv = [stream(rng, n) if rng.random() < .5 else [value(rng, rng.randrange(4)) for _ in range(n)] for _ in range(d)]
    for c in colv:
        rng.random() < .5 and rng.shuffle(c)
        z = rng.choice([0, .3, .8]) if sparse else 0
        for i in range(n):
            if rng.random() < z: c[i] = 0.0
            if 0 < abs(c[i]) < 1e-5: c[i] = 0.0
    rows = [[colv[j][i] for j in range(d)] for i in range(n)]
    explicit = {(i, j) for i in range(n) for j in range(d) if rng.random() < .05} if rng.random() < .3 else set()
    t = table(rng, rows, sparse, header, explicit)
    kw = dict(bin_num=rng.choice([2, 3, 5, 10, 32]))
    if rng.random() < .7: kw.update(compress_thres=rng.choice([5, 20, 500]), head_size=rng.choice([2, 10, 100]), error=rng.choice([.001, .01, .05, .1]))
    cols = -1 if rng.random() < .7 else sorted(rng.sample(range(d), rng.randint(1, d)))
    b = QB(P(cols=cols, **kw)); b.fit_split_points(t)
    fitted = range(d) if cols == -1 else cols
    expect(sorted(b.split_points) == sorted(header[j] for j in fitted), "split points for every selected column", got=sorted(b.split_points))
    for j in fitted:
        sp = list(b.split_points[header[j]]); srt = sorted(colv[j]); err = b.params.error
        nz = [x for i, x in enumerate(colv[j]) if x != 0 or (i, j) in explicit]
        expect(all(x in set(srt) or (sparse and x == 0) for x in sp), "split points are values of the column", got=sp, column=srt[:40])
        expect(all(a < c for a, c in zip(sp, sp[1:])), "split points increase", got=sp, column=colv[j][:60], **kw)
        expect(1 <= len(sp) <= kw["bin_num"] - 1, "between one and bin_num - 1 split points", got=len(sp))
        tol = math.ceil(err * n) + (3 if sparse else 1)
        for k in range(1, kw["bin_num"]):
            r = math.ceil(k / kw["bin_num"] * n)
            near = lambda v, a, r: true_rank(a, v)[0] - tol <= r <= true_rank(a, v)[1] + tol
            # (sparse: the stored values left and right of the implicit zeros are ranked among themselves)
            snz = sorted(nz); below = sum(x < 1e-6 for x in nz); gap = n - len(nz)
            expect(any(near(v, srt, r) or (sparse and near(v, snz, r if r <= below else max(below, r - gap))) for v in sp), "each quantile has a split point within the rank error", quantile=k, rank=r, n=n, got=sp, ranks=[true_rank(srt, v) for v in sp], column=srt[:60], sparse=sparse, **kw)
@dyn("C10", 300, 5000)
def alignment(rng, case):
    """dense rows made sparse before training: the values stay, those within 1e-6 of zero are left out"""
    B = api("ml.tree.boosting_tree:BoostingTree"); QB, P, I, SV, T = mk()
    d = rng.randint(1, 6); n = rng.randint(1, 8); rows = rows_of(rng, n, d); sparse = rng.random() < .4
    header = ["x%d" % i for i in range(d)]
    t = table(rng, rows, sparse, header)
    before = [(k, copy.deepcopy(v.__dict__)) for k, v in t.collect()]; fb = [feats(v) for _, v in t.collect()]
    got = B().data_alignment(t)
    info = dict(rows=rows, sparse=sparse)
    expect([k for k, _ in got.collect()] == list(range(n)) and got.schema.get("header") == header, "the keys or the header change", got=got.collect(), **info)
    for (k, v), r in zip(got.collect(), rows):
        expect(type(v.features).__name__ == "SparseVector", "a row is not sparse", got=v, **info)
        want = {j: x for j, x in enumerate(r) if (x != 0 if sparse else abs(x) >= 1e-6)}
        expect(dict(v.features.get_all_data()) == want and v.features.get_shape() == d and v.label == dict(before)[k]["label"] and v.inst_id == dict(before)[k]["inst_id"], "a row's values change", got=v, want=want, **info)
    expect(all(type(a.features) is type(dict(before)[k]["features"]) for k, a in t.collect()) and [repr(feats(v)) for _, v in t.collect()] == [repr(x) for x in fb], "the caller's rows change", **info)
