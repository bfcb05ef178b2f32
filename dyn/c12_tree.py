"""C12, C13, C14, C15, C16, C17, C21 on the real trees, histograms and split finder (one federated tree at a time)."""
from .base import *
from . import fed
from fractions import Fraction as Fr
import copy, math
import numpy as np
FT = ("ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/splitter.py", "ml/tree/creterion.py", "ml/tree/feateur_histogram.py")
EPS = 1e-6
def T(rows):
    DT = api("computing.d_table:DTable")
    t = DT(True, list(rows)); t.schema = {"header": []}
    return t
def arr(lists):
    """the project's split points: an object array of arrays"""
    r = np.empty(len(lists), dtype=object)
    for i, l in enumerate(lists): r[i] = np.array(l)
    return r
def tree_param(rng, **kw):
    P = api("ml.param.boosting_tree_param:DecisionTreeParam")
    p = P(criterion_params=[kw.get("lam", 1)], max_depth=kw.get("max_depth", 3), min_sample_split=kw.get("mss", 2),
          min_imputiry_split=kw.get("mis", 0), min_leaf_node=kw.get("mln", 1), max_split_nodes=kw.get("msn", 65536),
          feature_importance_type=kw.get("fit", "split"))
    return p

class Party:
    """one party's view: real values, split points, bins"""
    def __init__(self, rng, ids, d, nb):
        self.d = d
        self.sp = []
        for j in range(d):
            k = rng.randint(1, nb)
            self.sp.append(sorted(rng.sample(range(-6, 7), k)))
        if rng.random() < .15:
            self.sp = [s[:1] for s in self.sp]
        # raw values: integers and halves, zero often absent (sparse)
        self.raw = {}; self.bins = {}
        self.zero = {j: self.bin(j, 0) for j in range(d)}
        for i in ids:
            v = {}
            for j in range(d):
                x = rng.choice([0, rng.randint(-8, 8), rng.randint(-16, 16) / 2])
                if x != 0 or rng.random() < .15: v[j] = x
            self.raw[i] = v
            self.bins[i] = {j: self.bin(j, x) for j, x in v.items()}
        self.valid = [rng.random() < .8 for _ in range(d)]
        if not any(self.valid): self.valid[rng.randrange(d)] = True
    def bin(self, j, x):
        for b, s in enumerate(self.sp[j]):
            if x <= s: return b
        return len(self.sp[j]) - 1      # values above the last split point share the last bin, as the binning does
    def binof(self, i, j): return self.bins[i].get(j, self.zero[j])
    def rawof(self, i, j): return self.raw[i].get(j, 0)
    def table(self, ids, what, labels=None):
        I = api("ml.feature.instance:Instance"); SV = api("ml.feature.sparse_vector:SparseVector")
        return T([(i, I(inst_id=i, label=labels[i] if labels else None, features=SV(list(what[i].keys()), list(what[i].values()), self.d))) for i in ids])

class Fed: pass
def grow(rng, hosts=None, big=False, lists=None):
    G = api("ml.tree.hetero_decision_tree_guest:HeteroDecisionTreeGuest"); H = api("ml.tree.hetero_decision_tree_host:HeteroDecisionTreeHost")
    f = Fed()
    alone = hosts is None and rng.random() < .12      # the copy without federation
    if alone: G = api("xgboost.hetero_decision_tree_guest:HeteroDecisionTreeGuest")
    n = rng.choice([2, 3, 6, 10, 16] + ([40] if big else []))
    f.ids = rng.sample(range(1000), n) if rng.random() < .5 else ["s%d" % i for i in range(n)]
    nh = 0 if alone else hosts or rng.choice([1, 1, 2, 3])
    f.guest = Party(rng, f.ids, rng.randint(1, 3), rng.choice([2, 4, 6])); f.hosts = [Party(rng, f.ids, rng.randint(1, 3), rng.choice([2, 4, 6])) for _ in range(nh)]
    if nh and rng.random() < .25:     # a tie between parties
        h = rng.choice(f.hosts); h.raw = copy.deepcopy(f.guest.raw); h.bins = copy.deepcopy(f.guest.bins); h.sp = copy.deepcopy(f.guest.sp); h.zero = dict(f.guest.zero); h.d = f.guest.d; h.valid = list(f.guest.valid)
    if rng.random() < .2:      # the guest knows nothing useful
        for i in f.ids: f.guest.raw[i] = {}; f.guest.bins[i] = {}
    f.g = {i: Fr(rng.randint(-20, 20), rng.choice([1, 2, 3, 10])) for i in f.ids}; f.h = {i: Fr(rng.randint(1, 20), 20) for i in f.ids}
    if rng.random() < .1: f.g = {i: Fr(1) for i in f.ids}
    f.kw = dict(lam=rng.choice([0, 1, 0.5, 0.1, 2]), max_depth=rng.randint(1, 5 if big else 4), mss=small_int(rng, FT, 0, 6), mis=rng.choice([0, 0.001, 0.01, 0.5, 3]), mln=small_int(rng, FT, 1, 4),
                msn=rng.choice([1, 2, 3, 65536]), fit=rng.choice(["split", "gain"]))
    p = tree_param(rng, **f.kw)
    gt = G(p); e = fed.Encrypter()
    gt.set_inputinfo(f.guest.table(f.ids, f.guest.bins, {i: 0 for i in f.ids}), T([(i, (f.g[i], f.h[i])) for i in f.ids]), arr(f.guest.sp), dict(f.guest.zero))
    gt.set_valid_features(list(f.guest.valid)); gt.set_encrypter(e); gt.set_encrypted_mode_calculator(fed.Calculator(e)); gt.set_flowid("0")
    f.bus = fed.Bus(nh); gt.set_transfer_inst(fed.GuestLink(f.bus))
    hts = []
    for k, h in enumerate(f.hosts):
        ht = H(tree_param(rng, **f.kw)); ids = list(f.ids); rng.shuffle(ids)
        ht.set_inputinfo(data_bin=h.table(ids, h.bins), bin_split_points=arr(h.sp), bin_sparse_points=dict(h.zero))
        ht.set_flowid("0"); ht.set_runtime_idx(k); ht.set_valid_features(list(h.valid)); ht.set_transfer_inst(fed.HostLink(f.bus, k)); hts.append(ht)
    f.gt, f.hts, f.params = gt, hts, p
    fed.run(f.bus, gt.fit, [t.fit for t in hts])
    f.nodes = gt.tree_
    f.leafw = {k: v for k, v in gt.predict_weights.collect()} if gt.predict_weights is not None else {}
    f.leafn = gt.predict_weights.count() if gt.predict_weights is not None else 0
    f.names = ["host.%d" % k for k in range(nh)]
    return f
def owner(f, node):
    if node.sitename == "guest": return f.guest, f.gt
    k = f.names.index(node.sitename)
    return f.hosts[k], f.hts[k]
def split_of(f, nid):
    """(party, feature, bin) of an internal node, from the owner's own record"""
    nd = f.nodes[nid]
    party, tr = owner(f, nd)
    fid = (nd if nd.sitename == "guest" else tr.tree_[nid]).fid
    thr = tr.split_maskdict[nid]
    return party, fid, thr, party.sp[fid].index(thr) if thr in party.sp[fid] else None
def describe(f): return dict(params=f.kw, ids=f.ids, grad=f.g, hess=f.h, guest_bins=f.guest.bins, guest_splits=f.guest.sp, hosts_bins=[h.bins for h in f.hosts], hosts_splits=[h.sp for h in f.hosts],
                             valid=[f.guest.valid] + [h.valid for h in f.hosts], tree=[n.__dict__ for n in f.nodes], masks=[f.gt.split_maskdict] + [h.split_maskdict for h in f.hts])
def members(f):
    """samples at every node, routed by the owners' bins (independent walk)"""
    at = {0: set(f.ids)}; depth = {0: 0}
    todo = [0]
    while todo:
        k = todo.pop()
        nd = f.nodes[k]
        if nd.is_leaf: continue
        party, fid, thr, b = split_of(f, k)
        expect(b is not None, "C16: a threshold that is not a split point of its feature", node=k, threshold=thr, **describe(f))
        l, r = nd.left_nodeid, nd.right_nodeid
        at[l] = {i for i in at[k] if party.binof(i, fid) <= b}; at[r] = at[k] - at[l]
        depth[l] = depth[r] = depth[k] + 1
        todo += [l, r]
    return at, depth
def gain(gl, hl, gr, hr, lam):
    def q(g, h): return g * g / (h + lam)
    return q(gl, hl) + q(gr, hr) - q(gl + gr, hl + hr)
def candidates(f, party, node_ids):
    out = []
    mln, mss = f.kw["mln"], f.kw["mss"]
    if len(node_ids) < mss: return out
    lam = Fr(f.kw["lam"])
    for j in range(party.d):
        if not party.valid[j]: continue
        for b in range(len(party.sp[j]) + 1):
            L = [i for i in node_ids if party.binof(i, j) <= b]
            if len(L) < mln or len(node_ids) - len(L) < mln: continue
            gl = sum((f.g[i] for i in L), Fr(0)); hl = sum((f.h[i] for i in L), Fr(0)); G = sum((f.g[i] for i in node_ids), Fr(0)); Hs = sum((f.h[i] for i in node_ids), Fr(0))
            out.append((gain(gl, hl, G - gl, Hs - hl, lam), j, b, gl, hl))
    return out
def well_formed(f):
    n = len(f.nodes); seen = {}
    D = describe(f)
    expect(n >= 1, "C14: a tree without nodes", **D)
    for i, nd in enumerate(f.nodes):
        expect(nd.id == i, "C14: node number differs from its place", place=i, **D)
        if nd.is_leaf:
            expect(nd.is_leaf is True and nd.left_nodeid == -1 and nd.right_nodeid == -1, "C14: a leaf with children", node=i, **D)
        else:
            for c in (nd.left_nodeid, nd.right_nodeid):
                expect(isinstance(c, int) and i < c < n and c not in seen, "C14: children are not two later nodes of their own", node=i, **D)
                seen[c] = i
    expect(set(seen) == set(range(1, n)), "C14: a node is nobody's child", **D)
def close(a, b): return a is not None and b is not None and abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(a)), abs(float(b)))
def grown(prop):
    def fn(rng, case):
        f = grow(rng, big=rng.random() < .15)
        D = describe(f)
        if prop in ("C14",):
            well_formed(f)
            at, depth = members(f)
            lam = Fr(f.kw["lam"])
            for i, nd in enumerate(f.nodes):
                g = sum((f.g[k] for k in at[i]), Fr(0)); h = sum((f.h[k] for k in at[i]), Fr(0))
                expect(depth[i] + 1 <= f.kw["max_depth"], "C14: a node deeper than the maximum depth", node=i, **D)
                expect(close(nd.sum_grad, g) and close(nd.sum_hess, h), "C14: a node's sums are not those of its samples", node=i, want=(g, h), **D)
                expect(close(nd.weight, -g / (lam + h)), "C14: a node's output is not -G/(H+lambda)", node=i, want=-g / (lam + h), **D)
        if prop == "C15":
            at, depth = members(f)
            leaf = {}
            for i, nd in enumerate(f.nodes):
                if nd.is_leaf:
                    for k in at[i]: leaf[k] = nd.weight
            if depth and max(depth.values()) <= f.kw["max_depth"]:
                expect(f.leafn == len(f.leafw) and set(f.leafw) == set(f.ids), "C15: a sample is lost, repeated or not at a leaf", got=f.leafw, **D)
                for k in f.ids: expect(close(f.leafw[k], leaf[k]), "C15: a sample takes the weight of a leaf that is not its own", sample=k, got=f.leafw[k], want=leaf[k], **D)
        if prop == "C13":
            at, depth = members(f)
            mis = f.kw["mis"]
            imp = {}
            for i, nd in enumerate(f.nodes):
                if depth[i] + 1 >= f.kw["max_depth"] and nd.is_leaf: continue
                ids = at[i]
                cg = candidates(f, f.guest, ids); ch = [candidates(f, h, ids) for h in f.hosts]
                best = max([c[0] for c in cg] + [c[0] for hh in ch for c in hh], default=None)
                if nd.is_leaf:
                    expect(best is None or best <= mis + EPS, "C13: a node is not split although a candidate exceeds the minimum gain", node=i, best=float(best or 0), **D)
                    continue
                party, fid, thr, b = split_of(f, i)
                mine = cg if party is f.guest and nd.sitename == "guest" else ch[f.names.index(nd.sitename)]
                c = [x for x in mine if x[1] == fid and x[2] == b]
                expect(c, "C13: the chosen split is not an admissible candidate", node=i, feature=fid, bin=b, **D)
                g = c[0][0]
                expect(float(g) > mis - 1e-9, "C13: the chosen split does not exceed the minimum gain", node=i, gain=float(g), **D)
                tol = EPS if nd.sitename == "guest" else 1e-12
                if nd.sitename != "guest":
                    bg = max([x[0] for x in cg], default=None)
                    expect(bg is None or bg <= mis or bg < g - EPS + 1e-12, "C13: the guest's equally good split loses a tie", node=i, **D)
                expect(g >= best - tol - 1e-12, "C13: a better admissible split exists", node=i, gain=float(g), best=float(best), **D)
                l = f.nodes[nd.left_nodeid]
                expect(close(l.sum_grad, c[0][3]) and close(l.sum_hess, c[0][4]), "C13: the sums reported are not those of the left side", node=i, **D)
                k = (nd.sitename, fid); imp[k] = imp.get(k, 0) + (1 if f.kw["fit"] == "split" else float(g))
            got = f.gt.get_feature_importance()
            expect(set(got) == set(imp) and all(close(got[k], imp[k]) for k in imp), "C13: feature importances do not add up the chosen splits", got=got, want=imp, **D)
        if prop == "C16":
            at, depth = members(f)
            f.bus.log.clear()
            ids = list(f.ids); rng.shuffle(ids)
            order = list(f.ids); rng.shuffle(order)
            pred = fed.run(f.bus, lambda: f.gt.predict(f.guest.table(ids, f.guest.raw, {i: 0 for i in ids})), [lambda k=k: f.hts[k].predict(f.hosts[k].table(order, f.hosts[k].raw)) for k in range(len(f.hosts))])
            got = dict(pred.collect())
            expect(pred.count() == len(ids) and set(got) == set(ids), "C16: prediction loses or repeats samples", got=got, **D)
            for i in ids:
                w = walk(f, i, lambda party, j: party.rawof(i, j))
                expect(close(got[i], w), "C16: the leaf reached is not the one the features dictate", sample=i, got=got[i], want=w, **D)
                if f.kw["mln"] >= 1: expect(close(got[i], f.leafw.get(i)), "C16: a training row is predicted into another leaf than it was trained in", sample=i, got=got[i], want=f.leafw.get(i), **D)
    fn.__name__ = "federated_tree"
    return fn
def walk(f, i, value):
    k = 0
    for _ in range(len(f.nodes) + 1):
        nd = f.nodes[k]
        if nd.is_leaf: return nd.weight
        party, tr = owner(f, nd)
        fid = (nd if nd.sitename == "guest" else tr.tree_[k]).fid
        k = nd.left_nodeid if value(party, fid) <= tr.split_maskdict[k] else nd.right_nodeid
    expect(False, "C14: a walk from the root does not end at a leaf", **describe(f))
for _p, _q, _t in (("C13", 150, 3000), ("C14", 150, 3000), ("C15", 150, 3000), ("C16", 150, 3000)):
    dyn(_p, _q, _t, name="federated_tree")(grown(_p))

# ---------------------------------------------------------------- C12
def hist_case(rng, enc):
    n = rng.choice([0, 1, 2, 5, 12, 30]); d = rng.randint(1, 4)
    sp = [sorted(rng.sample(range(-6, 7), rng.randint(1, 5))) for _ in range(d)]
    if rng.random() < .2:
        k = rng.randint(1, 4); sp = [sorted(rng.sample(range(-6, 7), k)) for _ in range(d)]   # equally many: a rectangular array
    zero = {j: rng.randint(0, len(sp[j])) for j in range(d)}
    nodes = rng.sample(range(12), rng.randint(1, 4))
    other = [k for k in range(14) if k not in nodes]
    valid = [rng.random() < .75 for _ in range(d)] if rng.random() < .9 else [True] * d
    rows = []
    for i in range(n):
        b = {j: rng.randint(0, len(sp[j])) for j in range(d) if rng.random() < .7}
        nid = rng.choice(nodes) if rng.random() < .85 else rng.choice(other)
        g, h = Fr(rng.randint(-50, 50), rng.choice([1, 3, 7])), Fr(rng.randint(0, 9), 7)
        rows.append((i, b, nid, 1 if rng.random() < .9 else 0, g, h))
    return n, d, sp, zero, nodes, valid, rows
def unw(x): return x.v if isinstance(x, fed.Enc) else x
@dyn("C12", 600, 20000)
def histogram(rng, case):
    FH = api("ml.tree.feateur_histogram:FeatureHistogram"); I = api("ml.feature.instance:Instance"); SV = api("ml.feature.sparse_vector:SparseVector")
    enc = rng.random() < .4
    n, d, sp, zero, nodes, valid, rows = hist_case(rng, enc)
    if n == 0: return
    E = fed.Enc if enc else (lambda x: x)
    rows_l = list(rows); rng.shuffle(rows_l)
    data = T([(i, (I(inst_id=i, features=SV(list(b.keys()), list(b.values()), d)), (st, nid))) for i, b, nid, st, g, h in rows])
    gh = T([(i, (E(g), E(h))) for i, b, nid, st, g, h in rows_l])
    nm = {nid: k for k, nid in enumerate(nodes)}
    bsp = arr(sp) if len({len(s) for s in sp}) > 1 or rng.random() < .5 else np.array(sp)
    before = repr(data.collect()), [(k, (unw(a), unw(b))) for k, (a, b) in gh.collect()]
    if rng.random() < .15:      # no selection: all features
        valid = [True] * d; got = FH.calculate_histogram(data, gh, bsp, dict(zero), None, dict(nm)) if rng.random() < .5 else FH.calculate_histogram(data, gh, bsp, dict(zero), node_map=dict(nm))
    else: got = FH.calculate_histogram(data, gh, bsp, dict(zero), list(valid), dict(nm))
    info = dict(rows=rows, split_points=sp, zero=zero, nodes=nodes, valid=valid, ciphertexts=enc)
    def want(upto):
        w = []
        for nid in nodes:
            fs = []
            for j in range(d):
                if not valid[j]: fs.append([]); continue
                fs.append([[sum(((g, h, 1)[r] for i, b, k, st, g, h in rows if st == 1 and k == nid and (b.get(j, zero[j]) == x if not upto else b.get(j, zero[j]) <= x)), 0) for r in range(3)] for x in range(len(sp[j]) + 1)])
            w.append(fs)
        return w
    def plain(hh): return [[[[unw(x) for x in b] for b in f] for f in nd] for nd in hh]
    p = plain(got)
    expect(p == want(False), "a histogram cell is not the sum over the node's samples in that bin", got=p, want=want(False), **info)
    acc = plain(FH.accumulate_histogram(got))
    expect(acc == want(True), "accumulated histograms are not running totals", got=acc, want=want(True), **info)
    expect(before == (repr(data.collect()), [(k, (unw(a), unw(b))) for k, (a, b) in gh.collect()]), "building histograms changes its input", **info)
@dyn("C12", 300, 6000)
def partitions(rng, case):
    """the histograms of two partitions add up to the histogram of all rows"""
    FH = api("ml.tree.feateur_histogram:FeatureHistogram"); I = api("ml.feature.instance:Instance"); SV = api("ml.feature.sparse_vector:SparseVector")
    n, d, sp, zero, nodes, valid, rows = hist_case(rng, False)
    nm = {nid: k for k, nid in enumerate(nodes)}
    kv = [(i, ((I(inst_id=i, features=SV(list(b.keys()), list(b.values()), d)), (st, nid)), (g, h))) for i, b, nid, st, g, h in rows]
    cut = rng.randint(0, n)
    def one(part):
        r = FH.batch_calculate_histogram(iter(part), bin_split_points=arr(sp), bin_sparse_points=dict(zero), valid_features=list(valid), node_map=dict(nm))
        expect(len(r) == 1, "a partition gives one histogram", got=r)
        return r[0]
    whole = one(kv); a, b = one(kv[:cut]), one(kv[cut:])
    want = copy.deepcopy(b)
    got = FH.aggregate_histogram(a, b, node_map=dict(nm))
    expect(got == whole, "two partitions do not add up to the whole", got=got, want=whole, cut=cut, rows=rows, split_points=sp, zero=zero, valid=valid)

# ---------------------------------------------------------------- C13: split finder alone
def accumulated(rng, d):
    lens = [rng.randint(1, 5) for _ in range(d)]
    n = rng.choice([0, 1, 2, 3, 5, 9])
    smp = [([rng.randrange(l) for l in lens], Fr(rng.randint(-9, 9), rng.choice([1, 2])), Fr(rng.randint(1, 8), 8)) for _ in range(n)]
    hist = [[[sum((g for b, g, h in smp if b[j] <= x), Fr(0)), sum((h for b, g, h in smp if b[j] <= x), Fr(0)), sum(1 for b, g, h in smp if b[j] <= x)] for x in range(lens[j])] for j in range(d)]
    return smp, lens, hist
@dyn("C13", 800, 30000)
def splitter(rng, case):
    S = api("ml.tree.splitter:Splitter")
    lam, mis, mss, mln = rng.choice([0, 0.5, 1, 2]), rng.choice([0, 0.001, 0.1, 1, 5]), small_int(rng, FT, 0, 6), small_int(rng, FT, 1, 4)
    s = S("xgboost", [lam], mis, mss, mln)
    d = rng.randint(1, 4)
    valid = [rng.random() < .8 for _ in range(d)]
    k = rng.randint(1, 3)
    data = [accumulated(rng, d) for _ in range(k)]
    hists = [[h if valid[j] or rng.random() < .3 else [] for j, h in enumerate(x[2])] for x in data]
    guest = s.find_split(copy.deepcopy(hists), list(valid))
    info = dict(lam=lam, min_gain=mis, min_sample_split=mss, min_leaf_node=mln, valid=valid, histograms=hists)
    expect(len(guest) == k, "one split per node", **info)
    host_infos, host_sums = s.find_split_host(copy.deepcopy(hists), list(valid), "host.7")
    expect(len(host_infos) == len(host_sums) == k, "candidates per node", **info)
    for q in range(k):
        smp, lens, hist = data[q]
        cand = []
        for j in range(d):
            if not valid[j] or not smp or len(smp) < mss: continue
            for b in range(lens[j]):
                c = hist[j][b][2]
                if c >= mln and len(smp) - c >= mln:
                    gl, hl = hist[j][b][0], hist[j][b][1]; G, Hs = hist[j][-1][0], hist[j][-1][1]
                    cand.append((gain(gl, hl, G - gl, Hs - hl, Fr(lam)), j, b, gl, hl))
        if any(abs(c[0] - Fr(mis)) < 1e-9 and c[0] != mis for c in cand) or any(abs(c[0] - Fr(mis)) < 1e-9 for c in cand) and float(lam) % 1: continue   # rounding decides
        good = [c for c in cand if c[0] > mis]
        r = guest[q]
        if not good: expect(r.best_fid is None and r.best_bid is None and r.gain <= mis, "a split is reported although none exceeds the minimum gain", node=q, got=r.__dict__, **info)
        else:
            best = max(c[0] for c in good)
            expect(any(c[1] == r.best_fid and c[2] == r.best_bid and close(c[0], best) and close(c[0], r.gain) and c[3] == r.sum_grad and c[4] == r.sum_hess for c in good), "the split reported is not the best admissible one", node=q, got=r.__dict__, best=best, **info)
        hi, hs = host_infos[q], host_sums[q]
        expect(len(hi) == len(hs), "candidates and their sums are not paired", **info)
        got = [(x.best_fid, x.best_bid, x.sum_grad, x.sum_hess, x.sitename) for x in hi]
        expect(sorted((a, b) for a, b, *_ in got) == sorted((c[1], c[2]) for c in cand), "the host's candidates are not the admissible splits", node=q, got=got, want=[c[1:3] for c in cand], **info)
        for x, y in zip(hi, hs): expect(tuple(y) == (x.sum_grad, x.sum_hess) and x.sitename == "host.7" and [x.sum_grad, x.sum_hess] == hist[x.best_fid][x.best_bid][:2], "a candidate's sums are not those of its left side", node=q, got=x.__dict__, sums=y, **info)
@dyn("C13", 200, 3000)
def gain_formula(rng, case):
    X = api("ml.tree.creterion:XgboostCriterion")
    lam = Fr(rng.randint(0, 9), 3); c = X(lam)
    gl, gr, hl, hr = Fr(rng.randint(-9, 9), 3), Fr(rng.randint(-9, 9), 3), Fr(rng.randint(1, 9), 4), Fr(rng.randint(1, 9), 4)
    got = c.split_gain([gl + gr, hl + hr], [gl, hl], [gr, hr])
    expect(got == gain(gl, hl, gr, hr, lam), "the gain is not the regularised gain", got=got, args=(gl, hl, gr, hr, lam))
    expect(c.node_weight(gl, hl) == -gl / (hl + lam), "C14: the node weight is not -G/(H+lambda)", got=c.node_weight(gl, hl))
    p = api("ml.tree.splitter:Splitter")("xgboost", [float(lam)], 0, 2, 1)
    expect(close(p.node_weight(gl, hl), -gl / (hl + lam)) and close(p.split_gain(gl + gr, hl + hr, gl, hl, gr, hr), gain(gl, hl, gr, hr, lam)), "the splitter ignores the regularisation given", lam=lam)

# ---------------------------------------------------------------- C16, C21: trees made by hand
def hand_tree(rng, nh):
    """a random well-formed tree with random ownership; (nodes as dicts)"""
    nodes = [dict()]
    q = [0]; depth = {0: 0}
    while q:
        k = q.pop(0)
        if depth[k] < 4 and rng.random() < (.8 if depth[k] < 2 else .5):
            l = len(nodes); nodes += [{}, {}]
            site = rng.choice(["guest"] + ["host.%d" % h for h in range(nh)])
            nodes[k] = dict(id=k, sitename=site, fid=rng.randint(0, 2), bid=None, weight=rng.uniform(-1, 1), is_leaf=False, left_nodeid=l, right_nodeid=l + 1, thr=rng.choice([0, rng.randint(-3, 3), rng.randint(-6, 6) / 2, 1e-7, -1e-7]))
            depth[l] = depth[l + 1] = depth[k] + 1; q += [l, l + 1]
        else:
            nodes[k] = dict(id=k, sitename="guest", fid=None, bid=None, weight=rng.choice([0.0, rng.uniform(-1, 1)]), is_leaf=True, left_nodeid=-1, right_nodeid=-1)
    return nodes
def install(rng, nodes, nh):
    G = api("ml.tree.hetero_decision_tree_guest:HeteroDecisionTreeGuest"); H = api("ml.tree.hetero_decision_tree_host:HeteroDecisionTreeHost"); N = api("ml.tree.node:Node")
    kw = dict(max_depth=rng.randint(1, 9), mss=rng.randint(2, 9), mis=rng.choice([0.5, 0.001, 0.25]), mln=rng.randint(1, 7), lam=rng.choice([0.25, 0.5, 1]))
    def mk(cls, site):
        t = cls(tree_param(rng, **kw))
        t.tree_ = [N(**{k: v for k, v in nd.items() if k != "thr"}) for nd in nodes]
        if site != "guest":
            for x in t.tree_: x.weight = 0.0
        t.split_maskdict = {nd["id"]: nd["thr"] for nd in nodes if not nd["is_leaf"] and nd["sitename"] == site}
        return t
    gt = mk(G, "guest"); hts = []
    for k in range(nh):
        h = mk(H, "host.%d" % k); h.set_runtime_idx(k); hts.append(h)
    return gt, hts, kw
def predict_hand(rng, gt, hts, nodes, ids, raws):
    I = api("ml.feature.instance:Instance"); SV = api("ml.feature.sparse_vector:SparseVector")
    nh = len(hts); bus = fed.Bus(nh)
    def tab(r): return T([(i, I(inst_id=i, label=1, features=SV(list(r[i].keys()), list(r[i].values()), 3))) for i in ids])
    gt.set_transfer_inst(fed.GuestLink(bus))
    for k, h in enumerate(hts): h.set_transfer_inst(fed.HostLink(bus, k))
    got = fed.run(bus, lambda: gt.predict(tab(raws["guest"])), [lambda k=k: hts[k].predict(tab(raws["host.%d" % k])) for k in range(nh)])
    def path(i):
        k = 0
        while not nodes[k]["is_leaf"]:
            nd = nodes[k]; k = nd["left_nodeid"] if raws[nd["sitename"]][i].get(nd["fid"], 0) <= nd["thr"] else nd["right_nodeid"]
        return nodes[k]["weight"]
    return got, {i: path(i) for i in ids}, bus
def raw_rows(rng, ids): return {i: {j: rng.choice([rng.randint(-4, 4), rng.randint(-8, 8) / 2, 1e-7, -1e-7]) for j in range(3) if rng.random() < .7} for i in ids}
@dyn("C16", 500, 8000)
def hand_made(rng, case):
    nh = rng.choice([1, 1, 2, 3, 12]); nodes = hand_tree(rng, nh)
    if nh == 12:
        few = {"guest": "guest"}
        for nd in nodes:
            if not nd["is_leaf"]: nd["sitename"] = few.setdefault(nd["sitename"], rng.choice(["guest", "host.1", "host.10", "host.11"]))
    gt, hts, kw = install(rng, nodes, nh)
    ids = rng.sample(range(100), rng.choice([1, 2, 5, 12])); raws = {s: raw_rows(rng, ids) for s in ["guest"] + ["host.%d" % k for k in range(nh)]}
    got, want, bus = predict_hand(rng, gt, hts, nodes, ids, raws)
    expect(got.count() == len(ids) and dict(got.collect()) == want, "the leaf reached is not the one the features dictate", got=dict(got.collect()), want=want, nodes=nodes, rows=raws)
@dyn("C21", 150, 4000)
def export_load(rng, case):
    G = api("ml.tree.hetero_decision_tree_guest:HeteroDecisionTreeGuest"); H = api("ml.tree.hetero_decision_tree_host:HeteroDecisionTreeHost")
    nh = rng.choice([1, 1, 2]); nodes = hand_tree(rng, nh); gt, hts, kw = install(rng, nodes, nh)
    def again(t, cls):
        meta, param = t.get_model()
        m2 = type(meta)(); m2.ParseFromString(meta.SerializeToString()); p2 = type(param)(); p2.ParseFromString(param.SerializeToString())
        n = cls(tree_param(rng, max_depth=99, lam=9, mss=77, mis=0.75, mln=55))
        if rng.random() < .5:     # left-overs of an earlier model
            n.tree_ = list(t.tree_)[:1] * 3; n.split_maskdict = {0: -99.0, 98: 3.0, 1: 5.0}
        n.load_model(m2, p2)
        for a in ("max_depth", "min_sample_split", "min_impurity_split", "min_leaf_node"): expect(getattr(n, a) == getattr(t, a), "the loaded model differs in " + a, got=getattr(n, a), want=getattr(t, a))
        if cls is G: expect((n.criterion_method, list(n.criterion_params)) == (t.criterion_method, list(t.criterion_params)), "the loaded model's criterion differs", got=(n.criterion_method, n.criterion_params))
        def key(x): return (x.id, x.sitename, x.fid or 0, x.weight, x.is_leaf, x.left_nodeid, x.right_nodeid)
        expect([key(x) for x in n.tree_] == [key(x) for x in t.tree_], "a node changes on the way through export and load", got=[key(x) for x in n.tree_], want=[key(x) for x in t.tree_])
        expect(dict(n.split_maskdict) == dict(t.split_maskdict), "a threshold changes on the way through export and load", got=dict(n.split_maskdict), want=dict(t.split_maskdict))
        return n
    g2 = again(gt, G); h2 = []
    for k, h in enumerate(hts):
        n = again(h, H); n.set_runtime_idx(k); h2.append(n)
    ids = rng.sample(range(100), rng.choice([1, 2, 5, 9])); raws = {s: raw_rows(rng, ids) for s in ["guest"] + ["host.%d" % k for k in range(nh)]}
    got, want, bus = predict_hand(rng, g2, h2, nodes, ids, raws)
    expect(dict(got.collect()) == want, "a loaded tree predicts differently", got=dict(got.collect()), want=want, nodes=nodes, rows=raws)
