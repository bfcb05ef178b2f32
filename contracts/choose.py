"""C13: the choice over all parties, and how a host recovers its own split."""
from .common import *
from .ptable import *
from .split import *
from pyvc import facades as Fa
GT_ = "ml.tree.hetero_decision_tree_guest:HeteroDecisionTreeGuest"
HT_ = "ml.tree.hetero_decision_tree_host:HeteroDecisionTreeHost"
DEC, ENC = z3.Function("dec", ET.sort, R), z3.Function("enc", R, ET.sort)
def crypt_axioms():
    x = z3.Const("x", R)
    return [z3.ForAll([x], DEC(ENC(x)) == x, patterns=[ENC(x)])]
class Crypt:
    """contract of the encrypter (C06): decrypting an encryption gives the number back"""
    def encrypt(self, v): return SOpaque(ET, ENC(rv(v)))
    def decrypt(self, v): return V.SReal(DEC(ET.unwrap(v)))
def eps_(c): return TReal.unwrap(c.get("ml.utils.consts:FLOAT_ZERO"))
def guest_tree(c, **kw):
    kw.setdefault("encrypter", Crypt())
    kw.setdefault("splitter", bare(c, "ml.tree.splitter:Splitter", criterion=bare(c, "ml.tree.creterion:XgboostCriterion", reg_lambda=TReal.new("lambda"))))
    return bare(c, GT_, **kw)

@contract(GT_ + ".find_host_split", "C13", stubs=GAIN, axioms=crypt_axioms)
def _(c):
    P = TTuple(ET, ET); L = TList(P); s = L.new("sums"); t = s.term; n = L.len(t)
    g, h, mi = TReal.new("g"), TReal.new("h"), TReal.new("min_impurity"); c.require(mi.t >= 0)
    gain = lambda j: gain_of(g.t, h.t, DEC(P.acc(0, L.at(t, j))), DEC(P.acc(1, L.at(t, j))))
    eps = eps_(c)
    def inv(S):
        for p, x in S.of(TReal, mod=True):
            yield p + " largest", forall(S.it, lambda j: z3.Or(gain(j) <= x, gain(j) <= mi.t), pats=lambda j: L.at(t, j))
            for q, i in S.of(TInt, mod=True):
                yield "%s none %s" % (p, q), z3.Implies(i == -1, x == mi.t - eps)
                yield "%s index %s" % (p, q), z3.Or(i == -1, z3.And(i >= 0, i < n, x == gain(i), x > mi.t))
    c.vc.inv_templates = [inv]
    o = guest_tree(c, min_impurity_split=mi)
    idx, bg = c.ok(o.find_host_split, (Obj(sum_grad=g, sum_hess=h), s))
    i, b = iv(idx), DEC(ET.unwrap(bg))
    c.prove("the index is that of a candidate, or minus one", z3.Or(i == -1, z3.And(i >= 0, i < n)))
    c.prove("the candidate chosen has the largest gain and exceeds the minimum", z3.Implies(i != -1, z3.And(gain(i) > mi.t, forall(n, lambda j: gain(j) <= gain(i)))))
    c.prove("minus one exactly when no candidate exceeds the minimum", z3.Implies(i == -1, forall(n, lambda j: gain(j) <= mi.t)))
    c.prove("the encrypted gain is that of the choice", z3.If(i == -1, b <= mi.t, b == gain(i)))

class Link:
    """what the connection is asked to do"""
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("connection method " + a)
NT, RT_T = TOpaque("SplitNode"), TOpaque("HostBest")
hbest = z3.Function("host_best", NT.sort, GT.sort, RT_T.sort)
def hb_stub(vc, orig, self, value):
    n, s = value
    return SOpaque(RT_T, hbest(NT.unwrap(n), GT.unwrap(s)))
@contract(GT_ + ".federated_find_split", "C13", facades=LTF, stubs={GT_ + ".find_host_split": hb_stub})
def _(c):
    N = TList(NT); nodes = N.new("nodes"); nt = nodes.term; n = N.len(nt)
    G = TList(GT); HL = TList(G); hosts = HL.new("hosts"); t = hosts.term; m = HL.len(t)
    c.require(forall(m, lambda i: G.len(HL.at(t, i)) == n, pats=lambda i: HL.at(t, i)))
    gh = Obj(sent=0); c.vc.obj_birth(gh); c.vc.ghost["spec_roots"] = [gh]
    class T(Link):
        def recv_data_from_hosts(self, idx=-1): c.prove("the sums of all hosts are collected", idx == -1); return hosts
        def send_data_to_hosts(self, data, idx=-1):
            i = iv(idx)
            Q = TList(RT_T); u = data.to_term(Q)
            c.prove("every host is answered once, in order", i == iv(gh.sent))
            c.prove("the host gets one choice per node", Q.len(u) == n)
            c.prove("host i gets the choices among its own candidates, node by node", forall(n, lambda j: Q.at(u, j) == hbest(N.at(nt, j), G.at(HL.at(t, i), j))))
            rt.RT_.setattr(gh, "sent", gh.sent + 1)
    o = guest_tree(c, cur_split_nodes=nodes, transfer_inst=T())
    def inv(S):
        for p, x in S.of(TInt, mod=True):
            if "sent" in p: yield p, x == S.it
    c.vc.inv_templates = [inv]
    c.ok(o.federated_find_split, TInt.new("dep"), TInt.new("batch"))
    c.prove("every host is answered", iv(gh.sent) == m)

class Mixed(Sym):
    """[guest split, host split 1, ...]"""
    def __init__(self, guest, n): self.guest, self.n, self.cache = guest, n, {}
    def __vc_len__(self): return V.mkint(self.n)
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of the candidate list")
        k = TInt.unwrap(i)
        if z3.is_int_value(z3.simplify(k)) and z3.simplify(k).as_long() < 0: k = self.n + k
        if VC.cur.fork(k == 0): return self.guest
        if not VC.cur.implied(z3.And(k >= 1, k < self.n)):
            if not VC.cur.fork(z3.And(k >= 1, k < self.n)): raise IndexError("list index out of range")
        k = z3.simplify(k); key = k.get_id()
        if key not in self.cache:
            f = lambda nm, s: z3.Function("host_" + nm, I, s)(k)
            o = Obj(sitename=SOpaque(TOpaque("Site"), f("site", TOpaque("Site").sort)), best_fid=V.mkint(f("fid", I)), best_bid=None, sum_grad=SOpaque(ET, f("g", ET.sort)), sum_hess=SOpaque(ET, f("h", ET.sort)), gain=SOpaque(ET, f("gain", ET.sort)))
            VC.cur.obj_birth(o); self.cache[key] = (o, k); VC.cur.ghost.setdefault("mixed", []).append((o, k))
        return self.cache[key][0]
@contract(GT_ + ".find_best_split_guest_and_host", "C13")
def _(c):
    n = TInt.new("parties"); c.require(n.t >= 2)
    gg = TReal.new("guest_gain"); eps = eps_(c)
    guest = Obj(gain=gg, sum_grad=TReal.new("gg"), sum_hess=TReal.new("gh"), best_fid=TInt.new("gf"), best_bid=TInt.new("gb"), sitename="guest"); c.vc.obj_birth(guest)
    before = dict(guest.__dict__)
    hg = lambda i: DEC(z3.Function("host_gain", I, ET.sort)(i))
    def inv(S):
        for p, x in S.of(TReal, mod=True):
            yield p + " largest", forall(z3.If(S.it + 1 < n.t, S.it + 1, n.t), lambda j: hg(j) <= x, lo=1, pats=lambda j: hg(j))
            yield p + " at least the first", hg(z3.IntVal(1)) <= x
            for q, i in S.of(TInt, mod=True): yield "%s of %s" % (p, q), z3.And(i >= 1, i < n.t, x == hg(i))
    c.vc.inv_templates = [inv]
    o = guest_tree(c)
    r = c.ok(o.find_best_split_guest_and_host, Mixed(guest, n.t))
    if r is guest:
        c.prove("the guest's split is chosen only if no host's gain exceeds it by more than 1e-6", forall(n.t, lambda j: gg.t >= hg(j) - eps, lo=1))
        c.prove("the guest's split is passed on unchanged", all(r.__dict__[k] is before[k] for k in before))
    else:

        f = lambda nm, s: z3.Function("host_" + nm, I, s)

        # the host chosen is the one whose feature the result carries
        ks = [kk for oo, kk in c.vc.ghost.get("mixed", []) if oo is r]
        if len(ks) != 1: raise Unsupported("result is not one of the candidates")
        k = ks[0]
        c.prove("a host's split is chosen only if it is better than the guest's by more than 1e-6", hg(k) > gg.t + eps)
        c.prove("the host chosen has the largest gain", forall(n.t, lambda j: hg(j) <= hg(k), lo=1))
        c.prove("its gain and sums are decrypted", z3.And(rv(r.gain) == hg(k), rv(r.sum_grad) == DEC(f("g", ET.sort)(k)), rv(r.sum_hess) == DEC(f("h", ET.sort)(k))))
        c.prove("its feature and owner are kept", z3.And(iv(r.best_fid) == f("fid", I)(k), r.sitename.t == f("site", TOpaque("Site").sort)(k)) if r.best_bid is None else False)

pick = z3.Function("chosen_split", I, ST.sort)
def fb_stub(vc, orig, self, splitinfo_guest_host):
    x = splitinfo_guest_host
    if not vc.scope: raise Unsupported("choice outside the table")
    j = vc.scope[-1]; L = TList(ST); u = x.to_term(L); gt, L2, t, m = vc.ghost["merge"]
    vc.prove("the candidates of a node are the guest's and one of each host", z3.And(L.len(u) == m + 1, L.at(u, z3.IntVal(0)) == L.at(gt, j)))
    vc.prove("each host contributes its split of the same node", forall(m, lambda k: L.at(u, k + 1) == L.at(L2.at(t, k), j)))
    return SOpaque(ST, pick(j))
@contract(GT_ + ".merge_splitinfo", "C13", facades=LTF, stubs={GT_ + ".find_best_split_guest_and_host": fb_stub})
def _(c):
    L = TList(ST); L2 = TList(L); gs = L.new("guest"); gt = gs.term; n = L.len(gt)
    hs = L2.new("hosts"); t = hs.term; m = L2.len(t)
    c.require(forall(m, lambda k: L.len(L2.at(t, k)) == n, pats=lambda k: L2.at(t, k)))
    c.vc.ghost["merge"] = (gt, L2, t, m)
    def inv(S):
        for p, x in S.of(L2, mod=True):
            yield p + " lens", forall(S.it, lambda i: z3.And(L.len(L2.at(x, i)) == m + 1, L.at(L2.at(x, i), z3.IntVal(0)) == L.at(gt, i)), pats=lambda i: L2.at(x, i))
            k, i = qv("k"), qv("i")
            yield p + " hosts", z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < S.it, k >= 0, k < m), L.at(L2.at(x, i), k + 1) == L.at(L2.at(t, k), i)), patterns=[z3.MultiPattern(L2.at(x, i), L2.at(t, k))])
            yield p + " hosts'", z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < S.it, k >= 1, k < m + 1), L.at(L2.at(x, i), k) == L.at(L2.at(t, k - 1), i)), patterns=[L.at(L2.at(x, i), k)])
        for p, x in S.of(L, mod=True):
            for q, (ty, i) in sorted(S.items.items()):
                if ty == TInt and q not in S.mod:
                    yield "%s first %s" % (p, q), z3.And(L.len(x) == S.it + 1, L.at(x, z3.IntVal(0)) == L.at(gt, i))
                    yield "%s hosts %s" % (p, q), forall(S.it + 1, lambda k: L.at(x, k) == L.at(L2.at(t, k - 1), i), lo=1, pats=lambda k: L.at(x, k))
    c.vc.inv_templates = [inv]
    o = guest_tree(c)
    r = c.ok(o.merge_splitinfo, gs, hs)
    u = r.to_term(L)
    c.prove("one split per node, in node order", z3.And(L.len(u) == n, forall(n, lambda j: L.at(u, j) == pick(j))))

# ---- the host recovers its own split --------------------------------------------------------------
def host_tree(c, **kw): return bare(c, HT_, **kw)
class Grid(Sym):
    """rows of distinct objects: row i has len_(i) of them; object (i, j) is made by mk(i, j)"""
    def __init__(self, n, len_, mk): self.n, self.len_, self.mk, self.cache = n, len_, mk, {}
    def __vc_len__(self): return V.mkint(self.n)
    def _ix(self, i, n):
        if isinstance(i, slice): raise Unsupported("slice of a stand-in")
        k = TInt.unwrap(i)
        if VC.cur.implied(z3.And(k >= 0, k < n)): return z3.simplify(k)
        if VC.cur.fork(z3.And(k >= -n, k < 0)): return z3.simplify(k + n)
        if not VC.cur.fork(z3.And(k >= 0, k < n)): raise IndexError("list index out of range")
        return z3.simplify(k)
    def __getitem__(self, i): return GridRow(self, self._ix(i, self.n))
class GridRow(Sym):
    def __init__(self, g, i): self.g, self.i, self.n = g, i, g.len_(i)
    def __vc_len__(self): return V.mkint(self.n)
    def __getitem__(self, j):
        j = self.g._ix(j, self.n)
        for i2, j2, o in self.g.cache.values():
            if VC.cur.implied(z3.And(i2 == self.i, j2 == j)): return o
        o = self.g.mk(self.i, j); VC.cur.obj_birth(o)
        self.g.cache[len(self.g.cache)] = (self.i, j, o)
        return o
OB = TOpt(TInt); CT = TUnion(ET, TInt); OG = TOpt(ET)
@contract(HT_ + ".sync_final_splitinfo_host", "C13", budget=400)
def _(c):
    cls = c.get("ml.tree.node:SplitInfo")
    S_ = TRec("SplitInfo", [("sitename", TStr), ("best_fid", TInt), ("best_bid", OB), ("sum_grad", CT), ("sum_hess", CT), ("gain", OG)], cls)
    L = TList(S_); LL = TList(L)
    ND = TRec("Node", [("id", TInt)]); NL = TList(ND)
    P = TTuple(TInt, ET); FL = TList(P)
    t0 = LL.new("candidates").term; n = LL.len(t0)
    def mk(i, j):
        e = L.at(LL.at(t0, i), j); o = cls.__new__(cls)
        for f, ty in S_.fields: o.__dict__[f] = ty.wrap(S_.get(e, f)) if f not in ("best_bid", "gain") else V.mkint(OB.val(S_.get(e, f))) if f == "best_bid" else None
        return o
    cs = Grid(n, lambda i: L.len(LL.at(t0, i)), mk)
    fed = FL.new("choices"); ft = fed.term
    nodes = NL.new("nodes"); nt = nodes.term
    site = TStr.new("site")
    md = TDict(TInt, TInt); mask = md.new("split_maskdict"); m0 = mask.term
    nid = lambda i: ND.get(NL.at(nt, i), "id")
    idx, gn = lambda i: P.acc(0, FL.at(ft, i)), lambda i: P.acc(1, FL.at(ft, i))
    cand = lambda i: L.at(LL.at(t0, i), idx(i))
    c.require(FL.len(ft) == n, NL.len(nt) == n)
    c.require(forall(n, lambda i: z3.Or(idx(i) == -1, z3.And(idx(i) >= 0, idx(i) < L.len(LL.at(t0, i)))), pats=lambda i: FL.at(ft, i)))
    c.require(forall(n, lambda i: z3.Implies(idx(i) != -1, z3.And(S_.get(cand(i), "sitename") == site.t, z3.Not(OB.is_none(S_.get(cand(i), "best_bid"))))), pats=lambda i: FL.at(ft, i)))
    c.require(forall2(n, n, lambda i, j: z3.Implies(i != j, nid(i) != nid(j)), pats=lambda i, j: z3.MultiPattern(NL.at(nt, i), NL.at(nt, j))))
    g = lambda e, f: S_.get(e, f)
    def final(x, i):
        e = L.at(x, i)
        return z3.And(g(e, "gain") == OG.some(gn(i)), g(e, "sitename") == site.t,
            z3.If(idx(i) != -1, z3.And(g(e, "best_fid") == g(cand(i), "best_fid"), OB.is_none(g(e, "best_bid")), g(e, "sum_grad") == g(cand(i), "sum_grad"), g(e, "sum_hess") == g(cand(i), "sum_hess")), z3.And(g(e, "best_fid") == -1, g(e, "best_bid") == OB.some(z3.IntVal(-1)))))
    def rec(d, i): return z3.Implies(idx(i) != -1, z3.And(md.has(d, nid(i)), md.val(d, nid(i)) == OB.val(g(cand(i), "best_bid"))))
    def inv(S):
        for p, x in S.of(L, mod=True): yield p + " so far", forall(S.it, lambda i: final(x, i), pats=lambda i: L.at(x, i))
        for p, x in S.of(LL, mod=True): yield p + " rest", forall(n, lambda i: LL.at(x, i) == LL.at(t0, i), lo=S.it, pats=lambda i: LL.at(x, i))
        for p, d in S.of(md, mod=True): yield p + " recorded", forall(S.it, lambda i: rec(d, i), pats=lambda i: NL.at(nt, i))
    c.vc.inv_templates = [inv]
    sent = []
    class T(Link):
        def send_data_to_guest(self, x): sent.append(x)
    o = host_tree(c, sitename=site, split_maskdict=mask, cur_split_nodes=nodes, transfer_inst=T())
    c.ok(o.sync_final_splitinfo_host, cs, fed, TInt.new("dep"), TInt.new("batch"))
    c.prove("one answer is sent", len(sent) == 1)
    if len(sent) != 1: return
    u = sent[0].to_term(L)
    c.prove("one split per node", L.len(u) == n)
    c.prove("the candidate at the chosen position is answered, its bin kept back; a dummy when none was chosen", forall(n, lambda i: final(u, i)))
    d = o.split_maskdict
    if not isinstance(d, V.VDict): raise Unsupported("split_maskdict")
    dt = d.to_term(md)
    c.prove("the bin of the chosen candidate is kept under the node's identifier", forall(n, lambda i: rec(dt, i), pats=lambda i: NL.at(nt, i)))

for _who, _cls in (("guest", GT_), ("host", HT_)):
    def _mk(who, cls):
        @contract(cls + ".encode", ["C13", "C14", "C15", "C16"], name="%s: hiding and recovering a split" % who)
        def _(c):
            v, nid, x = TInt.new("val"), TInt.new("nid"), TInt.new("other")
            md = TDict(TInt, TInt); mask = md.new("mask"); m0 = mask.term
            o = bare(c, cls, split_maskdict=mask)
            c.prove("feature numbers are sent as they are", iv(c.ok(o.encode, "feature_idx", v)) == v.t)
            r = c.ok(o.encode, "feature_val", v, nid)
            c.prove("a split position is never sent", r is None)
            d = o.split_maskdict.term
            c.prove("it is stored under the node", z3.And(md.has(d, nid.t), md.val(d, nid.t) == v.t))
            c.prove("other nodes keep theirs", z3.Implies(x.t != nid.t, z3.And(md.has(d, x.t) == md.has(m0, x.t), md.val(d, x.t) == md.val(m0, x.t))))
            f = c.get(cls + ".decode")
            c.prove("decoding a feature number", iv(c.ok(f, "feature_idx", v, split_maskdict=o.split_maskdict)) == v.t)
            c.prove("decoding a split position gives what was stored for the node", iv(c.ok(f, "feature_val", None, nid, o.split_maskdict)) == v.t)
            r, e = c.call(f, "feature_val", None, x, o.split_maskdict)
            if e is not None: c.prove("only unknown nodes are refused", z3.And(z3.BoolVal(isinstance(e, ValueError)), z3.Not(md.has(d, x.t))))
            else: c.prove("stored positions are found", iv(r) == md.val(d, x.t))
    _mk(_who, _cls)
