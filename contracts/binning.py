"""C10: bin numbers and the conversion of rows."""
from .common import *
from .ptable import *
from .split import iv, rv
BB = "ml.feature.binning.base_binning:Binning"
SV_ = "ml.feature.sparse_vector:SparseVector"
I, R = z3.IntSort(), z3.RealSort()
RL = TList(TReal); SPD = TDict(TStr, RL); HL = TList(TStr); IL = TList(TInt); MV = TDict(TInt, TReal)
BIN = z3.Function("bin_number", R, RL.sort, I)       # what get_bin_num returns; its meaning is proved below
def is_bin(x, t, r):
    """r is the number of the first split point that is not smaller than x, or their number"""
    n = RL.len(t)
    return z3.And(r >= 0, r <= n, forall(r, lambda i: x > RL.at(t, i), pats=lambda i: RL.at(t, i)), z3.Implies(r < n, x <= RL.at(t, r)))

@contract(BB + ".get_bin_num", "C10")
def _(c):
    x = TReal.new("value"); sp = RL.new("split_points"); t = sp.term; n = RL.len(t)
    def inv(S):
        yield "beyond", forall(S.it, lambda i: x.t > RL.at(t, i), pats=lambda i: RL.at(t, i))
        for p, v in S.of(TInt, mod=True): yield p + " none yet", v == n
    c.vc.inv_templates = [inv]
    r = c.ok(c.get(BB).get_bin_num, x, sp)
    c.prove("the first split point that is not smaller, or the last bin", is_bin(x.t, t, iv(r)))
    c.prove("the split points are left alone", sp.to_term(RL) == t)

@contract(BB + ".get_bin_num", ["C10", "C16"], name="lemma: bin numbers compare as values compare with split points")
def _(c):
    # the bin of a value is at most b exactly when the value is at most split point b (split points in order, C11)
    x = TReal.new("value"); t = RL.new("split_points").term; b, r = TInt.new("b").t, TInt.new("bin").t
    i, j = qv("i"), qv("j")
    c.require(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < RL.len(t)), RL.at(t, i) <= RL.at(t, j)), patterns=[z3.MultiPattern(RL.at(t, i), RL.at(t, j))]))
    c.require(is_bin(x.t, t, r), b >= 0, b < RL.len(t))
    c.prove("bin at most b if and only if value at most split point b", (r <= b) == (x.t <= RL.at(t, b)))

def bin_stub(vc, orig, value, split_points):
    return V.mkint(BIN(rv(value), split_points.to_term(RL)))
BINS = {BB + ".get_bin_num": bin_stub}

@contract(SV_ + ".get_all_data", ["C10", "C12"])
def _(c):
    d = MV.new("values"); m = d.term
    o = bare_sv(c, d, TInt.new("shape"))
    P = TTuple(TInt, TReal); L = TList(P)
    def inv(S):
        for p, x in S.of(L, mod=True): yield p + " so far", z3.And(L.len(x) == S.it, forall(S.it, lambda j: L.at(x, j) == P.mk(z3.Select(MV.keyat(m), j), MV.val(m, z3.Select(MV.keyat(m), j))), pats=lambda j: L.at(x, j)))
    c.vc.inv_templates = [inv]
    r = c.ok(o.get_all_data)
    t = r.to_term(L)
    c.prove("every present feature once, with its value", z3.And(L.len(t) == MV.n(m), forall(MV.n(m), lambda j: L.at(t, j) == P.mk(z3.Select(MV.keyat(m), j), MV.val(m, z3.Select(MV.keyat(m), j))))))
    c.prove("the row is left alone", d.to_term(MV) == m)
@contract(SV_ + ".get_data", ["C10", "C12", "C15", "C16"])
def _(c):
    d = MV.new("values"); m = d.term; k, df = TInt.new("feature"), TReal.new("default")
    r = c.ok(bare_sv(c, d, TInt.new("shape")).get_data, k, df)
    c.prove("the value where present, else the default", rv(r) == z3.If(MV.has(m, k.t), MV.val(m, k.t), df.t))
@contract(SV_ + ".__init__", ["C10"])
def _(c):
    ks, xs = IL.new("indices"), RL.new("data"); kt, xt = ks.term, xs.term; n = IL.len(kt); sh = TInt.new("shape")
    i, j = qv("i"), qv("j")
    c.require(RL.len(xt) == n, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), IL.at(kt, i) != IL.at(kt, j)), patterns=[z3.MultiPattern(IL.at(kt, i), IL.at(kt, j))]))
    o = c.ok(c.get(SV_), ks, xs, sh)
    m = o.sparse_vec.to_term(MV)
    c.prove("one entry per index, with its value", z3.And(MV.n(m) == n, forall(n, lambda j: z3.And(z3.Select(MV.keyat(m), j) == IL.at(kt, j), MV.val(m, IL.at(kt, j)) == RL.at(xt, j)))))
    c.prove("the shape", iv(o.shape) == sh.t)
def bare_sv(c, d, shape):
    cls = c.get(SV_); o = cls.__new__(cls); o.__dict__.update(sparse_vec=d, shape=shape); c.vc.obj_birth(o)
    return o
def items_stub(vc, orig, self): return self.sparse_vec.items()

def mk_binning(c, cols=-1): return c.get(BB)(Obj(bin_num=TInt.new("bins"), cols=cols), "guest")

class Cols:
    """columns: names by position, the selected ones, the split points by name"""
    def __init__(self, c):
        self.header = HL.new("header"); self.h = self.header.term; self.d = HL.len(self.h)
        self.sel = IL.new("selected"); self.s = self.sel.term
        self.sp = SPD.new("split_points"); self.p = self.sp.term
        h, d = self.h, self.d
        self.chosen = z3.Function("chosen", I, z3.BoolSort()); w = z3.Function("chosen_at", I, I)
        j, k = qv("j"), qv("k")
        c.require(forall(IL.len(self.s), lambda j: z3.And(self.chosen(IL.at(self.s, j)), IL.at(self.s, j) >= 0, IL.at(self.s, j) < d), pats=lambda j: IL.at(self.s, j)),
            z3.ForAll([k], z3.Implies(self.chosen(k), z3.And(w(k) >= 0, w(k) < IL.len(self.s), IL.at(self.s, w(k)) == k, SPD.has(self.p, HL.at(h, k)))), patterns=[self.chosen(k)]))
    def name(self, k): return HL.at(self.h, k)
    def conv(self, k, x): return z3.If(self.chosen(k), z3.ToReal(BIN(x, SPD.val(self.p, self.name(k)))), x)

@contract(BB + "._convert_dense_data", "C10", stubs=BINS)
def _(c):
    C = Cols(c)
    f = RL.new("features"); t = f.term; n = RL.len(t); c.require(n == C.d)
    row = Obj(inst_id=TInt.new("id"), features=f, label=TReal.new("label"), weight=TReal.new("weight")); c.vc.obj_birth(row)
    before = dict(row.__dict__)
    conv = lambda j, x: C.conv(j, x)
    def inv(S):
        for p, x in S.of(RL, mod=True):
            yield p + " length", RL.len(x) == n
            yield p + " converted", forall(S.it, lambda j: RL.at(x, j) == conv(j, RL.at(t, j)), pats=lambda j: RL.at(x, j))
            yield p + " rest", forall(n, lambda j: RL.at(x, j) == RL.at(t, j), lo=S.it, pats=lambda j: RL.at(x, j))
    c.vc.inv_templates = [inv]
    r = c.ok(c.get(BB)._convert_dense_data, row, C.sel, C.sp, C.header)
    c.prove("the caller's row is left alone", z3.And(all(row.__dict__.get(k) is before[k] for k in before) and len(row.__dict__) == len(before), f.to_term(RL) == t))
    c.prove("the result is a row of its own", r is not row and r.features is not f)
    u = r.features.to_term(RL)
    c.prove("selected features become their bin, the others keep their value", z3.And(RL.len(u) == n, forall(n, lambda j: RL.at(u, j) == conv(j, RL.at(t, j)), pats=lambda j: RL.at(u, j))))
    c.prove("label, weight and identifier are kept", all(r.__dict__.get(k) is before[k] for k in before if k != "features"))

@contract(BB + "._convert_sparse_data", "C10", stubs={**BINS, SV_ + ".get_all_data": items_stub})
def _(c):
    C = Cols(c)
    d = MV.new("values"); m = d.term; sh = TInt.new("shape"); n = MV.n(m)
    key = lambda j: z3.Select(MV.keyat(m), j)
    c.require(forall(n, lambda j: z3.And(key(j) >= 0, key(j) < C.d), pats=lambda j: key(j)))
    sv = bare_sv(c, d, sh)
    row = Obj(inst_id=TInt.new("id"), features=sv, label=TReal.new("label"), weight=TReal.new("weight")); c.vc.obj_birth(row)
    before, before_sv = dict(row.__dict__), dict(sv.__dict__)
    new = lambda j: C.conv(key(j), MV.val(m, key(j)))
    def inv(S):
        for p, x in S.of(IL, mod=True): yield p + " keys", z3.And(IL.len(x) == S.it, forall(S.it, lambda j: IL.at(x, j) == key(j), pats=lambda j: IL.at(x, j)))
        for ty in (RL,):
            for p, x in S.of(ty, mod=True): yield p + " values", z3.And(ty.len(x) == S.it, forall(S.it, lambda j: ty.at(x, j) == new(j), pats=lambda j: ty.at(x, j)))
    c.vc.inv_templates = [inv]
    r = c.ok(c.get(BB)._convert_sparse_data, row, C.sel, C.sp, C.header)
    c.prove("the caller's row is left alone", z3.And(all(row.__dict__.get(k) is before[k] for k in before) and len(row.__dict__) == len(before), all(sv.__dict__.get(k) is before_sv[k] for k in before_sv), d.to_term(MV) == m))
    c.prove("the result is a row of its own", r is not row and r.features is not sv and r.features.sparse_vec is not d)
    u = r.features.sparse_vec.to_term(MV)
    c.prove("the same features are present", z3.And(MV.n(u) == n, forall(n, lambda j: z3.Select(MV.keyat(u), j) == key(j))))
    c.prove("selected features become their bin, the others keep their value", forall(n, lambda j: MV.val(u, key(j)) == new(j), pats=lambda j: key(j)))
    c.prove("the shape is kept", iv(r.features.shape) == sh.t)
    c.prove("label, weight and identifier are kept", all(r.__dict__.get(k) is before[k] for k in before if k != "features"))

@contract(BB + ".get_sparse_bin", ["C10", "C12"], stubs=BINS)
def _(c):
    C = Cols(c)
    o = mk_binning(c); o.__dict__["header"] = C.header
    ID = TDict(TInt, TInt)
    zero = lambda k: BIN(z3.RealVal(0), SPD.val(C.p, C.name(k)))
    def inv(S):
        k = qv("k")
        for p, x in S.of(ID, mod=True):
            yield p + " entries are selected", z3.ForAll([k], z3.Implies(ID.has(x, k), z3.And(C.chosen(k), ID.val(x, k) == zero(k))), patterns=[z3.Select(ID.pos(x), k)])
            yield p + " so far", forall(S.it, lambda j: ID.has(x, IL.at(C.s, j)), pats=lambda j: IL.at(C.s, j))
    c.vc.inv_templates = [inv]
    r = c.ok(o.get_sparse_bin, C.sel, C.sp)
    t = r.to_term(ID); k0 = TInt.new("k0").t
    c.vc.fact(z3.Implies(C.chosen(k0), C.chosen(k0)))
    c.prove("exactly the selected columns", ID.has(t, k0) == C.chosen(k0))
    c.prove("zero's bin is the bin of the value zero", z3.Implies(C.chosen(k0), ID.val(t, k0) == zero(k0)))

BT = "ml.tree.boosting_tree:BoostingTree"
class SparseVector:                 # stands for a row that is sparse already (the code asks for the class name)
    pass
def tiny(x): return z3.And(x < z3.RealVal("1/1000000"), -x < z3.RealVal("1/1000000"))
@contract(BT + ".data_format_transform", ["C10", "C16"])
def _(c):
    f = RL.new("features"); t = f.term; n = RL.len(t)
    row = Obj(inst_id=TInt.new("id"), features=f, label=TReal.new("label"), weight=TReal.new("weight")); c.vc.obj_birth(row)
    before = dict(row.__dict__)
    near = z3.Function("near_zero", I, z3.BoolSort()); j_ = qv("j")
    c.require(z3.ForAll([j_], near(j_) == tiny(RL.at(t, j_)), patterns=[near(j_)]))
    w, cnt = z3.Function("kept_at", I, I), z3.Function("kept", I, I)
    c.require(cnt(0) == 0, forall(n, lambda i: z3.And(cnt(i + 1) == cnt(i) + z3.If(tiny(RL.at(t, i)), 0, 1)), pats=lambda i: cnt(i + 1)))
    def inv(S):
        for p, x in S.of(IL, mod=True):
            yield p + " places", forall(IL.len(x), lambda j: z3.And(IL.at(x, j) >= 0, IL.at(x, j) < S.it, z3.Not(near(IL.at(x, j)))), pats=lambda j: IL.at(x, j))
            yield p + " number", IL.len(x) == cnt(S.it)
            i, j = qv("i"), qv("j")
            yield p + " in order", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < IL.len(x)), IL.at(x, i) < IL.at(x, j)), patterns=[z3.MultiPattern(IL.at(x, i), IL.at(x, j))])
            yield p + " all", forall(S.it, lambda i: z3.Implies(z3.Not(near(i)), z3.And(cnt(i) >= 0, cnt(i) < IL.len(x), IL.at(x, cnt(i)) == i)), pats=lambda i: near(i))
            for q, y in S.of(RL, mod=True):
                yield p + q + " values", z3.And(RL.len(y) == IL.len(x), forall(IL.len(x), lambda j: RL.at(y, j) == RL.at(t, IL.at(x, j)), pats=lambda j: RL.at(y, j)))
    c.vc.inv_templates = [inv]
    r = c.ok(c.get(BT).data_format_transform, row)
    c.prove("the caller's row is left alone", z3.And(all(row.__dict__.get(k) is before[k] for k in before) and len(row.__dict__) == len(before), f.to_term(RL) == t))
    c.prove("the result is a row of its own", r is not row)
    c.prove("the features are a sparse row", type(r.features).__name__ == "SparseVector")
    u = r.features.sparse_vec.to_term(MV); k0 = TInt.new("k0").t
    c.vc.fact(near(k0) == tiny(RL.at(t, k0)))
    real = z3.And(k0 >= 0, k0 < n, z3.Not(tiny(RL.at(t, k0))))
    c.prove("only features that are not within 1e-6 of zero", z3.Implies(MV.has(u, k0), real))
    c.prove("every feature that is not within 1e-6 of zero", z3.Implies(real, MV.has(u, k0)))
    c.prove("with their values", z3.Implies(MV.has(u, k0), MV.val(u, k0) == RL.at(t, k0)))
    c.prove("the shape is the number of features", iv(r.features.shape) == n)
    c.prove("label, weight and identifier are kept", all(r.__dict__.get(k) is before[k] for k in before if k != "features"))
@contract(BT + ".data_format_transform", "C10", name="a sparse row stays as it is")
def _(c):
    d = MV.new("values"); m = d.term
    sv = bare_sv(c, d, TInt.new("shape")); row = Obj(inst_id=TInt.new("id"), features=sv, label=TReal.new("label"), weight=TReal.new("weight")); c.vc.obj_birth(row)
    before, before_sv = dict(row.__dict__), dict(sv.__dict__)
    r = c.ok(c.get(BT).data_format_transform, row)
    c.prove("the caller's row is left alone", all(row.__dict__.get(k) is before[k] for k in before) and all(sv.__dict__.get(k) is before_sv[k] for k in before_sv))
    c.prove("same values", r.features.sparse_vec.to_term(MV) == m)
    c.prove("label, weight and identifier are kept", all(r.__dict__.get(k) is before[k] for k in before if k != "features"))

def token_stub(name):
    def s(vc, orig, *a, **k):
        t = Obj(**{"kind": name}); vc.ghost.setdefault("calls", []).append((name, a, k, t)); return t
    return s
class Rows:
    """a table at one arbitrary key, with its schema (contract of mapValues: C01)"""
    def __init__(self, row, log): self.row, self.log, self.schema = row, log, None
    def mapValues(self, f): return Rows(f(self.row), self.log)
def convert(kind, which):
    st = {BB + "._init_cols": lambda vc, orig, self, data: None, BB + "._convert_dense_data": token_stub("dense"), BB + "._convert_sparse_data": token_stub("sparse"),
          BB + ".get_sparse_bin": token_stub("zero"), "ml.statistic.data_overview:is_sparse_data": lambda vc, orig, t: kind == "sparse"}
    @contract(BB + ".convert_feature_to_bin", "C10", name="convert_feature_to_bin, %s rows, %s" % (kind, which), stubs=st)
    def _(c):
        C = Cols(c)
        o = mk_binning(c)
        o.__dict__.update(header=C.header, split_points=C.sp, cols_index=C.sel if which == "fitted columns" else IL.new("fitted"))
        if which == "given columns":
            F = o.cols_index.term; w = z3.Function("fit_at", I, I)
            c.require(forall(IL.len(C.s), lambda j: z3.And(w(j) >= 0, w(j) < IL.len(F), IL.at(F, w(j)) == IL.at(C.s, j)), pats=lambda j: IL.at(C.s, j)))
        c.require(forall(C.d, lambda k: SPD.has(C.p, C.name(k)), pats=lambda k: C.name(k)))       # every column was fitted
        LL = TList(RL)
        def inv(S):
            for p, x in S.of(LL, mod=True): yield p + " in column order", z3.And(LL.len(x) == S.it, forall(S.it, lambda j: LL.at(x, j) == SPD.val(C.p, C.name(j)), pats=lambda j: LL.at(x, j)))
        c.vc.inv_templates = [inv]
        log = []; row = Obj(features=Obj(x=1)); data = Rows(row, log); data.schema = schema = {"header": C.header}
        a = (data,) if which == "fitted columns" else (data, C.sel)
        r = c.ok(o.convert_feature_to_bin, *a)
        calls = c.vc.ghost.get("calls", [])
        new, sps, zero = r
        conv = [x for x in calls if x[0] == kind]
        c.prove("every row is converted once, by the conversion for its kind", len(conv) == 1 and len([x for x in calls if x[0] != "zero"]) == 1 and isinstance(new, Rows) and new.row is conv[0][3])
        def same(x, y, ty): return x is y or (isinstance(x, (V.VList, V.VDict)) and z3.is_true(z3.simplify(x.to_term(ty) == y.to_term(ty)))) or x.to_term(ty) == y.to_term(ty)
        def args(call, names):
            d = dict(zip(names, call[1])); d.update(call[2]); return d
        d = args(conv[0], ("instances", "transform_cols_idx", "split_points_dict", "header"))
        c.prove("the caller's row is what is converted", d["instances"] is row)
        sel = d["transform_cols_idx"].to_term(IL)
        c.prove("with the selected columns", z3.And(IL.len(sel) == IL.len(C.s), forall(IL.len(sel), lambda j: IL.at(sel, j) == IL.at(C.s, j))))
        c.prove("with the fitted split points", same(d["split_points_dict"], C.sp, SPD))
        c.prove("with the column names", same(d["header"], C.header, HL))
        c.prove("the caller's table is left alone", data.row is row and data.schema is schema and list(schema) == ["header"] and schema["header"] is C.header)
        z = [x for x in calls if x[0] == "zero"]
        c.prove("zero's bins are those of the selected columns", len(z) == 1 and zero is z[0][3])
        if len(z) != 1: return
        dz = args(z[0], ("self", "transform_cols_idx", "split_points_dict"))
        sel = dz["transform_cols_idx"].to_term(IL)
        c.prove("zero's bins: selected columns", z3.And(IL.len(sel) == IL.len(C.s), forall(IL.len(sel), lambda j: IL.at(sel, j) == IL.at(C.s, j))))
        c.prove("zero's bins: fitted split points", same(dz["split_points_dict"], C.sp, SPD))
        st = sps.to_term(LL)
        c.prove("split points are handed back in column order", z3.And(LL.len(st) == C.d, forall(C.d, lambda j: LL.at(st, j) == SPD.val(C.p, C.name(j)))))
        c.prove("the column names go with the new table", same(new.schema["header"], C.header, HL))
for kd in ("dense", "sparse"):
    for wh in ("fitted columns", "given columns"): convert(kd, wh)

def init_cols(which):
    @contract(BB + "._init_cols", "C10", name="_init_cols, " + which)
    def _(c):
        h = HL.new("header"); t = h.term; n = HL.len(t); i, j = qv("i"), qv("j")
        c.require(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), HL.at(t, i) != HL.at(t, j)), patterns=[z3.MultiPattern(HL.at(t, i), HL.at(t, j))]))
        given = -1 if which == "all columns" else IL.new("cols")
        if given != -1 if isinstance(given, int) else True: c.require(forall(IL.len(given.term), lambda j: z3.And(IL.at(given.term, j) >= 0, IL.at(given.term, j) < n), pats=lambda j: IL.at(given.term, j)))
        o = mk_binning(c, given); CD = TDict(TStr, TInt)
        data = Obj(schema={"header": h})
        def inv(S):
            for p, x in S.of(HL, mod=True): yield p + " names", z3.And(HL.len(x) == S.it, forall(S.it, lambda j: HL.at(x, j) == HL.at(t, IL.at(given.term, j)), pats=lambda j: HL.at(x, j))) if which != "all columns" else z3.BoolVal(True)
            for p, x in S.of(IL, mod=True): yield p + " index", z3.And(IL.len(x) == S.it, forall(S.it, lambda j: IL.at(x, j) == j, pats=lambda j: IL.at(x, j)))
            for p, x in S.of(CD, mod=True):
                s = qv("s")
                if S.items is not None: pass
        c.vc.inv_templates = [inv]
        c.ok(o._init_cols, data)
        c.prove("the column names are the table's", o.header is h)
        ci = o.cols_index if not isinstance(o.cols_index, list) else V.VList.of(o.cols_index)
        x = ci.to_term(IL)
        if which == "all columns": c.prove("all columns are selected", z3.And(IL.len(x) == n, forall(n, lambda j: IL.at(x, j) == j)))
        else: c.prove("the given columns are selected", z3.And(IL.len(x) == IL.len(given.term), forall(IL.len(x), lambda j: IL.at(x, j) == IL.at(given.term, j))))
init_cols("all columns"); init_cols("given columns")

@contract(BT + ".data_alignment", "C10", stubs={BT + ".data_format_transform": token_stub("row"), "ml.utils.abnormal_detection:empty_table_detection": lambda vc, orig, t: None})
def _(c):
    cls = c.get(BT); o = cls.__new__(cls); c.vc.obj_birth(o)
    row = Obj(features=Obj(x=1)); data = Rows(row, []); data.schema = schema = {"header": HL.new("header")}; h = schema["header"]
    r = c.ok(o.data_alignment, data)
    calls = c.vc.ghost.get("calls", [])
    c.prove("every row is turned into a sparse row", len(calls) == 1 and calls[0][1][0] is row and r.row is calls[0][3])
    c.prove("the caller's table is left alone", r is not data and data.row is row and data.schema is schema and list(schema) == ["header"] and schema["header"] is h)
    c.prove("the column names go with the new table", r.schema["header"] is h)
