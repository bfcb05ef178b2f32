"""C22: parameter validation accepts exactly the documented values and leaves them as they are."""
from .common import *
from fractions import Fraction as Fr
from pyvc.vals import strid
I, R = z3.IntSort(), z3.RealSort()
BT = "ml.param.boosting_tree_param:"
class Other: pass
OBJ = Other()
lower = z3.Function("lower", I, I)
def low(s): return V.SStr(lower(s.t))
KINDS = ("int", "float", "bool", "str", "None", "[]", "[number]", "[other]", "dict", "tuple", "bytes", "object")
def make(c, kind, nm):
    if kind == "int": return TInt.new(nm)
    if kind == "float": return TReal.new(nm)
    if kind == "bool": return TBool.new(nm)
    if kind == "str": return TStr.new(nm)
    if kind == "None": return None
    if kind == "[]": return V.VList.of([])
    if kind == "[number]": return V.VList.of([TReal.new(nm), TStr.new(nm)] if c.vc.fork(z3.Bool(nm + "_real")) else [TInt.new(nm)])
    if kind == "[other]": return V.VList.of([TStr.new(nm)] if c.vc.fork(z3.Bool(nm + "_str")) else [None])
    if kind == "dict": return V.VDict.of({})
    if kind == "tuple": return (TReal.new(nm),)
    if kind == "bytes": return b"x"
    return OBJ
T, F = z3.BoolVal(True), z3.BoolVal(False)
# a documented domain: kind -> predicate on the value (absent kinds are refused); norm = documented normalisation
def dom(norm=None, **k): return k, norm
def posint(lo=1): return dom(int=lambda v: v.t >= lo)
anyint = dom(int=lambda v: T)
number = dom(int=lambda v: T, float=lambda v: T)
boolean = dom(bool=lambda v: T)
def choice(*a): return dom(norm="lower", str=lambda v: z3.Or([lower(v.t) == strid(x) for x in a]))
def exact(*a, none=False):
    d = {"str": lambda v: z3.Or([v.t == strid(x) for x in a])}
    if none: d["None"] = lambda v: T
    return d, None
def between(lo, hi, strict=False, kinds=("int", "float")):
    def p(v):
        t = TReal.unwrap(v)
        return z3.And(t > lo, t < hi) if strict else z3.And(t >= lo, t <= hi)
    return {k: p for k in kinds}, None
numlist = ({"[number]": lambda v: T}, None)
DT = {"criterion_method": choice("xgboost"), "criterion_params": numlist, "max_depth": posint(), "min_sample_split": anyint, "min_imputiry_split": number, "min_leaf_node": anyint, "max_split_nodes": posint(),
      "n_iter_no_change": boolean, "tol": number, "feature_importance_type": choice("split", "gain")}
ATTR = {"min_imputiry_split": "min_impurity_split"}
ENC = {"method": ({"str": lambda v: T}, "paillier"), "key_length": posint()}
PRED = {"with_proba": boolean, "threshold": number}
CV = {"n_splits": posint(), "mode": exact("hetero", "homo"), "role": exact("guest", "host", "arbiter"), "shuffle": boolean, "random_seed": posint()}
EVAL = {"eval_type": choice("binary", "multi", "regression"), "pos_label": ({"int": lambda v: T, "float": lambda v: T, "str": lambda v: T}, None)}
BIN = {"method": choice("quantile"), "compress_thres": posint(), "head_size": posint(), "error": ({"float": lambda v: z3.And(v.t >= 0, v.t < 1)}, None), "bin_num": posint(),
       "cols": ({"[]": lambda v: T, "[number]": lambda v: T, "[other]": lambda v: T, "int": lambda v: T}, None), "adjustment_factor": between(0, 1, True, ("float",))}
TRANS = {"transform_cols": ({"None": lambda v: T, "int": lambda v: v.t == -1, "float": lambda v: v.t == -1, "[]": lambda v: T, "[number]": lambda v: T, "[other]": lambda v: T}, None), "transform_type": exact("bin_num", none=True)}
BOOST = {"task_type": exact("classification", "regression"), "learning_rate": number, "num_trees": posint(), "subsample_feature_rate": between(0, 1), "n_iter_no_change": boolean, "tol": number, "bin_num": posint(2)}

def hooks(c):
    c.vc.hooks[("str", "lower")] = low
    for s in ("xgboost", "split", "gain", "strict", "fast", "balance", "paillier", "quantile", "binary", "multi", "regression", "classification", "cross_entropy", "lse", "lae", "huber", "fair", "log_cosh", "tweedie", ""):
        c.require(lower(strid(s)) == strid(s))
    c.require(lower(strid("Paillier")) == strid("paillier"))
def pick(c, xs, nm):
    return xs[c.vc.choose(len(xs))] if len(xs) > 1 else xs[0]
def same(a, b):
    if a is b: return T
    try:
        ty = typeof(b)
        if isinstance(b, Sym) and ty is not None: return ty.unwrap(a) == ty.unwrap(b)
        if isinstance(a, Sym) and isinstance(b, str): return TStr.unwrap(a) == strid(b)
    except TypeMismatch: return F
    return z3.BoolVal(type(a) is type(b) and not isinstance(a, Sym) and a == b)
def copylist(v): return V.VList.of(list(v.items)) if isinstance(v, V.VList) else v
def unchanged(attr, v, norm):
    if isinstance(v, V.VList): return z3.BoolVal(isinstance(attr, V.VList) and attr.items is not None and len(attr.items) == len(v.items)) if not v.items else (z3.And([same(x, y) for x, y in zip(attr.items, v.items)]) if isinstance(attr, V.VList) and attr.items is not None and len(attr.items) == len(v.items) else F)
    if norm == "lower": return same(attr, low(v))
    if norm == "paillier":
        return z3.If(lower(v.t) == strid("paillier"), same(attr, "Paillier"), same(attr, v))
    return same(attr, v)

def field_contract(cls, fields, tested, also=None, extra=None):
    mod = cls
    kw = dict(name="%s: %s" % (cls.split(":")[1], tested))
    if extra: kw["stubs"] = extra
    @contract(cls + ".check", "C22", **kw)
    def _(c):
        hooks(c)
        C = c.get(cls)
        vals, ok = {}, []
        for f, (d, norm) in fields.items():
            if f == tested:
                k = pick(c, KINDS, f); v = make(c, k, f)
                ok.append(d[k](v) if k in d else F)
            else:
                k = pick(c, sorted(d), f); v = make(c, k, f)
                c.require(d[k](v))
            vals[f] = v
        if also: also(c, vals, ok)
        p = c.ok(C, **{k: copylist(v) for k, v in vals.items()})
        _, e = c.call(p.check)
        good = z3.And(ok) if ok else T
        if isinstance(e, AttributeError) and "NoneType" not in str(e) and "lower" not in str(e): raise e
        if e is None:
            c.prove("only documented values are accepted", good)
            for f, (d, norm) in fields.items():
                if f in p.__dict__ or ATTR.get(f, f) in p.__dict__:
                    c.prove("%s is left as it is" % f, unchanged(p.__dict__[ATTR.get(f, f)], vals[f], norm))
        else: c.prove("documented values are not refused", z3.Not(good))
for _cls, _f in ((BT + "DecisionTreeParam", DT), ("ml.param.encrypt_param:EncryptParam", ENC), ("ml.param.predict_param:PredictParam", PRED), ("ml.param.cross_validation_param:CrossValidationParam", CV),
                 ("ml.param.evaluation_param:EvaluateParam", EVAL), ("ml.param.feature_binning_param:FeatureBinningParam", BIN), ("ml.param.feature_binning_param:TransformParam", TRANS)):
    for _t in _f: field_contract(_cls, _f, _t)

def sub_stub(nm):
    def f(vc, orig, self, *a):
        vc.ghost.setdefault("checked", {})[nm] = a
        if not vc.fork(z3.Bool(nm + "_valid")): raise ValueError(nm)
        return True
    return f
SUBS = {BT + "DecisionTreeParam.check": sub_stub("tree"), BT + "ObjectiveParam.check": sub_stub("objective"), "ml.param.encrypt_param:EncryptParam.check": sub_stub("encrypt"), "ml.param.encrypted_mode_calculation_param:EncryptedModeCalculatorParam.check": sub_stub("mode")}
def parts(c, vals, ok):
    ok += [z3.Bool(n + "_valid") for n in ("tree", "objective", "encrypt", "mode")]
for _t in BOOST: field_contract(BT + "BoostingTreeParam", BOOST, _t, parts, SUBS)

@contract(BT + "BoostingTreeParam.check", "C22", name="BoostingTreeParam: its parts", stubs=SUBS)
def _(c):
    hooks(c)
    t = TStr.new("task"); c.require(z3.Or(t.t == strid("classification"), t.t == strid("regression")))
    p = c.ok(c.get(BT + "BoostingTreeParam"), task_type=t)
    _, e = c.call(p.check)
    done = c.vc.ghost.get("checked", {})
    if e is not None: return
    c.prove("every part is validated", set(done) == {"tree", "objective", "encrypt", "mode"})
    a = done.get("objective") or (None,)
    c.prove("the objective is validated for the task", same(a[0], t))

@contract("ml.param.encrypted_mode_calculation_param:EncryptedModeCalculatorParam.check", ["C22", "C09"], name="EncryptedModeCalculatorParam")
def _(c):
    hooks(c)
    C = c.get("ml.param.encrypted_mode_calculation_param:EncryptedModeCalculatorParam")
    k, k2 = pick(c, KINDS, "mode"), pick(c, KINDS, "rate")
    m, r = make(c, k, "mode"), make(c, k2, "rate")
    p = c.ok(C, copylist(m), copylist(r))
    _, e = c.call(p.check)
    known = z3.Or([lower(m.t) == strid(x) for x in ("strict", "fast", "balance")]) if k == "str" else F
    good = z3.And(known, T if k2 in ("int", "float") else lower(m.t) != strid("balance")) if k == "str" else F
    if e is None:
        c.prove("only documented values are accepted", good)
        c.prove("mode is left as it is", unchanged(p.mode, m, "lower")); c.prove("rate is left as it is", unchanged(p.re_encrypted_rate, r, None))
    else: c.prove("documented values are not refused", z3.Not(good))

@contract(BT + "ObjectiveParam.check", "C22", name="ObjectiveParam")
def _(c):
    hooks(c)
    C = c.get(BT + "ObjectiveParam")
    k = pick(c, KINDS, "objective"); o = make(c, k, "objective")
    k2 = pick(c, KINDS, "params"); ps = make(c, k2, "params")
    task = pick(c, ("classification", "regression", None), "task")
    p = c.ok(C, copylist(o), copylist(ps))
    _, e = c.call(p.check, task)
    REG = ("lse", "lae", "huber", "fair", "log_cosh", "tweedie")
    if k == "None": good = T
    elif k != "str": good = F
    elif task == "classification": good = o.t == strid("cross_entropy")
    elif task == "regression":
        l = lower(o.t)
        num = k2 == "[number]"
        x = TReal.unwrap(ps.items[0]) if num else None
        need = lambda f: f if num else F
        good = z3.And(z3.Or([l == strid(x_) for x_ in REG]), z3.Implies(z3.Or(l == strid("huber"), l == strid("fair")), need(x > 0 if num else F)), z3.Implies(l == strid("tweedie"), need(z3.And(x >= 1, x < 2) if num else F)))
    else: good = z3.Or([lower(o.t) == strid(x) for x in REG + ("cross_entropy",)])
    if e is None:
        c.prove("only documented values are accepted (%s)" % task, good)
        c.prove("objective is left as it is", unchanged(p.objective, o, "lower" if k == "str" else None)); c.prove("params are left as they are", unchanged(p.params, ps, None))
    else: c.prove("documented values are not refused (%s)" % task, z3.Not(good))

@contract(BT + "BoostingTreeParam.__init__", "C22", name="parameter objects do not share their parts")
def _(c):
    B = c.get(BT + "BoostingTreeParam")
    a, b = c.ok(B), c.ok(B)
    for n in ("tree_param", "objective_param", "encrypt_param", "encrypted_mode_calculator_param", "predict_param", "cv_param"):
        c.prove(n + " is not shared", getattr(a, n) is not getattr(b, n))
    t = c.ok(c.get(BT + "DecisionTreeParam"))
    x = c.ok(B, tree_param=t); y = c.ok(B, tree_param=t)
    c.prove("a given part is copied", x.tree_param is not t and x.tree_param is not y.tree_param)
