"""C22 on the real parameter classes: documented values pass unchanged (letter case apart), others are refused."""
from .base import *
import copy
class Odd: pass
NUM = [0.5, 1, 2, 1e-3, 100, 3.75]; NOTNUM = ["1", None, [1], {}, True, Odd(), (1,), 1j]
POSINT = [1, 2, 5, 1000, 10 ** 9]; NOTPOSINT = [0, -1, -5, 1.0, 2.5, "3", None, [1], True, Odd()]
INT = [0, 1, 2, -1, 50]; NOTINT = [1.0, "2", None, [1], True, Odd()]
BOOL = [True, False]; NOTBOOL = [0, 1, "True", None, [], 1.0, Odd()]
def choice(*vals, case=True):
    ok = list(vals)
    if case: ok += [v.upper() for v in vals] + [v.capitalize() for v in vals] + [v.swapcase() for v in vals]
    return ok
BADSTR = ["", "nope", None, 1, 0.5, ["xgboost"], True, b"x", Odd(), "xgboost ", " fast"]
# class -> (constructor keyword -> (attribute, valid, invalid, normalise))
low = lambda v: v.lower() if isinstance(v, str) else v
same_ = lambda v: v
def spec(name):
    if name == "DecisionTreeParam": return "ml.param.boosting_tree_param", {
        "criterion_method": ("criterion_method", choice("xgboost"), BADSTR, low), "criterion_params": ("criterion_params", [[0.1], [1], [0, 5], [2.5, "x"]], [[], None, 0.1, (0.1,), ["a"], [None], "0.1", {0: 1}, [[1]], [True]], same_),
        "max_depth": ("max_depth", POSINT, NOTPOSINT, same_), "min_sample_split": ("min_sample_split", [1, 2, 10, 1000], NOTINT, same_), "min_imputiry_split": ("min_impurity_split", NUM + [0, 0.0], NOTNUM, same_),
        "min_leaf_node": ("min_leaf_node", [1, 2, 10], NOTINT, same_), "max_split_nodes": ("max_split_nodes", [1, 2, 100, 65535, 65536], NOTPOSINT, same_), "n_iter_no_change": ("n_iter_no_change", BOOL, NOTBOOL, same_), "tol": ("tol", NUM + [0], NOTNUM, same_),
        "feature_importance_type": ("feature_importance_type", choice("split", "gain"), BADSTR + ["cover"], low)}
    if name == "EncryptParam": return "ml.param.encrypt_param", {
        "method": ("method", ["Paillier", "paillier", "PAILLIER", "none", "xyz"], [1, 0.5, ["Paillier"], True, Odd(), b"Paillier", None], lambda v: "Paillier" if v.lower() == "paillier" else v), "key_length": ("key_length", POSINT + [1024], NOTPOSINT, same_)}
    if name == "EncryptedModeCalculatorParam": return "ml.param.encrypted_mode_calculation_param", {
        "mode": ("mode", choice("strict", "fast", "balance"), BADSTR, low)}
    if name == "EvaluateParam": return "ml.param.evaluation_param", {"eval_type": ("eval_type", choice("binary", "regression"), BADSTR, low), "pos_label": ("pos_label", [1, 0.5, "a", 0, -1, ""], [None, [1], True, Odd(), (1,)], same_)}
    if name == "PredictParam": return "ml.param.predict_param", {"with_proba": ("with_proba", BOOL, NOTBOOL, same_), "threshold": ("threshold", [0.5, 1, 0, 0.1], NOTNUM, same_)}
    if name == "CrossValidationParam": return "ml.param.cross_validation_param", {
        "n_splits": ("n_splits", POSINT, NOTPOSINT, same_), "mode": ("mode", ["hetero", "homo"], ["", "x", None, 3, "guest"], same_), "role": ("role", ["guest", "host", "arbiter"], ["", "x", None, 3, "hetero"], same_),
        "shuffle": ("shuffle", BOOL, NOTBOOL, same_), "random_seed": ("random_seed", POSINT, NOTPOSINT, same_)}
    if name == "FeatureBinningParam": return "ml.param.feature_binning_param", {
        "method": ("method", choice("quantile"), ["", "x", None, 3, ["quantile"], Odd()], low), "compress_thres": ("compress_thres", POSINT, NOTPOSINT, same_), "head_size": ("head_size", POSINT, NOTPOSINT, same_),
        "error": ("error", [0.0, 0.001, 0.5, 0.999999], [-0.001, 1.0, 1.5, "0.1", None, [0.1], Odd()], same_), "bin_num": ("bin_num", POSINT, NOTPOSINT, same_), "cols": ("cols", [-1, [0], [1, 2], []], [None, "x", 1.5, (1,), Odd()], same_),
        "adjustment_factor": ("adjustment_factor", [0.5, 0.001, 0.999], [0.0, 1.0, -0.5, 1.5, None, "0.5", Odd()], same_)}
    if name == "TransformParam": return "ml.param.feature_binning_param", {
        "transform_cols": ("transform_cols", [-1, None, [0], [1, 2]], ["x", 1.5, (1,), 3, Odd()], same_), "transform_type": ("transform_type", ["bin_num", None], ["x", "", 1, ["bin_num"], Odd(), "woe"], same_)}
    if name == "BoostingTreeParam": return "ml.param.boosting_tree_param", {
        "task_type": ("task_type", ["classification"], ["", "x", None, 1, "binary", ["classification"]], same_), "learning_rate": ("learning_rate", NUM, NOTNUM, same_), "num_trees": ("num_trees", POSINT, [0, -1, "3", None, [1], True, Odd()], same_),
        "subsample_feature_rate": ("subsample_feature_rate", [0.5, 1, 1.0, 0.8, 0.001], [-0.1, 1.1, 2, -1, "0.5", None, [0.5], True], same_), "n_iter_no_change": ("n_iter_no_change", BOOL, NOTBOOL, same_), "tol": ("tol", NUM + [0], NOTNUM, same_),
        "bin_num": ("bin_num", [2, 3, 32, 1000], [1, 0, -1, 2.0, "3", None, True], same_)}
NAMES = ["DecisionTreeParam", "EncryptParam", "EncryptedModeCalculatorParam", "EvaluateParam", "PredictParam", "CrossValidationParam", "FeatureBinningParam", "TransformParam", "BoostingTreeParam"]
def passes(p, *a):
    try: p.check(*a)
    except Exception as e: return e
    return None
def state(p): return {k: (state(v) if hasattr(v, "check") else copy.copy(v)) for k, v in p.__dict__.items()}
def singles():
    for n in NAMES:
        for k, (attr, ok, bad, norm) in spec(n)[1].items():
            for i in range(len(ok)): yield n, k, "ok", i
            for i in range(len(bad)): yield n, k, "bad", i
@dyn("C22", 0, 0, fixed=singles)
def single_field(rng, case):
    n, k, kind, i = case
    mod, fields = spec(n); C = api(mod + ":" + n); attr, ok, bad, norm = fields[k]
    v = copy.deepcopy((ok if kind == "ok" else bad)[i])
    p = C(**{k: v}); b = state(p); e = passes(p)
    if kind == "bad":
        if isinstance(v, Odd): pass
        expect(e is not None, "an undocumented value passes validation", parameter=n, field=k, value=v)
    else:
        expect(e is None, "a documented value is refused", parameter=n, field=k, value=v, error=e)
        b[attr] = norm(b[attr]); 
        expect(state(p) == b, "validation changes a valid value", parameter=n, field=k, before=b, after=state(p))
@dyn("C22", 1500, 40000)
def combined(rng, case):
    """all fields at once; one of them wrong half of the time"""
    n = rng.choice(NAMES); mod, fields = spec(n); C = api(mod + ":" + n)
    kw = {k: copy.deepcopy(rng.choice(f[1])) for k, f in fields.items()}
    wrong = rng.choice(sorted(fields)) if rng.random() < .5 else None
    if wrong: kw[wrong] = copy.deepcopy(rng.choice(fields[wrong][2]))
    extra = {}
    if n == "BoostingTreeParam":
        B = "ml.param.boosting_tree_param:"
        sub = dict(tree_param="DecisionTreeParam", encrypt_param="EncryptParam", encrypted_mode_calculator_param="EncryptedModeCalculatorParam")
        s = rng.choice(sorted(sub)); sm, sf = spec(sub[s]); SC = api(sm + ":" + sub[s])
        skw = {k: copy.deepcopy(rng.choice(f[1])) for k, f in sf.items()}
        if not wrong and rng.random() < .4:
            w = rng.choice(sorted(sf)); skw[w] = copy.deepcopy(rng.choice(sf[w][2])); wrong = s + "." + w
        extra[s] = SC(**skw)
    p = C(**kw, **extra); b = state(p); e = passes(p)
    if wrong: expect(e is not None, "an undocumented value passes validation", parameter=n, wrong=wrong, values={k: getattr(v, "__dict__", v) for k, v in list(kw.items()) + list(extra.items())})
    else:
        expect(e is None, "documented values are refused", parameter=n, values={k: getattr(v, "__dict__", v) for k, v in list(kw.items()) + list(extra.items())}, error=e)
        for k, f in fields.items(): b[f[0]] = f[3](b[f[0]])
        for s in extra:
            for k, f in spec(type(extra[s]).__name__)[1].items(): b[s][f[0]] = f[3](b[s][f[0]])
        expect(state(p) == b, "validation changes a valid value", parameter=n, before=b, after=state(p))
def objectives():
    C, R = "classification", "regression"
    for t in (C, R, None):
        for o in ("cross_entropy", "lse", "lae", "huber", "fair", "log_cosh", "tweedie", None, "nope", "", 3, ["lse"], "Huber", "LSE"):
            for ps in (None, [], [1.5], [1], [0.5], [0.0], [-1.0], [2.0], [1.999], [1.0], [2.5], ["1"], [None], (1.5,), 1.5, [1.5, 3], [True], [0]): yield t, o, ps
@dyn("C22", 0, 0, fixed=objectives)
def objective(rng, case):
    O = api("ml.param.boosting_tree_param:ObjectiveParam"); B = api("ml.param.boosting_tree_param:BoostingTreeParam")
    t, o, ps = case
    p = O(objective=o, params=copy.deepcopy(ps)); e = passes(p, t)
    names = ["lse", "lae", "huber", "fair", "log_cosh", "tweedie"]
    l = o.lower() if isinstance(o, str) else o
    if o is None: ok = True
    elif not isinstance(o, str): ok = False
    elif t == "classification": ok = o == "cross_entropy"
    elif t == "regression":
        ok = l in names
        if l in ("huber", "fair", "tweedie"):
            v = ps[0] if isinstance(ps, list) and ps else None
            ok = ok and type(v) in (int, float) and (1 <= v < 2 if l == "tweedie" else v > 0)
    else: ok = l in names + ["cross_entropy"]
    info = dict(task=t, objective=o, params=ps, error=e)
    if t == "classification" and o != l: return
    expect((e is None) == ok, "an objective is refused though documented, or passes though not", **info)
    if ok: expect(p.params == ps and p.objective == (l if o is not None else None), "validation changes the objective", got=p.__dict__, **info)
    if t and o is not None:
        b = B(task_type=t, objective_param=O(objective=o, params=copy.deepcopy(ps)))
        expect((passes(b) is None) == ok, "boosting parameters are not validated with their objective", **info)
@dyn("C22", 0, 0, fixed=[None])
def defaults(rng, case):
    for n in NAMES + ["ObjectiveParam"]:
        C = api((spec(n)[0] if n != "ObjectiveParam" else "ml.param.boosting_tree_param") + ":" + n)
        p = C(); b = state(p); e = passes(p)
        expect(e is None and state(p) == b, "the default values are refused or changed", parameter=n, error=e)
    B = api("ml.param.boosting_tree_param:BoostingTreeParam")
    a = B(); a.tree_param.max_depth = 77; a.objective_param.params = [3]; a.encrypt_param.key_length = 5
    c = B(); expect(c.tree_param.max_depth != 77 and c.objective_param.params is None and c.encrypt_param.key_length != 5, "two parameter objects share their parts")
@dyn("C22", 100, 1000)
def helpers(rng, case):
    P = api("ml.param.base_param:BaseParam")
    def ok(fn, *a):
        try: fn(*a)
        except Exception: return False
        return True
    v = rng.choice([0, 1, -1, 0.0, 1.0, 0.5, -0.5, 1.5, "a", "", None, True, [], 3])
    num = type(v) in (int, float)
    for fn, want in (("check_string", type(v) is str), ("check_positive_integer", type(v) is int and v > 0), ("check_positive_number", num and v > 0), ("check_decimal_float", type(v) is float and 0 <= v <= 1),
                     ("check_boolean", type(v) is bool), ("check_open_unit_interval", type(v) is float and 0 < v < 1)):
        f = getattr(P, fn, None)
        if f is not None: expect(ok(f, v, "d") == want, "%s is wrong" % fn, value=v)
