"""Search for failing inputs on the real code (counterexample search and replay for failed obligations;
bounded stand-in where an obligation is out of the verifier's reach)."""
import os, sys, random, zlib, signal, time, traceback, ast, re, io, contextlib
from .env import api, Unavailable, quiet, REPO

CHECKS = {}     # property -> [Check]
class Violation(Exception): pass

class Check:
    def __init__(self, prop, name, fn, quick, thorough, fixed, limit):
        self.prop, self.name, self.fn, self.quick, self.thorough, self.fixed, self.limit = prop, name, fn, quick, thorough, fixed, limit

def dyn(prop, quick=200, thorough=2000, name=None, fixed=None, limit=60):
    """register a case function fn(rng, case): raises Violation on a failing input.
    `fixed`: a list of enumerated cases tried before the random ones (case is then one of them, else None)"""
    def deco(fn):
        CHECKS.setdefault(prop, []).append(Check(prop, name or fn.__name__, fn, quick, thorough, fixed, limit))
        return fn
    return deco

_mined = {}
def mined(*files):
    """numeric and string literals of the code under test, to bias the generators"""
    key = files
    if key in _mined: return _mined[key]
    ints, floats, strs = set(), set(), set()
    for f in files:
        try: tree = ast.parse(open(os.path.join(REPO, f), encoding="utf-8").read())
        except (OSError, SyntaxError): continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool): continue
                if isinstance(n.value, int) and abs(n.value) < 10 ** 6: ints |= {n.value, n.value - 1, n.value + 1}
                elif isinstance(n.value, float): floats.add(n.value)
                elif isinstance(n.value, str) and len(n.value) < 40: strs.add(n.value)
    _mined[key] = (sorted(ints), sorted(floats), sorted(strs))
    return _mined[key]

def small_int(rng, files, lo, hi):
    """an integer of [lo, hi]: mostly small, sometimes a literal of the code"""
    r = rng.random()
    if r < .15:
        c = [x for x in mined(*files)[0] if lo <= x <= hi]
        if c: return rng.choice(c)
    if r < .7: return rng.randint(lo, min(hi, lo + 8))
    return rng.randint(lo, hi)

def expect(cond, msg, **info):
    if not cond:
        raise Violation(msg + "".join("\n    %s = %.1500r" % kv for kv in info.items()))

def same(got, want, msg, **info):
    if not (type(got) is type(want) or isinstance(got, type(want)) or isinstance(want, type(got)) or True) or got != want:
        expect(False, msg, got=got, want=want, **info)

class Timeout(BaseException): pass
def _alarm(*a): raise Timeout()

def rng_for(prop, name, seed, i): return random.Random("%s/%s/%s/%s" % (prop, name, seed, i))

def run_case(ck, seed, i, case):
    """None, or a message"""
    import numpy as np
    np.random.seed(zlib.crc32(("%s/%s" % (seed, i)).encode())); random.seed("%s/%s" % (seed, i))
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(ck.limit)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            ck.fn(rng_for(ck.prop, ck.name, seed, i), case)
        return None
    except Violation as e: return str(e)
    except Unavailable: raise
    except Timeout: return "no result within %d s" % ck.limit
    except AssertionError as e: return "assertion: " + "".join(traceback.format_exc()[-1500:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else ""
        if any(f.filename.startswith(REPO + "/") for f in tb):
            return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:])
        raise
    finally:
        signal.alarm(0)

def cases(ck, tier, seed):
    fixed = list(ck.fixed() if callable(ck.fixed) else ck.fixed or [])
    for k, c in enumerate(fixed): yield "f%d" % k, c
    for i in range(ck.thorough if tier == "thorough" else ck.quick): yield i, None

def run_check(ck, tier, seed, deadline):
    """(number of cases run, failure | None, note)"""
    n = 0
    try:
        for i, c in cases(ck, tier, seed):
            if time.time() > deadline: return n, None, "stopped at the time limit"
            m = run_case(ck, seed, i, c)
            n += 1
            if m is not None: return n, (i, m), ""
        return n, None, ""
    except Unavailable as e:
        return n, None, "entry point unavailable: %s" % e
    except Exception as e:
        # a failure of the harness itself, not of the code under test
        return n, None, "harness error: %s" % traceback.format_exc()[-1500:]

def replay(prop, name, seed, i):
    for ck in CHECKS[prop]:
        if ck.name == name:
            if isinstance(i, str):
                fixed = list(ck.fixed() if callable(ck.fixed) else ck.fixed or [])
                return run_case(ck, seed, i, fixed[int(i[1:])])
            return run_case(ck, seed, i, None)
