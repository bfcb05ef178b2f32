"""Runs the real code of the repository: import path, shims for missing libraries, quiet logger."""
import os, sys
sys.dont_write_bytecode = True
REPO = os.environ.get("PYVC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (os.path.join(HERE, "shims"), REPO):
    if p not in sys.path: sys.path.insert(0, p)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
os.environ.setdefault("PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION", "python")
import warnings
warnings.filterwarnings("ignore")
import numpy as _np
_array = _np.array
def _ragged(x, *a, **k):
    """numpy of the project's era makes an object array of ragged input; newer ones raise"""
    try: return _array(x, *a, **k)
    except ValueError:
        if a or k: raise
        r = _np.empty(len(x), dtype=object)
        for i, y in enumerate(x): r[i] = y
        return r
_np.array = _ragged
import importlib, io, contextlib

class Unavailable(Exception):
    """the entry point a check drives is not there under this name"""

def api(key):
    mod, _, q = key.partition(":")
    try:
        o = importlib.import_module(mod)
        for x in q.split(".") if q else (): o = getattr(o, x)
        return o
    except (ImportError, AttributeError) as e:
        raise Unavailable("%s: %s" % (key, e))

def quiet():
    try:
        from ml.utils import logger
        L = logger.LOGGER
        if isinstance(getattr(L, "mask", None), dict):
            for k in L.mask: L.mask[k] = False
    except Exception: pass
