"""seed.py ID: (re)creates seeded/ID from tools/seeds/ID.py and validates it on a scratch copy.
The seed file defines PROP, FILE, OLD, NEW (or EDITS=[(file, old, new)]), DEMO (python text), NEEDS, BREAKS."""
import sys, os, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
REPO = os.getcwd()
sys.path.insert(0, REPO); sys.path.insert(0, os.path.join(HERE, "shims")); sys.path.append("/opt/venv/lib/python3.12/site-packages")
os.environ["PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION"] = "python"
import warnings; warnings.filterwarnings("ignore")
def quiet():
    from ml.utils.logger import LOGGER
    for k in LOGGER.mask: LOGGER.mask[k] = False
import numpy as np
_array = np.array
def _ragged(x, *a, **k):
    try: return _array(x, *a, **k)
    except ValueError:
        if a or k: raise
        r = np.empty(len(x), dtype=object)
        for i, y in enumerate(x): r[i] = y
        return r
np.array = _ragged
'''
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the property is broken
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)
def make(i):
    ns = {}; exec(open(H + "/tools/seeds/%s.py" % i).read(), ns)
    edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
    d = H + "/seeded/" + i; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        r = w + "/repo"; shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__"))
        for f, o, n in edits:
            p = os.path.join(r, f); s = open(p, newline="").read()
            if "\r\n" in s: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            assert s.count(o) == 1, "%s: pattern occurs %d times in %s" % (i, s.count(o), f)
            open(p, "w", newline="").write(s.replace(o, n))
        diff = run(["git", "diff"], r).stdout
        assert diff
        open(d + "/patch.diff", "w", newline="").write(diff)
        open(d + "/demo.py", "w").write(PRE + ns["DEMO"]); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        if ns.get("SHIMS", True):
            shutil.rmtree(d + "/shims", ignore_errors=True); shutil.copytree(H + "/shims", d + "/shims", ignore=shutil.ignore_patterns("__pycache__"))
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        # validate
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=test_xgboost.py"], r, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        ok_tests = " 12 passed" in " " + t.stdout.strip().splitlines()[-1] or "12 passed" in t.stdout
        c = run(["/opt/venv/bin/python", "-c", "import sys,compileall;sys.dont_write_bytecode=True;import ast,glob\nfor f in %r: ast.parse(open(f,encoding='utf-8').read())" % [f for f, _, _ in edits]], r)
        bad = run(["bash", d + "/demo.sh"], r)
        good = run(["bash", d + "/demo.sh"], "/repo")
        print(i, "tests", ok_tests, "compiles", c.returncode == 0, "demo unchanged rc", good.returncode, "demo changed rc", bad.returncode)
        if good.returncode: print(good.stdout[-500:], good.stderr[-1500:])
        if not bad.returncode: print("NOT DETECTED BY ITS DEMO")
        else: print("   ", (bad.stdout + bad.stderr).strip().splitlines()[-1][:200])
    finally: shutil.rmtree(w)
for i in sys.argv[1:]: make(i)
