"""mutation smoke test: tools/mut.py contracts-module file 'old' 'new' [only]  -> runs the contracts on a scratch copy"""
import sys, os, shutil, subprocess, tempfile
mod, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(d, "r", f); s = open(p).read()
    assert s.count(old) >= 1, "pattern not found"
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["python3-vt", "/verif/run1.py", mod] + sys.argv[5:], env=dict(os.environ, PYVC_REPO=d + "/r"), capture_output=True, text=True)
    print("\n".join(l for l in r.stdout.splitlines() if " ok " not in l), r.stderr[-500:])
finally:
    shutil.rmtree(d)
