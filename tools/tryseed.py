"""tryseed.py ID...: runs the property's check against seeded/ID on a scratch copy (PYVC_REPO)"""
import sys, os, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(H + "/seeded")):
    d = H + "/seeded/" + i; m = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="try")
    try:
        shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns("__pycache__"))
        a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/repo", capture_output=True, text=True)
        if a.returncode: print(i, "patch does not apply", a.stderr); continue
        r = subprocess.run(["python3", H + "/check.py", m["property"]], cwd=H, env=dict(os.environ, PYVC_REPO=w + "/repo", VERIF_SEED="1"), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-28s %s %s" % (i, m["property"], "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode), ("" if v and v[0].endswith("found") is False else "(no input)"))
        for l in r.stdout.splitlines():
            if "failed obligation" in l or "failing input" in l: print("      ", l.strip()[:170])
    finally: shutil.rmtree(w)
