"""obligations that are close to their limit: tools/slow.py [PROP...]"""
import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import driver
for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))):
    if f.endswith(".py") and f not in ("__init__.py", "common.py"): importlib.import_module("contracts." + f[:-3])
for P in sys.argv[1:] or sorted({p for s in driver.CONTRACTS for p in s.prop}):
    t = time.time(); rs = driver.run_props([P], jobs=7)
    print(P, "%.1f s" % (time.time() - t), [r["name"] for r in rs if r["status"] != "ok"])
    for r in rs:
        if r["stats"].get("wall", 0) > 40: print("   slow contract", r["name"], r["stats"]["wall"])
        for o in r["obls"]:
            if o["secs"] > 1.5 or o["backend"] == "cvc5" or o["status"] != "proved": print("   ", r["name"], "/", o["name"], o["status"], o["backend"], o["secs"])
