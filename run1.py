import sys, os, time
sys.path.insert(0, "/verif")
import importlib
from pyvc import driver
for m in sys.argv[1].split(","): importlib.import_module("contracts." + m)
only = sys.argv[2] if len(sys.argv) > 2 else None
dbg = os.environ.get("PYVC_DEBUG")
t = time.time()
if dbg:
    sys.setrecursionlimit(20000)
    for i, s in enumerate(driver.CONTRACTS):
        if only is None or only in s.name:
            r = driver.run_contract(i); rs = [r]
            break
else:
    props = set(p for s in driver.CONTRACTS for p in s.prop)
    mods = ["contracts." + m for m in sys.argv[1].split(",")]
    driver.CONTRACTS[:] = [s for s in driver.CONTRACTS if s.fn.__module__ in mods]
    rs = driver.run_props(props, only=only)
for r in rs:
    if os.environ.get("Q") and r["status"] == "ok": continue
    print("%-45s %-11s %s %s" % (r["name"], r["status"], r["reason"][:400], {k: round(v, 1) for k, v in r["stats"].items()} if r["stats"] else ""))
    for o in r["obls"]:
        if o["status"] != "proved" or os.environ.get("V"): print("    ", o["status"], o["name"], o["backend"], o["secs"], o["detail"][:int(os.environ.get('DL','250'))] if o["status"]!="proved" else "")
    if r["template_errors"]: print("   tmpl", r["template_errors"])
print(round(time.time() - t, 1), "s")
