"""python3-vt dynmain.py PROPERTY TIER SEED SECONDS OUT.json  |  dynmain.py --replay FILE"""
import sys, os, json, time, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
from dyn import env, base
def load(prop):
    import importlib
    env.quiet()
    for f in sorted(os.listdir(os.path.join(env.HERE, "dyn"))):
        if f.startswith("c") and f.endswith(".py"):
            if prop in open(os.path.join(env.HERE, "dyn", f)).read(): importlib.import_module("dyn." + f[:-3])
START = time.time(); MORE, WORKERS = float(os.environ.get("DYN_MORE", "32")), 3
def more(cks, res, seed, end):
    """the time left: further cases of every check, in turn, by a few low-priority processes"""
    cks = [(k, ck) for k, ck in enumerate(cks) if not res[k]["note"] and ck.thorough > ck.quick]
    if not cks or time.time() >= end: return
    kids = []
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(WORKERS):
        f = tempfile.mktemp(suffix=".more", dir=os.getcwd()); pid = os.fork()
        if pid:
            kids.append((pid, f)); continue
        done, bad = {}, {}
        try:
            os.nice(15); d = tempfile.mkdtemp(dir=os.getcwd()); os.chdir(d)
            spent = {k: 0.0 for k, _ in cks}; nxt = {k: ck.quick + w for k, ck in cks}
            while not bad and time.time() < end:
                live = [(spent[k], k, ck) for k, ck in cks if nxt[k] < ck.thorough]
                if not live: break
                _, k, ck = min(live, key=lambda x: x[:2]); t = time.time()
                try: m = base.run_case(ck, seed, nxt[k], None)
                except BaseException: spent[k] = float("inf"); nxt[k] = ck.thorough; continue
                if m is not None: bad[k] = (nxt[k], m)
                done[k] = done.get(k, 0) + 1; nxt[k] += WORKERS; spent[k] += time.time() - t
        finally:
            try: json.dump([done, bad], open(f, "w"))
            finally: os._exit(0)
    for pid, f in kids:
        os.waitpid(pid, 0)
        try: done, bad = json.load(open(f)); os.unlink(f)
        except (OSError, ValueError): continue
        for k, n in done.items(): res[int(k)]["cases"] += n
        for k, b in bad.items():
            if not res[int(k)]["failure"]: res[int(k)]["failure"] = b
def main():
    scratch = tempfile.mkdtemp(prefix="dyn"); os.chdir(scratch)
    try:
        if sys.argv[1] == "--replay":
            r = json.load(open(sys.argv[2])); load(r["property"])
            for f in r["failing_inputs"]:
                m = base.replay(r["property"], f["check"], f["seed"], f["case"])
                print(f["check"], "reproduced:" if m else "not reproduced", m or "")
            return
        prop, tier, seed, secs, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
        load(prop)
        res = []; end = time.time() + secs
        cks = base.CHECKS.get(prop, [])
        for k, ck in enumerate(cks):
            t = time.time()
            # an equal share of what is left
            n, fail, note = base.run_check(ck, tier, seed, t + (end - t) / (len(cks) - k))
            res.append(dict(name=ck.name, cases=n, failure=fail, note=note, secs=round(time.time() - t, 2)))
        if tier == "quick" and not any(r["failure"] for r in res): more(cks, res, seed, min(end, START + MORE))
        json.dump(res, open(out, "w"))
    finally:
        os.chdir("/"); os.rmdir(scratch) if not os.listdir(scratch) else __import__("shutil").rmtree(scratch)
main()
sys.stdout.flush(); os._exit(0)
