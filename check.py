#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree (see DESIGN.md).  Exit 0 or 1."""
import sys, os, json, time, subprocess, tempfile, importlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "python3-vt"
if not os.environ.get("VT_INNER"):
    os.environ["VT_INNER"] = "1"; os.environ["PYTHONHASHSEED"] = "0"; os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execvp(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop): out.append(l[len("finding: property=%s " % prop):])
    return out

def lean_files(prop):
    d = os.path.join(HERE, "lemmas")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".lean") and ("@" + prop) in open(os.path.join(d, f)).read()] if os.path.isdir(d) else []

def main():
    prop = sys.argv[1]
    if prop == "--setup":      # nothing to build: check that the tools answer
        import z3, cvc5, numpy
        print("z3", z3.get_version_string(), "ready"); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    t0 = time.time()
    secs = 100 if tier == "quick" else 420
    fd, dout = tempfile.mkstemp(suffix=".json"); os.close(fd); os.unlink(dout)
    derr = tempfile.TemporaryFile()
    dproc = subprocess.Popen([PY, os.path.join(HERE, "dynmain.py"), prop, tier, str(seed), str(secs), dout], stdout=derr, stderr=derr)
    # lemma files, checked by Lean
    leans = []
    for f in lean_files(prop):
        leans.append((f, subprocess.Popen(["lean", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    from pyvc import driver
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.endswith(".py") and f not in ("__init__.py", "common.py"): importlib.import_module("contracts." + f[:-3])
    results = driver.run_props([prop], jobs=7, budget=240 if tier == "quick" else 600, retries=2)
    lean_res = []
    for f, p in leans:
        try: o, _ = p.communicate(timeout=300)
        except subprocess.TimeoutExpired: p.kill(); o = "timeout"
        lean_res.append(dict(file=os.path.relpath(f, HERE), ok=p.returncode == 0 and "error" not in o and "sorry" not in o, output=o[:2000]))
    try: dproc.wait(timeout=secs + 200)
    except subprocess.TimeoutExpired: dproc.kill()
    dyn, dnote = [], ""
    try: dyn = json.load(open(dout)); os.unlink(dout)
    except (OSError, ValueError):
        derr.seek(0); dnote = "the input search did not finish: " + derr.read().decode(errors="replace")[-1500:]

    kf = known_findings(prop)
    failed, unsup, obls, proved, solver_s, backends = [], [], 0, 0, 0.0, {}
    seen_kf = []
    for r in results:
        for o in r["obls"]:
            obls += 1
            if o["status"] == "proved":
                proved += 1; backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else: failed.append((r, o))
        solver_s += (r["stats"] or {}).get("solver_s", 0)
        if r["status"] == "vacuous": failed.append((r, dict(name="reachability", detail=r["reason"], status="failed", backend="")))
        if r["status"] == "unsupported": unsup.append(r)
    for l in lean_res:
        obls += 1
        if l["ok"]: proved += 1; backends["lean"] = backends.get("lean", 0) + 1
        else: failed.append((dict(name="lemma " + l["file"], target=l["file"]), dict(name="lean accepts", detail=l["output"], status="failed", backend="lean")))
    inputs = []
    for d in dyn:
        if d["failure"]:
            inputs.append(dict(check=d["name"], case=d["failure"][0], seed=seed, message=d["failure"][1]))
    def is_known(text):
        for k in kf:
            key = k.split(" :: ")[0].strip()
            if key and key in text:
                if k not in seen_kf: seen_kf.append(k)
                return True
        return False
    inputs = [i for i in inputs if not is_known("input " + i["check"] + ": " + i["message"])]
    failed = [(r, o) for r, o in failed if not is_known("obligation %s / %s" % (r["name"], o["name"]))]
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    violations = bool(inputs) + bool(failed) > 0
    wall = round(time.time() - t0, 2)
    decided = [r for r in results if r["status"] in ("ok", "failed")]
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if decided else "exploration", wall_s=wall, violations=len(inputs) + len(failed),
        coverage=dict(obligations=obls, discharged=proved, checker_cmd="python3 /verif/check.py %s" % prop,
            trusted_base=TRUSTED + sorted({"assumed at call sites (contract of %s; proved by its own contract where listed)" % u for r in results for u in r["uses"]}),
            functions_under_contract=sorted({r["target"] for r in decided}),
            contracts=[dict(name=r["name"], function=r["target"], status=r["status"], obligations=len(r["obls"]), discharged=sum(o["status"] == "proved" for o in r["obls"]),
                            solver_s=round((r["stats"] or {}).get("solver_s", 0), 2), paths=(r["stats"] or {}).get("paths"), reason=r["reason"][:300], bounded=r.get("bounded")) for r in results],
            obligation_names=["%s / %s" % (r["name"], o["name"]) for r in results for o in r["obls"]],
            backends=backends, solver_s=round(solver_s, 2), lemmas=lean_res,
            bounded=dict(label="bounded: concrete inputs on the real code, never counted as proved", note=dnote,
                         evaluations=sum(d["cases"] for d in dyn), checks=[dict(name=d["name"], cases=d["cases"], note=d["note"], secs=d["secs"]) for d in dyn]),
            undecided_by_the_verifier=[dict(contract=r["name"], reason=r["reason"][:400]) for r in unsup]),
        assumptions=ASSUMED + sorted({a for r in results for a in r["assumptions"]}))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d/%d obligations discharged, %d undecided contracts, %d concrete cases, %.1f s" % (prop, len(results), proved, obls, len(unsup), sum(d["cases"] for d in dyn), wall))
    for r in unsup: print("  undecided by the verifier (bounded check stands in): %s: %s" % (r["name"], r["reason"][:300]))
    for d in dyn:
        if d["note"]: print("  input search %s: %s" % (d["name"], d["note"][:600]))
    if dnote: print("  " + dnote)
    if not results and not dyn:
        failed.append((dict(name=prop, target=""), dict(name="no obligation was generated", detail="", status="failed"))); violations = True
    if not violations: return 0
    rep = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
    json.dump(dict(property=prop, failing_inputs=inputs, replay_cmd="python3-vt /verif/dynmain.py --replay %s" % rep,
                   failed_obligations=[dict(contract=r["name"], function=r.get("target"), obligation=o["name"], verifier_output=o.get("detail", "")) for r, o in failed]), open(rep, "w"), indent=1)
    for i in inputs: print("  failing input: %s case %s: %s" % (i["check"], i["case"], i["message"][:1200]))
    for r, o in failed: print("  failed obligation: %s / %s: %s" % (r["name"], o["name"], o.get("detail", "")[:400].replace("\n", " ")))
    print("VIOLATION property=%s replay=%s%s" % (prop, rep, "" if inputs else " no-failing-input-found"))
    return 1

TRUSTED = [
    "pyvc (/verif/pyvc): the engine that runs the instrumented real code on symbolic values and generates the obligations",
    "z3 and cvc5 (discharging), Lean 4 with Mathlib (lemma files, where listed)",
    "stand-ins for library modules (/verif/pyvc/facades.py): numpy, math, copy, numba, logger",
]
ASSUMED = [
    "floating-point numbers are treated as mathematical reals in the proofs; Python integers are unbounded, as in CPython",
    "termination is not proved: the postconditions are about calls that return",
    "values of user-supplied types compare and hash consistently with mathematical equality",
]
if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
