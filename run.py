#!/usr/bin/env python3-vt
"""Check of one property: contract proofs over /repo's current sources, then bounded runs of the real tool.
usage: run.py C01 [quick|thorough]"""
import sys, os, json, time, traceback, hashlib, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from vlib import bounded, known
from vlib.build import BuildError, src_hash, build_tool
from vlib.drv import Fail
from vlib import drv

def findings(prop):
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8"):
        if l.startswith("finding: property=%s " % prop):
            k = l.split()[2]
            out.append((k[4:], l.split(" ", 3)[3].strip()))
    return out

def replay_file(prop, data):
    d = os.path.join(HERE, "replay"); os.makedirs(d, exist_ok=True)
    t = json.dumps(data, indent=1, default=str)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(t.encode("utf8", "replace")).hexdigest()[:12]))
    open(p, "w", encoding="utf8", errors="replace").write(t)
    return os.path.relpath(p, HERE)

def bounded_run(prop, tier, seed, hints, q):
    """runs in a child process; the result is put in a queue"""
    try:
        c = bounded.Ctx(prop, tier, seed, hints); r = {"status": "ok"}
        try: bounded.BOUNDED[prop](c)
        except Fail as e: r = {"status": "fail", "msg": e.msg, "data": json.loads(json.dumps(e.data, default=str))}
        kf = []
        for key, text in findings(prop):
            f = known.PROBES.get(key)
            try: still = f(c) if f else None
            except Fail: still = True
            kf.append((key, text, still))
        r.update(n=c.n, distinct=len(drv.SEEN), samples=json.loads(json.dumps(c.samples, default=str)), known=kf)
    except Exception as e:
        r = {"status": "error", "msg": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-3000:], "n": 0, "samples": [], "known": []}
    q.put(r)

def start_bounded(prop, tier, seed, hints=None):
    q = mp.Queue(); p = mp.Process(target=bounded_run, args=(prop, tier, seed, hints or [], q)); p.start()
    def wait(timeout):
        try: r = q.get(timeout=timeout)
        except Exception: r = {"status": "error", "msg": "no answer of the bounded run within its time", "n": 0, "samples": [], "known": []}
        if p.is_alive(): p.join(5)
        if p.is_alive(): p.kill()
        return r
    return wait

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    try: build_tool(True)
    except BuildError as e:
        print("cannot build the tool from /repo: %s" % e); return 2
    wait = start_bounded(prop, tier, seed)
    proof = None
    try:
        from cppvc import prove
        proof = prove.run(prop, tier, budget=600 if tier == "thorough" else 420)
    except Exception as e:
        proof = {"units": [], "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-2000:]}
    b = wait(840 - (time.time() - t0))
    failed = [o for u in proof["units"] for o in u.get("failed", [])]
    hints = [h for u in proof["units"] for h in u.get("hints", [])]
    viol = None; rc = 0
    if b["status"] == "fail":
        viol = (replay_file(prop, {"property": prop, "kind": "failing input on the real code", "what": b["msg"], "input": b["data"], "failed_obligations": failed[:20]}), "", b["msg"])
    elif failed:
        # search a failing input on the real code: the verifier's counterexamples first, then other seeds
        for s in range(3):
            if time.time() - t0 > 560: break
            r = start_bounded(prop, tier, seed + 1000 * s + 17, hints)(200)
            if r["status"] == "fail":
                viol = (replay_file(prop, {"property": prop, "kind": "failing input on the real code (found from a failed obligation)", "what": r["msg"], "input": r["data"], "failed_obligations": failed[:20]}), "", r["msg"]); break
        if viol is None:
            viol = (replay_file(prop, {"property": prop, "kind": "failed obligation", "failed_obligations": failed[:50]}), " no-failing-input-found", failed[0]["name"])
    ev = evidence(prop, tier, seed, proof, b, viol, time.time() - t0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for u in proof["units"]:
        print("contract %-46s %-9s obligations %4d discharged %4d  %6.1fs %s" % (u["name"], u["status"], u["obligations"], u["discharged"], u["time"], u.get("note", "")[:160]))
    if proof.get("error"): print("proof stage: %s" % proof["error"])
    print("bounded run: %s, %d evaluations %s" % (b["status"], b["n"], b.get("msg", "") if b["status"] != "ok" else ""))
    for key, text, still in b.get("known", []):
        if still: print("KNOWN-FINDING: property=%s %s" % (prop, text))
        else: print("note: known finding %s does not show any more" % key)
    if viol:
        print("violation: %s" % viol[2])
        print("VIOLATION property=%s replay=%s%s" % (prop, viol[0], viol[1])); return 1
    if b["status"] == "error":
        print(b.get("trace", ""))
        if not any(u["status"] == "proved" for u in proof["units"]): return 2
    return 0

def evidence(prop, tier, seed, proof, b, viol, wall):
    units = proof["units"]; level = LEVELS.get(prop, "exploration")
    cov = {"evaluations": b["n"], "distinct_nontrivial": b.get("distinct", 0), "rule": "bounded runs of the real coderdbc built from /repo (AddressSanitizer): generated DBC input, every comparison made between the real output and the oracle counts as an evaluation, every different input text (DBC file with options, or argument of a function harness) as a distinct case; stand-in for what is not under contract, never counted as proved",
           "samples": b["samples"] or [b.get("msg", "")],
           "bounded_result": b["status"]}
    cov.update({"obligations": sum(u["obligations"] for u in units), "discharged": sum(u["discharged"] for u in units),
                "contracts": [{k: v for k, v in u.items() if k not in ("failed", "hints")} for u in units],
                "functions_under_contract": sorted({f for u in units for f in u.get("functions", [])}),
                "not_proved": [u["name"] for u in units if u["status"] != "proved"],
                "solver_time_s": round(sum(u.get("solver_time", 0) for u in units), 2), "back_end": "z3 (python bindings) over verification conditions generated from clang's AST of /repo/src",
                "checker_cmd": "python3-vt run.py %s %s" % (prop, tier), "trusted_base": sorted({a for u in units for a in u.get("assumed", [])} | set(BASE))})
    if proof.get("error"): cov["proof_stage_error"] = proof["error"]
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": BASE, "wall_s": round(wall, 2), "violations": 1 if viol else 0}

BASE = ["clang 18 parses the sources as the shipped compiler does", "the VC generator /verif/cppvc (its C++ semantics and its models of the C++ standard library)", "z3",
        "LP64 machine, two's complement, IEEE doubles"]
LEVELS = {}
try:
    LEVELS = {c["property"]: c["level"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
except Exception: pass

if __name__ == "__main__":
    sys.exit(main())
