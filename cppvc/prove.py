"""Runs the contract units of a property: every unit executes real functions symbolically (from clang's AST of /repo's
current sources) and discharges its obligations; the cases of all units are spread over worker processes."""
import os, sys, time, traceback, importlib, multiprocessing as mp, signal
from .terms import Unsupported

SPECS = ["p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20"]
PROG = None
class Unit:
    """a function (or a few) under contract: cases is a list of (function, arguments)"""
    def __init__(u, name, props, cases, what="", assumed=()):
        u.name = name; u.props = props; u.cases = cases; u.what = what; u.assumed = list(assumed)

def units():
    out = []
    for s in SPECS: out += importlib.import_module(".specs." + s, __package__).units()
    return out

def work(a):
    ui, ci, fn, args, case_time = a
    t = time.time()
    class Late(BaseException): pass
    def alarm(*_): raise Late()
    signal.signal(signal.SIGALRM, alarm); signal.setitimer(signal.ITIMER_REAL, case_time, 5)
    try: r = fn(PROG, *args); r["err"] = None
    except Late: r = {"err": "time limit of %d s reached" % case_time}
    except Unsupported as e: r = {"err": "not supported: %s" % str(e)[:300]}
    except RecursionError: r = {"err": "not supported: recursion"}
    except MemoryError: r = {"err": "memory"}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = {"err": "verifier error %s: %s at %s:%d" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)}
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    # keep the answer small
    if r["err"] is None:
        keep = [o for o in r["obls"] if o["status"] != "proved"][:20]
        r["n"] = len(r["obls"]); r["ok"] = sum(o["status"] == "proved" for o in r["obls"]); r["bad"] = keep; r["first"] = [o["name"] for o in r["obls"][:2]]; del r["obls"]
    r["time"] = time.time() - t
    return ui, ci, r

def run(prop, tier="quick", budget=260, only=None, procs=None):
    global PROG
    t0 = time.time(); sys.setrecursionlimit(100000)
    us = [u for u in units() if prop in u.props or prop == "ALL"]
    if only: us = [u for u in us if only in u.name]
    if not us: return {"units": []}
    from .front import Program, FrontError
    try: PROG = Program()
    except FrontError as e: return {"units": [], "error": str(e)}
    tasks = []
    for ui, u in enumerate(us):
        try: cs = u.cases(PROG) if callable(u.cases) else u.cases
        except Unsupported as e: cs = []; u.err = str(e)
        u.n = len(cs); u.res = {}
        tasks += [(ui, ci, fn, args, 300 if tier == "quick" else 400) for ci, (fn, args) in enumerate(cs)]
    # spread the units evenly
    tasks.sort(key=lambda t: (t[1] if us[t[0]].n > 100 else -1, t[0]))
    left = budget - (time.time() - t0)
    ctx = mp.get_context("fork")
    pool = ctx.Pool(procs or min(8, os.cpu_count() or 4), maxtasksperchild=200)
    late = False
    try:
        it = pool.imap_unordered(work, tasks, chunksize=1)
        for _ in range(len(tasks)):
            try: ui, ci, r = it.next(timeout=max(1, budget - (time.time() - t0)))
            except mp.TimeoutError: late = True; break
            us[ui].res[ci] = r
            if os.environ.get("PROVE_TRACE"): print("%.0f %s %s %.1f %s" % (time.time() - t0, us[ui].name, ci, r["time"], r["err"] or ""), file=sys.stderr, flush=True)
    finally: pool.terminate(); pool.join()
    return {"units": [report(u) for u in us]}

def report(u):
    done = list(u.res.values()); good = [r for r in done if r["err"] is None]
    obl = sum(r["n"] for r in good); ok = sum(r["ok"] for r in good)
    bad = [o for r in good for o in r["bad"]]; failed = [o for o in bad if o["status"] == "failed"]
    errs = sorted({r["err"] for r in done if r["err"]})
    note = ""
    if getattr(u, "err", None): errs.append(u.err)
    if len(done) < u.n: errs.append("%d of %d cases not finished in time" % (u.n - len(done), u.n))
    for o in bad:
        if o["status"] == "unknown": errs.append("undecided: " + o["name"])
    if failed: status = "failed"
    elif errs or not done: status = "unproved"
    elif obl == 0: status = "unproved"; errs.append("no obligation generated")
    else: status = "proved"
    hints = [r["extra"]["hint"] for r in good if any(o["status"] == "failed" for o in r["bad"]) and r.get("extra", {}).get("hint")][:6]
    for o in failed: o["contract"] = u.name
    st = lambda k: sorted({x for r in good for x in r[k]})
    return {"name": u.name, "what": u.what, "status": status, "obligations": obl, "discharged": ok, "cases": u.n, "cases_done": len(good), "time": round(sum(r["time"] for r in done), 1),
            "solver_time": round(sum(r["solver_time"] for r in good), 2), "queries": sum(r["queries"] for r in good), "functions": st("functions"), "contracts_used": st("contracts"),
            "assumed": sorted(set(st("assumed")) | set(u.assumed)), "library_models": st("builtins"), "sample_obligations": [x for r in good[:2] for x in r["first"]][:3], "note": "; ".join(errs)[:600],
            "failed": failed[:20], "hints": hints}

if __name__ == "__main__":
    # python3-vt -m cppvc.prove PROPERTY|ALL [unit substring]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from cppvc import prove
    t = time.time(); r = prove.run(sys.argv[1], "quick", 900, sys.argv[2] if len(sys.argv) > 2 else None)
    if r.get("error"): print(r["error"])
    for u in r["units"]:
        print("%-40s %-8s obl %d/%d cases %d/%d %.1fs solver %.1fs %s" % (u["name"], u["status"], u["discharged"], u["obligations"], u["cases_done"], u["cases"], u["time"], u["solver_time"], u["note"][:400]))
        for f in u["failed"][:6]: print("   FAILED", f["name"], "|", f["detail"][:600], "|", str(f["model"])[:300])
    print("wall %.1f" % (time.time() - t))
