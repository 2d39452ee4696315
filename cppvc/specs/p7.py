"""OptionsParser::GetOptions: the options of every argument vector.
The two loops are judged by one arbitrary iteration each (from an arbitrary earlier state): the collecting loop takes an
argument starting with '-' with the following argument that does not as its value; the evaluating loop sets exactly the
option the key names."""
from .base import *

OPTS = {"-dbc": "dbc", "-out": "outdir", "-drvname": "drvname", "-rw": "is_rewrite", "-nodeutils": "is_nodeutils", "-help": "is_help", "-noinc": "is_nocanmon",
        "-noconfig": "is_noconfig", "-nofmon": "is_nofmon", "-driverdir": "is_driver_dir", "-gendate": "add_gen_date"}
def mk(ex, f):
    n = z3.Int("argc"); ex.vb["argc"] = (0, KMAX); ex.state.pc += [z3.And(n >= 0, n <= KMAX)]
    argv = ex.new(SVec(n, lambda i: CStr((arg(i),)), (), "char*[]", "argv"), "argv")
    return n, argv
def arg(i): return Hole("argv", (i,), TEXT, 0)
def c_name_contract(ex, f, args, this):
    a = args[0]; a = ex.as_rope(ex.load(a) if isinstance(a, LV) else a)
    return (Fun("make_c_name", a, WORD),)
def case(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "GetOptions "
    f = run.fn("OptionsParser::GetOptions", 2); ex.preload([f.tu]); ex.contracts["make_c_name"] = c_name_contract
    n, argv = mk(ex, f); this = ex.new(Struct("OptionsParser", {}), "parser")
    fields = {x[0] for x in ex.record("GenOptions") or ex.record("OptionsParser::GenOptions") or ()}
    if not set(OPTS.values()) <= fields: raise Unsupported("fields of GenOptions")
    outs = ex.explore(lambda: ex.call_def(f, [n, Ptr(argv.i(0))], this))
    A = [c for c in ex.loops if any(k[0] == "push" for k in c["classes"].values())]
    B = [c for c in ex.loops if c not in A]
    if not A or not B: raise Unsupported("the loops of GetOptions")
    keep = ex.state; collect = []; ex.step_mode = True
    for c in A: collect.append(collecting(ex, c))
    idx = {x["push"]: x for x in collect}
    for c in B: evaluating(ex, c, idx)
    ex.state = keep; cover = 0; ex.step_mode = False
    for st, r in outs:
        ex.state = st
        if ex.check() == "unsat": continue
        cover += 1
        mine = [c for c in B if any(path for (_, path) in c["finals"]) and all(same(ex, get(r, path), c["finals"][(root, path)]) for (root, path) in c["finals"] if path)]
        if mine:
            touched = {p for c in mine[:1] for (_, p) in c["finals"] if p}
        elif all_default(ex, r): touched = set()       # no option at all
        else: raise Unsupported("result of GetOptions")
        for p in leaves():
            if any(p[:len(t)] == t for t in touched): continue
            ex.oblige("option %s is off without its key" % ".".join(x[1] for x in p), is_default(ex, get(r, p)))
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def leaves(): return [p for o in OPTS.values() for p in ([(("f", o), ("f", "first")), (("f", o), ("f", "second"))] if o in ("dbc", "outdir", "drvname") else [(("f", o),)])]
def get(v, path):
    for k, a in path:
        if not isinstance(v, Struct): raise Unsupported("options record")
        v = v.get(a)
    return v
def is_default(ex, v): return v == () if is_rope(v) else v is False or is_sym(v) and ex.proves(Not(v))
def all_default(ex, r): return all(is_default(ex, get(r, p)) for p in leaves())
def same(ex, a, b):
    if is_rope(a) and is_rope(b): return rkey(a) == rkey(b)
    if isinstance(a, (bool, int)) or is_sym(a): return not isinstance(b, Opaque) and (a is b or Eq(a, b) is True)
    return a is b
def collecting(ex, c):
    """iteration at position i"""
    pos = [(l, c["info"][l]["marker"]) for l, k in c["classes"].items() if k[0] in ("int", "ind") and not isinstance(c["info"][l]["marker"], It)]
    vec = [l for l, k in c["classes"].items() if k[0] == "push"]
    if len(pos) != 1 or len(vec) != 1 or c["exits"]: raise Unsupported("collecting loop")
    (pl, i), vl = pos[0], vec[0]; inf = c["info"]
    if cint(inf[pl]["v0"]) is None or inf[vl]["v0"].el != (): raise Unsupported("collecting loop starts elsewhere")
    ex.state = c["base"]
    ex.oblige("collecting starts at the first argument", inf[pl]["v0"] == 0, str(inf[pl]["v0"]))
    a, nx = arg(i), arg(simp(zint(i) + 1)); n = z3.Int("argc")
    for s, o in c["normal"]:
        ex.state = s.clone()
        if ex.check() == "unsat": continue
        key = dash(ex, a); inside = simp(zint(i) + 1 < n); val = z3.And(zbool(inside), z3.Not(zbool(dash(ex, nx))))
        v = ex._get(s.store[vl[0]], vl[1]); p = ex._get(s.store[pl[0]], pl[1]); pushed = [e[2] for e in v.log]
        want = z3.If(z3.And(zbool(key), val), zint(i) + 2, zint(i) + 1)
        ex.oblige("the next position is behind the key's value, else the next argument", zint(p) == want, "position %s" % (p,))
        if not pushed: ex.oblige("an argument starting with '-' is taken as key", Not(key)); continue
        if len(pushed) > 1: raise Unsupported("several options in one step")
        ex.oblige("only an argument starting with '-' is a key", key)
        pr = pushed[0]; k1, v1 = ex.resolve(pr.get("first")), pr.get("second")
        ex.oblige("the key is the argument", ex.rope_eq(k1, (a,)), "key %r at %s" % (k1, i)) if known(k1) else unknown(k1)
        for w, cond, want in (("with value", val, (nx,)), ("without value", z3.Not(val), ())):
            mark = len(ex.state.pc); ex.state.pc.append(cond)
            try:
                if ex.check() == "unsat": continue
                r = ex.resolve(v1)
                if not known(r): unknown(r)
                ex.oblige("the key's value is the following argument that does not start with '-' (%s)" % w, ex.rope_eq(r, want), "%r" % (r,))
            finally: del ex.state.pc[mark:]
    return {"push": inf[vl]["name"], "pos": i, "k": c["k"]}
def known(r): return all(isinstance(x, Lit) or isinstance(x, Hole) and x.name == "argv" or isinstance(x, Cho) and known(x.a) and known(x.b) for x in r)
def unknown(r): raise Unsupported("text %r" % (r,))
def dash(ex, h):
    """the argument starts with '-'"""
    c = app("chr:argv", h.args + (0,)); L = zint(ex.seglen(h))
    return simp(z3.And(L > 0, c == 45))
def evaluating(ex, c, idx):
    if c["exits"]: raise Unsupported("evaluating loop left early")
    k = c["k"]; inf = c["info"]; classes = c["classes"]
    # the loop goes over all collected options in their order
    counters = [l for l, x in classes.items() if x[0] == "ind" and not isinstance(inf[l]["marker"], It)]
    targets = [l for l in classes if l[1]]
    n1 = {l: inf[l]["marker"] for l in classes}
    for l in classes:
        if l not in targets and l not in counters: raise Unsupported("evaluating loop writes %s" % (l,))
    for l in counters:
        ex.state = c["base"]; ex.oblige("evaluation starts with the first option", Eq(inf[l]["v0"], 0)); 
        if classes[l][1] != 1: raise Unsupported("evaluation step")
    ex.state = c["base"].clone()
    cnt = [zint(v.n) for v in c["base"].store.values() if isinstance(v, SVec) and "std::pair" in (v.ety or "") or isinstance(v, SVec) and "onepair" in (v.ety or "")]
    if len(cnt) != 1: raise Unsupported("the collected options")
    ex.oblige("every collected option is evaluated", zint(c["N"]) == cnt[0], "%s of %s" % (c["N"], cnt[0]))
    vecs = [v for v in c["base"].store.values() if isinstance(v, SVec) and ("pair" in (v.ety or ""))]
    for s, o in c["normal"]:
        ex.state = s.clone()
        if ex.check() == "unsat": continue
        p = ex.svec_read(vecs[0], k); key, val = p.get("first"), p.get("second"); key = ex.resolve(key); val0 = val
        if not known(key): unknown(key)
        vals = {}
        for l in targets:
            v = ex._get(s.store[l[0]], l[1])
            vals[l[1]] = (v, n1[l])
        for opt in list(OPTS) + [None]:
            cond = ex.rope_eq(key, rope(opt)) if opt else Not(Or(*[ex.rope_eq(key, rope(x)) for x in OPTS]))
            mark = len(ex.state.pc); ex.state.pc.append(zbool(cond))
            try:
                if ex.check() == "unsat": continue
                want = {}
                if opt in ("-dbc", "-out"): want = {(("f", OPTS[opt]), ("f", "first")): val, (("f", OPTS[opt]), ("f", "second")): True}
                elif opt == "-drvname":
                    nm = (Fun("make_c_name", val, WORD),); want = {(("f", "drvname"), ("f", "first")): nm, (("f", "drvname"), ("f", "second")): ex.nonempty(nm)}
                elif opt: want = {(("f", OPTS[opt]),): True}
                for pth in leaves():
                    name = ".".join(x[1] for x in pth); v, m = vals.get(pth, (None, None))
                    if v is None and any(t[:len(pth)] == pth or pth[:len(t)] == t for t in vals): raise Unsupported("options are written as a whole")
                    if pth in want:
                        if v is None: ex.oblige("%s sets %s" % (opt, name), False, "not written"); continue
                        w = want[pth]
                        if is_rope(w):
                            if not is_rope(v): raise Unsupported("value of %s" % name)
                            ex.oblige("%s sets %s to its value" % (opt, name), ex.rope_eq(ex.resolve(v), ex.resolve(w)), "%r, want %r" % (v, w))
                        else: ex.oblige("%s sets %s" % (opt, name), Eq(v, w), "%s" % (v,))
                    elif v is not None:
                        same_ = (rkey(ex.resolve(v)) == rkey(m)) if is_rope(v) else Eq(v, m)
                        ex.oblige("%s leaves %s" % (opt or "any other argument", name), same_, "%r" % (v,))
            finally: del ex.state.pc[mark:]
def units():
    from ..prove import Unit
    return [Unit("OptionsParser::GetOptions", ["C18"], [(case, ())], "for every argument vector: keys, values and flags are read as documented (inductive step of both loops from an arbitrary earlier state)")]
