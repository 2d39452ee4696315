"""The application (CoderApp): which util drivers are produced and which messages they map (GenerateCode), what the settings and the
directory preparation get, when code is generated at all (Run)."""
from .base import *
from ..loops import value_names
from ..lib import Fun

class G:
    pass
def setup(prog):
    g = G(); g.run = Run(prog); ex = g.ex = g.run.ex; ex.prefix = "GenerateCode "
    g.f = g.run.fn("CoderApp::GenerateCode", 0); ex.preload([g.f.tu])
    n = g.n = z3.Int("n"); ex.vb["n"] = (0, KMAX); ex.state.pc.append(z3.And(n >= 0, n <= KMAX))
    def names(tag, i):
        c = app("n" + tag, (i,)); ex.vb["n" + tag] = (0, KMAX); ex.fact(z3.And(c >= 0, c <= KMAX))
        return SVec(c, lambda j: (name_hole(tag, (i, j)),), (), "std::vector<std::string>", tag)
    ex.vb["mid"] = (0, (1 << 32) - 1)
    g.pool = ex.new(SVec(n, lambda i: Struct("MessageDescriptor_t", {"MsgID": app("mid", (i,)), "TranS": names("tr", i), "RecS": names("rc", i)}), (), "std::vector<MessageDescriptor_t>", "pool"), "pool")
    rec = ex.record("OptionsParser::GenOptions")
    if rec is None: raise Unsupported("GenOptions")
    g.opt = arb(ex, "OptionsParser::GenOptions", "opt")
    for x in rec:
        if is_struct_pair(g.opt.get(x[0])): g.opt.get(x[0]).get("first"); g.opt.get(x[0]).get("second")
    g.params = ex.new(g.opt, "opt")
    g.log = ex.new(Vec((), "ghost"), "ghost"); g.hi, g.lo = z3.Ints("vhi vlo")
    for x in ("vhi", "vlo"): ex.vb[x] = (0, (1 << 32) - 1)
    ex.state.pc += [z3.And(x >= 0, x < (1 << 32)) for x in (g.hi, g.lo)]
    v = lambda x: ex.load(x) if isinstance(x, LV) else x
    def L(what, **kw): ex.store(g.log, ex.vpush(ex.load(g.log), Struct("call", dict(kw, what=what))))
    def trim(ex, f, args, this):
        dl = this.f("dblist"); ex.store(dl.f("msgs"), SVec(n, lambda i: Ptr(g.pool.i(i)), (), "std::vector<MessageDescriptor_t*>", "msgs"))
        ex.store(dl.f("ver").f("hi"), g.hi); ex.store(dl.f("ver").f("low"), g.lo)
    def configure(ex, f, args, this):
        a = [v(x) for x in args]
        if len(a) != 6: raise Unsupported("Configure with %d arguments" % len(a))
        L("Configure", drv=a[0], path=a[1], hi=a[4], lo=a[5])
    def prepare(ex, f, args, this): L("Prepare", rw=v(args[0])); return z3.Bool("ret")
    def flags(lv):
        s = ex.load(lv.f("gen")); return {k: s.get(k) for k in ("no_config", "no_inc", "no_fmon")}
    def mgen(ex, f, args, this):
        if len(args) != 2: raise Unsupported("arguments of Generate")
        L("main", **flags(args[1]))
    def ugen(ex, f, args, this):
        if len(args) != 4: raise Unsupported("arguments of Generate")
        s = ex.load(args[1]); fl = s.get("file"); d = {}
        for k in ("util_c", "util_h"):
            for q in ("fname", "fpath"): d[k + "." + q] = fl.get(k).get(q)
        gr = v(args[2])
        L("util", rx=gr.get("Rx"), tx=gr.get("Tx"), both=gr.get("Both"), drvname=s.get("gen").get("drvname"), DRVNAME=s.get("gen").get("DRVNAME"), lib=v(args[3]), dir=fl.get("utildir"), **d)
    nop = lambda *a: None
    ex.contracts.update({"DbcScanner::TrimDbcText": trim, "FsCreator::Configure": configure, "FsCreator::PrepareDirectory": prepare, "CiMainGenerator::Generate": mgen, "CiUtilGenerator::Generate": ugen,
        "FsCreator::FsCreator": nop, "DbcScanner::DbcScanner": nop, "CiMainGenerator::CiMainGenerator": nop, "CiUtilGenerator::CiUtilGenerator": nop})
    ex.contracts["CombinePath"] = lambda ex, f, args, this: rope(Fun("path1", ex.as_rope(v(args[0])), TEXT, 0), "\x1e", ex.as_rope(v(args[1])))
    ex.contracts["ExtractFileName"] = lambda *a: (name_hole("filename"),)
    g.this = ex.new(Struct("CoderApp", {"Params": g.params}), "app")
    return g
def is_struct_pair(x): return isinstance(x, Struct) and x.type == "pair"
def first(g, k):
    x = g.opt.get(k)
    return x.get("first") if is_struct_pair(x) else x

def generate(prog):
    g = setup(prog); ex = g.ex; cover = set()
    drv = first(g, "drvname"); out = first(g, "outdir")
    want_path = rope(Fun("path1", out, TEXT, 0), "\x1e", drv)
    isdd, node, rw = (zbool(g.opt.get(k)) for k in ("is_driver_dir", "is_nodeutils", "is_rewrite")); ret = z3.Bool("ret")
    for st, r in ex.explore(lambda: ex.call_def(g.f, [], g.this)):
        ex.state = st
        if ex.check() == "unsat": continue
        log = ex.load(g.log)
        if isinstance(log, Vec) and not log.el: cover.add("no file"); continue         # the DBC file does not exist
        head = [ex.index(log, i) for i in range(len(log.el))] if isinstance(log, Vec) else None
        if head is None:
            head = []
            for i in range(3): head.append(ex.svec_read(log, i))
            if not ex.proves(simp(zint(log.n) >= 3)): raise Unsupported("calls of the generators")
        what = [c.get("what") for c in head]
        if what[:2] != ["Configure", "Prepare"]: raise Unsupported("order of the calls: %r" % (what,))
        c = head[0]
        ex.oblige("Configure gets the driver name", ex.rope_eq(ex.as_rope(c.get("drv")), drv), repr(c.get("drv")))
        ex.oblige("Configure gets the version of the DBC", And(Eq(c.get("hi"), g.hi), Eq(c.get("lo"), g.lo)), "%s %s" % (c.get("hi"), c.get("lo")))
        p = ex.as_rope(c.get("path"))
        for dd in (False, True):
            with ex.under(isdd if dd else z3.Not(isdd)):
                if ex.check() == "unsat": continue
                pp = ex.resolve(p); w = want_path if dd else out
                if rkey(pp) == rkey(w): ex.oblige("files go %s" % ("to the driver's own directory" if dd else "to the output directory"), True); continue
                known = {rkey(want_path), rkey(out)}
                if rkey(pp) not in known: raise Unsupported("output directory %r" % (pp,))
                ex.oblige("files go %s" % ("to the driver's own directory" if dd else "to the output directory"), False, repr(pp))
        ex.oblige("the directory is prepared with the option -rw", simp(zbool(head[1].get("rw")) == rw), repr(head[1].get("rw")))
        isret = ex.proves(ret); isnot = ex.proves(z3.Not(ret)); isnode = ex.proves(node); isone = ex.proves(z3.Not(node))
        if isnot:
            ex.oblige("nothing is generated without a directory", isinstance(log, Vec) and len(log.el) == 2, repr(what)); cover.add("no directory"); continue
        if not isret: ex.oblige("generation depends on the prepared directory", False, repr(what)); continue
        if not isnode and not isone: ex.oblige("the util drivers depend on -nodeutils", False, repr(what)); continue
        if len(what) < 3 or what[2] != "main" or "main" in what[3:]: ex.oblige("the driver is generated once, before its util drivers", False, repr(what)); continue
        for k, o in (("no_config", "is_noconfig"), ("no_inc", "is_nocanmon"), ("no_fmon", "is_nofmon")):
            ex.oblige("the driver is generated with the option %s" % o, simp(zbool(head[2].get(k)) == zbool(g.opt.get(o))), repr(head[2].get(k)))
        if isone:
            cover.add("one"); us = head[3:]
            if not isinstance(log, Vec) or len(us) != 1 or us[0].get("what") != "util": ex.oblige("one util driver is generated", False, repr(what)); continue
            u = us[0]; whole_list(g, u.get("rx"))
            for k in ("tx", "both"): ex.oblige("no message is transmitted (%s)" % k, Eq(ex.vsize(u.get(k)), 0), repr(u.get(k)))
            ex.oblige("the util driver uses the driver", ex.rope_eq(ex.as_rope(u.get("lib")), drv))
        else: cover.add("nodes"); node_utils(g, log, drv)
    if cover != {"no file", "no directory", "one", "nodes"}: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    return summary(ex)
def whole_list(g, v):
    """the list holds exactly the IDs of all messages"""
    ex = g.ex; name = "every message is received: "
    if isinstance(v, Vec) and not v.el: ex.oblige(name + "its ID is in the list", simp(g.n == 0), repr(v)); return
    if not isinstance(v, SVec) or v.log: raise Unsupported("receive list %r" % (v,))
    ok = Eq(zint(v.n), g.n)
    if ok is not True and not ex.proves(ok):
        si = ex.selinfo.get(v.name)
        if si is not None: ex.oblige(name + "the list is as long as the message list", ok, repr(v)); return
        raise Unsupported("receive list %r" % (v,))
    a = z3.Int("a!"); ex.vb["a!"] = (0, KMAX); keep = ex.state; ex.state = keep.clone(); ex.state.pc += [a >= 0, a < g.n]
    ex.oblige(name + "element i is the ID of message i", Eq(ex.svec_read(v, a), app("mid", (a,))), repr(ex.svec_read(v, a))); ex.state = keep

# ---- the collection of the node names
def string_vec(v): return isinstance(v, SVec) and "string" in str(v.ety) or isinstance(v, Vec) and not v.el
def captures(ex): return ex.loops
def sources(g, v, depth=0):
    """[(name pushed, loop variables with their bounds)] of a vector that is only extended by names not yet in it; v is the
    value behind the loops, down to the empty vector or the value at the start of the iteration of the loop around (its mark)"""
    ex = g.ex; out = []
    while True:
        if isinstance(v, Vec) and not v.el: return None, out
        if not isinstance(v, SVec) or v.log: raise Unsupported("the node names: %r" % (v,))
        cap = None
        for c in ex.loops:
            for loc, kind in c["classes"].items():
                if kind[0] == "hvec" and isinstance(c["finals"].get(loc), SVec) and c["finals"][loc].name == v.name: cap = (c, loc)
        if cap is None: return v, out
        c, loc = cap
        if c["exits"]: raise Unsupported("loop over names that ends early")
        if not Eq(zint(v.n), zint(c["finals"][loc].n)) is True: return v, out         # the value inside an iteration
        out = loop_sources(g, c, loc, depth) + out
        v = c["info"][loc]["v0"]
def loop_sources(g, c, loc, depth):
    ex = g.ex; m = c["info"][loc]["marker"]; keep = ex.state; k = c["k"]
    if depth > 2 or not isinstance(m, SVec): raise Unsupported("loops over names")
    leaf = []; res = []
    for s, o in c["normal"]:
        v = ex._get(s.store[loc[0]], loc[1])
        if isinstance(v, SVec) and v.name == m.name and Eq(zint(v.n), simp(zint(m.n) + len(v.log))) is True: leaf.append((s, v))
        elif isinstance(v, SVec):
            b, src = sources(g, v, depth + 1)
            if b is None or b.name != m.name or b.log or not Eq(zint(b.n), zint(m.n)) is True: raise Unsupported("the node names of an iteration: %r" % (b,))
            res.append(src)
        else: raise Unsupported("the node names of an iteration: %r" % (v,))
    if res and leaf or len(res) > 1: raise Unsupported("the iterations of the loop over names differ")
    if res: return [(x, [(k, c["N"])] + q) for x, q in res[0]]
    xs = {rkey(v.log[0][2]): v.log[0][2] for s, v in leaf if len(v.log) == 1 and v.log[0][0] == "set"}
    if any(len(v.log) > 1 or v.log and v.log[0][0] != "set" for s, v in leaf) or len(xs) != 1: raise Unsupported("names added by an iteration: %r" % (xs,))
    x = list(xs.values())[0]; q = z3.Int("q!")
    there = z3.Exists([q], z3.And(q >= 0, q < zint(m.n), zbool(ex.rope_eq(m.elem(q), x))))
    for s, v in leaf:
        ex.state = s.clone()
        if v.log:
            ex.oblige("a name is added at the end of the collection", Eq(zint(v.log[0][1]), zint(m.n)), repr(v))
            oblige_q(ex, "a name is added only if it is not yet in the collection", z3.Not(there))
        else: oblige_q(ex, "a name is left out only if it is in the collection", there)
    ex.state = keep
    return [(x, [(k, c["N"])])]
def oblige_q(ex, name, claim):
    """conditions of the path only"""
    s = z3.Solver(); s.set("timeout", 20000); s.add(*[zbool(x) for x in ex.state.pc if id(x) not in ex.factset]); s.add(z3.Not(claim)); t = time.time(); r = str(s.check()); ex.solver_time += time.time() - t; ex.queries += 1
    o = Obligation(ex.prefix + name, {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r], str(claim)[:300])
    if r == "sat": o.model = {str(d): str(s.model()[d])[:100] for d in s.model().decls()}
    ex.obls.append(o)
def hole1(x):
    if len(x) == 1 and isinstance(x[0], Hole): return x[0]
    raise Unsupported("name %r" % (x,))
def node_utils(g, log, drv):
    ex = g.ex; n = g.n
    cap = None
    for c in ex.loops:
        loc = next((l for l, kd in c["classes"].items() if l[0] == g.log.root and kd[0] == "push"), None)
        if loc is not None and c["finals"].get(loc) is not None and zkey(c["finals"][loc].n) == zkey(log.n): cap = (c, loc)
    if cap is None: raise Unsupported("loop over the nodes")
    c, loc = cap
    if c["exits"]: raise Unsupported("loop over the nodes that ends early")
    # ---- which nodes: the loop runs over the whole collection
    N = c["N"]; coll = None
    for c2 in ex.loops:
        for l2, kd in c2["classes"].items():
            f = c2["finals"].get(l2)
            if kd[0] == "hvec" and isinstance(f, SVec) and Eq(zint(f.n), zint(N)) is True: coll = f
    if coll is None: raise Unsupported("the collection of the node names")
    base, src = sources(g, coll)
    if base is not None: raise Unsupported("the collection does not start empty")
    want = {"tr": "senders", "rc": "receivers"}; got = set()
    for x, ranges in src:
        h = hole1(x)
        if h.name not in want or len(ranges) != 2: raise Unsupported("names %r of %r" % (x, ranges))
        (k1, N1), (k2, N2) = ranges
        if not (zkey(h.args[0]) == zkey(k1) and zkey(h.args[1]) == zkey(k2)): raise Unsupported("name %r" % (x,))
        ex.oblige("the %s of all messages are looked at" % want[h.name], And(Eq(zint(N1), n), Eq(zint(N2), zint(app("n" + h.name, (k1,))))), "%s %s" % (N1, N2)); got.add(h.name)
    for t in want: ex.oblige("the %s are collected" % want[t], t in got, repr(got))
    # ---- one node
    keep = ex.state; k = c["k"]; m = c["info"][loc]["marker"]
    for s, o in c["normal"]:
        ex.state = s.clone()
        v = ex._get(s.store[loc[0]], loc[1])
        if not isinstance(v, SVec) or len(v.log) != 1 or v.log[0][0] != "set": ex.oblige("one util driver is generated for a node", False, repr(v)); continue
        u = v.log[0][2]
        if u.get("what") != "util": ex.oblige("one util driver is generated for a node", False, repr(u.get("what"))); continue
        name = coll.elem(k); low = (Fun("lower", rope(name, "_", drv), ALL, 0),)
        for kk, tag in (("rx", "rc"), ("tx", "tr")): selected(g, kk, u.get(kk), tag, name)
        ex.oblige("no message is in both lists' common group", Eq(ex.vsize(u.get("both")), 0), repr(u.get("both")))
        ex.oblige("the util driver uses the driver", ex.rope_eq(ex.as_rope(u.get("lib")), drv), repr(u.get("lib")))
        d = ex.as_rope(u.get("drvname")); lowered(ex, "the util driver is named <node>_<driver> in lower case", d, rope(name, "_", drv))
        for q, suf in (("util_h", ".h"), ("util_c", ".c")):
            fn = ex.as_rope(u.get(q + ".fname")); lowered(ex, "file name of the node's %s" % q, fn, rope(name, "_", drv, "-binutil" + suf))
            ex.oblige("path of the node's %s" % q, ex.rope_eq(ex.as_rope(u.get(q + ".fpath")), rope(ex.as_rope(u.get("dir")), "/", fn)), repr(u.get(q + ".fpath")))
    ex.state = keep
def unlower(r):
    """a text of lower-cased parts: (text before lowering, everything lower-cased?)"""
    out = []
    for s in r:
        if isinstance(s, Fun) and s.name == "lower": out.append(s.arg)
        elif isinstance(s, Lit) and s.s == s.s.lower(): out.append((s,))
        else: return None
    return rope(*out)
def lowered(ex, name, r, want):
    u = unlower(r)
    def strip(x):
        o = []
        for s in x:
            if isinstance(s, Fun) and s.name == "lower": o.append(strip(s.arg))
            elif isinstance(s, Lit): o.append((Lit(s.s.lower()),))
            else: o.append((s,))
        return rope(*o)
    if u is None:
        if any(isinstance(s, (Each, Cho, Fmt)) or isinstance(s, Hole) and s.name.startswith("havoc") and value_names((s,)) - value_names(want) for s in r): raise Unsupported("text %r" % (r,))
        ex.oblige(name, False, repr(r)); return
    ex.oblige(name, rkey(strip(u)) == rkey(strip(want)), repr(r))
def selected(g, what, v, tag, name):
    """IDs of exactly the messages that have the node in their list `tag`"""
    ex = g.ex; nm = "a node's %s list: " % what
    if isinstance(v, Vec) and not v.el: ex.oblige(nm + "messages are put into it", False, repr(v)); return
    si = ex.selinfo.get(v.name) if isinstance(v, SVec) else None
    if si is None or v.log or not z3.eq(zint(si["count"]), zint(v.n)): raise Unsupported("the list was not made by selecting messages: %r" % (v,))
    ex.oblige(nm + "all messages are looked at", Eq(zint(si["N"]), g.n), str(si["N"]))
    p, a, q = z3.Int("p!"), z3.Int("a!"), z3.Int("q!"); keep = ex.state
    ex.state = keep.clone(); ex.state.pc += [a >= 0, a < zint(v.n)]
    ex.oblige(nm + "an element is the ID of a selected message", Eq(ex.svec_read(v, a), app("mid", (si["sel"](a),))), repr(ex.svec_read(v, a)))
    cnt = zint(app("n" + tag, (p,)))
    has = z3.Exists([q], z3.And(q >= 0, q < cnt, zbool(ex.rope_eq((name_hole(tag, (p, q)),), name))))
    ex.state = keep.clone(); ex.state.pc += [p >= 0, p < g.n, zbool(si["total"](p))]; c = zbool(si["cond"](p))
    oblige_q(ex, nm + "a message of it has the node", z3.Implies(c, has))
    oblige_q(ex, nm + "every message that has the node is in it", z3.Implies(has, c))
    ex.state = keep

# ---- the rest
def combine(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "CombinePath "; f = run.fn("CombinePath", 2); ex.preload([f.tu]); cover = set()
    SEP = cls("/\\"); no = TEXT & ~SEP
    for ea in (0, 1, 2):
        for eb in (0, 1, 2):
            # 0: empty, 1: no separator at the seam, 2: a separator at the seam
            mk = lambda t, e, end: EMPTY if e == 0 else (Hole(t, (), TEXT, 1, TEXT if end else (no if e == 1 else SEP), (no if e == 1 else SEP) if end else TEXT, TEXTMAX),)
            if ea == 2: a = rope(Hole("path", (), TEXT, 0, maxlen=TEXTMAX), "/")
            else: a = mk("path", ea, True)
            b = rope("/", Hole("folder", (), TEXT, 0, maxlen=TEXTMAX)) if eb == 2 else mk("folder", eb, False)
            keep = ex.state.clone()
            for st, r in ex.explore(lambda: ex.call_def(f, [ex.new(a, "a"), ex.new(b, "b")], None)):
                ex.state = st
                if ex.check() == "unsat": continue
                cover.add((ea, eb)); r = ex.as_rope(r); A = rope(*[(x,) for x in (a[:-1] if ea == 2 else a)]); B = rope(*[(x,) for x in (b[1:] if eb == 2 else b)])
                if eb == 2 and len(b) == 1: B = EMPTY
                ex.oblige("one separator between the directory and the folder [%d%d]" % (ea, eb), ex.rope_eq(r, rope(A, "/", B)), repr(r))
            ex.state = keep
    if len(cover) != 9: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    return summary(ex)
def runapp(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "CoderApp::Run "; f = run.fn("CoderApp::Run", 0); ex.preload([f.tu])
    opt = arb(ex, "OptionsParser::GenOptions", "opt"); b = [zbool(opt.get(k).get("second")) for k in ("dbc", "outdir", "drvname")]; h = zbool(opt.get("is_help"))
    params = ex.new(opt, "opt"); log = ex.new(0, "calls"); this = ex.new(Struct("CoderApp", {"Params": params}), "app"); cover = set()
    def gen(ex, f, args, this): ex.store(log, ex.load(log) + 1)
    ex.contracts["CoderApp::GenerateCode"] = gen; ex.contracts["CoderApp::PrintHelp"] = lambda *a: None
    for st, r in ex.explore(lambda: ex.call_def(f, [], this)):
        ex.state = st
        if ex.check() == "unsat": continue
        k = ex.load(log); want = z3.And(*b, z3.Not(h))
        for i, w in ((1, want), (0, z3.Not(want))):
            with ex.under(w):
                if ex.check() != "unsat": cover.add(i); ex.oblige("code is generated (once) exactly when -dbc, -out and -drvname are given and -help is not [%s]" % i, Eq(k, i), repr(k))
    if cover != {0, 1}: ex.obls.append(Obligation(ex.prefix + "both cases reached", "unknown", repr(cover)))
    return summary(ex)

def units():
    from ..prove import Unit
    return [Unit("CoderApp::GenerateCode", ["C09", "C19", "C21"], [(generate, ())], "for every message list: one util driver per node name, mapping exactly the messages that name the node; without -nodeutils one driver with all messages; directory, version and options are handed over",
                 assumed=["CombinePath, TrimDbcText, Configure, PrepareDirectory and the generators behave as their contracts (own units)"]),
            Unit("CombinePath", ["C19"], [(combine, ())], "for every directory and folder name: joined by exactly one separator"),
            Unit("CoderApp::Run", ["C18"], [(runapp, ())], "code is generated exactly when the three mandatory options are valid and -help is not given")]
