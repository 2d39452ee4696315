"""The scanner (DbcScanner): how the results of the line parser are put together.  The loops over the lines of the file are judged by
their invariants: one arbitrary line is processed from an arbitrary state that satisfies the invariant."""
from .base import *
from .p10 import sources, hole1, oblige_q
from ..lib import Fun, vec_elt, NPOS
from ..terms import WORD, DIG, seg_cls
from ..loops import value_names

def has_call(n, name):
    if not isinstance(n, dict): return False
    if n.get("kind") in ("DeclRefExpr", "UnresolvedLookupExpr", "MemberExpr") and (n.get("name") == name or n.get("referencedDecl", {}).get("name") == name): return True
    return any(has_call(c, name) for c in n.get("inner", []))
def msgs_list(ex, n, name="msgs", pool=None): return SVec(n, lambda i: Ptr(pool.i(i)), (), "std::vector<MessageDescriptor_t*>", name)

# ---------------------------------------------------------------- find_message
def find(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "find_message "; f = run.fn("find_message", 2); ex.preload([f.tu])
    n, q = z3.Int("n"), z3.Int("id"); ex.vb["n"] = (0, KMAX); ex.vb["id"] = ex.vb["mid"] = (0, (1 << 32) - 1)
    ex.state.pc += [z3.And(n >= 0, n <= KMAX), z3.And(q >= 0, q < (1 << 32))]
    pool = ex.new(SVec(n, lambda i: Struct("MessageDescriptor_t", {"MsgID": app("mid", (i,))}), (), "std::vector<MessageDescriptor_t>", "pool"), "pool")
    lst = ex.new(msgs_list(ex, n, pool=pool), "msgs"); cover = set(); mid = z3.Function("mid", z3.IntSort(), z3.IntSort())
    def one():
        r = ex.call_def(f, [lst, q], None)
        if isinstance(r, Ptr) and r.lv is not None and is_sym(r.null): ex.decide(r.null)
        return r
    for st, r in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat": continue
        if not isinstance(r, Ptr): raise Unsupported("result")
        isnull = r.lv is None or ex.proves(zbool(r.null)); j = z3.Int("j!")
        if isnull:
            cover.add("none"); oblige_q(ex, "null only if no message has the ID", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), mid(j) != q)))
        else:
            cover.add("found"); p = r.lv.path
            if r.lv.root != pool.root or len(p) != 1: raise Unsupported("message returned")
            ex.oblige("the message returned has the ID", Eq(app("mid", (p[0][1],)), q), repr(r)); ex.oblige("the message is one of the list", And(simp(zint(p[0][1]) >= 0), simp(zint(p[0][1]) < n)))
    if cover != {"none", "found"}: ex.obls.append(Obligation(ex.prefix + "both cases reached", "unknown", repr(cover)))
    return summary(ex)

# ---------------------------------------------------------------- AddMessage
def scanner(ex, **f):
    dl = arb(ex, "DbcMessageList_t", "dl"); s = Struct("DbcScanner", {"dblist": dl})
    for x in ("ver", "msgs", "maxDlcValue"): dl.get(x)
    dl.get("ver").get("hi"); dl.get("ver").get("low")
    for x in ex.record("DbcScanner"):
        if x[0] == "lparser": s.f["lparser"] = Struct("DbcLineParser", {})
        elif x[0] not in ("dblist", "vpairs"): raise Unsupported("member %s of DbcScanner" % x[0])
    return s
def add(prog, null):
    run = Run(prog); ex = run.ex; ex.prefix = "AddMessage%s " % (" (null)" if null else ""); f = run.fn("DbcScanner::AddMessage", 1); ex.preload([f.tu])
    n, nr, ns = z3.Ints("n nr ns")
    for x in ("n", "nr", "ns"): ex.vb[x] = (0, KMAX)
    ex.state.pc += [z3.And(v >= 0, v <= KMAX) for v in (n, nr, ns)]
    def recs(i):
        c = app("nrc", (i,)); ex.vb["nrc"] = (0, KMAX); ex.fact(z3.And(c >= 0, c <= KMAX))
        return SVec(c, lambda j: (name_hole("rc", (i, j)),), (), "std::vector<std::string>", "recs")
    sig = lambda i: signal(ex, "s", (i,), RecS=recs(i))
    orig = arb(ex, "MessageDescriptor_t", "msg", (), {"Signals": SVec(ns, sig, (), "std::vector<SignalDescriptor_t>", "signals"), "RecS": SVec(nr, lambda i: (name_hole("own", (i,)),), (), "std::vector<std::string>", "own"), "RollSig": Ptr(None, True), "CsmSig": Ptr(None, True)})
    for x in ex.record("MessageDescriptor_t"): orig.get(x[0])
    m = ex.new(orig, "message"); sc = scanner(ex); dl = sc.get("dblist"); old = ex.new(Struct("MessageDescriptor_t", {}), "old")
    dl.f["msgs"] = SVec(n, lambda i: Ptr(old), (), "std::vector<MessageDescriptor_t*>", "msgs"); max0 = dl.get("maxDlcValue")
    this = ex.new(sc, "scanner"); cover = 0
    for st, r in ex.explore(lambda: ex.call_def(f, [Ptr(None, True) if null else Ptr(m)], this)):
        ex.state = st
        if ex.check() == "unsat": continue
        cover += 1; d = ex.load(this).get("dblist"); v = d.get("msgs"); mx = d.get("maxDlcValue")
        if null:
            ex.oblige("nothing is added", Eq(ex.vsize(v), n), repr(v)); ex.oblige("the largest DLC is kept", Eq(mx, max0)); continue
        ex.oblige("the message is added once", Eq(ex.vsize(v), simp(n + 1)), repr(v))
        if not isinstance(v, SVec): raise Unsupported("list of messages")
        p = ex.svec_read(v, n); ex.oblige("the message itself is added at the end", isinstance(p, Ptr) and p.lv is not None and p.lv.key() == m.key(), repr(p))
        dlc = orig.get("DLC"); ex.oblige("the largest DLC counts the message", Eq(mx, simp(z3.If(zint(dlc) > zint(max0), zint(dlc), zint(max0)))), str(mx))
        mm = ex.load(m)
        for x in ("Name", "DLC", "MsgID", "IsExt", "hasPhys", "frameNotEmpty"): ex.oblige("the message's %s stays" % x, ex.rope_eq(mm.get(x), orig.get(x)) if is_rope(mm.get(x)) else Eq(mm.get(x), orig.get(x)))
        ts = mm.get("TranS"); ex.oblige("the transmitters stay", isinstance(ts, SVec) and not ts.log and ts.name == orig.get("TranS").name)
        sv = mm.get("Signals"); ex.oblige("no signal is lost or added", Eq(ex.vsize(sv), ns), repr(sv))
        if isinstance(sv, Vec) and not sv.el or ex.proves(ns == 0): 
            ex.oblige("no receiver without signals", Eq(ex.vsize(mm.get("RecS")), nr)); continue
        if not isinstance(sv, SVec) or sv.log: raise Unsupported("signals %r" % (sv,))
        perm = next((k for k, (o, _, _) in ex.sorted_info.items() if o.name == sv.name and o.elem is sv.elem), None)
        if perm is None and sv.name != "signals": raise Unsupported("signals %r" % (sv,))
        # receivers: every receiver of every signal is collected once
        if getattr(ex, "loops", None) is None or not isinstance(mm.get("RecS"), SVec): raise Unsupported("receivers")
        g = type("G", (), {})(); g.ex = ex
        base, src = sources(g, mm.get("RecS"))
        if base is None: ex.oblige("the message's own receivers stay", nr == 0); continue
        ex.oblige("the message's own receivers stay", base.name == "own" and not base.log, repr(base)); got = False
        for x, rg in src:
            h = hole1(x)
            if h.name != "rc" or len(rg) != 2: raise Unsupported("names %r" % (x,))
            (k1, N1), (k2, N2) = rg; i = h.args[0]
            want = k1 if perm is None else z3.Function(perm, z3.IntSort(), z3.IntSort())(zint(k1))
            ex.oblige("the receivers of every signal are looked at", And(Eq(zint(i), zint(want)), Eq(zint(h.args[1]), zint(k2)), Eq(zint(N1), ns), Eq(zint(N2), zint(app("nrc", (i,))))), "%r %s" % (x, rg)); got = True
        ex.oblige("the receivers are collected", got)
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)

# ---------------------------------------------------------------- ParseMessageInfo
LINE = (Hole("line", (), TEXT, 0, maxlen=TEXTMAX),); TRIMMED = (Fun("trim", LINE, TEXT, 0),)
class Lines:
    """frame of the loops over the lines"""
    def __init__(l, prog, what, np=1):
        l.run = Run(prog); ex = l.ex = l.run.ex; ex.prefix = what + " "; l.f = l.run.fn("DbcScanner::" + what, np); ex.preload([l.f.tu]); l.log = ex.new(Vec((), "ghost"), "ghost")
        l.stream = ex.new(Opaque("istream"), "stream"); l.more = z3.Bool("more"); l.iter = None; l.seen = 0
        ex.hooks["getline"] = l.getline; ex.contracts["str_trim"] = l.trim; ex.loop_hook = l.hook; ex.localtype = {}
        l.sc = scanner(ex); l.this = ex.new(l.sc, "scanner")
    def v(l, x): return l.ex.load(x) if isinstance(x, LV) else x
    def L(l, what, **kw): l.ex.store(l.log, l.ex.vpush(l.ex.load(l.log), Struct("call", dict(kw, what=what))))
    def getline(l, ex, argn):
        if len(argn) != 2: raise Unsupported("getline")
        s, lv = ex.lv(argn[0]), ex.lv(argn[1])
        if s.key() != l.stream.key(): raise Unsupported("getline of another stream")
        ex.store(lv, LINE); l.L("getline"); return l.more
    def trim(l, ex, f, args, this): 
        r = ex.as_rope(l.v(args[0])); return (Fun("trim", r, TEXT, 0),)
    def line_ok(l, x):
        r = l.ex.as_rope(l.v(x))
        if rkey(r) != rkey(TRIMMED): raise Unsupported("line given to the parser: %r" % (r,))
    def locals(l, test):
        ex = l.ex; return [lv for lv in ex.env.vars.values() if lv.root in ex.localtype and not lv.path and test(clean(ex.localtype[lv.root]))]
    def hook(l, ex, n, cond, inc, body):
        if cond is None or not has_call(cond, "getline"): return NotImplemented
        l.seen += 1; roots = set(ex.state.store)
        l.entry()
        if l.iter is not None:        # a further path of the function: the loop was judged already
            if l.loop is not n or len(ex.state.pc) != l.npc: raise Unsupported("two loops over the lines")
            l.havoc(roots); ex.state.pc.append(z3.Not(l.more)); l.exit_log(); return None
        l.loop = n; l.npc = len(ex.state.pc); l.havoc(roots); st0 = ex.state
        def one():
            c = ex.cond(cond); ex.assume(c)
            o = ex.stmt(body)
            if o is not None and o[0] not in ("cont",): raise Unsupported("loop over the lines is left early")
            return l.after()
        mine = ex.state.clone(); mine.writes = set(); keepw = st0.writes; ex.state = mine
        l.iter = ex.explore(one)
        for s, o in l.iter:
            for r, p in s.writes or ():
                if r in roots and not any(r == h.root and p[:len(h.path)] == h.path for h in l.havocked + [l.log]): raise Unsupported("the loop writes %s%s" % (r, p))
        ex.state = st0; st0.writes = keepw
        l.havoc(roots); ex.state.pc.append(z3.Not(l.more)); l.exit_log(); return None
    def entry(l): pass
    def after(l): return None
    def exit_log(l): l.ex.store(l.log, Vec((), "ghost"))
def info(prog, ismsg, issig):
    l = Lines(prog, "ParseMessageInfo"); ex = l.ex
    for x in ("ismsg", "msgok", "issig", "sigok", "nocur", "nofound"): setattr(l, x, z3.Bool(x))
    ex.state.pc += [l.ismsg == ismsg, l.issig == issig]; ex.prefix += "(%s line, %s signal) " % ("message" if ismsg else "other", "a" if issig else "no")
    ntx = z3.Int("ntx"); ex.vb["ntx"] = (0, KMAX); ex.state.pc.append(z3.And(ntx >= 0, ntx <= KMAX))
    def message(tag):
        m = arb(ex, "MessageDescriptor_t", tag, (), {"RollSig": Ptr(None, True), "CsmSig": Ptr(None, True)})
        for x in ex.record("MessageDescriptor_t"): m.get(x[0])
        return ex.new(m, tag)
    cur, found = message("cur"), message("found"); cur0, found0 = ex.load(cur), ex.load(found); psig = arb(ex, "SignalDescriptor_t", "psig")
    for x in ex.record("SignalDescriptor_t"): psig.get(x[0])
    dl = l.this.f("dblist"); l.havocked = []
    def entry():
        p = l.locals(lambda t: t.replace(" ", "") == "MessageDescriptor_t*")
        if len(p) != 1: raise Unsupported("the current message of the loop")
        l.p = p[0]; v = ex.load(l.p); ex.oblige("no message is current before the first line", isinstance(v, Ptr) and (v.lv is None or v.null is True), repr(v))
        l.lines = l.locals(is_string)
    def havoc(roots):
        ex.store(l.p, Ptr(cur, l.nocur)); l.havocked = [l.p, cur, found, dl] + l.lines
        d = arb(ex, "DbcMessageList_t", "dl!%d" % l.seen, (), {"msgs": SVec(z3.Int("nmsgs"), lambda i: Ptr(found), (), "std::vector<MessageDescriptor_t*>", "msgs0")}); ex.vb["nmsgs"] = (0, KMAX); ex.state.pc.append(z3.And(z3.Int("nmsgs") >= 0, z3.Int("nmsgs") <= KMAX))
        for x in ("ver", "msgs", "maxDlcValue"): d.get(x)
        d.get("ver").get("hi"); d.get("ver").get("low"); ex.store(dl, d); ex.store(l.log, Vec((), "ghost")); l.dl0 = d
        for x in l.lines: ex.store(x, (Hole("oldline%d" % l.seen, (), TEXT, 0),))
    l.entry, l.havoc = entry, havoc; cnt = [0]
    def snapshot(p):
        if p.lv is None: return None
        return ex.load(p.lv)
    def addm(ex, f, args, this):
        p = l.v(args[0])
        if not isinstance(p, Ptr): raise Unsupported("AddMessage")
        if p.lv is None or ex.decide(zbool(p.null)): return None
        l.L("Add", root=p.lv.root, m=ex.load(p.lv)); cnt[0] += 1
        ex.store(dl.f("msgs"), SVec(fresh("nmsgs"), lambda i: Ptr(found), (), "std::vector<MessageDescriptor_t*>", "msgs%d" % cnt[0])); return None
    def findm(ex, f, args, this):
        v = l.v(args[0]); cv = ex.load(dl.f("msgs"))
        if not isinstance(v, SVec) or v.name != cv.name: raise Unsupported("list given to find_message")
        l.L("Find", id=l.v(args[1])); return Ptr(found, l.nofound)
    def ismessage(ex, f, args, this): l.line_ok(args[0]); return l.ismsg
    def issignal(ex, f, args, this): l.line_ok(args[0]); return l.issig
    def parsemsg(ex, f, args, this):
        p = l.v(args[0]); l.line_ok(args[1])
        if not isinstance(p, Ptr) or p.lv is None or p.lv.root in (cur.root, found.root): raise Unsupported("message given to ParseMessageLine")
        m = ex.load(p.lv); l.L("ParseMessage", root=p.lv.root, m=m)
        for k in ("Name", "DLC", "MsgID", "IsExt", "TranS"): ex.store(p.lv.f(k), arb(ex, next(x[1] for x in ex.record("MessageDescriptor_t") if x[0] == k), "new." + k))
        return l.msgok
    def parsesig(ex, f, args, this):
        p = l.v(args[0]); l.line_ok(args[1])
        if not isinstance(p, Ptr) or p.lv is None: raise Unsupported("signal given to ParseSignalLine")
        ex.store(p.lv, psig); return l.sigok
    def multi(ex, f, args, this):
        l.line_ok(args[1]); v = l.v(args[0]); ex.oblige("the list of transmitters is empty before it is read", Eq(ex.vsize(v), 0), repr(v))
        ex.store(args[0], SVec(ntx, lambda i: (name_hole("tx", (i,)),), (), "std::vector<std::string>", "txs")); return arb(ex, "uint32_t", "txid")
    def version(ex, f, args, this):
        l.line_ok(args[0]); l.L("FindVersion")
    ex.contracts.update({"DbcScanner::AddMessage": addm, "find_message": findm, "DbcLineParser::IsMessageLine": ismessage, "DbcLineParser::IsSignalLine": issignal, "DbcLineParser::ParseMessageLine": parsemsg,
        "DbcLineParser::ParseSignalLine": parsesig, "DbcLineParser::ParseMultiTrans": multi, "DbcScanner::FindVersion": version})
    def after():
        # decide everything the outcome depends on
        r = {k: ex.decide(x) for k, x in (("ismsg", l.ismsg), ("issig", l.issig), ("msgok", l.msgok), ("sigok", l.sigok), ("nocur", l.nocur))}; r["tx"] = ex.decide(simp(ntx > 0)); r["nofound"] = not r["tx"] or ex.decide(l.nofound)
        p = r["p"] = ex.load(l.p)
        r["null"] = p.lv is None or ex.decide(zbool(p.null)); return r
    l.after = after
    def whole(): r = ex.call_def(l.f, [l.stream], l.this); ex.decide(l.nocur); return r
    outs = ex.explore(whole)
    if l.iter is None: raise Unsupported("the loop over the lines was not found")
    cover = set()
    for st, d in l.iter:
        ex.state = st
        if ex.check() == "unsat": continue
        line(l, d, cur, found, cur0, found0, psig, ntx); cover.add((d["ismsg"], d["issig"], d["tx"]))
    if len(cover) != 2: ex.obls.append(Obligation(ex.prefix + "all kinds of lines reached", "unknown", repr(cover)))
    n = 0
    for st, r in outs:
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1; log = ex.load(l.log); adds = [c for c in log.el if c.get("what") == "Add"]; nc = ex.proves(l.nocur)
        if not nc and not ex.proves(z3.Not(l.nocur)): raise Unsupported("the last message")
        ex.oblige("the last message is added behind the last line", [c.get("root") for c in adds] == ([] if nc else [cur.root]), repr([c.get("root") for c in adds]))
    if not n: ex.obls.append(Obligation(ex.prefix + "the end is reached", "unknown", ""))
    return summary(ex)
DEFAULTS = {"CommentText": "", "Cycle": 0, "DLC": 0, "IsExt": 0, "MsgID": 0, "Name": "", "RecS": [], "Signals": [], "TranS": [], "hasPhys": False, "frameNotEmpty": False, "CsmMethod": "", "CsmOp": 0, "CsmToByteExpr": "", "RollSig": None, "CsmSig": None}
def is_default(ex, v, d):
    if d == "": return Not(ex.nonempty(v)) if is_rope(v) else False
    if d == []: return Eq(ex.vsize(v), 0)
    if d is None: return isinstance(v, Ptr) and (v.lv is None or v.null is True)
    if isinstance(v, Opaque): return False
    return Eq(v, d)
def line(l, d, cur, found, cur0, found0, psig, ntx):
    """what one line does"""
    ex = l.ex; tag = "[%s] " % (", ".join(k for k in ("ismsg", "issig", "tx") if d[k]) or "other line")
    calls = [c for c in ex.load(l.log).el if c.get("what") != "getline"]; what = [c.get("what") for c in calls]
    ex.oblige(tag + "the version is looked for once", what.count("FindVersion") == 1, repr(what))
    adds = [c for c in calls if c.get("what") == "Add"]; pm = [c for c in calls if c.get("what") == "ParseMessage"]
    ex.oblige(tag + "a message line (and no other) starts a new message", len(pm) == (1 if d["ismsg"] else 0), repr(what))
    new = pm[0].get("root") if pm else None; new0 = pm[0].get("m") if pm else None
    if d["ismsg"] and new is None: return
    if new0 is not None:
        for k, x in DEFAULTS.items(): ex.oblige(tag + "a new message starts with default %s" % k, is_default(ex, new0.get(k), x), repr(new0.get(k)))
    p1 = (new if d["msgok"] else None) if d["ismsg"] else (None if d["nocur"] else cur.root)
    want = ([cur.root] if d["ismsg"] and not d["nocur"] else []) + ([p1] if d["tx"] and p1 else [])
    ex.oblige(tag + "exactly the finished messages are added, in their order", [c.get("root") for c in adds] == want, "%r, want %r" % ([c.get("root") for c in adds], want))
    for a in adds:
        if p1 and a.get("root") == p1 and d["issig"] and d["sigok"]: ex.oblige(tag + "a message is added with its last signal", signals_ok(ex, a.get("m"), cur0 if p1 == cur.root else None, psig), repr(a.get("m").get("Signals")))
    p = d["p"]; p2 = None if d["tx"] else p1
    ex.oblige(tag + "the current message afterwards", d["null"] if p2 is None else (not d["null"] and p.lv is not None and p.lv.key() == LV(p2).key()), "%r, want %r" % (p, p2))
    # signals
    for root, m0 in ((cur.root, cur0), (new, None)):
        if root is None or root not in ex.state.store: continue
        m = ex.state.store[root]
        if root == p1 and d["issig"] and d["sigok"]:
            ex.oblige(tag + "the signal is added to the current message", signals_ok(ex, m, m0, psig), repr(m.get("Signals")))
            ex.oblige(tag + "a message with a signal is not empty", Eq(m.get("frameNotEmpty"), True), repr(m.get("frameNotEmpty")))
            ph = Or(zbool(psig.get("IsDoubleSig")), Not(psig.get("IsSimpleSig")), zbool(m0.get("hasPhys")) if m0 is not None else False)
            ex.oblige(tag + "a scaled signal gives physical values", simp(zbool(m.get("hasPhys")) == zbool(ph)), repr(m.get("hasPhys")))
        elif root == p1 or root == cur.root:
            ex.oblige(tag + "no signal is added", same_vec(ex, m.get("Signals"), m0.get("Signals")) if m0 is not None else Eq(ex.vsize(m.get("Signals")), 0), repr(m.get("Signals")))
            for k in ("frameNotEmpty", "hasPhys"): ex.oblige(tag + "%s stays" % k, Eq(m.get(k), m0.get(k) if m0 is not None else False))
        if m0 is not None:
            for k in ("Name", "DLC", "MsgID", "IsExt", "Cycle", "CommentText"): ex.oblige(tag + "the current message's %s stays" % k, ex.rope_eq(m.get(k), m0.get(k)) if is_rope(m0.get(k)) else Eq(m.get(k), m0.get(k)))
            for k in ("TranS", "RecS"): ex.oblige(tag + "the current message's %s stay" % k, same_vec(ex, m.get(k), m0.get(k)))
    # transmitters
    finds = [c for c in calls if c.get("what") == "Find"]; m = ex.load(found); t = m.get("TranS")
    if not d["tx"] or d["nofound"]:
        ex.oblige(tag + "no other message changes", all(same_vec(ex, m.get(k), found0.get(k)) for k in ("TranS", "RecS", "Signals")), repr(t))
        if not d["tx"]: return
    ex.oblige(tag + "the message of a transmitter line is looked up by its ID", len(finds) == 1 and Eq(finds[0].get("id"), app("txid", ())) is True, repr(finds))
    if len(finds) == 1 and want: ex.oblige(tag + "the last message is in the list before it is searched", "Add" in what and what.index("Find") > max(i for i, w in enumerate(what) if w == "Add"))
    if d["nofound"]: return
    g = type("G", (), {})(); g.ex = ex; base, src = sources(g, t)
    if base is None: raise Unsupported("transmitters")
    ex.oblige(tag + "the transmitters of the message stay", base.name == found0.get("TranS").name and not base.log, repr(base))
    ok = len(src) == 1 and len(src[0][1]) == 1
    if len(src) == 0: ex.oblige(tag + "the transmitters of the line are added", False, repr(t)); return
    if not ok: raise Unsupported("transmitters %r" % (src,))
    h = hole1(src[0][0]); k, N = src[0][1][0]
    if h.name != "tx": raise Unsupported("transmitters %r" % (src,))
    ex.oblige(tag + "every transmitter of the line is added", And(Eq(zint(h.args[0]), k), Eq(zint(N), ntx)), "%r %s" % (h, N))
def same_vec(ex, a, b): return isinstance(a, SVec) and a.name == b.name and not a.log and Eq(zint(a.n), zint(b.n)) is True
def signals_ok(ex, m, m0, psig):
    s = m.get("Signals")
    if m0 is None:
        if isinstance(s, Vec): return len(s.el) == 1 and sig_same(ex, s.el[0], psig)
        return False
    s0 = m0.get("Signals")
    return isinstance(s, SVec) and s.name == s0.name and len(s.log) == 1 and s.log[0][0] == "set" and Eq(zint(s.log[0][1]), zint(s0.n)) is True and sig_same(ex, s.log[0][2], psig)
def sig_same(ex, a, b):
    if not isinstance(a, Struct): return False
    for x in ex.record("SignalDescriptor_t"):
        p, q = a.get(x[0]), b.get(x[0])
        if p is q: continue
        if is_rope(p):
            if rkey(p) != rkey(q): return False
        elif isinstance(p, (int, bool)) or is_sym(p):
            if Eq(p, q) is not True: return False
        elif isinstance(p, (SVec, Struct, Opaque)): 
            if repr(p) != repr(q): return False
    return True
# ---------------------------------------------------------------- ParseOtherInfo
PRE = TEXT & ~cls("<"); METHOD = WORD
def other(prog, kind, shape="any"):
    """one line that is a comment, a value table, an attribute or nothing of them (the parser may report several kinds at once)"""
    l = Lines(prog, "ParseOtherInfo"); ex = l.ex; ex.either_ok = True; ex.prefix = "ParseOtherInfo (%s%s) " % ("+".join(kind) or "other line", "" if shape == "any" else ", " + shape); l.havocked = []
    ns, r0, c0 = z3.Ints("ns r0 c0"); ex.vb["ns"] = ex.vb["r0"] = ex.vb["c0"] = (0, KMAX); ex.state.pc += [z3.And(ns >= 0, ns <= KMAX), z3.And(r0 >= 0, r0 < ns), z3.And(c0 >= 0, c0 < ns)]
    l.nofound = z3.Bool("nofound"); sig = lambda i: signal(ex, "s", (i,))
    m0 = arb(ex, "MessageDescriptor_t", "found", (), {"Signals": SVec(ns, sig, (), "std::vector<SignalDescriptor_t>", "signals"), "RollSig": Ptr(None, True), "CsmSig": Ptr(None, True)})
    for x in ex.record("MessageDescriptor_t"): m0.get(x[0])
    found = ex.new(m0, "found"); sl = found.f("Signals"); ex.store(found.f("RollSig"), Ptr(sl.i(r0), z3.Bool("noroll"))); ex.store(found.f("CsmSig"), Ptr(sl.i(c0), z3.Bool("nocsm"))); m0 = ex.load(found)
    dl = l.this.f("dblist"); ex.store(dl.f("msgs"), SVec(z3.Int("nmsgs"), lambda i: Ptr(found), (), "std::vector<MessageDescriptor_t*>", "msgs0")); ex.vb["nmsgs"] = (0, KMAX)
    text = (Hole("text", (), TEXT, 0, maxlen=TEXTMAX),)
    if shape != "any":
        pre, meth, num, post = Hole("pre", (), PRE, 0, maxlen=TEXTMAX // 4), Hole("meth", (), METHOD, 1, maxlen=TEXTMAX // 4), Hole("num", (), DIG, 1, maxlen=9), Hole("post", (), TEXT, 0, maxlen=TEXTMAX // 4)
        text = {"checksum": (pre, Lit("<Checksum:"), meth, Lit(":"), num, Lit(">"), post), "other mark": (pre, Lit("<Checksums:"), meth, Lit(":"), num, Lit(">"), post), "two parts": (pre, Lit("<Checksum:"), meth, Lit(">"), post),
                "counter": (pre, Lit("<RollingCounter>"), post)}[shape]
    texts = {"comment": text, "value": (Hole("vtext", (), TEXT, 0, maxlen=TEXTMAX),)}; kinds = {k: z3.Bool("is!" + k) for k in ("comment", "value", "attribute")}
    for k, b in kinds.items(): ex.state.pc.append(b == (k in kind))
    ntok = z3.Int("ntok"); ex.vb["ntok"] = (0, KMAX); ex.state.pc.append(z3.And(ntok >= 0, ntok <= KMAX)); l.idents = {}
    nv = z3.Int("nvals"); ex.vb["nvals"] = (0, KMAX); ex.state.pc.append(z3.And(nv >= 0, nv <= KMAX))
    def entry(): l.mine = [lv for lv in ex.env.vars.values() if lv.root in ex.localtype and not lv.path]
    def havoc(roots):
        l.havocked = [found, dl] + l.mine; ex.store(l.log, Vec((), "ghost"))
        for lv in l.mine:
            t = clean(ex.localtype[lv.root])
            if is_string(t): ex.store(lv, (Hole("old.%s%d" % (lv.root, l.seen), (), TEXT, 0),)); continue
            v = arb(ex, t, "old.%s%d" % (lv.root, l.seen))
            if isinstance(v, Struct):
                for x in ex.record(t): v.get(x[0])
            ex.store(lv, v)
    l.entry, l.havoc = entry, havoc
    def findm(ex, f, args, this):
        v = l.v(args[0])
        if not isinstance(v, SVec) or v.name != "msgs0": raise Unsupported("list given to find_message")
        l.L("Find", id=l.v(args[1])); return Ptr(found, l.nofound)
    def target(k):
        t = app("target!" + k, ()); ex.vb["target!" + k] = (0, 2); ex.fact(z3.And(t >= 0, t <= 2)); return t
    def comment(k):
        def go(ex, f, args, this):
            p = l.v(args[0]); l.line_ok(args[1])
            if not isinstance(p, Ptr) or p.lv is None: raise Unsupported("comment")
            ex.vb["id!" + k] = (0, (1 << 32) - 1); ex.store(p.lv, Struct("Comment_t", {"MsgId": app("id!" + k, ()), "SigName": (name_hole("sig!" + k),), "ca_target": target(k), "Text": texts[k]}))
            if k == "value":
                v = arb(ex, "ValTable_t", "newvals", (), {"vpairs": SVec(nv, lambda i: Struct("pair", {"first": (name_hole("val", (i,)),), "second": app("valn", (i,))}), (), "std::vector<std::pair<std::string, uint32_t>>", "newvals")}); v.get("SigName"); v.get("vpairs"); ex.store(args[2], v)
            return kinds[k]
        return go
    def attribute(ex, f, args, this):
        p = l.v(args[0]); l.line_ok(args[1])
        if not isinstance(p, Ptr) or p.lv is None: raise Unsupported("attribute")
        ex.vb.update({"id!attribute": (0, (1 << 32) - 1), "attr.type": (0, 1), "attr.value": (-(1 << 31), (1 << 31) - 1)}); t, v = app("attr.type", ()), app("attr.value", ()); ex.fact(z3.And(t >= 0, t <= 1, v >= -(1 << 31), v < (1 << 31)))
        ex.store(p.lv, Struct("AttributeDescriptor_t", {"MsgId": app("id!attribute", ()), "Type": t, "Value": v})); return kinds["attribute"]
    def resplit(ex, f, args, this):
        s, rx, sub = ex.as_rope(l.v(args[0])), lit_of(ex.as_rope(l.v(args[1]))), cint(l.v(args[2]))
        if rx not in (":", "(:)", "\\:", "(\\:)") or sub != -1: raise Unsupported("resplit by %r" % (rx,))
        if all(isinstance(g, Lit) or not seg_cls(g) & cls(":") for g in s):
            parts, cur = [], ()
            for g in s:
                if not isinstance(g, Lit): cur += (g,); continue
                for j, piece in enumerate(g.s.split(":")):
                    if j: parts.append(cur); cur = ()
                    if piece: cur += (Lit(piece),)
            if cur: parts.append(cur)       # (an empty text behind the last separator is no token)
            if not ex.proves(ex.nonempty(s)): raise Unsupported("split of an empty text")
            return Vec(tuple(parts), "std::vector<std::string>")
        key = rkey(s); l.idents.setdefault(key, len(l.idents))
        if l.idents[key]: raise Unsupported("several texts are split")
        return SVec(ntok, lambda i: (Hole("tok", (i,), TEXT, 0),), (), "std::vector<std::string>", "tokens")
    ex.contracts.update({"find_message": findm, "DbcLineParser::ParseCommentLine": comment("comment"), "DbcLineParser::ParseValTableLine": comment("value"), "DbcLineParser::ParseAttributeLine": attribute, "resplit": resplit})
    def after():
        d = {"nofound": ex.decide(l.nofound), "nloops": len(ex.loops)}
        for k in ("comment", "value"): d[k] = next(i for i in (0, 1, 2) if i == 2 or ex.decide(target(k) == i)) if k in kind else None
        d["cycle"] = "attribute" in kind and ex.decide(app("attr.type", ()) == 0); return d
    l.after = after; outs = ex.explore(lambda: ex.call_def(l.f, [l.stream], l.this))
    if l.iter is None: raise Unsupported("the loop over the lines was not found")
    cover = set(); E = lambda x: enum(ex, "CommentTarget::" + x); assert [E("Message"), E("Signal")] == [0, 1] and enum(ex, "AttributeType::CycleTime") == 0
    for st, d in l.iter:
        ex.state = st
        if ex.check() == "unsat": continue
        cover.add((d["nofound"], d["comment"], d["value"], d["cycle"])); info_line(l, d, kind, shape, found, m0, sig, ns, texts, nv)
    want = 2 * (3 if "comment" in kind else 1) * (3 if "value" in kind else 1) * (2 if "attribute" in kind else 1)
    if len(cover) != want: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    for st, r in outs:
        ex.state = st
        if ex.check() == "unsat": continue
    return summary(ex)
def info_line(l, d, kind, shape, found, m0, sig, ns, texts, nv):
    ex = l.ex; m = ex.load(found); calls = [c for c in ex.load(l.log).el if c.get("what") == "Find"]
    ids = [str(c.get("id")) for c in calls]; ex.oblige("the message is looked up by the ID of the line", sorted(ids) == sorted("id!" + k for k in kind), repr(ids))
    same = lambda k: stays(ex, ex.resolve(m.get(k)), m0.get(k)) if is_rope(m0.get(k)) else same_vec(ex, m.get(k), m0.get(k)) if isinstance(m0.get(k), (Vec, SVec)) else stays(ex, m.get(k), m0.get(k))
    may = set()
    if not d["nofound"]:
        for k in ("comment", "value"):
            if d[k] == 0: may.add("CommentText")
            if d[k] == 1: may |= {"Signals"} | ({"RollSig", "CsmSig", "CsmMethod", "CsmOp"} if k == "comment" else set())
        if d["cycle"]: may.add("Cycle")
    for x in ex.record("MessageDescriptor_t"):
        if x[0] not in may and x[0] != "Signals": ex.oblige("the message's %s stays" % x[0], same(x[0]), repr(m.get(x[0])))
    if not d["nofound"] and d["cycle"]: ex.oblige("the cycle time is that of the attribute", Eq(m.get("Cycle"), ex.int_cast(app("attr.value", ()), "uint32_t")), repr(m.get("Cycle")))
    if not d["nofound"] and d["comment"] == 0 and "value" not in kind: ex.oblige("the comment of the message is that of the line", ex.rope_eq(m.get("CommentText"), texts["comment"]), repr(m.get("CommentText")))
    sv = m.get("Signals"); ex.oblige("no signal is lost or added", Eq(ex.vsize(sv), ns), repr(sv)); k = z3.Int("k!sig"); ex.vb["k!sig"] = (0, KMAX)
    if not isinstance(sv, SVec): raise Unsupported("signals %r" % (sv,))
    at = []
    def places(v):
        for e in v.log:
            if e[0] == "set" and not any(e[1] is i or zkey(e[1]) == zkey(i) for i in at): at.append(e[1])
    places(sv); n0 = len(ex.state.pc); ex.state.pc.append(z3.And(k >= 0, k < ns))
    def is_named(b, key): return Or(And(b.get("IsSimpleSig"), ex.rope_eq(b.get("Name"), (name_hole("sig!" + key),))), And(Not(b.get("IsSimpleSig")), ex.rope_eq(b.get("Name"), (name_hole("sig!" + key), Lit("_ro")))))
    for i in at:
        # (signals of a message have different names)
        for key in ("comment", "value"): ex.state.pc.append(zbool(Or(Not(And(is_named(sig(i), key), is_named(sig(k), key))), Eq(i, k))))
        with ex.under(Eq(i, k)) as can:
            if can: signal_line(l, d, ex.svec_read(sv, i), sig(i), texts, nv)
    with ex.under(And(*[Not(Eq(i, k)) for i in at])) as can:
        if can: signal_line(l, d, ex.svec_read(sv, k), sig(k), texts, nv)
    del ex.state.pc[n0:]
    if not d["nofound"] and d["comment"] == 1: marks(l, d, shape, found, m, m0, sig, ns, texts["comment"])
def signal_line(l, d, a, b, texts, nv):
    ex = l.ex
    def named(key): return ex.rope_eq(b.get("Name"), (name_hole("sig!" + key),)), ex.rope_eq(b.get("Name"), (name_hole("sig!" + key), Lit("_ro"))), b.get("IsSimpleSig")
    def is_named(key): x, y, s = named(key); return Or(And(s, x), And(Not(s), y))
    changed = set()
    def text_ok(fld, key, want):
        if d["nofound"] or d[key] != 1: return
        changed.add(fld); c = is_named(key)
        for case, w in ((c, want), (Not(c), b.get(fld))):
            with ex.under(case) as can:
                if can:
                    x = a.get(fld); x = ex.resolve(x) if is_rope(x) else x
                    ex.oblige("%s of a signal is that of the lines with its name" % fld, ex.rope_eq(x, w), repr(x))
    text_ok("CommentText", "comment", texts["comment"]); text_ok("ValueText", "value", texts["value"])
    if not d["nofound"] and d["value"] == 1:
        changed.add("ValDefs"); c = is_named("value")
        for case, w in ((c, "newvals"), (Not(c), None)):
            with ex.under(case) as can:
                if can:
                    x = a.get("ValDefs"); ok = isinstance(x, Struct)
                    if not ok: raise Unsupported("values %r" % (x,))
                    x = x.get("vpairs"); y = b.get("ValDefs").get("vpairs")
                    ex.oblige("the values of a signal are those of the lines with its name", same_pairs(ex, either(ex, x), nv, w) if w else same_either(ex, x, y), repr(x))
    for x in ex.record("SignalDescriptor_t"):
        if x[0] in changed: continue
        u, v = a.get(x[0]), b.get(x[0])
        if u is v: continue
        if x[0] == "ValDefs": 
            ok = same_either(ex, u.get("vpairs"), v.get("vpairs"))
            ex.oblige("%s of the signals stays" % x[0], ok, repr(u)); continue
        if isinstance(v, (Vec, SVec)):
            ok = same_either(ex, u, v)
        else: ok = ex.rope_eq(ex.resolve(u), v) if is_rope(v) else Eq(u, v) if isinstance(v, (int, bool)) or is_sym(v) else same_opaque(ex, u, v)
        if ok is False: raise Unsupported("%s of a signal: %r" % (x[0], u))
        ex.oblige("%s of the signals stays" % x[0], ok, repr(u))
def same_opaque(ex, u, v):
    if isinstance(u, Opaque) and u.what == "choice":
        c, a, b = u.data; return And(Or(Not(c), same_opaque(ex, a, v)), Or(c, same_opaque(ex, b, v)))
    if not isinstance(u, Opaque) or not isinstance(v, Opaque) or u.what != v.what or not isinstance(u.data, tuple) or not isinstance(v.data, tuple): raise Unsupported("%r/%r" % (u, v))
    return ex.same_data(u.data, v.data) or len(u.data) == len(v.data) and And(*[ex.same_data(x, y) or (not isinstance(x, str) and not isinstance(y, str) and Eq(x, y)) for x, y in zip(u.data, v.data)])
def same_either(ex, u, v):
    if isinstance(u, SVec) and u.name in ex.either and not u.log:
        c, a, b = ex.either[u.name]; return And(Or(Not(c), same_either(ex, a, v)), Or(c, same_either(ex, b, v)))
    return u is v or same_vec(ex, u, v)
def either(ex, v):
    while isinstance(v, SVec) and v.name in ex.either and not v.log:
        c, a, b = ex.either[v.name]
        if ex.proves(c): v = a
        elif ex.proves(Not(c)): v = b
        else: break
    return v
def same_pairs(ex, x, n, name): return isinstance(x, SVec) and x.name == name and not x.log and Eq(zint(x.n), zint(n)) is True
def marks(l, d, shape, found, m, m0, sig, ns, text):
    """the rolling counter and the checksum"""
    ex = l.ex; k = z3.Int("k!sig"); ex.vb["k!sig"] = (0, KMAX); b = sig(k); x, y, simple = ex.rope_eq(b.get("Name"), (name_hole("sig!comment"),)), ex.rope_eq(b.get("Name"), (name_hole("sig!comment"), Lit("_ro"))), zbool(b.get("IsSimpleSig"))
    named = zbool(Or(And(simple, x), And(Not(simple), y))); unsigned = z3.Not(zbool(b.get("Signed"))); start, length = zint(b.get("StartBit")), zint(b.get("LengthBit"))
    inbyte = z3.If(zint(b.get("Order")) == enum(ex, "BitLayout::kIntel"), start % 8 + length <= 8, start % 8 - length >= -1); num, meth = Hole("num", (), DIG, 1, maxlen=9), Hole("meth", (), METHOD, 1, maxlen=TEXTMAX // 4)
    pre = [k >= 0, k < ns, length >= 1, length <= 64, start < 512]; cand = z3.And(named, simple, unsigned, inbyte)
    counter = zbool(Not(Eq(ex.find_generic(text, (Lit("<RollingCounter>"),), 0), NPOS)))
    for f in ("RollSig", "CsmSig", "CsmMethod", "CsmOp"):
        v, v0 = m.get(f), m0.get(f); names = value_names([v] if False else v if not isinstance(v, Ptr) else (v.null,) + tuple(q for a, q in v.lv.path if a == "i") if v.lv is not None else ())
        e = next((e for e in ex.lastw if e["w"].decl().name() in names and e["loc"] == (found.root, (("f", f),))), None); w0 = ex.state
        same = stays(ex, v, v0)
        if e is None:
            if not ex.proves(same): raise Unsupported("%s is %r" % (f, v))
            cond = z3.BoolVal(False)
        else:
            cond = zbool(e["cond"](k)); ex.oblige("%s: every signal is looked at" % f, Eq(zint(e["N"]), ns))
            with ex.under(e["w"] < 0) as can:
                if can: ex.oblige("%s stays when no signal asks for it" % f, stays(ex, ex.resolve(v) if is_rope(v) else v, v0), repr(v))
            with ex.under(z3.And(e["w"] >= 0, e["w"] < ns)) as can:
                if can: ex.oblige("%s is that of the signal" % f, stays(ex, ex.resolve(v) if is_rope(v) else v, e["val"](e["w"])), repr(v))
        with ex.under(z3.And(*pre)) as can:
            if not can: raise Unsupported("no signal")
            if f == "RollSig":
                ex.oblige("only a signal of that name with the mark becomes the rolling counter", z3.Implies(cond, z3.And(named, counter)))
                ex.oblige("a marked unsigned plain signal becomes the rolling counter", z3.Implies(z3.And(named, counter, simple, unsigned), cond))
                want = Ptr(found.f("Signals").i(k))
            else:
                ex.oblige("%s: only an unsigned plain signal of that name inside one byte becomes the checksum" % f, z3.Implies(cond, cand))
                if shape == "checksum": ex.oblige("%s: a marked signal becomes the checksum" % f, z3.Implies(cand, cond))
                elif shape != "any": ex.oblige("%s: no checksum without its mark" % f, z3.Not(cond))
                want = None if shape != "checksum" and f != "CsmSig" else {"CsmSig": Ptr(found.f("Signals").i(k)), "CsmMethod": (meth,), "CsmOp": ex.int_cast(ex.text_int((num,), 32), "uint32_t")}[f]
            if e is not None and want is not None:
                with ex.under(cond) as can:
                    if can: 
                        got = e["val"](k); ex.oblige("%s has the value the signal asks for" % f, stays(ex, ex.resolve(got) if is_rope(got) else got, want), repr(got))
def stays(ex, a, b):
    if a is b: return True
    if is_rope(a) and is_rope(b): return ex.rope_eq(a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if b.lv is None: return a.lv is None or simp(zbool(a.null))
        if a.lv is None: return simp(zbool(b.null))
        if a.lv.root != b.lv.root or len(a.lv.path) != len(b.lv.path): return False
        same = And(*[Eq(zint(x), zint(y)) if k1 == "i" else x == y for (k1, x), (k2, y) in zip(a.lv.path, b.lv.path)])
        return simp(z3.If(zbool(b.null), zbool(a.null), z3.And(z3.Not(zbool(a.null)), zbool(same))))
    if isinstance(a, (int, bool)) or is_sym(a): return Eq(a, b)
    return False
KINDS = [tuple(k for k, b in zip(("comment", "value", "attribute"), (a, b, c)) if b) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
def units():
    from ..prove import Unit
    return [Unit("find_message", ["C12", "C09", "C10"], [(find, ())], "for every list and ID: a message of the list with that ID, null exactly if there is none"),
            Unit("DbcScanner::AddMessage", ["C13", "C09", "C10"], [(add, (False,)), (add, (True,))], "for every message: added once, the largest DLC counts it, its receivers are those of all its signals, each once"),
            Unit("DbcScanner::ParseMessageInfo", ["C09", "C10", "C11", "C13"], [(info, (a, b)) for a in (True, False) for b in (True, False)], "for every sequence of lines (loop invariant): every parsed message is added exactly once with all signal lines up to the next message, transmitter lines extend the message with their ID",
                 assumed=["the line parser's functions behave as their contracts", "std::getline yields the lines of the file in order"]),
            Unit("DbcScanner::ParseOtherInfo", ["C12", "C14", "C15"], [(other, (k, "any")) for k in KINDS] + [(other, (("comment",), s)) for s in ("checksum", "other mark", "two parts", "counter")],
                 "for every sequence of lines (loop invariant): comments, values and cycle times reach exactly the message and the signals they name; rolling counter and checksum are marked exactly by their texts",
                 assumed=["the line parser's functions behave as their contracts", "std::getline yields the lines of the file in order", "std::regex splits at the separator"])]
