"""CSigPrinter::LoadMessages, LoadMessage and BuildCConvertExprs over the contract of PrintSignalExpr: which expression goes where."""
from .base import *

def fixture(prog, what):
    run = Run(prog); ex = run.ex; ex.prefix = what + " "
    n = z3.Int("nsig"); ex.vb["nsig"] = (0, KMAX); dlc = z3.Int("DLC"); ex.vb["DLC"] = (1, 64); nocsm = z3.Bool("nocsm"); noroll = z3.Bool("noroll")
    ex.state.pc += [z3.And(n >= 0, n <= KMAX), z3.And(dlc >= 1, dlc <= 64)]
    csm = ex.new(signal(ex, "csm"), "csm"); roll = ex.new(signal(ex, "roll"), "roll")
    over = {"Signals#": n, "RollSig": Ptr(roll, noroll), "CsmSig": Ptr(csm, nocsm), "DLC": dlc}
    return run, ex, n, dlc, csm, nocsm, over
def load(prog):
    run, ex, n, dlc, csm, nocsm, over = fixture(prog, "LoadMessage")
    f = run.fn("CSigPrinter::LoadMessage", 1); ex.preload([f.tu])
    orig = arb(ex, "MessageDescriptor_t", "msg", (), over); m = ex.new(orig, "message")
    for x in [a[0] for a in ex.record("MessageDescriptor_t")]: orig.get(x)
    this = ex.new(Struct("CSigPrinter", {"sigs_expr": Vec((), "std::vector<CiExpr_t*>")}), "printer")
    calls = ex.new(Vec((), "std::vector<uint64_t>"), "calls"); csmcalls = ex.new(Vec((), "std::vector<uint64_t>"), "csmcalls")
    seen = {}
    def pse(ex, f, args, this_):
        """contract of PrintSignalExpr: the result depends on the signal and its expressions are added to the bytes given"""
        a, b = args
        if not isinstance(a, Ptr) or not isinstance(b, LV): raise Unsupported("arguments of PrintSignalExpr")
        if a.lv.root == csm.root and not a.lv.path:
            v = ex.load(b)
            if not isinstance(v, (SVec, Vec)): raise Unsupported("bytes of the checksum")
            ex.oblige("the checksum's expression is built over the payload's length", Eq(ex.vsize(v), dlc)); q = z3.Int("k!e")
            empty_ok(ex, v, "the checksum's expression starts from empty bytes")
            ex.store(b, SVec(dlc, lambda i: (Hole("CSMB", (i,), TEXT, 0),), (), "std::vector<std::string>", "csmbytes"))
            ex.store(csmcalls, ex.vpush(ex.load(csmcalls), 1))
            return (Hole("CSMEXPR", (), TEXT, 2),)
        sg = a.lv.path
        if len(sg) < 2 or sg[-1][0] != "i" or sg[-2] != ("f", "Signals"): raise Unsupported("signal given to PrintSignalExpr")
        own = LV(b.root, b.path)
        ex.oblige("the signal and the bytes are of the same message", a.lv.root == b.root and sg[:-2] == b.path[:-1] + (("f", "msg"),) and b.path[-1] == ("f", "to_bytes"), repr((a, b)))
        seen[b.root, b.path[:-1]] = True
        v = ex.load(own); ex.oblige("the bytes are as many as the payload's", Eq(ex.vsize(v), dlc)); empty_ok(ex, v, "the bytes are empty before the first signal")
        ex.store(calls, ex.vpush(ex.load(calls), zint(sg[-1][1])))
        return (Hole("EXPR", (sg[-1][1],), TEXT, 2),)
    ex.contracts["CSigPrinter::PrintSignalExpr"] = pse
    cover = 0; J = z3.Int("J"); ex.vb["J"] = (0, KMAX)
    for st, r in ex.explore(lambda: ex.call_def(f, [m], this)):
        ex.state = st
        if ex.check() == "unsat": continue
        cover += 1; sv = ex.load(this).get("sigs_expr")
        ex.oblige("one message is added", Eq(ex.vsize(sv), 1))
        p = ex.svec_read(sv, 0) if isinstance(sv, SVec) else sv.el[0]
        if not isinstance(p, Ptr): raise Unsupported("element of sigs_expr")
        e = ex.load(p.lv); mm = e.get("msg")
        mark = len(ex.state.pc); ex.state.pc.append(n > 0)
        if ex.check() != "unsat": ex.oblige("the signals are those of the new message", (p.lv.root, p.lv.path) in seen)
        del ex.state.pc[mark:]
        # each signal exactly once, in order
        cl = ex.load(calls); ex.oblige("PrintSignalExpr is called once for each signal", Eq(ex.vsize(cl), n), str(ex.vsize(cl)))
        ts = e.get("to_signals"); ex.oblige("there is one expression for each signal", Eq(ex.vsize(ts), n), str(ex.vsize(ts)))
        mark = len(ex.state.pc); ex.state.pc.append(z3.And(J >= 0, J < n))
        if ex.check() != "unsat":
            ex.oblige("the signals are added in their order, each once", Eq(ex.svec_read(cl, J), J) if isinstance(cl, SVec) else False, repr(cl))
            t = ex.resolve(ex.svec_read(ts, J)) if isinstance(ts, SVec) else ts.el[0]
            definite_holes(t); ex.oblige("expression J is the one of signal J", ex.rope_eq(t, (Hole("EXPR", (J,), TEXT, 2),)), repr(t))
            a, b = ex.svec_read(mm.get("Signals"), J), ex.svec_read(orig.get("Signals"), J)
            for x in ("Name", "StartBit", "LengthBit", "Order", "Signed", "TypeRo", "TypePhys", "IsDoubleSig", "IsSimpleSig"):
                ex.oblige("the copied signal has the same %s" % x, same(ex, a.get(x), b.get(x)))
        del ex.state.pc[mark:]
        tb = e.get("to_bytes"); ex.oblige("as many bytes as the payload", Eq(ex.vsize(tb), dlc))
        cc = ex.load(csmcalls)
        for x in ("Name", "DLC", "MsgID", "IsExt", "Cycle", "hasPhys", "frameNotEmpty", "CsmMethod", "CsmOp", "CommentText"):
            ex.oblige("the message's %s is taken over" % x, same(ex, mm.get(x), orig.get(x)))
        for x, lv in (("CsmSig", csm),):
            ex.oblige("the message's %s is taken over" % x, isinstance(mm.get(x), Ptr) and mm.get(x).lv is not None and mm.get(x).lv.root == lv.root)
        # checksum
        mark = len(ex.state.pc); k = mm.get("CsmByteNum"); C = lambda i: (Hole("CSMB", (i,), TEXT, 0),); ne = lambda i: zbool(ex.nonempty(C(i)))
        ex.state.pc.append(z3.Not(nocsm))
        if ex.check() != "unsat":
            ex.oblige("the checksum's expression is built", Eq(ex.vsize(cc), 1)); x = ex.resolve(mm.get("CsmToByteExpr")); b0 = z3.Int("b0"); ex.vb["b0"] = (0, 63)
            # PrintSignalExpr leaves text in at least one byte (its contract: the signal's own or the error text in byte 0)
            ex.state.pc += [z3.And(b0 >= 0, b0 < dlc), ne(b0)]
            if ex.check() != "unsat":
                ex.oblige("the checksum's byte is one of the payload", z3.And(zint(k) >= 0, zint(k) < dlc), str(k))
                ex.oblige("the checksum's byte has the checksum's bits", ne(k), str(k))
                ex.oblige("the checksum's expression is the one of its byte", ex.rope_eq(x, C(k)), "%r %s" % (x, k))
        del ex.state.pc[mark:]
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def definite_holes(t):
    for s in t:
        if not isinstance(s, (Lit, Hole)): raise Unsupported("text %r" % (t,))
def empty_ok(ex, v, name):
    i = z3.Int("b!"); ex.vb["b!"] = (0, 63)
    if isinstance(v, Vec): ok = all(is_rope(x) and not x for x in v.el); ex.oblige(name, ok); return
    mark = len(ex.state.pc); ex.state.pc.append(z3.And(i >= 0, i < zint(v.n)))
    try:
        if ex.check() != "unsat":
            t = ex.svec_read(v, i); ex.oblige(name, Not(ex.nonempty(ex.resolve(t))), repr(t))
    finally: del ex.state.pc[mark:]
def same(ex, a, b):
    if is_rope(a): return ex.rope_eq(ex.resolve(a), ex.resolve(b))
    if isinstance(a, Opaque): return isinstance(b, Opaque) and ex.same_data(a.data, b.data)
    return Eq(a, b)
def messages(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "LoadMessages "
    f = run.fn("CSigPrinter::LoadMessages", 1); ex.preload([f.tu]); n = z3.Int("nmsg"); ex.vb["nmsg"] = (0, KMAX); ex.state.pc.append(z3.And(n >= 0, n <= KMAX))
    root = [None]
    pool = ex.new(SVec(n, lambda i: Struct("MessageDescriptor_t", {"MsgID": app("msgid", (i,))}), (), "std::vector<MessageDescriptor_t>", "pool"), "pool")
    msgs = ex.new(SVec(n, lambda i: Ptr(pool.i(i)), (), "std::vector<MessageDescriptor_t*>", "msgs"), "msgs")
    old = SVec(z3.Int("before"), lambda i: Ptr(ex.new(Struct("CiExpr_t", {}), "old")), (), "std::vector<CiExpr_t*>", "old"); ex.vb["before"] = (0, KMAX); ex.state.pc.append(z3.And(z3.Int("before") >= 0, z3.Int("before") <= KMAX))
    this = ex.new(Struct("CSigPrinter", {"sigs_expr": old}), "printer"); log = ex.new(Vec((), "std::vector<uint64_t>"), "log")
    def lm(ex, f, args, this_):
        a = args[0]
        if not isinstance(a, LV) or a.root != pool.root or len(a.path) != 1: raise Unsupported("message given to LoadMessage")
        ex.store(log, ex.vpush(ex.load(log), zint(a.path[0][1]))); return None
    ex.contracts["CSigPrinter::LoadMessage"] = lm; J = z3.Int("J"); ex.vb["J"] = (0, KMAX); cover = 0
    for st, r in ex.explore(lambda: ex.call_def(f, [msgs], this)):
        ex.state = st
        if ex.check() == "unsat": continue
        cover += 1; v = ex.load(this).get("sigs_expr"); ex.oblige("earlier expressions are dropped", Eq(ex.vsize(v), 0), str(ex.vsize(v)))
        cl = ex.load(log); ex.oblige("every message is loaded once", Eq(ex.vsize(cl), n)); ex.state.pc.append(z3.And(J >= 0, J < n))
        if ex.check() != "unsat": ex.oblige("the messages are loaded in their order", Eq(ex.svec_read(cl, J), J) if isinstance(cl, SVec) else Eq(cl.el[0], J), repr(cl))
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)

def units():
    from ..prove import Unit
    return [Unit("LoadMessage, BuildCConvertExprs", ["C01", "C02", "C03", "C04", "C15"], [(load, ())], "for any number of signals: expression J is PrintSignalExpr's of signal J, every signal is added once, in order, to the initially empty bytes of its message (DLC many), the checksum's byte and expression are those of the checksum signal, everything else of the message is copied"),
            Unit("LoadMessages", ["C01", "C02", "C03", "C04"], [(messages, ())], "every message of the list is loaded once, in order, into an emptied list")]
