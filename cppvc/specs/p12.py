"""The line parser (DbcLineParser) on lines of the DBC grammar: structured texts whose names, numbers and free texts are arbitrary.
std::regex is the model of rx.py (checked against the real library by tools/rxcheck)."""
from .base import *
from ..lib import Fun, NPOS, vec_elt
from ..terms import WORD, DIG, ALPHA, SPACE, HIGH, seg_cls
from .. import rx
NOQUOTE = TEXT & ~cls('"'); PART = NOQUOTE & ~cls("\n")
def num(ex, name, lo, hi):
    v = z3.Int(name); ex.vb[name] = (lo, hi); ex.state.pc.append(z3.And(v >= lo, v <= hi)); return v
def U(v): return Fmt(v, "u")
def start(prog, fn, np, prefix):
    run = Run(prog); ex = run.ex; ex.prefix = prefix + " "; f = run.fn("DbcLineParser::" + fn, np); ex.preload([f.tu]); return ex, f
def parser(ex, **over):
    d = {"commentline": EMPTY, "attribline": EMPTY, "valueline": EMPTY}; d.update(over)
    r = ex.record("DbcLineParser")
    if r is None: raise Unsupported("DbcLineParser")
    s = arb(ex, "DbcLineParser", "parser", (), d)
    for x in r: s.get(x[0])
    return ex.new(s, "parser")
def text(name, c=PART, lo=0, first=None, last=None): return Hole(name, (), c, lo, first, last, maxlen=TEXTMAX // 8)
def live(ex, outs):
    for st, r in outs:
        ex.state = st
        if ex.check() != "unsat": yield r
def answer(ex, r):
    if isinstance(r, (bool, int)): return bool(r)
    if ex.proves(zbool(r)): return True
    if ex.proves(Not(zbool(r))): return False
    raise Unsupported("undecided answer %r" % (r,))
def covered(ex, cover, want):
    if cover != want: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
def tail_names(ex, v, base, n, hole, name):
    """v[base + j] is the j-th name for all 0 <= j < n, and nothing else is in v"""
    if not isinstance(v, (Vec, SVec)): raise Unsupported("%s: %r" % (name, v))
    ex.oblige("%s: as many as in the line" % name, Eq(zint(ex.vsize(v)), zint(base) + zint(n)), repr(v))
    j = z3.Int("j!" + name); ex.vb["j!" + name] = (0, KMAX); m = len(ex.state.pc); ex.state.pc.append(z3.And(j >= 0, j < zint(n)))
    try:
        if ex.check() != "unsat":
            x = ex.svec_read(v, simp(zint(base) + j)) if isinstance(v, SVec) else None
            if x is None: raise Unsupported("%s: %r" % (name, v))
            ex.oblige("%s: in the order of the line" % name, ex.rope_eq(ex.resolve(x), hole(j)), repr(x))
    finally: del ex.state.pc[m:]

# ---------------------------------------------------------------- resplit
def resplit(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "resplit "; f = run.fn("resplit", 3); ex.preload([f.tu]); n = num(ex, "n", 0, KMAX)
    s, r = (text("s", TEXT),), (text("rx", TEXT),); sub = num(ex, "sub", -1, 9); seen = []
    def hidden(t, rxo, k):
        seen.append((rkey(t), rkey(ex.as_rope(rxo.data)), zkey(k))); return SVec(n, lambda i: (Hole("tok", (i,), TEXT, 0),), (), "std::vector<std::string>", "hidden")
    ex.rx_hidden = hidden; cover = False
    for r_ in live(ex, ex.explore(lambda: ex.call_def(f, [ex.new(s, "s"), ex.new(r, "rx"), sub], None))):
        cover = True
        if len(set(seen)) != 1: raise Unsupported("token iterators %r" % (seen,))
        ex.oblige("the given text is split", seen[0][0] == rkey(s), ""); ex.oblige("by the given expression", seen[0][1] == rkey(r), ""); ex.oblige("with the given selection", seen[0][2] == zkey(sub), "")
        tail_names(ex, r_, 0, n, lambda j: (Hole("tok", (j,), TEXT, 0),), "tokens")
    if not cover: raise Unsupported("no path")
    return summary(ex)

# ---------------------------------------------------------------- message lines
def is_message(prog, kind):
    ex, f = start(prog, "IsMessageLine", 1, "IsMessageLine (%s)" % kind); rest = text("rest", TEXT)
    line = {"message": (Lit("BO_ "), rest), "other": (text("line", TEXT, 1, TEXT & ~cls("B")),), "transmitters": (Lit("BO_TX_BU_ "), rest), "relation": (Lit("BO_REL_ "), rest), "empty": EMPTY}[kind]; this = parser(ex)
    for r in live(ex, ex.explore(lambda: ex.call_def(f, [ex.new(line, "line")], this))): ex.oblige("answer", Eq(zbool(r) if is_sym(r) else bool(r), kind == "message"), repr(r))
    return summary(ex)
def message(prog, sender):
    ex, f = start(prog, "ParseMessageLine", 2, "ParseMessageLine (%s)" % ("sender" if sender else "no sender")); this = parser(ex)
    mid, dlc = num(ex, "id", 0, (1 << 32) - 1), num(ex, "dlc", 0, (1 << 31) - 1); name, tx = name_hole("name"), name_hole("sender")
    line = rope(Lit("BO_ "), (U(mid),), " ", (name,), ": ", (U(dlc),), " ", (tx,)) if sender else rope(Lit("BO_ "), (U(mid),), " ", (name,), ": ", (U(dlc),))
    m0 = arb(ex, "MessageDescriptor_t", "m", (), {"RollSig": Ptr(None, True), "CsmSig": Ptr(None, True)})
    for x in ex.record("MessageDescriptor_t"): m0.get(x[0])
    m = ex.new(m0, "msg"); m0 = ex.load(m); cover = set()
    def one():
        r = ex.call_def(f, [Ptr(m), ex.new(line, "line")], this); r = ex.decide(zbool(r)) if is_sym(r) else bool(r); return r
    ok = z3.And((mid / (1 << 29)) % 4 == 0, dlc >= 1, dlc <= 64)
    for r in live(ex, ex.explore(one)):
        cover.add(r); ex.oblige("taken exactly if the DLC is 1..64 and bits 29 and 30 are clear", ok if r else z3.Not(ok))
        if not r: continue
        v = ex.load(m); ex.oblige("name", ex.rope_eq(v.get("Name"), (name,)), repr(v.get("Name"))); ex.oblige("ID", Eq(v.get("MsgID"), simp(mid % (1 << 29)))); ex.oblige("DLC", Eq(v.get("DLC"), dlc))
        e = v.get("IsExt"); e = zbool(e) if not is_sym(e) or z3.is_bool(e) else e != 0
        ex.oblige("extended exactly if bit 31 is set", simp(e == (mid >= (1 << 31))))
        tail = v.get("TranS")
        if not isinstance(tail, SVec): raise Unsupported("senders %r" % (tail,))
        t0 = m0.get("TranS"); ex.oblige("senders: one more exactly if there is one", Eq(zint(tail.n), zint(t0.n) + (1 if sender else 0)))
        if sender: ex.oblige("sender", ex.rope_eq(ex.resolve(ex.svec_read(tail, t0.n)), (tx,)), repr(tail))
        for x in ("Signals", "RecS", "hasPhys", "frameNotEmpty", "Cycle", "CommentText", "CsmMethod", "CsmOp"):
            a, b = v.get(x), m0.get(x); ex.oblige("%s stays" % x, a is b or (isinstance(a, SVec) and a.name == b.name and not a.log) or is_rope(a) and is_rope(b) and rkey(a) == rkey(b) or not is_rope(a) and not isinstance(a, (SVec, Vec)) and Eq(a, b), repr(a))
    covered(ex, cover, {True, False}); return summary(ex)
def transmitters(prog, kind):
    ex, f = start(prog, "ParseMultiTrans", 2, "ParseMultiTrans (%s)" % kind); this = parser(ex); mid, n = num(ex, "id", 0, (1 << 32) - 1), num(ex, "n", 0, KMAX); node = lambda i: (name_hole("node", (i,)),)
    k = z3.Int("k!each"); sep = lambda i: Hole("sep", (i,), cls(", \t"), 1)
    if kind == "transmitters": line = rope("BO_TX_BU_ ", (U(mid),), (Hole("sp", (), cls(" "), 0),), ":", (Hole("sp2", (), cls(" "), 0),), (Each(k, 0, n, rope(node(k), (sep(k),))),), node(n), ";")
    elif kind == "message": line = rope("BO_ ", (U(mid),), " ", (name_hole("name"),), ": ", (U(num(ex, "dlc", 0, 999)),), " ", (name_hole("sender"),))
    else: line = (text("line", WORD, 1, WORD & ~cls("B")), Hole("x", (), cls(" :;"), 1))
    out = ex.new(Vec((), "std::vector<std::string>"), "nodes"); cover = False
    for r in live(ex, ex.explore(lambda: ex.call_def(f, [out, ex.new(line, "line")], this))):
        cover = True; v = ex.load(out)
        if kind == "transmitters":
            ex.oblige("the message is the one of the line", Eq(zint(r), mid % (1 << 29)), repr(r)); tail_names(ex, v, 0, simp(n + 1), node, "nodes")
        else: ex.oblige("no nodes from another line", Eq(ex.vsize(v), 0), repr(v))
    if not cover: raise Unsupported("no path")
    return summary(ex)
# ---------------------------------------------------------------- signal lines
def is_signal(prog, kind):
    ex, f = start(prog, "IsSignalLine", 1, "IsSignalLine (%s)" % kind); rest = text("rest", TEXT); this = parser(ex); sp = Hole("sp", (), cls(" \t"), 1)
    line = {"signal": (sp, Lit("SG_ "), name_hole("n"), Lit(" : "), rest), "message": (Lit("BO_ "), Hole("id", (), DIG, 1, maxlen=12), Lit(" "), Hole("m", (), WORD, 1, FIRST & ~cls("S")), Lit(": "), Hole("dlc", (), DIG, 1, maxlen=3)), "comment": (Lit("CM_ SG_ "), Hole("x", (), DIG, 1), Lit(" "), name_hole("n"), Lit(' "'), text("text", TEXT & ~SPACE)), "no space": (text("line", TEXT & ~SPACE),), "empty": EMPTY}[kind]; n = 0
    for r in live(ex, ex.explore(lambda: ex.call_def(f, [ex.new(line, "line")], this))):
        n += 1
        # (a line of another kind that holds the word behind a space is taken for a signal; such lines have no " : " before it or are rejected)
        if kind == "comment": continue
        ex.oblige("answer", Eq(zbool(r) if is_sym(r) else bool(r), kind == "signal"), repr(r))
    if not n: raise Unsupported("no path")
    return summary(ex)
NUMC = DIG | cls("+-")
def number(ex, what, form):
    """(text, exact integer or None, dot or exponent in the text)"""
    a = lambda x: Hole(what + x, (), NUMC, 1, maxlen=400); d = lambda x: Hole(what + x, (), DIG, 1, maxlen=400)
    if form == "int":
        v = num(ex, what, -(1 << 31) + 1, (1 << 31) - 1); return (Fmt(v, "d"),), v, False
    if form == "plain text": return (a("a"),), None, False
    if form == "dot": return rope((a("a"),), ".", (d("b"),)), None, True
    if form == "trailing dot": return rope((a("a"),), "."), None, True
    if form == "leading dot": return rope(".", (a("b"),)), None, True
    if form == "E": return rope((a("a"),), "E", (a("b"),)), None, True
    if form == "e": return rope((a("a"),), "e", (a("b"),)), None, True
    if form == "dot e": return rope((a("a"),), ".", (d("b"),), "e", (a("c"),)), None, True
    raise ValueError(form)
def signal_line(prog, mux, ff, of, order, sign, nrec, unit):
    ex, f = start(prog, "ParseSignalLine", 2, "ParseSignalLine (%s %s %s %s%s %s %s) " % (mux, ff, of, order, sign, nrec, unit)); this = parser(ex)
    name = name_hole("name"); sb, lb = num(ex, "start", 0, 511), num(ex, "len", 1, 64); F, Fv, Fd = number(ex, "F", ff); O, Ov, Od = number(ex, "O", of)
    if Fv is not None: ex.state.pc.append(Fv != 0)
    lo, hi = number(ex, "lo", "dot e" if ff == "dot" else "int")[0], number(ex, "hi", "dot e" if ff == "dot" else "int")[0]
    mt = {"none": EMPTY, "M": (Lit("M "),), "value": rope("m", (Fmt(num(ex, "mv", 0, 1 << 20), "u"),), " "), "both": rope("m", (Fmt(num(ex, "mv", 0, 1 << 20), "u"),), "M ")}[mux]
    un = EMPTY if unit == "empty" else (text("unit", NOQUOTE),)
    n = num(ex, "nrec", 0, KMAX); k = z3.Int("k!each"); node = lambda i: (name_hole("rec", (i,)),); sep = lambda i: Hole("sep", (i,), cls(", "), 1)
    recs = rope((Each(k, 0, n, rope(node(k), (sep(k),))),), node(n)) if nrec == "many" else node(0)
    line = rope(" SG_ ", (name,), " ", mt, ": ", (U(sb),), "|", (U(lb),), "@", order, sign, " (", F, ",", O, ") [", lo, "|", hi, "] \"", un, "\" ", (Hole("sp", (), cls(" "), 0, maxlen=1000),), recs)
    s0 = arb(ex, "SignalDescriptor_t", "s", (), {"RecS": Vec((), "std::vector<std::string>")})
    for x in ex.record("SignalDescriptor_t"): s0.get(x[0])
    sg = ex.new(s0, "sig"); s0 = ex.load(sg); typed = []
    fields = ("LengthBit", "Signed", "Factor", "Offset", "IsDoubleSig", "IsSimpleSig", "StartBit", "Order")
    def types(ex, f_, args, th):
        lv = args[0].lv; v = ex.load(lv); t, p = app("TypeRo", ()), app("TypePhys", ())
        for q, nm in ((t, "TypeRo"), (p, "TypePhys")): ex.vb[nm] = (0, 7); ex.fact(z3.And(q >= 0, q <= 7))
        ex.state.files.append(("types", tuple((x, v.get(x)) for x in fields))); ex.store(lv.f("TypeRo"), t); ex.store(lv.f("TypePhys"), p); return t
    g = run_fn(ex, "DbcLineParser::GetSigType", 1); ex.contracts[g.qname] = types; dbl = lambda rp: ex.f_atof_text(rp); cover = False
    def one():
        r = ex.call_def(f, [Ptr(sg), ex.new(line, "line")], this); return ex.decide(zbool(r)) if is_sym(r) else bool(r)
    for r in live(ex, ex.explore(one)):
        cover = True; ex.oblige("the line is taken", r)
        if not r: continue
        v = ex.load(sg); calls = [x[1] for x in ex.state.files if x[0] == "types"]; Ft, Ot = dbl(F), dbl(O)
        tiny = lambda x: And(ex.float_op("<", ex.v_abs(x), 1e-9), ex.float_op("!=", x, 0)); tn = Or(tiny(Ft), tiny(Ot)); same = lambda a, b: ex.float_op("==", a, b)
        if calls: ex.oblige("the types are determined once", len(calls) == 1, repr(len(calls)))
        else: raise Unsupported("types are not determined by the contract")
        Fe, Oe = v.get("Factor"), v.get("Offset")
        ex.oblige("factor", And(Implies(tn, same(Fe, 1)), Implies(Not(tn), same(Fe, Ft))), repr(Fe)); ex.oblige("offset", And(Implies(tn, same(Oe, 0)), Implies(Not(tn), same(Oe, Ot))), repr(Oe))
        isd = And(Fd or Od, Not(tn)); B = lambda x: zbool(x) if not is_sym(x) or z3.is_bool(x) else x != 0
        ex.oblige("floating-point conversion exactly for texts with a dot or an exponent", Eq(B(v.get("IsDoubleSig")), zbool(isd) if is_sym(isd) else isd), repr(v.get("IsDoubleSig")))
        simple = And(Not(isd), same(Fe, 1), same(Oe, 0)); ex.oblige("no conversion exactly for the factor 1 and the offset 0", Eq(B(v.get("IsSimpleSig")), zbool(simple) if is_sym(simple) else simple), repr(v.get("IsSimpleSig")))
        for c, w in ((simple, True), (Not(simple), False)):
            with ex.under(zbool(c)) as ok:
                if not ok: continue
                nm = ex.resolve(v.get("Name")); ex.oblige("name of the raw field", ex.rope_eq(nm, (name,) if w else rope((name,), "_ro")), repr(nm))
                if not w: ex.oblige("name of the physical field", ex.rope_eq(ex.resolve(v.get("NameFloat")), rope((name,), "_phys")), repr(v.get("NameFloat")))
        ex.oblige("start bit", Eq(v.get("StartBit"), sb)); ex.oblige("length", Eq(v.get("LengthBit"), lb))
        ex.oblige("byte order", Eq(v.get("Order"), enum(ex, "BitLayout::kMotorolla" if order == "0" else "BitLayout::kIntel")), repr(v.get("Order")))
        ex.oblige("sign", Eq(B(v.get("Signed")), sign == "-"), repr(v.get("Signed")))
        want = {"none": "kNone", "M": "kMaster", "value": "kMulValue", "both": "kMulValue"}[mux]; ex.oblige("multiplexing", Eq(v.get("Multiplex"), enum(ex, "MultiplexType::" + want)), repr(v.get("Multiplex")))
        ex.oblige("minimum", same(v.get("MinValue"), dbl(lo)), repr(v.get("MinValue"))); ex.oblige("maximum", same(v.get("MaxValue"), dbl(hi)), repr(v.get("MaxValue")))
        ex.oblige("unit", ex.rope_eq(ex.resolve(v.get("Unit")), un), repr(v.get("Unit")))
        at = dict(calls[0])
        for x in fields[:4] + ("IsDoubleSig",):
            a, b = at[x], v.get(x); ex.oblige("types are determined from the final %s" % x, same(a, b) if isinstance(a, Opaque) or isinstance(b, Opaque) else Eq(B(a), B(b)) if x in ("Signed", "IsDoubleSig") else Eq(a, b), repr(a))
        ex.oblige("raw type", Eq(v.get("TypeRo"), app("TypeRo", ()))); ex.oblige("physical type", Eq(v.get("TypePhys"), app("TypePhys", ())))
        if nrec == "many": tail_names(ex, v.get("RecS"), 0, simp(n + 1), node, "receivers")
        else:
            rv = v.get("RecS"); ex.oblige("receivers: one", Eq(ex.vsize(rv), 1), repr(rv)); 
            with ex.under(Eq(ex.vsize(rv), 1)) as ok:
                if ok: ex.oblige("receiver", ex.rope_eq(ex.resolve(rv.el[0] if isinstance(rv, Vec) else ex.svec_read(rv, 0)), node(0)), repr(rv))
        for x in ("CommentText",): ex.oblige("%s stays" % x, rkey(v.get(x)) == rkey(s0.get(x)), repr(v.get(x)))
    if not cover: raise Unsupported("no path")
    s = summary(ex); s["extra"]["hint"] = {"signed": sign == "-"}; return s
# ---------------------------------------------------------------- comments
def state_text(ex, p, f): return ex.load(p).get(f)
def keeps(ex, p, but, before):
    for x in ("commentline", "attribline", "valueline"):
        if x == but: continue
        a = state_text(ex, p, x); ex.oblige("%s stays" % x, is_rope(a) and rkey(a) == rkey(before[x]), repr(a))
def same_rope(ex, name, got, want):
    if not is_rope(got): raise Unsupported("%s: %r" % (name, got))
    ex.oblige(name, ex.rope_eq(ex.resolve(got), want), repr(got))
def comment_line(prog, kind, part):
    ex, f = start(prog, "ParseCommentLine", 2, "ParseCommentLine (%s, %s)" % (kind, part)); mid, name = num(ex, "id", 0, (1 << 32) - 1), name_hole("name")
    meta = {"signal": rope("CM_ SG_ ", (U(mid),), " ", (name,), " "), "message": rope("CM_ BO_ ", (U(mid),), " "), "network": (Lit("CM_ "),), "node": rope("CM_ BU_ ", (name,), " "), "variable": rope("CM_ EV_ ", (name,), " ")}[kind]
    NC = PART & ~cls("C"); T1, T2 = text("text", PART if part in ("one line", "empty") else NOQUOTE, 1), text("more", PART, 0, NC); body = (T1,); prev = (text("prev", TEXT),)
    old = {"commentline": prev, "attribline": (text("attr", TEXT),), "valueline": (text("val", TEXT),)}; semi = PART & ~cls(";")
    if part == "one line": line = rope(meta, '"', body, '";')
    elif part == "empty": line = rope(meta, '"";'); body = EMPTY
    elif part == "first": line = rope(meta, '"', (text("text", PART, 1, None, semi),))
    elif part == "first, semicolon": line = rope(meta, '"', (text("text", PART, 0),), ";")
    elif part == "middle": old["commentline"] = rope(meta, '"', body); line = (text("more", PART, 1, NC, semi),)
    elif part == "middle, semicolon": old["commentline"] = rope(meta, '"', body); line = rope((T2,), ";")
    elif part == "blank": old["commentline"] = rope(meta, '"', body); line = EMPTY
    elif part == "last": old["commentline"] = rope(meta, '"', (text("text", NOQUOTE, 1, None, PART),)); line = rope((T2,), '";')
    else: raise ValueError(part)
    this = parser(ex, **old); c0 = arb(ex, "Comment_t", "c", ())
    for x in ex.record("Comment_t"): c0.get(x[0])
    cm = ex.new(c0, "cm"); c0 = ex.load(cm); cover = False
    def one():
        for g in line + old["commentline"]:
            if isinstance(g, Hole): ex.decide(ex.nonempty((g,)))
        r = ex.call_def(f, [Ptr(cm), ex.new(line, "line")], this); return ex.decide(zbool(r)) if is_sym(r) else bool(r)
    for r in live(ex, ex.explore(one)):
        cover = True; done = part in ("one line", "empty", "last"); ex.oblige("complete exactly with the last line", r == done); now = state_text(ex, this, "commentline"); keeps(ex, this, "commentline", old)
        if r != done: continue
        if not done:
            same_rope(ex, "the comment so far", now, line if part.startswith("first") else old["commentline"] if part == "blank" else rope(old["commentline"], "\n", line)); continue
        same_rope(ex, "nothing stays for the next comment", now, EMPTY); v = ex.load(cm); want = {"signal": "Signal", "message": "Message"}.get(kind, "Undefined")
        ex.oblige("target", Eq(v.get("ca_target"), enum(ex, "CommentTarget::" + want)), repr(v.get("ca_target")))
        if want == "Undefined": continue
        ex.oblige("message ID", Eq(v.get("MsgId"), simp(mid % (1 << 29))))
        if kind == "signal": same_rope(ex, "signal name", v.get("SigName"), (name,))
        if part != "last": same_rope(ex, "text", v.get("Text"), body) if part == "empty" else last_char(ex, v.get("Text"), body)
        else:
            e = ex.nonempty((T2,))
            with ex.under(zbool(e)) as ok:
                if ok: same_rope(ex, "text of the lines", v.get("Text"), rope(old["commentline"][-1:], "\n", (T2,)))
            with ex.under(Not(zbool(e))) as ok:
                if ok: same_rope(ex, "text without the last line break", v.get("Text"), old["commentline"][-1:])
    if not cover: raise Unsupported("no path")
    return summary(ex)
def last_char(ex, got, want):
    """the text, or the text without a line break at its end"""
    if not is_rope(got): raise Unsupported("text %r" % (got,))
    got = ex.resolve(got)
    if rkey(got) == rkey(want): ex.oblige("text", True); return
    ex.oblige("text", ex.rope_eq(got, want), repr(got))
def other_line(prog, fn, np, field, key):
    ex, f = start(prog, fn, np, "%s (other line)" % fn); old = {x: (text(x, TEXT),) if x != field else EMPTY for x in ("commentline", "attribline", "valueline")}
    line = (text("line", TEXT, 1, TEXT & ~cls(key[0])),); this = parser(ex, **old); args = [("Comment_t", "c"), ("AttributeDescriptor_t", "c")][fn == "ParseAttributeLine"]; cm = ex.new(arb(ex, args[0], "c", ()), "cm")
    a = [Ptr(cm), ex.new(line, "line")] + ([ex.new(arb(ex, "ValTable_t", "vt", ()), "vt")] if np == 3 else []); cover = False; ex.preload([f.tu])
    for x in ex.record(args[0]): ex.load(cm).get(x[0])
    for r in live(ex, ex.explore(lambda: ex.call_def(f, a, this))):
        cover = True; ex.oblige("another line holds nothing", Not(zbool(r)) if is_sym(r) else not r); keeps(ex, this, None, old)
    if not cover: raise Unsupported("no path")
    return summary(ex)
# ---------------------------------------------------------------- attributes
def attribute_line(prog, kind, part):
    ex, f = start(prog, "ParseAttributeLine", 2, "ParseAttributeLine (%s, %s)" % (kind, part)); mid, val = num(ex, "id", 0, (1 << 32) - 1), num(ex, "val", 0, (1 << 31) - 1); sp = (Hole("sp", (), cls(" "), 1, maxlen=1000),)
    an = (name_hole("attr"),) if kind == "other" else (Lit("GenMsgCycleTime"),); tail = {"cycle": rope("BO_ ", (U(mid),), " ", (U(val),)), "other": rope("BO_ ", (U(mid),), " ", (U(val),)), "node": rope("BU_ ", (name_hole("node"),), " ", (U(val),)), "signal": rope("SG_ ", (U(mid),), " ", (name_hole("node"),), " ", (U(val),)), "network": (U(val),)}[kind]
    whole = rope('BA_ "', an, '"', sp, tail, (Hole("sp2", (), cls(" "), 0, maxlen=1000),), ";"); old = {"commentline": (text("com", TEXT),), "attribline": (text("prev", TEXT),), "valueline": (text("vl", TEXT),)}
    if part == "one line": line = whole
    elif part == "first": line = rope('BA_ "', an, '"', sp)
    else: old["attribline"] = rope('BA_ "', an, '"', sp); line = rope(tail, ";")
    this = parser(ex, **old); at = ex.new(arb(ex, "AttributeDescriptor_t", "a", ()), "at"); cover = False
    for x in ex.record("AttributeDescriptor_t"): ex.load(at).get(x[0])
    eq = ex.rope_eq(an, (Lit("GenMsgCycleTime"),)) if kind == "other" else kind == "cycle"
    def one():
        r = ex.call_def(f, [Ptr(at), ex.new(line, "line")], this); return ex.decide(zbool(r)) if is_sym(r) else bool(r)
    for r in live(ex, ex.explore(one)):
        cover = True; keeps(ex, this, "attribline", old); now = state_text(ex, this, "attribline"); v = ex.load(at)
        if part == "first": ex.oblige("not complete", not r); same_rope(ex, "the attribute so far", now, line); continue
        ex.oblige("taken exactly for cycle times of messages", eq if r else Not(eq) if is_sym(eq) else not eq); same_rope(ex, "nothing stays for the next attribute", now, EMPTY)
        if not r: continue
        ex.oblige("type", Eq(v.get("Type"), enum(ex, "AttributeType::CycleTime"))); ex.oblige("message ID", Eq(v.get("MsgId"), simp(mid % (1 << 29)))); ex.oblige("value", Eq(v.get("Value"), val), repr(v.get("Value")))
    if not cover: raise Unsupported("no path")
    return summary(ex)
# ---------------------------------------------------------------- value tables
def values_line(prog, part):
    ex, f = start(prog, "ParseValTableLine", 3, "ParseValTableLine (%s)" % part); mid, n = num(ex, "id", 0, (1 << 32) - 1), num(ex, "n", 0, KMAX); name = name_hole("name"); k = z3.Int("k!each")
    val = lambda i: app("value", (i,)); ex.vb["value"] = (-(1 << 31), (1 << 31) - 1); q = z3.Int("q!v"); ex.state.pc.append(z3.ForAll([q], z3.And(val(q) >= -(1 << 31), val(q) <= (1 << 31) - 1), patterns=[val(q)]))
    desc = lambda i: (Hole("desc", (i,), PART, 0, maxlen=TEXTMAX // 8),); quoted = lambda i: rope('"', desc(i), '"'); pairs = (Each(k, 0, n, rope((Fmt(val(k), "d"),), " ", quoted(k), " ")),)
    whole = rope("VAL_ ", (U(mid),), " ", (name,), " ", pairs, ";"); old = {"commentline": (text("com", TEXT),), "attribline": (text("attr", TEXT),), "valueline": (text("prev", TEXT),)}
    if part == "one line": line = whole
    elif part == "global": line = rope("VAL_ ", (name,), " ", pairs, ";")
    elif part == "first": line = rope("VAL_ ", (U(mid),), " ", (name,), " ")
    else: old["valueline"] = rope("VAL_ ", (U(mid),), " ", (name,), " "); line = rope(pairs, ";")
    def cname(ex, f, args, this): return (Fun("make_c_name", ex.as_rope(args[0] if not isinstance(args[0], LV) else ex.load(args[0])), WORD),)
    ex.contracts["make_c_name"] = cname; this = parser(ex, **old); cm, vt = ex.new(arb(ex, "Comment_t", "c", ()), "cm"), ex.new(arb(ex, "ValTable_t", "vt", ()), "vt"); cover = False
    for x in ex.record("Comment_t"): ex.load(cm).get(x[0])
    for x in ex.record("ValTable_t"): ex.load(vt).get(x[0])
    def one():
        ex.decide(zbool(n == 0)); r = ex.call_def(f, [Ptr(cm), ex.new(line, "line"), vt], this); return ex.decide(zbool(r)) if is_sym(r) else bool(r)
    for r in live(ex, ex.explore(one)):
        cover = True; keeps(ex, this, "valueline", old); now = state_text(ex, this, "valueline")
        if part == "first": ex.oblige("not complete", not r); same_rope(ex, "the table so far", now, line); continue
        same_rope(ex, "nothing stays for the next table", now, EMPTY)
        if part == "global": ex.oblige("tables of no signal are not taken", not r); continue
        ex.oblige("the table is taken", r)
        if not r: continue
        c, t = ex.load(cm), ex.load(vt); ex.oblige("message ID", Eq(c.get("MsgId"), simp(mid % (1 << 29)))); same_rope(ex, "signal name", c.get("SigName"), (name,)); same_rope(ex, "signal name of the table", t.get("SigName"), (name,))
        ex.oblige("target", Eq(c.get("ca_target"), enum(ex, "CommentTarget::Signal"))); vp = t.get("vpairs"); ex.oblige("as many values as in the line", Eq(ex.vsize(vp), n), repr(vp))
        j = z3.Int("j!pair"); ex.vb["j!pair"] = (0, KMAX)
        with ex.under(z3.And(j >= 0, j < n)) as ok:
            if ok:
                x = ex.svec_read(vp, j); a, b = x.get("first"), x.get("second"); same_rope(ex, "name of a value", a, (Fun("make_c_name", quoted(j), WORD),)); ex.oblige("number of a value", Eq(b, simp(val(j) % (1 << 32))), repr(b))
        tx = c.get("Text"); want = (Each(k, 0, n, rope(" ", (Fmt(val(k), "d"),), " : ", quoted(k), "\n")),)
        with ex.under(n == 0) as ok:
            if ok: same_rope(ex, "no text", tx, EMPTY)
        with ex.under(n > 0) as ok:
            if ok: values_text(ex, tx, want)
    if not cover: raise Unsupported("no path")
    return summary(ex)
def values_text(ex, tx, want):
    if not is_rope(tx): raise Unsupported("text %r" % (tx,))
    ex.oblige("text of the table", ex.rope_eq(rope(ex.resolve(tx), "\n"), want), repr(tx))
def units():
    from ..prove import Unit
    A = ["std::regex tokens and matches as modelled in rx.py"]
    forms = ["int", "plain text", "dot", "leading dot", "trailing dot", "E", "e", "dot e"]
    sl = [(signal_line, (m, "dot", "dot", o, g, nr, un)) for m in ("none", "M", "value", "both") for o in "01" for g in "+-" for nr in ("one", "many") for un in ("empty", "text") if m == "none" or nr == "many" and un == "empty"] + [(signal_line, ("none", a, b, "1", "+", "one", "text")) for a in forms for b in forms]
    return [Unit("DbcLineParser::IsSignalLine", ["C10", "C11"], [(is_signal, (k,)) for k in ("signal", "message", "comment", "no space", "empty")], "lines that begin with space and SG_ are signal lines; lines that hold no space and message lines are not", assumed=A),
            Unit("DbcLineParser::ParseSignalLine", ["C11", "C01", "C05", "C06", "C07"], sl, "for every well-formed signal line (any name, bits, order, sign, factor, offset, range, unit, receivers): every field of the signal is that of the line; the kind of conversion follows from the texts of factor and offset", assumed=A + ["atof yields the number of the text (a finite number)", "DbcLineParser::GetSigType by its contract"]),
            Unit("DbcLineParser::ParseCommentLine", ["C12", "C14", "C15"], [(comment_line, (k, p)) for k in ("signal", "message") for p in ("one line", "empty", "first", "first, semicolon", "middle", "middle, semicolon", "blank", "last")] + [(comment_line, (k, p)) for k in ("network", "node", "variable") for p in ("one line", "last")] + [(other_line, ("ParseCommentLine", 2, "commentline", "CM_"))], "for every comment of a message or a signal, over one line or several: complete with its last line, with the ID, the signal name and the text of the lines; nothing is left for the next comment; other lines change nothing", assumed=A),
            Unit("DbcLineParser::ParseAttributeLine", ["C12"], [(attribute_line, (k, p)) for k in ("cycle", "other", "node", "signal", "network") for p in ("one line", "first", "last")] + [(other_line, ("ParseAttributeLine", 2, "attribline", "BA_ "))], "for every attribute line, over one line or two: taken exactly if it is the cycle time of a message, with its ID and value; other lines change nothing", assumed=A),
            Unit("DbcLineParser::ParseValTableLine", ["C12", "C16"], [(values_line, (p,)) for p in ("one line", "global", "first", "last")] + [(other_line, ("ParseValTableLine", 3, "valueline", "VAL_ "))], "for every value table of a signal with any number of values: the ID, the name, and every pair of number and name, in order", assumed=A + ["make_c_name by its contract"]),
            Unit("resplit", ["C10", "C11", "C12"], [(resplit, ())], "for every text, expression and selection: exactly the tokens of the library's iterator, in order", assumed=["std::sregex_token_iterator yields the tokens"]),
            Unit("DbcLineParser::IsMessageLine", ["C10"], [(is_message, (k,)) for k in ("message", "other", "transmitters", "relation", "empty")], "exactly the lines that begin with 'BO_ '"),
            Unit("DbcLineParser::ParseMessageLine", ["C10", "C09"], [(message, (True,)), (message, (False,))], "for every well-formed message line: name, ID, frame type, DLC and sender are those of the line; refused exactly for a DLC of 0 or above 64 and reserved ID bits", assumed=A),
            Unit("DbcLineParser::ParseMultiTrans", ["C09", "C10"], [(transmitters, (k,)) for k in ("transmitters", "message", "other")], "for every line of several transmitters: the ID and all names, in order; nothing from other lines", assumed=A)]
