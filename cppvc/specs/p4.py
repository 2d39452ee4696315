"""The Pack functions: WritePackStructBody and WritePackArrayBody with PrintPackCommonText, for any message, in every
configuration of the condition macros."""
from .gen import *
from .p3 import ro_w, hash_args, pick_paths

BASES = {"Struct": ("arrow", ("id", ("cframe",)), ("Data",)), "Array": ("id", ("_d",))}
def body(prog, kind):
    run = Run(prog, timeout=8000); f = run.fn("CiMainGenerator::WritePack%sBody" % kind, 1); run.ex.preload([f.tu])
    g = Gen(run, "WritePack%sBody" % kind); ex = run.ex
    g.base = BASES[kind]; g.kind = kind
    return run, g, ex.explore(lambda: ex.call_def(f, [Ptr(g.sgs)], g.this))
def outs_of(kind):
    if kind == "Struct": return {("arrow", ("id", ("cframe",)), ("MsgId",)): ((32, False), "CANID"), ("arrow", ("id", ("cframe",)), ("DLC",)): ((8, False), "DLC"), ("arrow", ("id", ("cframe",)), ("IDE",)): ((8, False), "IDE")}
    return {("deref", ("id", ("_len",))): ((8, False), "DLC"), ("deref", ("id", ("_ide",))): ((8, False), "IDE")}
class Pack:
    """one run of the Pack text"""
    def __init__(p, g, cfg, tag): p.g = g; p.cfg = cfg; p.tag = tag
def start(g, cfg, L, csm):
    ex = g.ex; c = g.crun(cfg); rs = ex.load(g.roll); cs = ex.load(g.csm); c.outs = {k: t for k, (t, _) in outs_of(g.kind).items()}
    if L: c.members[idk(rs.get("Name"))] = (ro_w(L), False); c.members[idk(rs.get("Name"), "_expt")] = (ro_w(L), False)
    if csm: c.members[idk(cs.get("Name"))] = (8, False)
    h = g.msg.get("CsmToByteExpr")[0]; c.chain[("%chain1", h.name)] = CV(bv("cx1", 64), 64, False); c.chain[("%chain2", h.name)] = CV(bv("cx2", 64), 64, False)
    c.csmhole = h
    return c
def handlers(g, c, sub, cfg, marks, extra):
    def handler(c, e):
        kind, d, hole = sub[e.key()]
        marks.append((kind, len(c.events)))
        toks = code_tokens(g.pick(d, cfg))
        toks = hole_chain(toks, {hole.key(): hole.name}) if hole is not None else toks
        a = len(c.events)
        if toks: c.run(parse_stmts(toks))
        marks.append((kind + " end", len(c.events)))
    c.loop_handler = handler
def bodies_of(ex, g, top):
    """the repetitions in the text with an arbitrary index"""
    sub = {}; texts = {}
    for e in top:
        if isinstance(e, Each):
            if cint(e.lo) != 0: raise Unsupported("range of a loop")
            if ex.proves(Eq(e.hi, g.n)): kind, ix, hole = "signals", g.J, None
            elif ex.proves(Eq(e.hi, g.dlc)): kind, ix, hole = "bytes", g.B, ex.svec_read(g.val.get("to_bytes"), g.B)[0]
            else: raise Unsupported("range of a loop")
            b = expand(ex, rsubst(e.body, [(e.var, ix)])); sub[e.key()] = (kind, doc(b), hole); texts[e.key()] = b
            for q in b:
                if isinstance(q, Each): raise Unsupported("loop in a loop")
    return sub, texts
def tokens_of(g, c, d, cfg):
    return hole_chain(code_tokens(g.pick(d, cfg)), {c.csmhole.key(): c.csmhole.name})
def loops(prog, kind, t):
    """an arbitrary signal and an arbitrary byte"""
    run, g, outs = body(prog, kind); ex = run.ex; cover = 0; g.B = z3.Int("B"); ex.vb["B"] = (0, 63)
    rl = ex.load(g.roll).get("LengthBit")
    for st, T in list(pick_paths(g, outs)):
        for e in T:
            if isinstance(e, Each) and "roll.LengthBit" in value_names((e,)): raise Unsupported("the text of the signals depends on the rolling counter")
        ex.state = st.clone(); J = g.J; s = g.sig(J); w, sg = tro(t); tb = ex.svec_read(g.val.get("to_bytes"), g.B); tl = zint(ex.rlen(tb))
        for x in ("TypePhys", "Signed", "IsSimpleSig", "IsDoubleSig", "Name", "NameFloat", "LengthBit"): s.get(x)
        ex.state.pc += [z3.And(J >= 0, J < g.n), s.get("TypeRo") == t, zbool(s.get("Signed")) == sg, rl == 8, z3.And(g.B >= 0, g.B < g.dlc), z3.Or(tl == 0, tl >= 2)]
        ex.state.pc.append(z3.Not(z3.And(zbool(s.get("IsSimpleSig")), zbool(s.get("IsDoubleSig")))))
        ex.state.pc.append(z3.Implies(z3.Not(zbool(g.msg.get("hasPhys"))), zbool(s.get("IsSimpleSig"))))    # ParseMessageInfo sets hasPhys with the first signal that is not plain
        TL = rsubst(T, [(rl, z3.IntVal(8))])
        def one():
            top = expand(ex, TL)
            try: sub, texts = bodies_of(ex, g, top)
            except BadText as b: g.definite(top, b); raise
            d = doc(top); cs = conds(d)
            for _, x, _ in sub.values(): cs = conds(x, cs)
            noroll = ex.decide(g.noroll); csm = not ex.decide(g.nocsm); simple = ex.decide(s.get("IsSimpleSig")); dbl = not simple and ex.decide(s.get("IsDoubleSig")); empty = ex.decide(tl == 0)
            for cfg in g.configs(cs): loops_cfg(ex, g, d, sub, texts, cfg, s, t, simple, dbl, empty, 0 if noroll else 8, csm)
        ex.explore(one); cover += 1
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex, {"hint": {"type": TYPES8[t]}})
def loops_cfg(ex, g, d, sub, texts, cfg, s, t, simple, dbl, empty, L, csm):
    ck = g.ck; w, sg = tro(t); nm, nf = s.get("Name"), s.get("NameFloat"); c = start(g, cfg, L, csm)
    tag = "[%s %s%s%s]" % (TYPES8[t], "plain" if simple else "decimal" if dbl else "integer scaled", " empty byte" if empty else "", "".join(" " + k for k, v in cfg.items() if v))
    c.members[idk(nm)] = (w, sg)
    if not simple: c.members[idk(nf)] = ("real",) if dbl else (64, True)
    c.macro = lambda k: isinstance(k[-1], str) and k[-1].endswith(("_fromS", "_toS"))
    h = ex.svec_read(g.val.get("to_bytes"), g.B)[0]; b8 = z3.BitVec("b", 8)
    b1, b2 = bv("b1", 64), bv("b2", 64); c.chain[("%chain1", h.name)] = CV(b1, 64, False); c.chain[("%chain2", h.name)] = CV(b2, 64, False)
    marks = []; handlers(g, c, sub, cfg, marks, None)
    try: c.run(parse_stmts(tokens_of(g, c, d, cfg)))
    except BadText as b:
        for x in texts.values(): g.definite(x, b)
        ck.true(tag + " the statements are C", False, str(b)); return
    def spans(kind):
        a = None
        for k, p in marks:
            if k == kind: a = p
            elif k == kind + " end": yield a, p
    sig_ev = [(i, c.events[i]) for a, b in spans("signals") for i in range(a, b)]; byte_ev = [(i, c.events[i]) for a, b in spans("bytes") for i in range(a, b)]
    me, mf = g.mk(nm), g.mk(nf); bp = ("idx", g.base, zkey(g.B))
    lastbyte = [i for i, e in byte_ev]; bytepos = min([p for k, p in marks if k == "bytes"], default=None)
    if bytepos is None: ck.true(tag + " the bytes are written", False); return
    # conversion of the physical value
    sets = [(i, e) for i, e in sig_ev if e[0] == "set"]
    if cfg["sf"] and not simple:
        conv_ = [(i, e) for i, e in sets if e[1] == me]
        if len(conv_) != 1: ck.true(tag + " the raw field is computed from the physical field", False, repr(sets)); 
        else:
            i, e = conv_[0]; m = e[2]
            if not isinstance(m, Mac): raise Unsupported("raw field without conversion macro")
            ck.true(tag + " the raw field is computed by the signal's own macro from its physical field", m.f == idk(g.DRV, "_", nm, "_toS") and m.place == mf, repr(m))
            ck.true(tag + " the conversion comes before the bytes are written", i < bytepos)
            for ct in m.casts:
                if ct != TYPES8[t]:
                    a = c.typ(ct)
                    if len(a) == 2 and a[0] < w: ck.true(tag + " the raw value is not cut", False, repr(m))
                    else: raise Unsupported("cast %s of the raw value" % ct)
    else: ck.true(tag + " the raw field is used as it is", not any(e[1] == me for i, e in sets), repr(sets))
    for i, e in sets:
        if e[1] != me: ck.true(tag + " only the signal's own raw field is written", False, repr(e[1]))
    # the byte
    w8 = [(i, e) for i, e in byte_ev if e[0] == "set"]
    for i, e in byte_ev:
        if e[0] != "set": raise Unsupported("event %r in the byte statements" % (e[0],))
        if e[1] != bp: ck.true(tag + " a byte's statement writes only that byte", False, repr(e[1]))
    if empty: ck.true(tag + " no statement for a byte without signals", not w8, repr(w8))
    elif not w8: ck.true(tag + " a byte with signals is written", False, repr(list(texts.values())))
    else:
        old = c.initial.get(bp)
        val = z3.Extract(7, 0, b1 | b2)
        if old is None: ck.true(tag + " the byte's bits are added to its initial value", False, "the initial value is overwritten")
        else: ck.same(tag + " the byte is its initial value OR the signals' bits", c.store[bp] if bp != csm_place(g) or True else None, CV(old.bv | val, 8, False), ())
def csm_place(g): return ("idx", g.base, zkey(g.msg.get("CsmByteNum")))
def tail(prog, kind):
    run, g, outs = body(prog, kind); ex = run.ex; cover = 0; g.B = z3.Int("B"); ex.vb["B"] = (0, 63); rl = ex.load(g.roll).get("LengthBit"); g.msg.get("CsmByteNum")
    for st, T in list(pick_paths(g, outs)):
        for L in range(0, 65):
            ex.state = st.clone(); ex.state.pc.append(zbool(g.noroll) if L == 0 else z3.And(z3.Not(g.noroll), rl == L))
            ex.state.pc.append(g.msg.get("CsmByteNum") < g.dlc)
            TL = rsubst(T, [(rl, z3.IntVal(L or 8)), (g.noroll, z3.BoolVal(L == 0))])
            def one():
                top = expand(ex, TL); d = doc(top); cs = conds(d); cs += g.loop_conds(top, [])
                csm = not ex.decide(g.nocsm)
                kinds = {e.key(): "signals" if ex.proves(Eq(e.hi, g.n)) else "bytes" if ex.proves(Eq(e.hi, g.dlc)) else None for e in top if isinstance(e, Each)}
                if None in kinds.values(): raise Unsupported("range of a loop")
                for cfg in g.configs(cs): tail_cfg(ex, g, d, top, cfg, L, csm, kinds)
            ex.explore(one); cover += 1
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def tail_cfg(ex, g, d, top, cfg, L, csm, kinds):
    ck = g.ck; rs = ex.load(g.roll); cs = ex.load(g.csm); rn, cn = rs.get("Name"), cs.get("Name"); c = start(g, cfg, L, csm)
    tag = "[%s%s%s]" % ("rolling counter of %d bits" % L if L else "no counter", " checksum" if csm else "", "".join(" " + k for k, v in cfg.items() if v))
    marks = []
    c.loop_handler = lambda c, e: marks.append((kinds[e.key()], len(c.events)))
    try: c.run(parse_stmts(tokens_of(g, c, d, cfg)))
    except BadText as b:
        g.definite([s for s in top if not isinstance(s, Each)], b); ck.true(tag + " the statements are C", False, "%s in %r" % (b, g.pick(d, cfg)[-8:])); return
    bytepos = [p for k, p in marks if k == "bytes"]; ev = c.events
    if len(bytepos) < 1: ck.true(tag + " the bytes are written", False); return
    first, last = min(bytepos), max(bytepos)
    fills = [(i, e) for i, e in enumerate(ev) if e[0] == "fill"]
    ck.true(tag + " every payload byte is set to the initial value first", len(fills) == 1 and fills[0][1][1:] == (g.base, 0, "<", ("call", idk((Hole("VALIDATE", (), WORD),)), (("id", idk(g.NAME, "_DLC")),)), ("id", idk((Hole("INITBYTE", (), WORD),)))) and fills[0][0] < first and not any(e[0] == "hash" for e in ev[:fills[0][0]]), repr(fills)[:300])
    allowed = set(); sets = {}
    for i, e in enumerate(ev):
        if e[0] == "set": sets.setdefault(e[1], []).append(i)
    if L and cfg["roll"]:
        p = g.mk(rn); allowed.add(p); w = ro_w(L)
        if p not in sets: ck.true(tag + " the counter is advanced", False)
        else:
            old = c.initial.get(p)
            if old is None: ck.true(tag + " the counter is advanced from its old value", False)
            else: ck.same(tag + " the counter is advanced by one modulo 2^%d" % L, c.store[p], CV((old.bv + 1) & bvc((1 << L) - 1, w), w, False))
            ck.true(tag + " the counter is advanced before the bytes are written", max(sets[p]) < first)
    cp = g.mk(cn); hs = [(i, e) for i, e in enumerate(ev) if e[0] == "hash"]; bp = csm_place(g)
    if csm and cfg["csm"]:
        allowed |= {cp, bp}
        before = [i for i in sets.get(cp, []) if i < first]
        if not before: ck.true(tag + " the checksum field is cleared before the bytes are written", False)
        else: ck.same(tag + " the checksum field is cleared before the bytes are written", ev[before[-1]][2], CV(bvc(0, 8), 8, False))
        if len(hs) != 1: ck.true(tag + " the checksum is computed once", False, str(len(hs)))
        else:
            i, h = hs[0]; hash_args(ex, g, tag, h, g.base); after = [k for k in sets.get(cp, []) if k > i]; bits = sets.get(bp, [])
            ck.true(tag + " the checksum is computed when all the bytes are written", i >= last)
            if not after: ck.true(tag + " the checksum field gets the hash", False)
            else: ck.same(tag + " the checksum field gets the hash", c.store[cp], CV(z3.Extract(7, 0, bv("hash1", 32)), 8, False))
            ck.true(tag + " the checksum bits are placed from the new checksum", len(bits) == 1 and after and bits[0] > max(after) and not any(k in sets.get(cp, []) for k in range(last, i)), repr(bits))
            if len(bits) == 1:
                old = c.initial.get(bp)
                if old is None: ck.true(tag + " the checksum bits are added to their byte", False)
                else: ck.same(tag + " the checksum bits are added to their byte", c.store[bp], CV(old.bv | z3.Extract(7, 0, bv("cx1", 64) | bv("cx2", 64)), 8, False))
    else: ck.true(tag + " no checksum is computed", not hs)
    o = outs_of(g.kind)
    for p, (t, name) in o.items():
        allowed.add(p)
        if p not in c.store or p not in sets: ck.true(tag + " %s is reported" % name, False); continue
        ck.same(tag + " %s is reported" % name, c.store[p], CV(bv(name, 32), 32, False), [z3.ULE(bv("DLC", 32), 64), z3.ULE(bv("IDE", 32), 1)])
    rets = [e for e in ev if e[0] == "ret"]
    ck.true(tag + " returns the message's ID", len(rets) == 1 and rets[0][1] == ("id", idk(g.NAME, "_CANID")), repr(rets))
    ck.true(tag + " nothing else is written or called", set(p for p in sets if not (p[0] == "id" and p[1] in c.locals)) <= allowed and not any(e[0] == "call" for e in ev), repr(set(sets) - allowed))

def units():
    from ..prove import Unit
    return [Unit("WritePack%sBody: signals and bytes" % k, ["C02", "C03", "C07"], [(loops, (k, t)) for t in range(8)], "in every configuration: an arbitrary signal's raw field is computed from its physical field by its own macro before the bytes (only with the option and only if scaled); an arbitrary byte gets exactly its expression's bits") for k in BASES] + \
           [Unit("WritePack%sBody: frame, counter, checksum" % k, ["C02", "C10", "C13", "C14", "C15"], [(tail, (k,))], "in every configuration: initial value of all bytes first, counter advanced modulo 2^L (every L) and checksum cleared before the bytes, checksum computed over the finished bytes and added in its own byte, ID, DLC and IDE reported") for k in BASES]
