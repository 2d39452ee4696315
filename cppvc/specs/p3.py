"""CiMainGenerator::WriteUnpackBody: what the text of every Unpack function does, for any number of signals of any kind, in every
configuration of the condition macros."""
from .gen import *

def body(prog):
    run = Run(prog, timeout=8000); f = run.fn("CiMainGenerator::WriteUnpackBody", 1); run.ex.preload([f.tu])
    g = Gen(run, "WriteUnpackBody"); ex = run.ex
    outs = ex.explore(lambda: ex.call_def(f, [Ptr(g.sgs)], g.this))
    return run, g, outs
def pick_paths(g, outs):
    for st, r in outs:
        g.ex.state = st
        if g.ex.check() == "unsat": continue
        yield st, g.text()
def merge(ex, obls): return summary(ex)

def signals(prog, t):
    """one arbitrary signal J with raw type number t"""
    run, g, outs = body(prog); ex = run.ex; cover = 0
    for st, T in list(pick_paths(g, outs)):
        ex.state = st.clone(); J = g.J; s = g.sig(J)
        ro = s.get("TypeRo"); L = s.get("LengthBit"); w, sg = tro(t)
        for x in ("TypePhys", "Signed", "IsSimpleSig", "IsDoubleSig", "Name", "NameFloat"): s.get(x)
        rl = ex.load(g.roll).get("LengthBit")
        for e in T:
            if isinstance(e, Each) and "roll.LengthBit" in value_names((e,)): raise Unsupported("the text of the signals depends on the rolling counter")
        # precondition: the raw type is the narrowest one of the declared sign (contract of GetSigType)
        ex.state.pc += [z3.And(J >= 0, J < g.n), ro == t, zbool(s.get("Signed")) == sg, L >= 1, L <= w, rl == 8]
        ex.state.pc.append(z3.Not(z3.And(zbool(s.get("IsSimpleSig")), zbool(s.get("IsDoubleSig")))))
        T = rsubst(T, [(rl, z3.IntVal(8))])
        def one():
            top = expand(ex, T); bodies = {}
            for e in top:
                if isinstance(e, Each):
                    if cint(e.lo) != 0 or not ex.proves(Eq(e.hi, g.n)): raise Unsupported("range of the loop over the signals")
                    bodies[e.key()] = expand(ex, rsubst(e.body, [(e.var, J)]))
            d = doc(top); sub = {k: doc(b) for k, b in bodies.items()}
            cs = conds(d)
            for x in sub.values(): cs = conds(x, cs)
            for x in bodies.values():
                for q in x:
                    if isinstance(q, Each): raise Unsupported("loop in a loop")
            simple = ex.decide(s.get("IsSimpleSig")); dbl = not simple and ex.decide(s.get("IsDoubleSig"))
            for cfg in g.configs(cs): signal_cfg(ex, g, d, sub, bodies, cfg, s, t, simple, dbl)
        ex.explore(one); cover += 1
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex, {"hint": {"type": TYPES8[t]}})
def signal_cfg(ex, g, d, sub, bodies, cfg, s, t, simple, dbl):
    w, sg = tro(t); J = g.J; nm = s.get("Name"); nf = s.get("NameFloat"); ck = g.ck
    tag = "[%s %s%s]" % (TYPES8[t], "plain" if simple else "decimal" if dbl else "integer scaled", "".join(" " + k for k, v in cfg.items() if v))
    if not simple and not dbl:
        ph = s.get("TypePhys"); phys = next((i for i in range(8) if ex.proves(Eq(ph, i))), None)
    eh = ex.svec_read(g.val.get("to_signals"), J)[0]
    for ew, es in ((32, True), (32, False), (64, False)):
        c = g.crun(cfg); v1, v2 = bv("e1", ew), bv("e2", ew); l8 = bv("L", 8); v = z3.simplify(z3.ZeroExt(64 - ew, v1 | v2) if ew < 64 else v1 | v2)
        c.chain = {("%chain1", eh.name): CV(v1, ew, es), ("%chain2", eh.name): CV(v2, ew, es)}
        c.members[idk(nm)] = (w, sg); c.numsyms = {zkey(s.get("LengthBit")): CV(l8, 8, False)}
        l64 = z3.ZeroExt(56, l8)
        A = [z3.UGE(l8, 1), z3.ULE(l8, w), z3.Or(l8 == 64, z3.LShR(v, l64) == 0)] + ([v1 >= 0, v2 >= 0] if es else [])
        if not simple: c.members[idk(nf)] = ("real",) if dbl else tro(phys) if phys is not None else None
        if not simple and not dbl and phys is None: raise Unsupported("type of the physical field")
        c.macro = lambda k: isinstance(k[-1], str) and k[-1].endswith(("_fromS", "_toS"))
        inloop = []
        def handler(c, e):
            items = g.pick(sub[e.key()], cfg); toks = hole_chain(code_tokens(items), {eh.key(): eh.name})
            a = len(c.events); c.run(parse_stmts(toks)); inloop.append((a, len(c.events)))
        c.loop_handler = handler
        rl = ex.load(g.roll).get("Name"); cm = ex.load(g.csm).get("Name")
        c.members[idk(rl)] = (8, False); c.members[idk(rl, "_expt")] = (8, False); c.members[idk(cm)] = (8, False)
        c.numsyms[None] = None
        try: c.run(parse_stmts(code_tokens(g.pick(d, cfg))))
        except BadText as b:
            for x in bodies.values(): g.definite(x, b)
            ck.true(tag + " the statements are C", False, str(b)); return
        loopsets = [e for a, b in inloop for e in c.events[a:b]]
        me = g.mk(nm); mf = g.mk(nf)
        if me not in c.store: ck.true(tag + " the raw field is written", False, "events %s" % (loopsets,)); continue
        got = c.store[me]
        if isinstance(got, Mac): ck.true(tag + " the raw field is written", False, repr(got)); continue
        full = z3.BitVecVal((1 << 64) - 1, 64)
        want = z3.If(z3.And(z3.Extract(0, 0, z3.LShR(v, l64 - 1)) == 1, z3.Not(l8 == 64)), v | (full << l64), v) if sg else v
        ck.same(tag + " the raw field holds exactly the signal's value", conv(got, 64, sg), CV(want, 64, sg), A, "%r" % (list(bodies.values()),))
        for e in loopsets:
            if e[0] == "set" and e[1] not in (me, mf): ck.true(tag + " a signal's statements write only its own fields", False, repr(e[1]))
            if e[0] != "set": raise Unsupported("event %r in the signals' statements" % (e[0],))
        if cfg["sf"] and not simple:
            m = c.store.get(mf)
            if m is None: ck.true(tag + " the physical field is computed", False); continue
            if not isinstance(m, Mac): raise Unsupported("physical field without conversion macro")
            ck.true(tag + " the physical field is computed by the signal's own macro", m.f == idk(g.DRV, "_", nm, "_fromS"), repr(m))
            ok = m.place == me and isinstance(m.val, CV) and z3.eq(m.val.bv, got.bv)
            if not ok and m.place == me and isinstance(m.val, CV): ck.same(tag + " the physical field is computed from the new raw value", m.val, got, A)
            else: ck.true(tag + " the physical field is computed from the new raw value", ok, repr(m))
            want_t = "sigfloat_t" if dbl else TYPES8[phys]
            for ct in m.casts:
                if ct != want_t:
                    a, b = c.typ(ct), c.typ(want_t)
                    if dbl and len(a) == 2 or not dbl and len(a) == 2 and a[0] < b[0]: ck.true(tag + " the physical value is not cut", False, repr(m))
                    else: raise Unsupported("cast %s of the physical value" % ct)
        else: ck.true(tag + " no physical field", mf not in c.store, "")

def tail(prog):
    """the statements behind the signals: monitor, rolling counter, checksum, result"""
    run, g, outs = body(prog); ex = run.ex; cover = 0
    rs = ex.load(g.roll); rl = rs.get("LengthBit")
    for st, T in list(pick_paths(g, outs)):
        for L in [0] + list(range(1, 65)):
            ex.state = st.clone(); ex.state.pc.append(zbool(g.noroll) if L == 0 else z3.And(z3.Not(g.noroll), rl == L))
            TL = rsubst(T, [(rl, z3.IntVal(L or 8)), (g.noroll, z3.BoolVal(L == 0))])
            def one():
                top = expand(ex, TL); d = doc(top); cs = conds(d); cs += g.loop_conds(top, [])
                csm = not ex.decide(g.nocsm)
                for cfg in g.configs(cs): tail_cfg(ex, g, d, top, cfg, L, csm)
            ex.explore(one); cover += 1
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def ro_w(L): return 8 if L <= 8 else 16 if L <= 16 else 32 if L <= 32 else 64
def tail_cfg(ex, g, d, top, cfg, L, csm):
    ck = g.ck; c = g.crun(cfg); rs = ex.load(g.roll); cs = ex.load(g.csm); rn, cn = rs.get("Name"), cs.get("Name"); mon = cfg["mon"]
    tag = "[%s%s%s]" % ("rolling counter of %d bits" % L if L else "no counter", " checksum" if csm else "", "".join(" " + k for k, v in cfg.items() if v)); A = []
    if L:
        w = ro_w(L); r = bv("received", w); c.members[idk(rn)] = (w, False); c.members[idk(rn, "_expt")] = (w, False)
        if L < w: A.append(z3.LShR(r, L) == 0)
    if csm: c.members[idk(cn)] = (8, False); x = bv("rxcsm", 8)
    loops = []
    def handler(c, e):
        loops.append(len(c.events))
        if L: c.store[g.mk(rn)] = CV(r, w, False)
        if csm: c.store[g.mk(cn)] = CV(x, 8, False)
    c.loop_handler = handler
    try: c.run(parse_stmts(code_tokens(g.pick(d, cfg))))
    except BadText as b:
        g.definite([s for s in top if not isinstance(s, Each)], b); ck.true(tag + " the statements are C", False, str(b)); return
    if len(loops) < 1: raise Unsupported("no loop over the signals")
    sets = {}
    for i, e in enumerate(c.events):
        if e[0] == "set": sets.setdefault(e[1], []).append(i)
    calls = [i for i, e in enumerate(c.events) if e[0] == "call"]; rets = [e for e in c.events if e[0] == "ret"]
    allowed = set()
    ck.true(tag + " returns the message's ID", len(rets) == 1 and rets[0][1] == ("id", idk(g.NAME, "_CANID")), repr(rets))
    one = lambda b: CV(z3.If(b, bvc(1, 32), bvc(0, 32)), 32, False)
    def flag(f, cond, name):
        p = g.mon(f); allowed.add(p)
        if p not in c.store: ck.true(tag + " " + name, False, "not written"); return
        ck.same(tag + " " + name, c.store[p], one(cond), A)
    if mon:
        flag("dlc_error", z3.ULT(z3.ZeroExt(24, bv("dlc_", 8)), bv("DLC", 32)), "dlc_error is set exactly when the length is below the message's DLC")
        p = g.mon("last_cycle"); allowed.add(p); ck.true(tag + " the current tick is stored", p in c.store and z3.eq(z3.simplify(c.store[p].bv), bv("tick", 32)), repr(c.store.get(p)))
        p = g.mon("frame_cnt"); allowed.add(p)
        if p in c.store and p in c.initial: ck.same(tag + " frame_cnt grows by one", c.store[p], CV(c.initial[p].bv + 1, 32, False), A)
        else: ck.true(tag + " frame_cnt grows by one", False)
        if L and cfg["roll"]:
            e0 = c.initial.get(g.mk(rn, "_expt"))
            if e0 is None: ck.true(tag + " the expected counter value is compared", False)
            else:
                flag("roll_error", r != e0.bv, "roll_error is set exactly when the received counter differs from the expected one")
                p = g.mk(rn, "_expt"); allowed.add(p)
                nxt = (r + 1) & bvc((1 << L) - 1, w)
                if sets.get(p): ck.same(tag + " the next expected counter is received + 1 modulo 2^%d" % L, c.store[p], CV(nxt, w, False), A)
                else: ck.true(tag + " the next expected counter is received + 1", False, "not written")
        if csm and cfg["csm"]:
            hs = [e for e in c.events if e[0] == "hash"]
            if len(hs) != 1: ck.true(tag + " the checksum is computed once", False, str(len(hs)))
            else: 
                hash_args(ex, g, tag, hs[0], ("id", ("_d",)))
                flag("csm_error", z3.Extract(7, 0, bv("hash1", 32)) != x, "csm_error is set exactly when the received checksum differs from the computed hash")
        fm = [c.events[i] for i in calls]
        ck.true(tag + " FMon is called exactly once with the message's own monitor and ID", len(fm) == 1 and fm[0][1] == idk("FMon_", g.NAME, "_", g.drv) and fm[0][2] == (("&", ("arrow", ("id", ("_m",)), ("mon1",))), ("id", idk(g.NAME, "_CANID"))), repr([x[1:3] for x in fm]))
        if len(calls) == 1: ck.true(tag + " FMon is called after all the flags are set", all(i < calls[0] for p in sets for i in sets[p] if p[0] == "dot") and not any(l > calls[0] for l in loops))
    else:
        ck.true(tag + " no monitor function is called", not calls, repr([c.events[i][1] for i in calls]))
    ck.true(tag + " nothing else is written", set(sets) <= allowed, repr(set(sets) - allowed))
def hash_args(ex, g, tag, h, base):
    m = g.msg; want_op = m.get("CsmOp"); ck = g.ck
    ck.true(tag + " GetFrameHash gets the payload, the message's DLC and ID", h[1:4] == (base, ("id", idk(g.NAME, "_DLC")), ("id", idk(g.NAME, "_CANID"))), repr(h[1:4]))
    md = m.get("CsmMethod"); ck.true(tag + " GetFrameHash gets the METHOD of the comment", h[4] == idk(md) or len(md) == 1 and h[4] == ("text", md[0].key()), repr(h[4]))
    if h[5] is None: ck.true(tag + " GetFrameHash gets the OPTION of the comment", False)
    else: ex.oblige(tag + " GetFrameHash gets the OPTION of the comment", Eq(h[5], z3.If(want_op >= (1 << 31), want_op - (1 << 32), want_op)), str(h[5])[:200])

def units():
    from ..prove import Unit
    return [Unit("WriteUnpackBody: signals", ["C01", "C03", "C04", "C07"], [(signals, (t,)) for t in range(8)], "in every configuration the statements of an arbitrary signal store exactly the value of its expression, extended by its sign, in its own raw field and its own macro's result in the physical field, nothing else"),
            Unit("WriteUnpackBody: monitor, counter, checksum", ["C14", "C15", "C22"], [(tail, ())], "in every configuration: dlc_error, tick, frame count, roll_error and expected counter modulo 2^L (every L), csm_error, one FMon call last, return value, nothing else written")]
