"""The driver header (CiMainGenerator::Gen_MainHeader): version, DLC and initial byte macros, per message the attribute macros, the
conversion macros and value tables of its signals, the struct with one field per signal and the prototypes; message comments stay in
comments.  The fields and the conversion macros come in by the contracts of WriteSigStructField and PrintPhysicalToRaw."""
from .p16 import *
from ..gentext import Strip, tokens
from ..decl import member
from ..ctext import Parser, parse_expr, Eval, CV, bvc, conv
from .p15 import LCLS, BSL, nkey
from .p10 import oblige_q
import itertools, z3

def lines(ex, tag, i, n):
    """an arbitrary text of n+1 lines"""
    def line(k):
        a = (i, k); bs = app(tag + ".bs", a, "bool"); sp = Hole(tag + ".sp", a, SPACE & ~cls("\n\r"), 0, maxlen=TEXTMAX)
        p = Hole(tag + ".p", a, LCLS, 0, maxlen=TEXTMAX); q = Hole(tag + ".q", a, LCLS, 0, last=LCLS & ~SPACE & ~BSL, maxlen=TEXTMAX)
        return rope((Cho(bs, rope((p,), "\\"), (q,)),), (sp,))
    v = z3.Int("%s!l" % tag)
    return rope(line(0), (Each(v, 1, simp(n + 1), rope("\n", line(v))),))
class H(M):
    def expr(u, i):
        ex = u.ex; kx = zkey(simp(zint(i)))
        nr = app("noroll", (i,), "bool"); ri = app("rollidx", (i,)); ns = app("nsig", (i,)); nl = app("ncom", (i,)); has = app("hascom", (i,), "bool")
        for nm, v in (("nsig", ns), ("ncom", nl)): ex.vb[nm] = (0, KMAX); ex.fact(z3.And(v >= 0, v <= KMAX))
        for nm, hi in (("mid", (1 << 29) - 1), ("cyc", (1 << 31) - 1)): ex.vb[nm] = (0, hi); v = app(nm, (i,)); ex.fact(z3.And(v >= 0, v <= hi))
        def pairs(ex_, tag, idx):
            m = app("nval", idx); ex.vb["nval"] = (0, KMAX); ex.fact(z3.And(m >= 0, m <= KMAX))
            def one(p): v = app("valnum", idx + (p,)); ex.vb["valnum"] = (0, (1 << 32) - 1); ex.fact(z3.And(v >= 0, v < (1 << 32))); return pair(v, idx + (p,))
            return SVec(m, one, (), "std::vector<std::pair<std::string, int32_t>>", tag)
        def pair(v, ix): return Struct("pair", {"first": (Hole("valname", ix, WORD, 1, FIRST, WORD, 500),), "second": v})
        ex.vb["rollidx"] = (0, KMAX); ex.fact(z3.And(ri >= 0, z3.Or(nr, ri < ns)))
        pool = u.pool.i(i).f("msg").f("Signals")
        return arb(ex, "CiExpr_t", "m", (i,), {"Signals#": ns, "vpairs": pairs, "MsgID": app("mid", (i,)), "Cycle": app("cyc", (i,)), "RollSig": Ptr(pool.i(ri), nr), "CommentText": lambda ex_, tag, idx: (Cho(has, lines(ex, "com", i, nl), EMPTY),) if len(idx) == 1 else (Hole(tag, idx, TEXT, 0, maxlen=TEXTMAX),)})
    def f_(u, i, k): return u.ex.load(u.pool.i(i).f("msg").f(k))
def header(prog, part):
    u = H(prog, "Gen_MainHeader"); u.part = part; ex = u.ex; cover = set(); u.K, u.P = z3.Ints("K P"); ex.vb["K"] = ex.vb["P"] = (0, KMAX)
    u.pads = 0
    def at(v):
        """(message, signal) an argument points to, None for an object of its own"""
        if isinstance(v, LV) and v.root == u.pool.root:
            p = [b for a, b in v.path if a == "i"]
            if len(p) == 2: return tuple(p)
        return None
    def field(ex_, f, args, this):
        s, bits, pad = args[0], args[1], args[2]; bits = ex.load(bits) if isinstance(bits, LV) else bits; pad = ex.load(pad) if isinstance(pad, LV) else pad
        if not isinstance(s, LV): raise Unsupported("signal of a field")
        g = lambda k: ex.load(s.f(k)); u.pads += 1
        n = ex.rlen(g("Name")); padded(ex, u, pad, n, s, at)
        if cint(bits) is None and not isinstance(bits, bool): raise Unsupported("bit field switch")
        fw = this.f("fwriter").f("strm")
        key = (g("TypeRo"), g("LengthBit")); com = g("CommentText")
        ty = rope("FIELDBITS_" if (cint(bits) if not isinstance(bits, bool) else bits) else "FIELDRAW_", (Hole("ft", tuple(zint(x) for x in key), WORD, 1, WORD, WORD, 40),))
        ex.store(fw, rope(ex.load(fw), "  ", ty, " ", g("Name"), ";\n"))
    def macros(ex_, f, args, this):
        p = args[0]; p = ex.load(p) if isinstance(p, LV) else p
        if not isinstance(p, Ptr) or p.lv is None or at(p.lv) is None: raise Unsupported("signal of the conversion macros")
        d = args[1]; d = ex.load(d) if isinstance(d, LV) else d
        ex.oblige("the conversion macros carry the driver's name", ex.rope_eq(ex.as_rope(d), u.DRV), repr(d))
        i, j = at(p.lv); return rope("#define MACROS_", (Hole("m.msg.Signals[].Name", (i, j), WORD, 1, FIRST, WORD, 500),), "\n")
    ex.contracts["CiMainGenerator::WriteSigStructField"] = field; ex.contracts["CSigPrinter::PrintPhysicalToRaw"] = macros
    run = [st for st, _ in ex.explore(lambda: ex.call_def(u.f, [], u.this))]; n = 0
    for base in run:
        ex.state = base
        if ex.check() == "unsat": continue
        n += 1; ex.state = base.clone()
        def one():
            T = u.text("header", u.file.get("core_h").get("fpath")); some = ex.decide(simp(u.n > 0))
            if T is None: return None
            u.T = T; return split(ex, u, T, some)
        for st, r in ex.explore(one):
            ex.state = st
            if ex.check() == "unsat" or r is None: continue
            try: cover.add(r.check())
            except BadText as b:
                r.definite(b); ex.oblige("the header is C", False, str(b))
    if not n: raise Unsupported("no run of the function")
    want = {"empty": [(False, None, False, False), (True, False, False, False)]}.get(part, [(True, True, True, True), (True, True, True, False)] + ([(True, True, False, False)] if part == "counterless" else []))
    for w in want: ex.oblige("the case is reached", w in cover, repr(w))
    if part == "empty": invariant(ex, u)
    return summary(ex)
def padded(ex, u, pad, n, s, at): 
    ex.oblige("the width is not smaller than the name", simp(zint(pad) >= zint(n)), "%s >= %s" % (pad, n))
class Case:
    def __init__(c, u, T): c.u = u; c.top = T; c.docs = {}; c.level = {}; c.some = False; c.order = []
    def definite(c, b):
        def go(r):
            for s in r:
                if isinstance(s, Each): continue
                if not isinstance(s, (Lit, Hole, Fmt)): raise Unsupported("%s in %r" % (b, s))
        go(c.top)
    def check(c): return check(c.u, c)
def split(ex, u, T, some):
    c = Case(u, None); s = Strip(); code, end = s.run(ex.resolve(T)); c.problems = s.problems; c.inside = s.inside; c.some = some
    if end is not None: raise Unsupported("the text does not end with a line")
    if some: ex.state.pc += [u.J >= 0, u.J < u.n]; c.ne = ex.decide(u.ne(u.J)); c.com = ex.decide(app("hascom", (u.J,), "bool"))
    else: c.ne = c.com = None
    if (u.part == "empty") != (not c.ne): return None
    sg = None; c.sig = c.val = False
    if some and c.ne:
        c.sig = ex.decide(simp(app("nsig", (u.J,)) > 0)); c.roll = not ex.decide(app("noroll", (u.J,), "bool"))
        if c.roll != (u.part == "rolling"): return None
        c.cyc = ex.decide(simp(u.f_(u.J, "Cycle") > 0))
        if c.sig:
            ex.state.pc += [u.K >= 0, u.K < app("nsig", (u.J,))]; sg = u.pool.i(u.J).f("msg").f("Signals").i(u.K); c.simple = ex.decide(ex.load(sg.f("IsSimpleSig")))
            c.nval = ex.vsize(ex.load(sg.f("ValDefs").f("vpairs"))); c.val = ex.decide(simp(zint(c.nval) > 0))
            if c.val: ex.state.pc += [u.P >= 0, u.P < zint(c.nval)]
    elif some: c.roll = False; c.cyc = ex.decide(simp(u.f_(u.J, "Cycle") > 0))
    c.sg = sg
    def go(r, level):
        out = []
        for e in expand(ex, r):
            if isinstance(e, Each):
                n = [u.n, app("nsig", (u.J,)), c.nval if c.val else None][level] if level < 3 else None
                if n is None or level == 1 and not c.sig or level == 0 and not some:
                    # nothing is repeated: the range has to be empty
                    if level == 0 or level == 1: lim = [u.n, app("nsig", (u.J,))][level]
                    elif level == 2 and sg is not None: lim = c.nval
                    else: raise Unsupported("loop in a loop")
                    if cint(e.lo) != 0 or not ex.proves(Eq(e.hi, lim)): raise Unsupported("range of a loop")
                    continue
                b = inrange(ex, e, [u.J, u.K, u.P][level], n, True)
                if b is None: continue
                b = go(b, level + 1)
                k = ("L", len(c.docs)); c.docs[e.key()] = doc(b); c.level[e.key()] = level
            out.append((e,))
        return rope(*out)
    c.top = go(code, 0); return c
def function_like(r):
    """a parenthesis right behind the macro's name"""
    for g in strip_rope(r):
        if isinstance(g, Lit):
            for c in g.s:
                if not (c.isalnum() or c == "_"): return c == "("
        elif seg_cls(g) & ~WORD: raise Unsupported("macro name %r" % (r,))
    return False
def mname(d):
    """name, parameters and body tokens of a #define"""
    tk = tokens(d.rest)
    if not tk or tk[0].k != "id": raise BadText("macro name in %r" % (d,))
    par = None; body = tk[1:]
    if function_like(d.rest):
        i = next((i for i, x in enumerate(body) if x.k == "op" and x.v == ")"), None)
        if i is None: raise BadText("parameters of %r" % (d,))
        par = [idkey(x.v) for x in body[1:i] if x.k == "id"]; body = body[i+1:]
    return idkey(tk[0].v), par, body
def number(ex, body):
    n = parse_expr(body)
    while n.k == "par": n = n.a[0]
    if n.k != "num": raise Unsupported("value %r" % (n,))
    return n.v
def check(u, c):
    ex = u.ex; ck = lambda cond, name, detail="": ex.oblige(tag + name, cond, detail)
    tag = "[%s] " % ("no messages" if not c.some else "message without signals" if not c.ne else "message" + ("" if c.sig else " with empty list") + (" rolling" if c.roll else "") + (" cycle" if c.cyc else "") + (", " + ("plain" if c.simple else "scaled") + (" with values" if c.val else "") if c.sig else ""))
    ck(not c.problems, "the text of message comments stays inside of comments", "; ".join(c.problems)[:300])
    if c.problems: return None
    free = [h for h in _holes(c) if isinstance(h, Hole) and h.name.split(".")[0] == "com"]
    ck(not free, "no comment text outside of comments", repr(free))
    names = {g.name for g in c.inside if isinstance(g, Hole)}
    ck({"com.p", "com.q"} <= names, "message comments are printed", repr(sorted(names)))
    g = u.gen.get; M_ = u.macros(); MAXD = idk(u.DRV, "_MAX_DLC_VALUE"); INI = idk(u.DRV, "_INITIAL_BYTE_VALUE"); vkey = None; nm = u.name(u.J) if c.some else None
    mac = dict(M_); mac[rkey(rope(u.DRV, "_MAX_DLC_VALUE"))] = "max"; mac[rkey(rope(u.DRV, "_INITIAL_BYTE_VALUE"))] = "init"
    if c.val:
        first = ex.svec_read(ex.load(c.sg.f("ValDefs").f("vpairs")), u.P); vn = rope(ex.load(c.sg.f("Name")), "_", nm, "_", first.get("first")); mac[rkey(vn)] = "val"
    t = doc(c.top); cs = conds(t)
    for d in c.docs.values(): cs = conds(d, cs)
    for x in cs:
        if rkey(x) not in mac: raise Unsupported("condition macro %r" % (x,))
    used = [mac[rkey(x)] for x in cs]
    this = ex.load(u.this); macs = {"VALIDATE": this.get("prt_dlcValidateMacroName"), "INIT": this.get("prt_initialDataByteValueName")}
    for vals in itertools.product((False, True), repeat=len(used)):
        cfg = dict(zip(used, vals))
        if sum(cfg.get(k, False) for k in ("cpp", "max", "init", "val")) > 1 or cfg.get("cpp") and any(vals[i] for i, k in enumerate(used) if k != "cpp"): continue
        tag0 = tag; tag = tag0 + "".join("+" + k for k in used if cfg[k]) + " "
        try: config(u, c, t, mac, cfg, ck, nm, MAXD, INI, macs)
        finally: tag = tag0
    return (c.some, c.ne, c.sig, c.val)
def _holes(c):
    from .p15 import holes
    return [h for g in c.top if not isinstance(g, Lit) for h in holes(g)]
def config(u, c, t, mac, cfg, ck, nm, MAXD, INI, macs):
    ex = u.ex; g = u.gen.get; pick = lambda d: select(d, lambda x: cfg[mac[rkey(x)]])
    parts = {"top": t, **{k: d for k, d in c.docs.items()}}; sel = {k: nonconds(pick(d)) for k, d in parts.items()}
    used = set()
    def defs(dirs):
        out = []
        for x in dirs:
            if x.name == "define": out.append(mname(x))
            elif x.name not in ("include", "pragma"): raise Unsupported("directive %r" % x)
        return out
    # ---- the head of the file
    code, dirs = sel["top"]; D = defs(dirs)
    def one(key, value, what):
        m = [d for d in D if d[0] == key]
        ck(len(m) == 1 and m[0][1] is None, "%s is defined once" % what, repr(m))
        if len(m) == 1: v = number(ex, m[0][2]); ck(Eq(v.v, value), "value of %s" % what, "%r want %s" % (v, value))
    one(idk(g("verhigh_def")), u.hi, "the major version macro"); one(idk(g("verlow_def")), u.lo, "the minor version macro")
    if not cfg.get("max"): one(MAXD, u.maxdlc, "the max DLC macro")
    if not cfg.get("init"): one(idk(macs["INIT"]), 0, "the initial byte macro used by Pack")
    else: ck(idk(macs["INIT"]) == INI, "the initial byte macro used by Pack is the configurable one", repr(macs["INIT"]))
    m = [d for d in D if d[0] == idk(macs["VALIDATE"])]
    ck(len(m) == 1 and m[0][1] is not None and len(m[0][1]) == 1, "the DLC check used by Pack is defined", repr(m))
    if len(m) == 1 and m[0][1] and len(m[0][1]) == 1:
        x, y = z3.BitVecs("msgDlc maxDlc", 32)
        class E(Eval):
            def name(e, v):
                if idkey(v) == m[0][1][0]: return CV(x, 32, False)
                if idkey(v) == MAXD: return CV(y, 32, False)
                raise BadText("name %r" % (v,))
        p = Parser(m[0][2]); n = p.ternary()
        if p.peek().k != "end": raise Unsupported("DLC check")
        r = conv(E().ev(n), 32, False).bv; u.ck.valid("the DLC check gives the smaller one of the message's DLC and the maximum", r == z3.If(z3.ULE(x, y), x, y))
    inc = includes(dirs); ck(rkey(rope('"', g("drvname"), '-config.h"')) in inc, "the driver's configuration is included", repr(inc))
    if cfg.get("mon"): ck(rkey(rope('"canmonitorutil.h"')) in inc, "the monitor's types are included", repr(inc))
    if cfg.get("cpp"): return
    pos = next((i for i, x in enumerate(dirs) if x.name == "include" and rkey(strip_rope(x.rest)) == rkey(rope('"', g("drvname"), '-config.h"'))), None); dm = next((i for i, x in enumerate(dirs) if x.name == "define" and mname(x)[0] == MAXD), None)
    if pos is not None and dm is not None: ck(pos < dm, "the configuration comes before the default DLC limit")
    seq = []      # what is declared, in order
    for d in declarations(code_tokens(code)):
        if d.kind != "loop": raise Unsupported("declaration %r" % d)
        message(u, c, d.e, sel, cfg, ck, nm, defs, seq)
    if not c.some: ck(not seq, "nothing is declared without messages", repr(seq)); return
    want = (["struct", "Unpack", "Pack"] if c.ne else [])
    ck(sorted(x for x in seq if x != "consts") == sorted(want), "a message with signals has its struct and prototypes, others have none", repr(seq)); ck(seq.count("consts") == 1, "every message has its constants", repr(seq))
    if "struct" in seq and "Unpack" in seq: ck(seq.index("struct") < min(seq.index("Unpack"), seq.index("Pack") if "Pack" in seq else 99), "the struct is declared before its use", repr(seq))
def message(u, c, e, sel, cfg, ck, nm, defs, seq):
    ex = u.ex; code, dirs = sel[e.key()]; D = defs(dirs); fld = lambda k: u.f_(u.J, k)
    want = {idk(nm, "_IDE"): ("frame type", fld("IsExt")), idk(nm, "_DLC"): ("DLC", fld("DLC")), idk(nm, "_CANID"): ("ID", fld("MsgID"))}
    if c.cyc: want[idk(nm, "_CYC")] = ("cycle time", fld("Cycle"))
    have = {}
    for k, par, body in D:
        if par is not None: raise Unsupported("macro %r" % (k,))
        if k not in want:
            if k == idk(nm, "_CYC"): ck(False, "no cycle time macro without cycle time", repr(k)); continue
            raise Unsupported("macro %r" % (k,))
        have[k] = have.get(k, 0) + 1; v = number(ex, body); w = want[k][1]; w = simp(z3.If(w, 1, 0)) if is_sym(w) and z3.is_bool(w) else w
        ck(Eq(v.v, w), "%s of the message" % want[k][0], "%r, want %s" % (v, w))
    if have or not any(x == "consts" for x in seq) and any(True for x in dirs):
        for k, w in want.items(): ck(have.get(k, 0) == 1, "%s macro of the message" % w[0], repr(sorted(have)))
        seq.append("consts")
    for d in declarations(code_tokens(code)):
        if d.kind == "loop": signals_head(u, c, d.e, sel, cfg, ck, nm, defs)
        elif d.kind == "struct":
            ck(d.name == idk(nm, "_t"), "name of the struct", repr(d.name)); seq.append("struct"); fields(u, c, d, sel, cfg, ck, nm)
        elif d.kind == "func" and d.body is None:
            s = sig(d, u); wu, wp = want_unpack(u, nm), want_pack(u, nm, cfg.get("struct"))
            kind, w = ("Unpack", wu) if s[1] == wu[1] else ("Pack", wp) if s[1] == wp[1] else (None, None)
            if kind is None: raise Unsupported("function %r" % (s[1],))
            strip = lambda q: (q[0], q[1], [p[:2] for p in q[2]])
            ck(strip(s) == strip(w), "prototype of %s" % kind, "%r, want %r" % (s, w)); seq.append(kind)
        else: raise Unsupported("declaration %r" % d)
def ftype(u, lv, bits):
    return idk("FIELDBITS_" if bits else "FIELDRAW_", (Hole("ft", tuple(zint(u.ex.load(lv.f(k))) for k in ("TypeRo", "LengthBit")), WORD, 1, WORD, WORD, 40),))
def fields(u, c, d, sel, cfg, ck, nm):
    ex = u.ex; m = member(d.members); loops = [x[1] for x in m if x[0] == "loop"]; rest = [x for x in m if x[0] != "loop"]; bits = bool(cfg.get("bits"))
    if c.sig:
        ck(len(loops) == 1, "the struct lists its signals once", repr(m)[:300])
        for e in loops:
            code, dirs = sel[e.key()]
            if dirs: raise Unsupported("directives %r" % dirs)
            f = member(code_tokens(code)); w = [(ftype(u, c.sg, bits), nkey_id(ex.load(c.sg.f("Name"))), None)]
            ck(f == w, "every signal has its field", "%r, want %r" % (f, w))
    w = []
    if c.roll and cfg.get("roll"):
        r = u.pool.i(u.J).f("msg").f("Signals").i(app("rollidx", (u.J,))); w.append((ftype(u, r, bits), idk(ex.load(r.f("Name")), "_expt"), None))
    if cfg.get("mon"): w.append((("FrameMonitor_t",), ("mon1",), None))
    ck(sorted(map(repr, rest)) == sorted(map(repr, w)), "the other fields are the expected counter value and the monitor", "%r, want %r" % (rest, w))
def nkey_id(r): return idk(r)
def signals_head(u, c, e, sel, cfg, ck, nm, defs):
    ex = u.ex; code, dirs = sel[e.key()]; D = defs(dirs); name = ex.load(c.sg.f("Name"))
    mk = [d for d in D if d[0] == idk("MACROS_", name)]
    if len(mk) != len(D): raise Unsupported("macros %r" % (D,))
    ck(len(mk) <= (0 if c.simple else 1), "conversion macros for scaled signals only, once", repr(D))
    n = 0
    for d in declarations(code_tokens(code)):
        if d.kind != "loop": raise Unsupported("declaration %r" % d)
        vc, vd = sel[d.e.key()]; VD = defs(vd); n += 1
        if code_tokens(vc): raise Unsupported("text of value tables")
        p = ex.svec_read(ex.load(c.sg.f("ValDefs").f("vpairs")), u.P); key = idk(name, "_", nm, "_", p.get("first"))
        if cfg.get("val"): ck(not VD, "a value of an already used name is not defined again", repr(VD)); continue
        ck(len(VD) == 1 and VD[0][0] == key and VD[0][1] is None, "every value of the table gets its macro", "%r, want %r" % (VD, key))
        if len(VD) == 1: v = number(ex, VD[0][2]); w = p.get("second"); ck(Eq(v.v, simp(z3.If(zint(w) >= 1 << 31, zint(w) - (1 << 32), zint(w)))), "value of the value table's macro", "%r" % (v,))
    ck(n == (1 if c.val else 0), "the value table is printed", "%d" % n)
def settle(ex, name, claim, detail):
    if isinstance(claim, bool) or ex.proves(claim): ex.oblige(name, claim, detail)
    else: oblige_q(ex, name, claim)
def invariant(ex, u):
    """scaled signals: the macros of a name are printed exactly when the name is put into the set of printed names; a scaled signal
    without macros has its name in the set"""
    seen = set(); n = 0
    for cap in ex.loops:
        for loc, cl in cap["classes"].items():
            if cl[0] != "set": continue
            inf = cap["info"][loc]; base = len(inf["v0"].data) + 1
            for s, o in cap["normal"]:
                v = ex._get(s.store[loc[0]], loc[1]); new = v.data[base:]; names = [x for x in new if not (isinstance(x, tuple) and x and x[0] == "unknown")]
                if any(isinstance(x, tuple) and x and x[0] == "unknown" for x in new):
                    if names: raise Unsupported("set of names %r" % (new,))
                    continue
                if len(inf["mark"][2]) != 2: continue        # the trial run of the outer loop's first iteration
                tl = [l for l in cap["classes"] if l[0] == u.this.root and l[1] and l[1][-1][1] == "strm"]
                if len(tl) != 1: raise Unsupported("text of the loop")
                t = ex._get(s.store[tl[0][0]], tl[0][1]); mh = []
                def find(r, c):
                    for a, b in zip(r, r[1:]):
                        if isinstance(a, Lit) and a.s.endswith("#define MACROS_"): mh.append((c, rkey((b,))))
                    for g in r:
                        if isinstance(g, Cho): find(g.a, And(c, g.cond)); find(g.b, And(c, Not(g.cond)))
                find(t, True); n += 1; ex.state = s.clone()
                if ex.check() == "unsat": continue
                sg = u.pool.i(inf["mark"][2][1]).f("msg").f("Signals").i(cap["k"]); nm = ex.load(sg.f("Name")); ks = {rkey(x) for x in names} | {x for _, x in mh}
                for k in ks:
                    pr = False
                    for c, x in mh:
                        if x == k: pr = Or(pr, c)
                    ins = k in {rkey(x) for x in names}
                    settle(ex, "the name goes into the set exactly when its macros are printed", pr if ins else Not(pr), "%r %r" % (mh, names))
                pr = False
                for c, x in mh: pr = Or(pr, c)
                settle(ex, "a scaled signal without macros has its name in the set of printed names", Or(ex.load(sg.f("IsSimpleSig")), pr, ex.set_has(v, nm)), repr(mh))
    if not n: raise Unsupported("no set of printed names")
def units():
    from ..prove import Unit
    return [Unit("CiMainGenerator::Gen_MainHeader", ["C02", "C05", "C10", "C13", "C20", "C21", "C12", "C07"], [(header, (p,)) for p in ("empty", "rolling", "counterless")], "version, DLC and initial byte macros; per message its macros, conversion macros, value tables, struct and prototypes")]
