"""The driver source (CiMainGenerator::Gen_MainSource): version check, sign extension function, one Unpack and two Pack functions for
every non-empty message (the bodies by their contracts)."""
from .base import *
from ..ctext import *
from ..gentext import code_tokens, doc, conds, select, parse_stmts, Line, Loop, Directive, If, strip_rope, expand, no_comment
from ..crun import idk
from ..decl import declarations, param, wordkey
from ..loops import mentions
from .p9 import version_guard, without, includes, nonconds, FILECLS
from .gen import Checks

class M:
    """the generator with an arbitrary list of messages"""
    def __init__(u, prog, what, np=0, text_fields=()):
        u.run = Run(prog); ex = u.ex = u.run.ex; ex.prefix = what + " "; u.f = u.run.fn("CiMainGenerator::" + what, np); ex.preload([u.f.tu])
        u.n = z3.Int("n"); ex.vb["n"] = (0, KMAX); ex.state.pc.append(z3.And(u.n >= 0, u.n <= KMAX))
        u.msgs = {}
        u.pool = ex.new(SVec(u.n, u.expr, (), "std::vector<CiExpr_t>", "pool"), "pool")
        line = lambda n: rope("// ", Hole(n, (), TEXT & ~cls("\n\\?"), 0, maxlen=400), "\n")
        u.fdv = arb(ex, "AppSettings_t", "fd"); u.gen = u.fdv.get("gen"); u.file = u.fdv.get("file")
        u.gen.f.update(start_common_info=line("common"), start_driver_info=line("driver"))
        for k in ("drvname", "DRVNAME", "DrvName_orig", "verhigh_def", "verlow_def", "usesruct_def", "usemon_def", "usebits_def", "useroll_def", "usecsm_def"): u.gen.get(k)
        for k in ("core_h", "core_c", "fmon_h", "fmon_c"):
            o = u.file.get(k); o.f["fname"] = (Hole(k + ".fname", (), FILECLS, 1, maxlen=300),); o.f["fpath"] = (Hole(k + ".fpath", (), TEXT & ~cls("\n"), 1, maxlen=1000),)
        u.hi, u.lo = u.gen.get("hiver"), u.gen.get("lowver")
        u.fd = ex.new(u.fdv, "fd")
        rec = {x[0] for x in ex.record("CiMainGenerator")}
        if not {"fdesc", "fwriter", "sigprt"} <= rec: raise Unsupported("members of CiMainGenerator")
        u.maxdlc = z3.Int("maxdlc"); ex.vb["maxdlc"] = (0, 255); ex.state.pc.append(z3.And(u.maxdlc >= 0, u.maxdlc <= 64))
        def mk(f):
            if f == "val_maxDlcValueFromDbcList": return u.maxdlc
            if f in rec: return rope("OLD_TEXT")          # (texts kept from an earlier run)
            raise Unsupported("member " + f)
        sp = Struct("CSigPrinter", {"sigs_expr": SVec(u.n, lambda i: Ptr(u.pool.i(i)), (), "std::vector<CiExpr_t*>", "sigs_expr")})
        u.this = ex.new(Struct("CiMainGenerator", {"fdesc": Ptr(u.fd), "fwriter": Struct("FileWriter", {"strm": ()}), "sigprt": sp}, mk), "maingen")
        u.DRV, u.orig = u.gen.get("DRVNAME"), u.gen.get("DrvName_orig"); u.J = z3.Int("J"); ex.vb["J"] = (0, KMAX); u.ck = Checks(ex)
    def expr(u, i): return arb(u.ex, "CiExpr_t", "m", (i,))
    def name(u, i): return (name_hole("m.msg.Name", (i,)),)
    def ne(u, i): return app("m.msg.frameNotEmpty", (i,), "bool")
    def index(u, v):
        """number of the message an argument points to"""
        ex = u.ex; v = ex.load(v) if isinstance(v, LV) else v
        if not isinstance(v, Ptr) or v.lv is None or v.lv.root != u.pool.root or len(v.lv.path) != 1: raise Unsupported("message %r" % (v,))
        return v.lv.path[0][1]
    def text(u, what, want):
        fs = u.ex.state.files
        if not empty_writer(u, "fwriter"): raise Unsupported("text stays in the writer after the file is written")
        if len(fs) != 1: u.ex.oblige("one file is written", False, repr([x[0] for x in fs])); return None
        u.ex.oblige("the %s is written to its path" % what, u.ex.rope_eq(u.ex.as_rope(fs[0][0]), want), repr(fs[0][0])); return fs[0][1]
    def macros(u):
        g = u.gen.get
        return {rkey(g("usemon_def")): "mon", rkey(g("usesruct_def")): "struct", rkey(rope("GetSystemTick")): "tick", rkey(rope("GetFrameHash")): "hash", rkey(rope("__cplusplus")): "cpp",
            rkey(g("usebits_def")): "bits", rkey(g("useroll_def")): "roll"}
def inrange(ex, e, j, n, some):
    """the body of a repetition for element j of a list of n elements; None when the repetition does not reach it (the path is split
    where both are possible).  The counter may run over positions relative to another start, or backwards."""
    if cint(e.lo) == 0 and ex.proves(Eq(e.hi, n)): at = e.var
    else: at = position(e)
    sub = e.var if at is e.var else None
    if sub is None:
        v = e.var; off = simp(at - v)
        if not mentions(off, str(v)): sub = simp(j - off)
        else:
            off = simp(at + v)
            if mentions(off, str(v)): raise Unsupported("range of the loop %s" % (at,))
            sub = simp(off - j)
        if some and not ex.decide(simp(z3.And(zint(e.lo) <= sub, sub < zint(e.hi)))): return None
        if not some and not ex.proves(simp(zint(e.lo) >= zint(e.hi))): raise Unsupported("range of the loop")
    else: sub = j
    return rsubst(e.body, [(e.var, sub)]) if some else None
def position(e):
    """the list index a repetition uses: the innermost index that mentions its counter"""
    from .p15 import holes
    for h in [h for g in e.body if not isinstance(g, Lit) for h in holes(g)]:
        for a in getattr(h, "args", ()):
            if is_sym(a) and mentions(a, str(e.var)): return a
    raise Unsupported("index of the loop")
def sig(d, u):
    """(return type, name, [(type, stars, name)]) without const"""
    c = ("const",); return ([wordkey(t) for t in d.ret if wordkey(t) != c], d.name, [(tuple(w for w in p[0] if w != c), p[1], p[2]) for p in map(param, d.params)])
def want_unpack(u, nm, names=True): 
    p = [((idk(nm, "_t"),), 1, ("_m",)), ((("uint8_t",),), 1, ("_d",)), ((("uint8_t",),), 0, ("dlc_",))]
    return ([("uint32_t",)], idk("Unpack_", nm, "_", u.orig), p)
def want_pack(u, nm, struct):
    p = [((idk(nm, "_t"),), 1, ("_m",))] + ([((("__CoderDbcCanFrame_t__",),), 1, ("cframe",))] if struct else [((("uint8_t",),), 1, (k,)) for k in ("_d", "_len", "_ide")])
    return ([("uint32_t",)], idk("Pack_", nm, "_", u.orig), p)
def ext_sig(u, d, tag):
    """sign extension of a value of 1..w bits, for bitext_t of 32 and 64 bits"""
    ps = [param(q) for q in d.params]; ty = [[w for w in p[0] if w != ("const",)] for p in ps]; ret = [wordkey(t) for t in d.ret if wordkey(t) not in (("static",), ("const",), ("inline",))]
    if len(ps) != 2 or any(p[1] for p in ps) or ret != [("bitext_t",)] or ty != [[("ubitext_t",)], [("uint8_t",)]]: u.ex.oblige(tag + "interface of the sign extension", False, repr(d)); return
    st = parse_stmts([t for t in d.body if wordkey(t) != ("const",)])
    for w in (32, 64):
        for b in range(1, w + 1):
            class E(Eval):
                def name(e, v):
                    if idkey(v) in e.loc: return e.loc[idkey(v)]
                    raise BadText("name %r" % (v,))
            e = E(); e.ext_width = w; v = z3.BitVec("val", w); e.loc = {ps[0][2]: CV(v, w, False), ps[1][2]: CV(bvc(b, 8), 8, False)}; r = None
            for s in st:
                if s[0] == "decl": e.loc[idkey(s[2])] = conv(e.ev(s[3]), *e.typ(s[1]))
                elif s[0] == "expr" and s[1].k == "assign" and s[1].v == "=" and s[1].a[0].k == "id" and idkey(s[1].a[0].v) in e.loc:
                    k = idkey(s[1].a[0].v); o = e.loc[k]; e.loc[k] = conv(e.ev(s[1].a[1]), o.w, o.s)
                elif s[0] == "ret" and s[1] is not None: r = conv(e.ev(s[1]), w, True); break
                elif s[0] == "nop": pass
                else: raise Unsupported("statement %r" % (s,))
            if r is None: raise Unsupported("no value returned")
            want = z3.SignExt(w - b, z3.Extract(b - 1, 0, v)) if b < w else v; A = [z3.LShR(v, b) == 0] if b < w else []
            u.ck.valid(tag + "sign extension of %d bits in %d" % (b, w), z3.And(r.bv == want, z3.Not(z3.Or(*e.ub, z3.BoolVal(False)))), A)
def source(prog):
    u = M(prog, "Gen_MainSource"); ex = u.ex; cover = set()
    def body(kind, pre, post):
        def c(ex_, f, args, this):
            i = u.index(args[0]); fw = this.f("fwriter").f("strm")
            ex.store(fw, rope(ex.load(fw), pre, (Hole("BODY" + kind, (i,), WORD, 1, FIRST, WORD, 500),), post))
        return c
    ex.contracts["CiMainGenerator::WriteUnpackBody"] = body("U", "  ", "();\n"); ex.contracts["CiMainGenerator::WritePackStructBody"] = body("S", "{\n  ", "();\n}\n"); ex.contracts["CiMainGenerator::WritePackArrayBody"] = body("A", "{\n  ", "();\n}\n")
    def one():
        ex.call_def(u.f, [], u.this); some = ex.decide(simp(u.n > 0)); T = u.text("source", u.file.get("core_c").get("fpath"))
        if T is None: return some, None, None, None
        T = expand(ex, T); sub = {}; ne = None
        if some: ex.state.pc += [u.J >= 0, u.J < u.n]; ne = ex.decide(u.ne(u.J))
        for e in T:
            if isinstance(e, Each):
                b = inrange(ex, e, u.J, u.n, some)
                if b is None: continue
                b = expand(ex, b)
                if any(isinstance(x, Each) for x in b): raise Unsupported("loop in a loop")
                sub[e.key()] = b
        return some, rope(*[(e,) for e in T if some or not isinstance(e, Each)]), sub, ne
    for st, (some, T, sub, ne) in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat" or T is None: continue
        cover.add((some, ne))
        try: source_text(u, T, sub, some, ne)
        except BadText as b:
            for s in T:
                if not isinstance(s, (Lit, Hole, Each, Fmt)): raise Unsupported("%s in %r" % (b, s))
            ex.oblige("the source is C", False, str(b))
    if cover != {(False, None), (True, True), (True, False)}: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    return summary(ex)
def source_text(u, T, sub, some, ne):
    ex = u.ex; tag = "[%s] " % ("no messages" if not some else "message with signals" if ne else "message without signals"); t = doc(T); g = u.gen.get
    vs = version_guard(ex, t, (), u.hi, u.lo, g("verhigh_def"), g("verlow_def"), tag)
    if vs is None: return
    at = [i for i, x in enumerate(t) if any(x is v for v in vs)]; pos = [i for i, x in enumerate(t) if isinstance(x, Directive) and x.name == "include" and rkey(x.rest) == rkey(rope('"', u.file.get("core_h").get("fname"), '"'))]
    ex.oblige(tag + "the driver's header is included", bool(pos), repr(t)[:300])
    if pos and at: ex.oblige(tag + "the header is included before the version check", pos[0] < at[0])
    t = without(t, vs); docs = {k: doc(b) for k, b in sub.items()}
    mac = u.macros(); cs = conds(t)
    for d in docs.values(): cs = conds(d, cs)
    for c in cs:
        if rkey(c) not in mac: raise Unsupported("condition macro %r" % (c,))
    used = [mac[rkey(c)] for c in cs]; nm = u.name(u.J)
    import itertools
    for vals in itertools.product((False, True), repeat=len(used)):
        cfg = dict(zip(used, vals))
        if cfg.get("cpp"): continue
        ct = tag + "".join("+" + k for k in used if cfg[k]) + " "
        pick = lambda d: select(d, lambda c: cfg[mac[rkey(c)]])
        code, dirs = nonconds(pick(t)); inc = includes(dirs); fmon = rkey(rope('"', g("drvname"), '-fmon.h"'))
        if cfg.get("mon"): ex.oblige(ct + "the monitor's functions are declared", fmon in inc, repr(dirs))
        for k, m in (("tick", "GetSystemTick"), ("hash", "GetFrameHash")):
            df = [x for x in dirs if x.name == "define" and x.rest and isinstance(x.rest[0], Lit) and x.rest[0].s.split("(")[0].strip() == m]
            ex.oblige(ct + "%s is defined exactly once" % m, len(df) + (1 if cfg.get(k) else 0) == 1, repr(df))
        for x in dirs:
            if x.name not in ("include", "define", "pragma"): raise Unsupported("directive %r" % x)
        seen = []
        for d in declarations(code_tokens(code)):
            if d.kind == "loop":
                ic, id_ = nonconds(pick(docs[d.e.key()]))
                if id_: raise Unsupported("directives %r" % id_)
                for q in declarations(code_tokens(ic)): message_fn(u, q, ct, cfg, nm, seen, ne)
            elif d.kind == "func" and d.body is not None and d.name == ("__ext_sig__",):
                seen.append("ext")
                if not any(vals): ext_sig(u, d, ct)
            elif d.kind == "func": raise Unsupported("function %r" % (d.name,))
            else: raise Unsupported("declaration %r" % d)
        want = (["ext"] if "ext" in seen else []) + (["Unpack", "Pack"] if ne else [])
        ex.oblige(ct + "every message with signals has its Unpack and Pack function, others have none", sorted(seen) == sorted(want) if some else set(seen) <= {"ext"}, repr(seen))
        ex.oblige(ct + "the sign extension is defined first", seen[:1] == ["ext"], repr(seen))
def message_fn(u, q, tag, cfg, nm, seen, ne):
    ex = u.ex
    if q.kind != "func" or q.body is None: raise Unsupported("declaration %r" % q)
    s = sig(q, u); wu = want_unpack(u, nm); wp = want_pack(u, nm, cfg.get("struct"))
    if s[1] == wu[1]: kind, w, b = "Unpack", wu, "U"
    elif s[1] == wp[1]: kind, w, b = "Pack", wp, "S" if cfg.get("struct") else "A"
    else: raise Unsupported("function %r" % (s[1],))
    seen.append(kind); ex.oblige(tag + "interface of %s" % kind, s == w, "%r, want %r" % (s, w))
    st = [x for x in parse_stmts(q.body) if x[0] not in ("nop", "void")]
    hole = Hole("BODY" + b, (u.J,), WORD, 1, FIRST, WORD, 500)
    ok = len(st) == 1 and st[0][0] == "expr" and st[0][1].k == "call" and st[0][1].a[0].k == "id" and idkey(st[0][1].a[0].v) == idk((hole,))
    if not ok and (len(st) != 1 or st[0][0] != "expr"): raise Unsupported("body of %s %r" % (kind, st))
    ex.oblige(tag + "%s has the body of its message" % kind, ok, repr(st))
def units():
    from ..prove import Unit
    return [Unit("CiMainGenerator::Gen_MainSource", ["C01", "C02", "C21", "C22", "C13"], [(source, ())], "for every message list: version check, sign extension for every width, and exactly one Unpack and Pack function (both forms) with the right interface and body for each message with signals")]
