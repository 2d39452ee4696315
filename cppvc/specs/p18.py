"""The rest of the driver: Generate (which files are written, from which messages), the monitor's header and source
(Gen_FMonHeader/Source over MonGenerator), the configuration (Gen_ConfigHeader over ConfigGenerator, Gen_DbcCodeConf) and the
monitor's types (Gen_CanMonUtil)."""
from .p16 import *
from ..gentext import Strip
from ..decl import member
from ..ctext import parse_expr
from .p17 import mname, number
import itertools

# ---------------------------------------------------------------- Generate
GENS = {"Gen_MainHeader": None, "Gen_MainSource": None, "Gen_FMonHeader": None, "Gen_FMonSource": "no_fmon", "Gen_ConfigHeader": "no_config", "Gen_DbcCodeConf": "no_config", "Gen_CanMonUtil": "no_inc"}
def generate(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "driver "; f = run.fn("CiMainGenerator::Generate", 2); ex.preload([f.tu])
    n = z3.Int("n"); ex.vb["n"] = (0, KMAX); ex.state.pc.append(z3.And(n >= 0, n <= KMAX)); ex.vb["mid"] = (0, (1 << 32) - 1)
    md = z3.Int("maxdlc"); ex.vb["maxdlc"] = (0, 255); ex.state.pc.append(z3.And(md >= 0, md <= 255))
    mp = ex.new(SVec(n, lambda i: Struct("MessageDescriptor_t", {"MsgID": app("mid", (i,)), "Name": (name_hole("name", (i,)),)}), (), "std::vector<MessageDescriptor_t>", "mpool"), "mpool")
    xp = ex.new(SVec(n, lambda i: Struct("CiExpr_t", {"msg": ex.load(mp.i(i))}), (), "std::vector<CiExpr_t>", "xpool"), "xpool")
    dlv = arb(ex, "DbcMessageList_t", "dl"); dlv.f["msgs"] = SVec(n, lambda i: Ptr(mp.i(i)), (), "std::vector<MessageDescriptor_t*>", "msgs"); dlv.f["maxDlcValue"] = md; dl = ex.new(dlv, "dl")
    fsv = arb(ex, "AppSettings_t", "fd"); g = fsv.get("gen"); flags = {}
    for k in ("no_fmon", "no_config", "no_inc"):
        b = z3.Bool(k); g.f[k] = b; flags[k] = b
    fs = ex.new(fsv, "fd"); rec = {x[0] for x in ex.record("CiMainGenerator")}
    if not {"fdesc", "sigprt", "val_maxDlcValueFromDbcList"} <= rec: raise Unsupported("members of CiMainGenerator")
    def mk(k):
        if k in rec: return rope("OLD_TEXT")
        raise Unsupported("member " + k)
    this = ex.new(Struct("CiMainGenerator", {"fdesc": Ptr(None), "val_maxDlcValueFromDbcList": 0, "fwriter": Struct("FileWriter", {"strm": ()}), "sigprt": Struct("CSigPrinter", {"sigs_expr": Vec((), "std::vector<CiExpr_t*>")})}, mk), "maingen")
    log = ex.new(Vec((), "ghost"), "ghost"); note = lambda **k: ex.store(log, ex.vpush(ex.load(log), Struct("call", k)))
    def loading(ex_, f_, args, th):
        a = args[0]; a = ex.load(a) if isinstance(a, LV) else a
        if not isinstance(a, (SVec, Vec)) or th.key() != this.f("sigprt").key(): raise Unsupported("loading of messages %r" % (a,))
        if isinstance(a, SVec) and a.name != "msgs": raise Unsupported("loading of messages %r" % (a,))
        note(which="load", ok=isinstance(a, SVec) and not a.log and Eq(zint(a.n), n) is True)
        ex.store(th.f("sigs_expr"), SVec(n, lambda i: Ptr(xp.i(i)), (), "std::vector<CiExpr_t*>", "loaded"))
    def rec_(which):
        def c(ex_, f_, args, th):
            v = ex.load(th); note(which=which, list=ex.load(th.f("sigprt").f("sigs_expr")), fdesc=v.get("fdesc"), md=v.get("val_maxDlcValueFromDbcList"))
        return c
    ex.contracts["CSigPrinter::LoadMessages"] = loading
    for k in GENS: ex.contracts["CiMainGenerator::" + k] = rec_(k)
    def one():
        ex.call_def(f, [dl, fs], this); return {k: ex.decide(b) for k, b in flags.items()}
    cover = set()
    for st, fl in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat": continue
        tag = "[%s] " % (" ".join(k for k in fl if fl[k]) or "all files"); cover.add(tuple(fl.values())); calls = ex.load(log)
        if not isinstance(calls, Vec): raise Unsupported("calls of the printing functions")
        seq = [c.get("which") for c in calls.el]
        ex.oblige(tag + "the messages are loaded first, once", seq[:1] == ["load"] and seq.count("load") == 1 and calls.el[0].get("ok"), repr(seq))
        want = sorted(k for k, o in GENS.items() if o is None or not fl[o])
        ex.oblige(tag + "exactly the selected files are written, each once", sorted(x for x in seq if x != "load") == want, repr(seq))
        for c in calls.el:
            w = c.get("which")
            if w == "load": continue
            p = c.get("fdesc"); ex.oblige(tag + "%s uses the given settings" % w, isinstance(p, Ptr) and p.lv is not None and p.lv.key() == fs.key(), repr(p))
            if w == "Gen_MainHeader": ex.oblige(tag + "the DLC limit is the one of the messages", Eq(zint(c.get("md")), md), repr(c.get("md")))
            v = c.get("list")
            if isinstance(v, Vec) and not v.el:
                ex.oblige(tag + "%s sees the loaded messages" % w, simp(n == 0), repr(v)); continue
            if not isinstance(v, SVec): raise Unsupported("list of messages %r" % (v,))
            perm = next((x for x in ex.sorted_info.values() if x[0].name == v.name and Eq(zint(x[0].n), zint(v.n)) is True and x[0].elem is v.elem), None); src = perm[2] if perm else v
            if src.name != "loaded" or src.log or v.log: raise Unsupported("list of messages %r" % (v,))
            ex.oblige(tag + "%s sees all loaded messages" % w, Eq(zint(v.n), n), repr(v))
    if len(cover) != 8: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    return summary(ex)

# ---------------------------------------------------------------- texts
class D(M):
    def __init__(u, prog, what):
        M.__init__(u, prog, what); u.gen.f["usemonofmon_def"] = rope(u.DRV, "_USE_MONO_FMON")
        for k in ("confdir", "incdir"): u.file.get(k)
        for k in ("usesigfloat_def", "usecsm_def"): u.gen.get(k)
        u.ex.prefix = what + " "
    def macros(u):
        return {**M.macros(u), rkey(rope(u.DRV, "_USE_MONO_FMON")): "mono"}
    def read(u, what, path):
        """(whether there are messages, parts: key of a loop or "top" -> doc)"""
        ex = u.ex; T = u.text(what, path)
        if T is None: return None
        some = ex.decide(simp(u.n > 0)); s = Strip(); code, end = s.run(ex.resolve(T)); u.docs = {}; u.some = some
        if end is not None and not isinstance(end, tuple): raise Unsupported("the text ends in a comment")
        ex.oblige("comments end with their line", not s.problems, "; ".join(s.problems)[:200])
        if some: ex.state.pc += [u.J >= 0, u.J < u.n]
        out = []
        for e in expand(ex, code):
            if isinstance(e, Each):
                b = inrange(ex, e, u.J, u.n, some)
                if b is None: continue
                b = expand(ex, b)
                if any(isinstance(x, Each) for x in b): raise Unsupported("loop in a loop")
                u.docs[e.key()] = doc(b)
            out.append((e,))
        u.top = doc(rope(*out)); return True
    def runs(u, what, path, check):
        ex = u.ex; seen = set()
        def one():
            ex.call_def(u.f, [], u.this); return u.read(what, path) and (u.some, u.top, u.docs)
        for st, r in ex.explore(one):
            ex.state = st
            if ex.check() == "unsat" or r is None: continue
            u.some, u.top, u.docs = r; seen.add(u.some)
            try: check()
            except BadText as b: raise Unsupported(str(b))
        if seen != {False, True}: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(seen)))
        return summary(ex)
    def configs(u):
        """(tag, cfg, pieces): pieces are the selected lines with the loops' lines in place: (in a loop, item)"""
        mac = u.macros(); cs = conds(u.top)
        for d in u.docs.values(): cs = conds(d, cs)
        for c in cs:
            if rkey(c) not in mac: raise Unsupported("condition macro %r" % (c,))
        used = [mac[rkey(c)] for c in cs]
        for vals in itertools.product((False, True), repeat=len(used)):
            cfg = dict(zip(used, vals)); pick = lambda d: select(d, lambda c: cfg[mac[rkey(c)]]); out = []
            for x in pick(u.top): out += [x] if not isinstance(x, Loop) else pick(u.docs[x.e.key()])
            yield "[%s]%s " % ("messages" if u.some else "no messages", "".join("+" + k for k in used if cfg[k])), cfg, out
def order(ex, u, tag, inc, what):
    """the include that can define the option comes before the option is asked for"""
    mac = u.macros()
    at = next((i for i, x in enumerate(u.top) if isinstance(x, Directive) and x.name == "include" and rkey(strip_rope(x.rest)) == inc), None)
    use = next((i for i, x in enumerate(u.top) if isinstance(x, If) and mac.get(rkey(x.cond)) in ("mon", "mono")), None)
    ex.oblige(tag + "%s is included before the options are asked for" % what, at is not None and (use is None or at < use), repr(u.top)[:300])
def balanced(ex, tag, toks):
    d = 0; ok = True
    for t in toks:
        if t.k == "op" and t.v in "{}": d += 1 if t.v == "{" else -1; ok = ok and d >= 0
    ex.oblige(tag + "the braces are balanced", ok and d == 0, repr(d))
MONP = [((("FrameMonitor_t",),), 1), ((("uint32_t",),), 0)]
def monfn(u, mono): return idk("_FMon_MONO_", u.gen.get("drvname")) if mono else idk("_FMon_", u.name(u.J), "_", u.gen.get("drvname"))
def known(u):
    return {monfn(u, True): "mono", monfn(u, False): "own"} if u.some else {monfn(u, True): "mono"}
def interface(ex, u, tag, d):
    s = sig(d, u); ex.oblige(tag + "interface of the monitor's function", s[0] == [("void",)] and [p[:2] for p in s[2]] == MONP, repr(s))
def fmon_header(prog):
    u = D(prog, "Gen_FMonHeader"); ex = u.ex; g = u.gen.get
    def check():
        order(ex, u, "[%s] " % ("messages" if u.some else "no messages"), rkey(rope('"', g("drvname"), '-config.h"')), "the configuration")
        for tag, cfg, items in u.configs():
            code, dirs = nonconds(items); toks = code_tokens(code); balanced(ex, tag, toks)
            if cfg.get("cpp"): continue
            inc = includes(dirs); defs = [mname(x) for x in dirs if x.name == "define"]
            if any(x.name not in ("include", "define", "pragma") for x in dirs): raise Unsupported("directives %r" % dirs)
            for k, b, w in defs:
                for vk, v in ((g("verhigh_def"), u.hi), (g("verlow_def"), u.lo)):
                    if k in (idk(vk, "_FMON"), idk(vk)): ex.oblige(tag + "the version in the monitor's header", Eq(number(ex, w).v, v), repr(w))
            ds = declarations(toks)
            if cfg.get("mon"): ex.oblige(tag + "the monitor's types are included", rkey(rope('"canmonitorutil.h"')) in inc, repr(inc))
            elif ds: raise Unsupported("declarations %r" % ds)
            if not cfg.get("mon"): continue
            mono = bool(cfg.get("mono")); proto = []; kn = known(u)
            for d in ds:
                if d.kind != "func" or d.body is not None or d.name not in kn: raise Unsupported("declaration %r" % d)
                proto.append(d.name); interface(ex, u, tag, d)
            F = monfn(u, mono)
            if mono or u.some: ex.oblige(tag + "the monitor's function is declared", F in proto, repr(proto))
            if not u.some: continue
            m = [x for x in defs if x[0] == idk("FMon_", u.name(u.J), "_", g("drvname"))]
            ex.oblige(tag + "the FMon name used by Unpack is defined once, with two arguments", len(m) == 1 and m[0][1] is not None and len(m[0][1]) == 2 and m[0][1][0] != m[0][1][1], repr(m))
            if len(m) != 1 or not m[0][1] or len(m[0][1]) != 2: continue
            n = parse_expr(m[0][2])
            while n.k == "par": n = n.a[0]
            if n.k != "call" or n.a[0].k != "id": raise Unsupported("FMon macro %r" % (n,))
            if idkey(n.a[0].v) not in kn: raise Unsupported("FMon macro calls %r" % (n.a[0],))
            args = []
            for a in n.a[1:]:
                while a.k == "par": a = a.a[0]
                if a.k != "id": raise Unsupported("argument %r" % (a,))
                args.append(idkey(a.v))
            ex.oblige(tag + "FMon calls the monitor's function of its message", idkey(n.a[0].v) == F, repr(n))
            ex.oblige(tag + "FMon hands over the monitor and the ID", args == m[0][1], repr(n))
    return u.runs("monitor's header", u.file.get("fmon_h").get("fpath"), check)
def fmon_source(prog):
    u = D(prog, "Gen_FMonSource"); ex = u.ex
    def check():
        order(ex, u, "[%s] " % ("messages" if u.some else "no messages"), rkey(rope('"', u.file.get("fmon_h").get("fname"), '"')), "the monitor's header")
        for tag, cfg, items in u.configs():
            code, dirs = nonconds(items); toks = code_tokens(code); balanced(ex, tag, toks)
            if cfg.get("cpp"): continue
            if any(x.name not in ("include", "pragma") for x in dirs): raise Unsupported("directives %r" % dirs)
            ds = declarations(toks); kn = known(u); have = []
            for d in ds:
                if d.kind != "func" or d.body is None or d.name not in kn: raise Unsupported("declaration %r" % d)
                have.append(kn[d.name]); interface(ex, u, tag, d)
                for s in parse_stmts(d.body):
                    if s[0] not in ("void", "nop"): raise Unsupported("statement %r" % (s,))
            want = [] if not cfg.get("mon") else ["mono"] if cfg.get("mono") else ["own"] if u.some else []
            if not cfg.get("mon") and have: ex.oblige(tag + "no definitions without monitors", False, repr(have))
            elif cfg.get("mon"): ex.oblige(tag + "the monitor's functions in use have one default definition each", have.count(want[0]) == 1 and all(have.count(k) <= 1 for k in have) if want else have in ([], ["mono"]), repr(have))
    return u.runs("monitor's source", u.file.get("fmon_c").get("fpath"), check)
def text_only(u, what, path):
    """the one text of a function without messages"""
    ex = u.ex; ex.call_def(u.f, [], u.this); T = u.text(what, path)
    if T is None: return None
    s = Strip(); code, end = s.run(ex.resolve(T))
    if end is not None and not isinstance(end, tuple): raise Unsupported("the text ends in a comment")
    ex.oblige("comments end with their line", not s.problems, "; ".join(s.problems)[:200]); return doc(expand(ex, code))
def each(u, what, path, check):
    ex = u.ex; n = 0
    for st, t in ex.explore(lambda: text_only(u, what, path)):
        ex.state = st
        if ex.check() == "unsat" or t is None: continue
        n += 1
        try: check(t)
        except BadText as b: raise Unsupported(str(b))
    if not n: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def config(prog):
    u = D(prog, "Gen_ConfigHeader"); ex = u.ex
    def check(t):
        code, dirs = nonconds(t)
        if any(isinstance(x, If) for x in t) or code_tokens(code): raise Unsupported("text of the configuration")
        ex.oblige("the default configuration selects no option", all(x.name in ("include", "pragma") for x in dirs), repr(dirs))
        ex.oblige("the common configuration is included", rkey(rope('"dbccodeconf.h"')) in includes(dirs), repr(dirs))
    return each(u, "configuration", rope(u.file.get("confdir"), "/", u.gen.get("drvname"), "-config.h"), check)
def codeconf(prog):
    u = D(prog, "Gen_DbcCodeConf"); ex = u.ex
    def check(t):
        code, dirs = nonconds(t)
        if any(isinstance(x, If) for x in t): raise Unsupported("conditions")
        ex.oblige("no macro is defined by default", all(x.name in ("include", "pragma") for x in dirs), repr(dirs))
        toks = code_tokens(code); w = [idkey(x.v) if x.k == "id" else x.v for x in toks]; ty = {}
        for q in " ".join(k[0] if isinstance(k, tuple) and len(k) == 1 else str(k) for k in w).split(";"):
            p = q.split()
            if not p: continue
            if len(p) != 3 or p[0] != "typedef": raise Unsupported("declaration %r" % q)
            ty[p[2]] = p[1]
        b, ub = ty.get("bitext_t"), ty.get("ubitext_t")
        ex.oblige("the sign extension types are defined", b in ("int32_t", "int64_t") and ub == "u%s" % b, repr(ty))
        ex.oblige("the fixed width types are included before", any(rkey(strip_rope(x.rest)) == rkey(rope("<stdint.h>")) for x in dirs), repr(dirs))
    return each(u, "common configuration", rope(u.file.get("confdir"), "/dbccodeconf.h"), check)
def monutil(prog):
    u = D(prog, "Gen_CanMonUtil"); ex = u.ex
    def check(t):
        for c in conds(t):
            if rkey(c) != rkey(rope("__cplusplus")): raise Unsupported("condition macro %r" % (c,))
        for cpp in (True, False):
            code, dirs = nonconds(select(t, lambda c: cpp)); toks = code_tokens(code); balanced(ex, "[c++] " if cpp else "[c] ", toks)
        ex.oblige("the fixed width types are included", rkey(rope("<stdint.h>")) in includes(dirs), repr(dirs)); n = 0
        for d in declarations(toks):
            if d.kind != "struct":
                if d.kind == "other": continue
                raise Unsupported("declaration %r" % d)
            if d.name != ("FrameMonitor_t",): continue
            n += 1; m = member(d.members); names = [x[1] for x in m]; ex.oblige("the members of the monitor differ", len(set(names)) == len(names), repr(names)); by = {x[1]: x for x in m}
            for k in ("last_cycle", "timeout_cycle", "frame_cnt"): ex.oblige("%s is a 32 bit number" % k, by.get((k,), (None,) * 3)[0] == ("uint32_t",) and by[(k,)][2] is None, repr(by.get((k,))))
            for k in ("roll_error", "csm_error", "cycle_error", "dlc_error"):
                x = by.get((k,)); ex.oblige("%s can hold a flag" % k, x is not None and x[0] in (("uint32_t",), ("uint8_t",), ("uint16_t",)) and (x[2] is None or parse_expr([x[2]]).v.v >= 1), repr(x))
        ex.oblige("the monitor's type is defined once", n == 1, repr(n))
    return each(u, "monitor's types", rope(u.file.get("incdir"), "/canmonitorutil.h"), check)
def units():
    from ..prove import Unit
    return [Unit("CiMainGenerator::Generate", ["C19", "C13", "C22", "C21"], [(generate, ())], "the messages are loaded once, every file is written from all of them, and -nofmon, -noconfig, -noinc leave out exactly their files"),
        Unit("CiMainGenerator::Gen_FMonHeader, MonGenerator::FillHeader", ["C22"], [(fmon_header, ())], "every message's FMon name leads to a declared function of the selected kind with the monitor and the ID"),
        Unit("CiMainGenerator::Gen_FMonSource, MonGenerator::FillSource", ["C22"], [(fmon_source, ())], "every FMon function in use has exactly one default definition without effect"),
        Unit("CiMainGenerator::Gen_ConfigHeader, ConfigGenerator::FillHeader", ["C19", "C13", "C22"], [(config, ())], "the configuration's path, no option is selected by default"),
        Unit("CiMainGenerator::Gen_DbcCodeConf", ["C19", "C02"], [(codeconf, ())], "the common configuration's path and default types"),
        Unit("CiMainGenerator::Gen_CanMonUtil", ["C19", "C22"], [(monutil, ())], "the monitor's types and path")]
