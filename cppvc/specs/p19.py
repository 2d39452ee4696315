"""The output's names and places (FsCreator): Configure computes every path and macro name, PrepareDirectory selects the directory."""
from .base import *
from ..lib import Fun
LIBD = {"libdir": "/lib", "usrdir": "/usr", "incdir": "/inc", "confdir": "/conf", "utildir": "/butl"}
FILES = {"core_h": ("libdir", ".h"), "core_c": ("libdir", ".c"), "util_h": ("utildir", "-binutil.h"), "util_c": ("utildir", "-binutil.c"), "fmon_h": ("libdir", "-fmon.h"), "fmon_c": ("usrdir", "-fmon.c")}
MACROS = {"usebits_def": "%s_USE_BITS_SIGNAL", "usemon_def": "%s_USE_DIAG_MONITORS", "usemonofmon_def": "%s_USE_MONO_FMON", "usesigfloat_def": "%s_USE_SIGFLOAT", "usesruct_def": "%s_USE_CANSTRUCT", "useroll_def": "%s_AUTO_ROLL", "usecsm_def": "%s_AUTO_CSM", "verhigh_def": "VER_%s_MAJ", "verlow_def": "VER_%s_MIN"}
PATHCLS = TEXT & ~cls("\n")
def fs(ex): return ex.new(Struct("FsCreator", {"FS": arb(ex, "AppSettings_t", "FS")}), "fs")
def configure(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "Configure "; f = run.fn("FsCreator::Configure", 6); ex.preload([f.tu]); n = 0
    drv = (name_hole("drv"),); out = (Hole("out", (), PATHCLS, 1, maxlen=3000),); ci = (Hole("ci", (), TEXT, 0, maxlen=TEXTMAX),); di = (Hole("di", (), TEXT, 0, maxlen=TEXTMAX),)
    hi, lo = z3.Ints("hi lo"); this = fs(ex)
    for x in (hi, lo): ex.vb[str(x)] = (0, (1 << 32) - 1); ex.state.pc.append(z3.And(x >= 0, x < (1 << 32)))
    args = [ex.new(x, t) for x, t in ((drv, "drv"), (out, "out"), (ci, "ci"), (di, "di"))] + [hi, lo]
    for st, r in ex.explore(lambda: ex.call_def(f, args, this)):
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1; v = ex.load(this).get("FS"); low = (Fun("lower", drv, WORD, 1),); up = (Fun("upper", drv, WORD, 1),)
        def same(what, a, b): ex.oblige(what, ex.rope_eq(ex.as_rope(a), b), "%r, want %r" % (a, b))
        fl, g = v.get("file"), v.get("gen")
        same("original driver name", g.get("DrvName_orig"), drv); same("lower case driver name", g.get("drvname"), low); same("upper case driver name", g.get("DRVNAME"), up)
        for k, d in LIBD.items(): same(k, fl.get(k), rope(out, d))
        for k, (d, s) in FILES.items():
            same("file name " + k, fl.get(k).get("fname"), rope(low, s)); same("path of " + k, fl.get(k).get("fpath"), rope(out, LIBD[d], "/", low, s))
        same("base directory", fl.get("core_h").get("dir"), out)
        for k, m in MACROS.items(): a, b = m.split("%s"); same("macro name " + k, g.get(k), rope(a, up, b))
        same("driver comment", g.get("start_driver_info"), di); same("common comment", g.get("start_common_info"), ci)
        ex.oblige("version", And(Eq(g.get("hiver"), hi), Eq(g.get("lowver"), lo)), "%s %s" % (g.get("hiver"), g.get("lowver")))
    if not n: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
# ---------------------------------------------------------------- PrepareDirectory
class World:
    """the directory tree: every name below the base directory is taken or not, every creation can fail"""
    def __init__(w, ex, base): w.ex = ex; w.base = base; w.log = ex.new(Vec((), "ghost"), "ghost")
    def path(w, v):
        ex = w.ex; v = ex.load(v) if isinstance(v, LV) else v
        return ex.as_rope(v) if is_rope(v) else ex.cstring(v)
    def place(w, r):
        """("base",), ("num", d) for base/ddd, ("sub", which, place) for the directories of the output"""
        ex = w.ex; r = ex.resolve(r)
        if rkey(r) in w.subs: return ("sub",) + w.subs[rkey(r)]
        if not r or not isinstance(r[0], Hole) or r[0].key() != w.base[0].key(): raise Unsupported("path %r" % (r,))
        if len(r) == 1: return ("base",)
        t = r[1:]; d = None
        if isinstance(t[-1], Lit) and t[-1].s[-3:].isdigit(): d = int(t[-1].s[-3:]); t = rope(*[(x,) for x in t[:-1]], t[-1].s[:-3])
        elif isinstance(t[-1], Fmt) and t[-1].spec in ("03d", "03u"): d = t[-1].val; t = rope(*[(x,) for x in t[:-1]])
        elif isinstance(t[-1], Fmt) and t[-1].spec in ("d", "u", "02d", "02u", "04d", "04u", "2d", "3d"): d = t[-1].val; t = rope(*[(x,) for x in t[:-1]]); ex.oblige("the directory is named by three digits", False, repr(r))
        if d is None: raise Unsupported("path %r" % (r,))
        if not t: ex.oblige("a separator is left out only behind a separator", simp(zint(ex.char_back(w.base)) == 47)); return ("num", d)
        if not (rkey(t) == rkey(rope("/")) or len(t) == 1 and isinstance(t[0], Cho)): raise Unsupported("path %r" % (r,))
        if isinstance(t[0], Cho):
            if {rkey(t[0].a), rkey(t[0].b)} != {rkey(rope("/")), rkey(EMPTY)}: raise Unsupported("path %r" % (r,))
            # without a separator only when the base directory ends with one
            c = t[0].cond if rkey(t[0].a) == rkey(EMPTY) else Not(t[0].cond); ex.oblige("a separator is left out only behind a separator", simp(z3.Implies(zbool(c), zint(ex.char_back(w.base)) == 47)))
        return ("num", d)
    def key(w, p): return -1 if p[0] == "base" else p[1]
def prepare(prog, rw):
    run = Run(prog); ex = run.ex; ex.prefix = "PrepareDirectory%s " % (" -rw" if rw else ""); f = run.fn("FsCreator::PrepareDirectory", 1); ex.preload([f.tu])
    base = (Hole("base", (), PATHCLS, 1, maxlen=900),); this = fs(ex); S = ex.load(this).get("FS"); S.get("file").get("core_h").f["dir"] = base; w = World(ex, base)
    w.subs = {rkey(S.get("file").get(k)): (k, "old") for k in LIBD}
    for k in ("DrvName_orig", "start_common_info", "start_driver_info", "hiver", "lowver"): S.get("gen").get(k)
    ex.vb["st"] = (-1, 0); K = z3.Int("K"); ex.vb["K"] = (0, 999)
    def st(d): v = app("st", (d,)); ex.fact(z3.And(v >= -1, v <= 0)); return v
    def stat(ex, argn, n=None):
        d = w.key(w.place(w.path(ex.val(argn[0])))); p = ex.val(argn[1]); v = app("mode", (d,)); ex.vb["mode"] = (0, (1 << 32) - 1); ex.fact(z3.And(v >= 0, v < (1 << 32)))
        if isinstance(p, Ptr) and p.lv is not None: ex.store(p.lv, Struct("stat", {"st_mode": v}))
        return st(d)
    def note(**k): ex.store(w.log, ex.vpush(ex.load(w.log), Struct("event", k)))
    def mk(ex, argn, n=None):
        p = w.place(w.path(ex.val(argn[0])))
        if p[0] == "sub": note(what="sub", k=p[1], d=p[2]); return app("mksub", (sorted(LIBD).index(p[1]),), "bool")
        return app("mk", (w.key(p),), "bool")
    def conf(ex, f_, args, th):
        a = [ex.load(x) if isinstance(x, LV) else x for x in args]; r = ex.resolve(ex.as_rope(a[1])); p = w.place(r); note(what="configure", args=a, d=p)
        for k, x in LIBD.items():
            n = (Hole("new." + k, (), PATHCLS, 1, maxlen=3000),); ex.store(th.f("FS").f("file").f(k), n); w.subs[rkey(n)] = (k, "new")
    ex.hooks = dict(ex.hooks, stat=stat, create_directory=mk, create_directories=mk); ex.contracts["FsCreator::Configure"] = conf
    cover = set(); g0 = {k: S.get("gen").get(k) for k in ("DrvName_orig", "start_common_info", "start_driver_info", "hiver", "lowver")}
    free = lambda d: z3.And(zint(st(d)) != 0, zbool(app("mk", (d,), "bool")))
    if not rw: ex.loop_hook = lambda ex, n, c, i, b: ex.summarise(n, c, i, b)
    def one(): r = ex.decide(zbool(ex.call_def(f, [rw], this))); return r
    for s_, r in ex.explore(one):
        ex.state = s_
        if ex.check() == "unsat": continue
        log = ex.load(w.log)
        if not isinstance(log, Vec): raise Unsupported("events")
        ok = r
        cover.add(ok); tag = "[%s] " % ("selected" if ok else "nothing selected"); ev = log.el; cf = [e for e in ev if e.get("what") == "configure"]; sub = [e for e in ev if e.get("what") == "sub"]
        if rw:
            good = z3.Or(st(-1) == 0, zbool(app("mk", (-1,), "bool"))); oblige(ex, tag + "the output directory is used exactly when it is there or can be made", good if ok else z3.Not(good))
            ex.oblige(tag + "the paths stay below the output directory", not cf, repr(cf))
        else:
            keep = ex.state
            if ok:
                ex.oblige(tag + "the paths are set once", len(cf) == 1, repr(ev))
                if len(cf) != 1: continue
                p = cf[0].get("d"); ex.oblige(tag + "the paths are below a numbered directory", p[0] == "num", repr(p))
                if p[0] != "num": continue
                a = cf[0].get("args")
                for q, k in ((0, "DrvName_orig"), (2, "start_common_info"), (3, "start_driver_info")): ex.oblige(tag + "setting kept: " + k, ex.rope_eq(ex.as_rope(a[q]), g0[k]), repr(a[q]))
                for q, k in ((4, "hiver"), (5, "lowver")): ex.oblige(tag + "setting kept: " + k, Eq(zint(a[q]), g0[k]), repr(a[q]))
                d = p[1]; oblige(ex, tag + "the number has three digits", z3.And(zint(d) >= 0, zint(d) < 1000)); oblige(ex, tag + "the directory was not there before and was made", free(d))
                ex.state = keep.clone(); ex.state.pc += [K >= 0, K < zint(d)]; oblige(ex, tag + "every lower number is taken", z3.Not(free(K))); ex.state = keep
                i = ev.index(cf[0]); ex.oblige(tag + "the paths are set before the directories are made", all(e.get("what") != "sub" for e in ev[:i]), repr(ev))
            else:
                ex.oblige(tag + "the paths stay", not cf, repr(ev))
                ex.state = keep.clone(); ex.state.pc += [K >= 0, K < 1000]; oblige(ex, tag + "every number is taken", z3.Not(free(K))); ex.state = keep
        if ok: ex.oblige(tag + "the directories of the output are made", sorted(e.get("k") for e in sub) == sorted(LIBD) and all(e.get("d") == ("old" if rw else "new") for e in sub), repr(sub))
    if cover != {True, False}: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    return summary(ex)
def oblige(ex, name, c):
    """reads of the arbitrary world: proved or refuted on the path conditions"""
    from .p10 import oblige_q
    c = simp(zbool(c))
    if isinstance(c, bool) or ex.proves(c): ex.oblige(name, c)
    else: oblige_q(ex, name, c)
def units():
    from ..prove import Unit
    return [Unit("FsCreator::Configure", ["C19", "C21", "C20"], [(configure, ())], "every path, file name and macro name of the output"),
            Unit("FsCreator::PrepareDirectory", ["C19"], [(prepare, (True,)), (prepare, (False,))], "the selected directory")]
