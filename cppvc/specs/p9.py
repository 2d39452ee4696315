"""The util driver (CiUtilGenerator): which messages are receive- and transmit-mapped (Generate), the structs and prototypes of the
header (PrintHeader), the Receive function's frame, the version check and the allocations of the source (PrintSource)."""
from .base import *
from ..ctext import *
from ..gentext import code_tokens, doc, conds, select, tree, split_lines, parse_stmts, If, Line, Loop, Directive, strip_rope, no_comment, expand
from ..crun import idk
from ..decl import declarations, member, param, wordkey
from ..loops import value_names

def util(ex, **f):
    v = arb(ex, "CiUtilGenerator", "util"); d = {x[0]: None for x in ex.record("CiUtilGenerator")}
    s = Struct("CiUtilGenerator", dict(f), v.mk if hasattr(v, "mk") else None) if False else v
    for k, x in f.items():
        if k not in d: raise Unsupported("member %s of CiUtilGenerator" % k)
        s.f[k] = x
    for k in ("tx", "rx", "both", "code_drvname", "file_drvname"):
        if k not in d: raise Unsupported("member %s of CiUtilGenerator" % k)
        s.get(k)
    return ex.new(s, "util")

# ---------------------------------------------------------------- Generate
def generate(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "Generate "
    f = run.fn("CiUtilGenerator::Generate", 4); ex.preload([f.tu])
    n, nb, nr, nt = z3.Ints("n nb nr nt")
    for x in ("n", "nb", "nr", "nt"): ex.vb[x] = (0, KMAX)
    ex.state.pc += [z3.And(v >= 0, v <= KMAX) for v in (n, nb, nr, nt)]
    for x in ("mid", "B", "R", "T"): ex.vb[x] = (0, (1 << 32) - 1)
    pool = ex.new(SVec(n, lambda i: Struct("MessageDescriptor_t", {"MsgID": app("mid", (i,)), "frameNotEmpty": app("ne", (i,), "bool"), "Name": (name_hole("name", (i,)),)}), (), "std::vector<MessageDescriptor_t>", "pool"), "pool")
    ver = arb(ex, "DbcMessageList_t", "dl", (), {}).get("ver") if any(x[0] == "ver" for x in ex.record("DbcMessageList_t")) else None
    dl = ex.new(Struct("DbcMessageList_t", {"msgs": SVec(n, lambda i: Ptr(pool.i(i)), (), "std::vector<MessageDescriptor_t*>", "msgs"), "maxDlcValue": 8, "ver": ver}), "dl")
    groups = ex.new(Struct("MsgsClassification", {a: SVec(c, lambda i, b=b: app(b, (i,)), (), "std::vector<uint32_t>", a) for a, b, c in (("Both", "B", nb), ("Rx", "R", nr), ("Tx", "T", nt))}), "groups")
    fsd = ex.new(arb(ex, "AppSettings_t", "fd"), "fd"); fx = ex.load(fsd); fx.get("file"); fx.get("gen")
    this = util(ex); drv = ex.new((name_hole("drvname"),), "drvname"); log = ex.new(Vec((), "ghost"), "ghost")
    def printer(which):
        def ph(ex, f, args, this):
            v = ex.load(this); ex.store(log, ex.vpush(ex.load(log), Struct("call", {"which": which, **{k: v.get(k) for k in ("rx", "tx", "code_drvname", "file_drvname", "fdesc", "gdesc", "p_dlist")}})))
        return ph
    ex.contracts["CiUtilGenerator::PrintHeader"] = printer("PrintHeader"); ex.contracts["CiUtilGenerator::PrintSource"] = printer("PrintSource")
    outs = ex.explore(lambda: ex.call_def(f, [dl, fsd, groups, drv], this)); cover = 0
    for st, r in outs:
        ex.state = st
        if ex.check() == "unsat": continue
        cover += 1; calls = ex.load(log)
        if not isinstance(calls, Vec): raise Unsupported("calls of the printing functions")
        ex.oblige("header and source are printed once", sorted(c.get("which") for c in calls.el) == ["PrintHeader", "PrintSource"], repr([c.get("which") for c in calls.el]))
        for c in calls.el:
            w = c.get("which")
            for k, lv in (("fdesc", fsd.f("file")), ("gdesc", fsd.f("gen")), ("p_dlist", dl)):
                p = c.get(k)
                if not isinstance(p, Ptr): raise Unsupported("member " + k)
                ex.oblige("%s sees the given settings (%s)" % (w, k), p.lv is not None and p.lv.key() == lv.key(), repr(p))
            ex.oblige("%s uses the given driver name" % w, ex.rope_eq(c.get("code_drvname"), ex.load(drv)))
            for k, sets in (("rx", (("B", nb), ("R", nr))), ("tx", (("B", nb), ("T", nt)))): mapped(ex, w + " " + k, c.get(k), sets, n, pool)
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def spec_in(p, sets):
    return z3.Or(*[z3.Exists([j], z3.And(j >= 0, j < c, z3.Function(b, z3.IntSort(), z3.IntSort())(j) == z3.Function("mid", z3.IntSort(), z3.IntSort())(p))) for j, (b, c) in ((z3.Int("q!" + b), (b, c)) for b, c in sets)])
def mapped(ex, what, v, sets, n, pool):
    """the list holds exactly the non-empty messages of the groups, each once, in ascending order of the IDs"""
    if isinstance(v, Vec) and not v.el: raise Unsupported("the list is empty on this path")
    if not isinstance(v, SVec): raise Unsupported("list of messages %r" % (v,))
    perm = next((k for k, (o, _, _) in ex.sorted_info.items() if o.name == v.name and Eq(zint(o.n), zint(v.n)) is True and o.elem is v.elem), None)
    src = ex.sorted_info[perm][2] if perm else v
    si = ex.selinfo.get(src.name)
    if si is None or src.log or not z3.eq(zint(si["count"]), zint(v.n)): raise Unsupported("the list was not made by selecting messages")
    p, a = z3.Int("p!"), z3.Int("a!"); ne = lambda t: z3.Function("ne", z3.IntSort(), z3.BoolSort())(t); keep = ex.state
    # the position selected by the loop is the message at that position
    ex.state = keep.clone(); ex.state.pc += [a >= 0, a < zint(v.n)]
    e = ex.svec_read(src, a); ok = isinstance(e, Ptr) and e.lv is not None and e.lv.root == pool.root and len(e.lv.path) == 1
    if not ok: raise Unsupported("element %r" % (e,))
    ex.oblige(what + ": the element is the message the loop looked at", Eq(e.lv.path[0][1], si["sel"](a)), repr(e))
    ex.state = keep.clone(); ex.state.pc += [p >= 0, p < n, zbool(si["total"](p))]
    want = z3.And(ne(p), spec_in(p, sets)); c = zbool(si["cond"](p))
    plain(ex, what + ": only non-empty messages of the groups are in the list", z3.Implies(c, want))
    plain(ex, what + ": every non-empty message of the groups is in the list", z3.Implies(want, c))
    ex.state = keep
    if perm is None: ex.oblige(what + ": the list is sorted by ID", False, "not sorted"); return
    cmp = ex.sorted_info[perm][1]; i, j = z3.Ints("i! j!"); ex.state = keep.clone(); ex.state.pc += [i >= 0, i < n, j >= 0, j < n]
    if cmp is None: ex.oblige(what + ": the list is sorted by ID", False, "sorted by address"); ex.state = keep; return
    r = ex.call_lambda(cmp, [ex.new(Ptr(pool.i(i)), "x"), ex.new(Ptr(pool.i(j)), "y")])
    ex.oblige(what + ": the list is sorted by ID", simp(zbool(r) == (zint(app("mid", (i,))) < zint(app("mid", (j,))))), str(r)); ex.state = keep
def plain(ex, name, claim):
    """with the conditions of the loop only (the lists' own facts are not needed)"""
    s = z3.Solver(); s.set("timeout", 20000); s.add(*[zbool(x) for x in ex.state.pc if id(x) not in ex.factset]); s.add(z3.Not(claim)); t = time.time(); r = str(s.check()); ex.solver_time += time.time() - t; ex.queries += 1
    o = Obligation(ex.prefix + name, {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r], str(claim)[:300])
    if r == "sat": o.model = {str(d): str(s.model()[d])[:100] for d in s.model().decls()}
    ex.obls.append(o)


# ---------------------------------------------------------------- PrintHeader, PrintSource
class U:
    """a util generator behind Generate: arbitrary lists, settings and names"""
    def __init__(u, prog, what, np):
        u.run = Run(prog); ex = u.ex = u.run.ex; ex.prefix = what + " "; u.f = u.run.fn("CiUtilGenerator::" + what, np); ex.preload([u.f.tu])
        u.nr, u.nt = z3.Ints("nrx ntx")
        for x in ("nrx", "ntx"): ex.vb[x] = (0, KMAX)
        ex.state.pc += [z3.And(v >= 0, v <= KMAX) for v in (u.nr, u.nt)]
        u.pool = {}
        for k, c in (("rx", u.nr), ("tx", u.nt)):
            u.pool[k] = ex.new(SVec(c, lambda i, k=k: Struct("MessageDescriptor_t", {"MsgID": app(k + "id", (i,)), "Name": (name_hole(k + "name", (i,)),)}), (), "std::vector<MessageDescriptor_t>", "pool" + k), "pool" + k)
        mk = lambda k, c: SVec(c, lambda i: Ptr(u.pool[k].i(i)), (), "std::vector<MessageDescriptor_t*>", k)
        line = lambda n: rope("// ", Hole(n, (), TEXT & ~cls("\n\\?"), 0, maxlen=400), "\n")
        u.gen = arb(ex, "GenDescriptor_t", "gen"); u.gen.f.update(start_common_info=line("common"), start_driver_info=line("driver"))
        for k in ("drvname", "DRVNAME", "verhigh_def", "verlow_def"): u.gen.get(k)
        u.file = arb(ex, "FsDescriptor_t", "file"); uh, uc = u.file.get("util_h"), u.file.get("util_c")
        for o, t in ((uh, "uh"), (uc, "uc")): o.f["fname"] = (Hole(t + ".fname", (), FILECLS, 1, maxlen=300),); o.f["fpath"] = (Hole(t + ".fpath", (), TEXT & ~cls("\n"), 1, maxlen=1000),)
        u.hi, u.lo = z3.Ints("verhi verlo")
        for x in ("verhi", "verlo"): ex.vb[x] = (0, (1 << 32) - 1)
        ex.state.pc += [z3.And(v >= 0, v < (1 << 32)) for v in (u.hi, u.lo)]
        dl = arb(ex, "DbcMessageList_t", "dl"); v = dl.get("ver")
        if not isinstance(v, Struct) or not {"hi", "low"} <= {x[0] for x in ex.record("FileVersion") or ex.record("DbcMessageList_t::FileVersion") or (("hi",), ("low",))}: raise Unsupported("version record")
        v.f["hi"] = u.hi; v.f["low"] = u.lo
        u.g, u.fl, u.dl = ex.new(u.gen, "gen"), ex.new(u.file, "file"), ex.new(dl, "dl")
        u.drv, u.DRV = u.gen.get("drvname"), u.gen.get("DRVNAME")
        u.this = util(ex, rx=mk("rx", u.nr), tx=mk("tx", u.nt), gdesc=Ptr(u.g), fdesc=Ptr(u.fl), p_dlist=Ptr(u.dl), file_drvname=(name_hole("libname"),))
        u.J = z3.Int("J"); ex.vb["J"] = (0, KMAX)
        u.defmac = rkey(rope("__DEF_", u.DRV, "__"))
    def text(u, which):
        fs = [x for x in u.ex.state.files]
        want = u.file.get("util_h" if which == "h" else "util_c").get("fpath")
        if not empty_writer(u, "tof"): raise Unsupported("text stays in the writer after the file is written")
        if len(fs) != 1: u.ex.oblige("one file is written", False, repr([x[0] for x in fs])); return None
        u.ex.oblige("the file is written to its path", u.ex.rope_eq(u.ex.as_rope(fs[0][0]), want), repr(fs[0][0])); return fs[0][1]
    def configs(u, t):
        cs = conds(t)
        for c in cs:
            if rkey(c) not in (u.defmac, rkey(rope("__cplusplus"))): raise Unsupported("condition macro %r" % (c,))
        for d in (False, True): yield d, select(t, lambda c: d if rkey(c) == u.defmac else False)
    def member_ok(u, nm, e, k, c):
        """the repetition declares the member of each message of the list"""
        ex = u.ex
        if cint(e.lo) != 0 or not ex.proves(Eq(e.hi, c)): ex.oblige("%s has a member for every message" % nm, False, "repetition from %s to %s" % (e.lo, e.hi)); return
        keep = ex.state; ex.state = keep.clone(); ex.state.pc += [u.J >= 0, u.J < c]
        body = [expand(ex, rsubst(e.body, [(e.var, u.J)]))]; m = member(code_tokens(doc(body[0]))); want = (name_hole(k + "name", (u.J,)),)
        ex.oblige("%s: the member of a message has its struct type and its name" % nm, len(m) == 1 and m[0] == (idk(want, "_t"), idk(want), None), repr(body[0])); ex.state = keep
FILECLS = WORD | cls("-.")
def nonconds(items):
    """selected lines without directives; the directives apart"""
    return [x for x in items if not isinstance(x, Directive)], [x for x in items if isinstance(x, Directive)]
def includes(dirs): return [rkey(strip_rope(d.rest)) for d in dirs if d.name == "include"]
def check(u, cond, name, detail=""): u.ex.oblige(name, cond, detail)
def header(prog):
    u = U(prog, "PrintHeader", 0); ex = u.ex; cover = set()
    def one():
        ex.call_def(u.f, [], u.this); r = ex.decide(simp(u.nr > 0)), ex.decide(simp(u.nt > 0)); T = u.text("h"); return *r, T if T is None else expand(ex, T)
    for st, (hr, ht, T) in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat": continue
        cover.add((hr, ht))
        if T is None: continue
        try: header_text(u, T, hr, ht)
        except BadText as b:
            for s in T:
                if not isinstance(s, (Lit, Hole, Each)): raise Unsupported("%s in %r" % (b, s))
            check(u, False, "the header is C", str(b))
    if len(cover) != 4: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    return summary(ex)
def header_text(u, T, hr, ht):
    ex = u.ex; tag = "[%s rx, %s tx] " % ("some" if hr else "no", "some" if ht else "no")
    t = doc(T)
    for d, items in u.configs(t):
        code, dirs = nonconds(items)
        inc = includes(dirs); check(u, rkey(rope('"', (name_hole("libname"),), '.h"')) in inc, tag + "the driver's header is included", repr(dirs))
        for x in dirs:
            if x.name not in ("pragma", "include"): raise Unsupported("directive %r" % x)
        ds = declarations(code_tokens(code)); seen = []
        for k in ds:
            if k.kind == "struct":
                w = {idk(u.drv, "_rx_t"): ("rx", u.nr), idk(u.drv, "_tx_t"): ("tx", u.nt)}.get(k.name)
                if w is None: raise Unsupported("struct %r" % (k.name,))
                seen.append(w[0]); m = member(k.members)
                check(u, (hr if w[0] == "rx" else ht), tag + "an empty struct is not declared", w[0])
                if len(m) != 1 or m[0][0] != "loop": 
                    if any(x[0] != "loop" for x in m): check(u, False, tag + "members of the %s struct" % w[0], repr(m)); continue
                    raise Unsupported("members %r" % (m,))
                u.member_ok(tag + w[0] + " struct", m[0][1], w[0], w[1])
            elif k.kind == "func":
                if k.name != idk(u.drv, "_Receive") or k.body is not None: raise Unsupported("function %r" % (k.name,))
                seen.append("Receive"); check(u, receive_proto(u, k), tag + "prototype of Receive", repr(k.params))
            elif k.kind == "var":
                w = {idk(u.drv, "_rx"): ("rx", idk(u.drv, "_rx_t")), idk(u.drv, "_tx"): ("tx", idk(u.drv, "_tx_t"))}.get(k.name)
                if w is None: raise Unsupported("variable %r" % (k.name,))
                check(u, k.extern and k.type == w[1], tag + "declaration of the %s object" % w[0], repr(k)); seen.append("obj " + w[0])
            else: raise Unsupported("declaration %r" % k)
        want = (["rx", "Receive"] if hr else []) + (["tx"] if ht else []) + ((["obj rx"] if hr else []) + (["obj tx"] if ht else []) if d else [])
        check(u, sorted(seen) == sorted(want), tag + "exactly the structs, prototypes and objects of the mapped messages%s" % (" (with __DEF_)" if d else ""), "%s, want %s" % (seen, want))
        if hr and "rx" in seen and "Receive" in seen: check(u, seen.index("rx") < seen.index("Receive"), tag + "the struct is declared before its use")
def receive_proto(u, k, names=None):
    ps = [param(q) for q in k.params]; c = {("const",)}
    if [wordkey(t) for t in k.ret] != [("uint32_t",)] or len(ps) != 4: return False
    ty = [(tuple(w for w in p[0] if w not in c), p[1]) for p in ps]
    if ty != [((idk(u.drv, "_rx_t"),), 1), ((("uint8_t",),), 1), ((("uint32_t",),), 0), ((("uint8_t",),), 0)]: return False
    return names is None or [p[2] for p in ps] == names

class PP(Eval):
    def __init__(e, names): Eval.__init__(e); e.names = names
    def name(e, v):
        k = idkey(v)
        if k in e.names: return e.names[k]
        raise BadText("name %r" % (k,))
    def ev(e, n):
        if n.k == "num" and is_sym(n.v.v):
            z = e.nums.get(zkey(n.v.v))
            if z is None: raise BadText("number %s" % n.v.v)
            return CV(z, 64, True) if "U" not in n.v.sfx else CV(z, 64, False)
        if n.k == "num": x = Eval.ev(e, n); return conv(x, 64, x.s)
        return Eval.ev(e, n)
def version_guard(ex, t, names, hi, lo, VH, VL, tag):
    """some #if ... #error of the text is active exactly when the driver's numbers differ from hi.lo"""
    found = []; keys = {rkey(v): v for v in names}
    def go(items):
        for x in items:
            if isinstance(x, If):
                if x.kind == "if" and any(isinstance(y, Directive) and y.name == "error" for y in x.a + x.b): found.append(x)
                elif x.kind != "if": go(x.a); go(x.b)
    go(t)
    if not found: ex.oblige(tag + "the version check is there", False); return None
    act = z3.BoolVal(False); H, L = z3.BitVec("HI", 64), z3.BitVec("LO", 64); h, l = z3.BitVec("hi", 64), z3.BitVec("lo", 64)
    for x in found:
        e = PP({idk(VH): CV(H, 64, False), idk(VL): CV(L, 64, False)}); e.nums = {zkey(simp(zint(hi))): h, zkey(simp(zint(lo))): l}
        p = Parser(tokens(x.cond)); n = p.ternary()
        if p.peek().k != "end": raise BadText("condition %r" % (x.cond,))
        c = e.ev(n).bv != 0
        a, b = (any(isinstance(y, Directive) and y.name == "error" for y in q) for q in (x.a, x.b))
        act = z3.Or(act, c if a and not b else z3.Not(c) if b and not a else z3.BoolVal(True))
    s = z3.Solver(); s.set("timeout", 20000); top = z3.BitVecVal(1 << 32, 64); s.add(*[z3.ULT(x, top) for x in (H, L, h, l)]); s.add(z3.Not(act == z3.Or(H != h, L != l))); r = str(s.check()); ex.queries += 1
    o = Obligation(ex.prefix + tag + "the source refuses exactly another version", {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r], repr(found)[:400])
    if r == "sat": o.model = {str(d): str(s.model()[d])[:100] for d in s.model().decls()}
    ex.obls.append(o); return found
def without(t, sections):
    return [x if not isinstance(x, If) else If(x.kind, x.cond, without(x.a, sections), without(x.b, sections)) for x in t if not any(x is y for y in sections)]
def source(prog):
    u = U(prog, "PrintSource", 0); ex = u.ex; cover = set(); tree_ = ex.new(Struct("ConditionalTree_t", {"Type": 0}), "tree"); ghost = ex.new(Struct("ghost", {"n": 0, "dead": False}), "ghost")
    ct = ex.load(u.this).get("condtree")
    if not isinstance(ct, Struct): raise Unsupported("condtree")
    ct.f["codestr"] = rope("OLD_TEXT();\n")
    def fill(ex, f, args, th):
        a = args[:3]; a = [a[0]] + [ex.load(v) if isinstance(v, LV) else v for v in a[1:]]; st = args[3] if len(args) > 3 else None; st = ex.load(st) if isinstance(st, LV) else st
        ok = isinstance(a[0], LV) and a[0].key() == u.this.f("rx").key()
        if not ok: raise Unsupported("list given to FillTreeLevel")
        ex.oblige("the tree is built for the whole receive list", And(Eq(a[1], 0), Eq(a[2], u.nr), simp(u.nr >= 1)), "%s .. %s" % (a[1], a[2]))
        ex.oblige("the tree is built as a whole", st is False or st is not True and ex.proves(Not(zbool(st))), repr(st))
        ex.store(ghost.f("n"), ex.load(ghost.f("n")) + 1); return Ptr(tree_)
    def write(ex, f, args, th):
        p = args[0]; p = ex.load(p) if isinstance(p, LV) else p
        if not isinstance(p, Ptr) or p.lv is None or p.lv.key() != tree_.key(): raise Unsupported("tree given to WriteCode")
        ex.oblige("the tree is not deleted before it is written", ex.load(ghost.f("dead")) is False)
        ex.store(th.f("codestr"), rope(ex.load(th.f("codestr")), "TREE();\n")); return ex.load(th.f("codestr"))
    def delete(ex, f, args, th):
        p = args[0]; p = ex.load(p) if isinstance(p, LV) else p
        ok = isinstance(p, Ptr) and p.lv is not None and p.lv.key() == tree_.key()
        ex.oblige("the tree is deleted once", ok and ex.load(ghost.f("dead")) is False, repr(p)); ex.store(ghost.f("dead"), True)
    ex.contracts["CiUtilGenerator::FillTreeLevel"] = fill; ex.contracts["ConditionalTree::WriteCode"] = write; ex.contracts["ConditionalTree::DeleteTree"] = delete
    def one(): 
        ex.call_def(u.f, [], u.this); r = ex.decide(simp(u.nr > 0)), ex.decide(simp(u.nt > 0)); T = u.text("c"); return *r, T if T is None else expand(ex, T)
    for st, (hr, ht, T) in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat": continue
        cover.add((hr, ht))
        if T is None: continue
        try: source_text(u, T, hr, ht)
        except BadText as b:
            for s in T:
                if not isinstance(s, (Lit, Hole, Each, Fmt)): raise Unsupported("%s in %r" % (b, s))
            check(u, False, "the source is C", str(b))
    if len(cover) != 4: ex.obls.append(Obligation(ex.prefix + "all cases reached", "unknown", repr(cover)))
    return summary(ex)
def source_text(u, T, hr, ht):
    ex = u.ex; tag = "[%s rx, %s tx] " % ("some" if hr else "no", "some" if ht else "no"); t = doc(T)
    vs = version_guard(ex, t, (), u.hi, u.lo, u.gen.get("verhigh_def"), u.gen.get("verlow_def"), tag)
    if vs is None: return
    at = [i for i, x in enumerate(t) if any(x is v for v in vs)]; pos = [i for i, x in enumerate(t) if isinstance(x, Directive) and x.name == "include" and rkey(x.rest) == rkey(rope('"', u.file.get("util_h").get("fname"), '"'))]
    check(u, bool(pos), tag + "the util header is included", repr(t)[:300]); 
    if pos and at: check(u, pos[0] < at[0], tag + "the util header is included before the version check")
    t = without(t, vs)
    for d, items in u.configs(t):
        code, dirs = nonconds(items)
        for x in dirs:
            if x.name != "include": raise Unsupported("directive %r" % x)
        seen = []
        for k in declarations(code_tokens(code)):
            if k.kind == "var":
                w = {idk(u.drv, "_rx"): ("rx", idk(u.drv, "_rx_t")), idk(u.drv, "_tx"): ("tx", idk(u.drv, "_tx_t"))}.get(k.name)
                if w is None: raise Unsupported("variable %r" % (k.name,))
                check(u, not k.extern and k.type == w[1], tag + "definition of the %s object" % w[0], repr(k)); seen.append("obj " + w[0])
            elif k.kind == "func" and k.body is not None and k.name == idk(u.drv, "_Receive"):
                seen.append("Receive"); check(u, receive_proto(u, k, [("_m",), ("_d",), ("_id",), ("dlc_",)]), tag + "parameters of Receive", repr(k.params)); receive_body(u, k, tag)
            else: raise Unsupported("declaration %r" % k)
        want = (["Receive"] if hr else []) + ((["obj rx"] if hr else []) + (["obj tx"] if ht else []) if d else [])
        check(u, sorted(seen) == sorted(want), tag + "exactly the objects and the Receive function of the mapped messages%s" % (" (with __DEF_)" if d else ""), "%s, want %s" % (seen, want))
def receive_body(u, k, tag):
    """recid starts as 0, then the tree runs once, then its recid is returned"""
    val = None; trees = 0; ret = None; st = parse_stmts(k.body)
    def const(n):
        while n.k in ("par", "cast"): n = n.a[0]
        if n.k == "num": return cint(n.v.v)
        raise Unsupported("value %r" % n)
    for s in st:
        if ret is not None: raise Unsupported("statement behind return")
        if s[0] == "nop" or s[0] == "void": continue
        if s[0] == "decl" and idkey(s[2]) == ("recid",):
            if s[1] != "uint32_t": raise Unsupported("type of recid")
            val = const(s[3]) if s[3] is not None else None
        elif s[0] == "expr" and s[1].k == "assign" and s[1].v == "=" and s[1].a[0].k == "id" and idkey(s[1].a[0].v) == ("recid",): val = const(s[1].a[1])
        elif s[0] == "expr" and s[1].k == "call" and s[1].a[0].k == "id" and len(s[1].a) == 1:
            if idkey(s[1].a[0].v) == ("OLD_TEXT",): check(u, False, tag + "no text of an earlier tree is written", repr(st)); return
            if idkey(s[1].a[0].v) != ("TREE",): raise Unsupported("statement %r" % (s,))
            trees += 1; val = ("tree", val)
        elif s[0] == "ret" and s[1] is not None:
            e = s[1]
            while e.k == "par": e = e.a[0]
            ret = val if e.k == "id" and idkey(e.v) == ("recid",) else ("const", const(e))
        else: raise Unsupported("statement %r" % (s,))
    check(u, ret == ("tree", 0) and trees == 1, tag + "Receive returns 0 or the result of the tree", repr(st))

def units():
    from ..prove import Unit
    return [Unit("CiUtilGenerator::Generate", ["C09", "C08"], [(generate, ())], "for every message list and every grouping: the receive and transmit lists hold exactly the non-empty messages of the groups, sorted by ID"),
            Unit("CiUtilGenerator::PrintHeader", ["C09", "C08"], [(header, ())], "for every receive and transmit list: the rx/tx structs have exactly one member per message of its list, declared only for non-empty lists"),
            Unit("CiUtilGenerator::PrintSource", ["C08", "C21", "C09"], [(source, ())], "Receive runs the tree of the whole receive list from recid 0 and returns its result; the version check refuses exactly other versions")]
