"""The receive tree: CiUtilGenerator::FillTreeLevel builds it (structural induction over the index range), ConditionalTree::WriteCode
prints it (induction over the tree).  Meaning of a tree for an ID: a Cond node runs High if its condition holds, else Low (an Express
node as Low only under its own condition); any other node runs its body."""
from .base import *
from ..ctext import *
from ..gentext import code_tokens, doc, parse_stmts, hole_chain, Stmts
from ..crun import CRun, idk

# ---------------------------------------------------------------- WriteCode
def bvar(n): return CV(z3.BitVec(n, 32), 32, False)
class Walk(Eval):
    """trace of statements: (condition, event) for every possible event"""
    def __init__(w, chains): Eval.__init__(w); w.chains = chains; w.trace = []
    def name(w, v):
        k = idkey(v)
        if k in w.chains: return w.chains[k]
        raise BadText("name %r" % (k,))
    def walk(w, stmts, guard):
        for s in stmts:
            if s[0] == "block": w.walk(s[1], guard)
            elif s[0] == "nop": pass
            elif s[0] == "if":
                c = w.ev(s[1]).bv != 0; w.walk([s[2]], z3.And(guard, c))
                if s[3] is not None: w.walk([s[3]], z3.And(guard, z3.Not(c)))
            else: w.trace.append((guard, w.event(s)))
    def event(w, s):
        if s[0] == "expr" and s[1].k == "call" and s[1].a[0].k == "id" and len(s[1].a) == 1: return idkey(s[1].a[0].v)
        raise BadText("statement %r" % (s,))
def valid(ex, name, claim, detail=""):
    s = z3.Solver(); s.set("timeout", 20000); s.add(z3.Not(zbool(claim))); t = time.time(); r = str(s.check()); ex.solver_time += time.time() - t; ex.queries += 1
    o = Obligation(ex.prefix + name, {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r], detail)
    if r == "sat": o.model = {str(d): str(s.model()[d])[:100] for d in s.model().decls()}
    ex.obls.append(o)
def node(ex, tag, **f):
    t = z3.Int(tag + ".Type"); ex.vb[tag + ".Type"] = (0, 2); ex.state.pc.append(z3.And(t >= 0, t <= 2))
    d = dict(Type=t, ConditionExpresion=(Hole(tag + ".COND", (), TEXT, 1, maxlen=1500),), UtilCodeBody=(Hole(tag + ".BODY", (), TEXT, 1, maxlen=1800),), High=Ptr(None, True), Low=Ptr(None, True)); d.update(f)
    return ex.new(Struct("ConditionalTree_t", d), tag)
def write(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "WriteCode "
    f = run.fn("ConditionalTree::WriteCode", 3); ex.preload([f.tu])
    cond, expr, single = (enum(ex, "ConditionalType::" + x) for x in ("Cond", "Express", "Single"))
    H, L = node(ex, "H"), node(ex, "L"); nh, nl = z3.Bool("nohigh"), z3.Bool("nolow"); T = node(ex, "T", High=Ptr(H, nh), Low=Ptr(L, nl)); nt = z3.Bool("notree")
    this = ex.new(Struct("ConditionalTree", {"codestr": rope("BEFORE();\n")}), "writer"); out = ex.new(EMPTY, "outstr"); ind = z3.Int("indent"); ex.vb["indent"] = (0, 255); ex.state.pc.append(z3.And(ind >= 0, ind <= 255))
    def rec(ex, f, args, th):
        p = args[0]; p = ex.load(p) if isinstance(p, LV) else p
        if not isinstance(p, Ptr) or th.root != this.root: raise Unsupported("recursive call of WriteCode")
        lv = th.f("codestr")
        if p.lv is None or ex.decide(p.null): return ex.load(lv)
        k = {H.root: "KIDH", L.root: "KIDL"}.get(p.lv.root) if not p.lv.path else None
        if k is None: raise Unsupported("recursive call of WriteCode with another tree")
        ex.store(lv, rope(ex.load(lv), "%s();\n" % k)); return ex.load(lv)
    ex.rec_contracts[f.qname] = rec
    cover = set()
    for st, res in ex.explore(lambda: split_rope(ex, ex.as_rope(ex.call_def(f, [Ptr(T, nt), out, ind], this)))):
        ex.state = st
        if ex.check() == "unsat": continue
        txt = ex.load(this).get("codestr"); ex.oblige("the whole text is returned", ex.rope_eq(res, txt)); t, lo, hi = ex.load(T), ex.load(L), ex.load(H)
        isnull = ex.proves(nt); tt = t.get("Type"); cover.add("null" if isnull else "cond" if ex.proves(Eq(tt, cond)) else "other")
        r = [x for x in res if not (isinstance(x, Each) and all(isinstance(y, Lit) and not y.s.strip() for y in x.body)) and not (isinstance(x, Hole) and (x.name.startswith("rep:32:")))]
        r = rope(*[(x,) for x in r]); holes = {}
        try:
            toks = code_tokens(doc(r)); out2 = []
            for x in toks:
                hs = x.v if x.k == "text" else x.v[0] if x.k == "id" and len(x.v) == 1 and isinstance(x.v[0], Hole) else None
                if hs is not None and isinstance(hs, Hole) and hs.name.endswith(".BODY"): out2 += [Tok("id", (hs.name,)), Tok("op", "("), Tok("op", ")"), Tok("op", ";")]
                elif hs is not None and isinstance(hs, Hole) and hs.name.endswith(".COND"): out2 += [Tok("id", (hs.name + "1",)), Tok("op", "||"), Tok("id", (hs.name + "2",))]
                else: out2.append(x)
            w = Walk({("%s.COND%d" % (a, i),): bvar("%s%d" % (a, i)) for a in "THL" for i in (1, 2)}); w.walk(parse_stmts(out2), z3.BoolVal(True))
        except BadText as b: definite(r, b, [ex.load(x).get(y)[0] for x in (T, H, L) for y in ("ConditionExpresion", "UtilCodeBody")]); ex.oblige("the text is C", False, "%s in %r" % (b, r)); continue
        c = lambda a: z3.Or(bvar(a + "1").bv != 0, bvar(a + "2").bv != 0)
        pv = lambda e: True if ex.proves(e) else False if ex.proves(Not(e)) else None
        known = {"c": pv(Eq(tt, cond)), "nh": pv(nh), "nl": pv(nl), "le": pv(Eq(lo.get("Type"), expr))}
        tv = lambda k: z3.Bool("?" + k) if known[k] is None else z3.BoolVal(known[k])
        alive = z3.BoolVal(not isnull)
        want = {("BEFORE",): z3.BoolVal(True), ("KIDH",): z3.And(alive, tv("c"), c("T"), z3.Not(tv("nh"))), ("KIDL",): z3.And(alive, tv("c"), z3.Not(c("T")), z3.Not(tv("nl")), z3.Or(z3.Not(tv("le")), c("L"))), ("T.BODY",): z3.And(alive, z3.Not(tv("c")))}
        names = {("KIDH",): "the High branch runs exactly under the condition", ("KIDL",): "the Low branch runs exactly when the condition does not hold (an expression only under its own condition)", ("T.BODY",): "a leaf runs its body", ("BEFORE",): "the earlier text is kept"}
        for g, e in w.trace:
            if e not in want: ex.oblige("nothing else runs", False, repr(e))
        for k in want:
            gs = [g for g, e in w.trace if e == k]
            valid(ex, names[k], z3.Or(*gs) == want[k] if gs else z3.Not(want[k]), repr(r)[:600])
            for i in range(len(gs)):
                for j in range(i): valid(ex, names[k] + " (once)", z3.Not(z3.And(gs[i], gs[j])))
    if not cover >= {"null", "cond", "other"}: ex.obls.append(Obligation(ex.prefix + "all kinds of nodes reached", "unknown", repr(cover)))
    return summary(ex)

# ---------------------------------------------------------------- FillTreeLevel
X = z3.Function("X", z3.IntSort(), z3.BitVecSort(32))
class CondEval(Eval):
    def name(e, v):
        if idkey(v) == ("_id",): return CV(z3.BitVec("_id", 32), 32, False)
        raise BadText("name %r" % (v,))
    def ev(e, n):
        if n.k == "num" and is_sym(n.v.v):
            t = simp(zint(n.v.v))
            if not (z3.is_app(t) and t.decl().name() == "mid" and "U" in n.v.sfx): raise BadText("number %r" % (n.v,))
            e.idx.append(t.arg(0)); return CV(X(t.arg(0)), 32, False)
        return Eval.ev(e, n)
def fill(prog, root, one=False):
    run = Run(prog); ex = run.ex; ex.prefix = "FillTreeLevel[%s] " % ("whole list" if root else "one message" if one else "part of the list")
    f = run.fn("CiUtilGenerator::FillTreeLevel", 4); ex.preload([f.tu])
    cond, expr, single = (enum(ex, "ConditionalType::" + x) for x in ("Cond", "Express", "Single"))
    n, l, h = z3.Int("n"), z3.Int("l"), z3.Int("h")
    for x in "nlh": ex.vb[x] = (0, 1 << 29)
    ex.state.pc += [z3.And(n >= 1, n < (1 << 29), l >= 0, l < h, h <= n)] + ([l == 0, h == n] if root else [h == l + 1] if one else [h > l + 1])
    ex.vb["mid"] = (0, (1 << 29) - 1)
    pool = ex.new(SVec(n, lambda i: Struct("MessageDescriptor_t", {"MsgID": app("mid", (i,)), "Name": (name_hole("name", (i,)),)}), (), "std::vector<MessageDescriptor_t>", "pool"), "pool")
    lst = ex.new(SVec(n, lambda i: Ptr(pool.i(i)), (), "std::vector<MessageDescriptor_t*>", "list"), "list")
    drv = name_hole("drv"); this = ex.new(Struct("CiUtilGenerator", {"code_drvname": (drv,), "treestarted": z3.Bool("was")}), "util")
    def rec(ex, f, args, th):
        lv, a, b = args[:3]; started = args[3]; a, b, started = (ex.load(v) if isinstance(v, LV) else v for v in (a, b, started))
        if not isinstance(lv, LV) or lv.key() != lst.key(): raise Unsupported("list of the recursive call")
        if started is not True and not ex.proves(zbool(started)): raise Unsupported("recursive call as if for the whole list")
        ex.oblige("the part is not empty and inside the list", And(simp(zint(a) >= 0), simp(zint(a) < zint(b)), simp(zint(b) <= n)), "%s .. %s" % (a, b))
        ex.oblige("the part is smaller (the recursion ends)", simp(z3.And(zint(b) - zint(a) < h - l)), "%s .. %s" % (a, b))
        one = simp(zint(b) - zint(a) == 1); leaf = one if isinstance(one, bool) else ex.decide(one)
        ex.store(th.f("treestarted"), fresh_bool(ex))
        t = Struct("ConditionalTree_t", {"Type": expr if leaf else cond, "ConditionExpresion": (Hole("TC", (a, b), TEXT, 1, maxlen=200),), "UtilCodeBody": (Hole("TB", (a, b), TEXT, 1, maxlen=1800),),
            "High": Opaque("tree"), "Low": Opaque("tree"), "lo": a, "hi": b})
        return Ptr(ex.new(t, "tree"))
    ex.rec_contracts[f.qname] = rec; cover = 0
    args = [lst, l, h, False if root else True]
    def one_path():
        res = ex.call_def(f, args, this); settle(ex, res); return res
    for st, res in ex.explore(one_path):
        ex.state = st
        if ex.check() == "unsat": continue
        cover += 1
        if not isinstance(res, Ptr) or res.lv is None: ex.oblige("a tree is built", False, repr(res)); continue
        t = ex.load(res.lv); ty = t.get("Type")
        leaf = one
        try:
            if leaf:
                if ty != expr: raise Unsupported("shape of the tree")
                s = Sem(ex, n, l, h, (drv,)); s.leafcond(t, l); i = s.body(t.get("UtilCodeBody"))
                ex.oblige("the leaf's body unpacks its message", Eq(i, l), str(i))
            else:
                if ty != cond: raise Unsupported("shape of the tree")
                s = Sem(ex, n, l, h, (drv,)); s.tree(t)
        except BadText as b: ex.oblige("condition and body are C", False, str(b))
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def settle(ex, p):
    """texts of the new nodes with every alternative decided"""
    if not isinstance(p, Ptr) or p.lv is None: return
    t = ex.load(p.lv)
    if not isinstance(t, Struct) or "lo" in t.f: return
    for x in ("ConditionExpresion", "UtilCodeBody"):
        r = t.get(x)
        if is_rope(r): ex.store(p.lv.f(x), split_rope(ex, r))
    for x in ("High", "Low"): settle(ex, t.get(x))
def fresh_bool(ex):
    from ..terms import fresh
    return zbool(simp(zint(fresh("b")) > 0))
class Sem:
    """what a tree does for the ID _id: list of (condition, leaf index or part)"""
    def __init__(s, ex, n, l, h, drv): s.ex = ex; s.n = n; s.l = l; s.h = h; s.drv = drv; s.idx = []; s.ev = []; s.id = z3.BitVec("_id", 32)
    def cond(s, r):
        r = s.ex.resolve(r)
        e = CondEval(); e.idx = s.idx
        try: return e.ev(parse_expr(tokens(r))).bv != 0
        except BadText as b: definite(r, b, []); raise
    def text_known(s, r):
        for x in r:
            if not isinstance(x, (Lit, Fmt)) and not (isinstance(x, Hole) and x.name in ("name", "drv")): raise Unsupported("text %r" % (r,))
    def body(s, r):
        """recid = Unpack_<message>_<driver>(&(_m-><message>), _d, dlc_);  gives the message's index"""
        r = s.ex.resolve(r); s.text_known(r)
        st = parse_stmts(tokens(r)); drv = s.drv[0].key(); bad = BadText("body %r" % (r,))
        if len(st) != 1 or st[0][0] != "expr": raise bad
        e = st[0][1]
        if e.k != "assign" or e.v != "=" or e.a[0].k != "id" or idkey(e.a[0].v) != ("recid",): raise bad
        c = e.a[1]
        while c.k == "par": c = c.a[0]
        if c.k != "call" or c.a[0].k != "id" or len(c.a) != 4: raise bad
        f = c.a[0].v
        if len(f) != 4 or f[0] != "Unpack_" or not isinstance(f[1], Hole) or f[2] != "_" or not isinstance(f[3], Hole) or f[3].key() != drv: raise bad
        R = CRun(); a0, a1, a2 = c.a[1:]
        while a0.k == "par": a0 = a0.a[0]
        if a0.k != "un" or a0.v != "&" or R.place(a0.a[0]) != ("arrow", ("id", ("_m",)), (f[1].key(),)) or R.place(a1) != ("id", ("_d",)) or R.place(a2) != ("id", ("dlc_",)): raise bad
        return f[1].args[0]
    def leafcond(s, t, i):
        c = s.cond(t.get("ConditionExpresion")); s.show("the leaf's condition is the message's ID", c == (s.id == X(zint(i))), [zint(i)])
    def tree(s, t):
        ex = s.ex; s.run(t, z3.BoolVal(True)); j = z3.Int("j")
        # an ID that is not in the part runs nothing; one that is runs exactly its own leaf
        for g, k, a in s.ev:
            if k == "leaf":
                s.show("a leaf runs only for its own ID", z3.Implies(g, s.id == X(zint(a))), [zint(a)]); ex.oblige("the leaf belongs to the part", And(simp(zint(a) >= s.l), simp(zint(a) < s.h)), str(a))
                s.show("an ID runs no other leaf", z3.Implies(z3.And(g, s.id == X(j)), j == zint(a)), [zint(a), j], j)
            else:
                ex.oblige("the smaller part lies in the part", And(simp(zint(a[0]) >= s.l), simp(zint(a[1]) <= s.h)), str(a))
                s.show("an ID of the part is searched where it is", z3.Implies(z3.And(g, s.id == X(j)), z3.And(j >= zint(a[0]), j < zint(a[1]))), [zint(a[0]), zint(a[1]) - 1, j], j)
        gs = [g for g, k, a in s.ev]
        s.show("every ID of the part is searched", z3.Implies(s.id == X(j), z3.Or(*gs)) if gs else z3.BoolVal(False), [j], j)
        for a in range(len(gs)):
            for b in range(a): s.show("only one branch runs", z3.Not(z3.And(gs[a], gs[b])), [])
    def run(s, t, g, own=True):
        ex = s.ex; ty = t.get("Type"); cond, expr = enum(ex, "ConditionalType::Cond"), enum(ex, "ConditionalType::Express")
        if "lo" in t.f:      # built by the recursive call
            a, b = t.get("lo"), t.get("hi"); s.ev.append((g, "leaf", a) if ty == expr else (g, "part", (a, b))); return
        if not isinstance(ty, int): raise Unsupported("kind of a node")
        if ty != cond: s.ev.append((g, "leaf", s.body(t.get("UtilCodeBody")))); return
        c = s.cond(t.get("ConditionExpresion"))
        for which, gg in (("High", z3.And(g, c)), ("Low", z3.And(g, z3.Not(c)))):
            p = t.get(which)
            if not isinstance(p, Ptr): raise Unsupported("child of a node")
            if p.lv is None or p.null is True: continue
            if is_sym(p.null): raise Unsupported("child of a node")
            k = ex.load(p.lv)
            if which == "Low" and k.get("Type") == expr:
                ce = s.id == X(zint(k.get("lo"))) if "lo" in k.f else s.cond(k.get("ConditionExpresion"))
                if "lo" in k.f: s.idx.append(zint(k.get("lo")))
                gg = z3.And(gg, ce)
            s.run(k, gg)
    def show(s, name, claim, idx, j=None):
        """valid for a list sorted by strictly increasing IDs below 2^29"""
        ex = s.ex; S = z3.Solver(); S.set("timeout", 30000); S.add(*[zbool(p) for p in ex.state.pc]); I = []
        for i in list(idx) + s.idx + [s.l]:
            i = simp(zint(i)); i = zint(i)
            if not any(z3.eq(i, k) for k in I): I.append(i)
        if j is not None: S.add(j >= s.l, j < s.h)
        for a in I:
            S.add(z3.ULT(X(a), z3.BitVecVal(1 << 29, 32)))
            for b in I:
                if a is not b: S.add(z3.Implies(a < b, z3.ULT(X(a), X(b))))
        S.add(z3.Not(claim)); t = time.time(); r = str(S.check()); ex.solver_time += time.time() - t; ex.queries += 1
        o = Obligation(ex.prefix + name, {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r], str(claim)[:300])
        if r == "sat": o.model = {str(d): str(S.model()[d])[:100] for d in S.model().decls()}
        ex.obls.append(o)

def units():
    from ..prove import Unit
    return [Unit("ConditionalTree::WriteCode", ["C08"], [(write, ())], "for every tree: the printed text does exactly what the tree means (induction over the tree)"),
            Unit("CiUtilGenerator::FillTreeLevel", ["C08"], [(fill, (True,)), (fill, (False, True)), (fill, (False, False))], "for every list sorted by strictly increasing IDs (below 2^29) and every 32-bit ID: the tree runs exactly the Unpack call of the message with that ID on its own struct member, nothing for other IDs (induction over the range)")]
