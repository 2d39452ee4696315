"""Statements and expressions of clang's AST, executed symbolically on the state of core.Exec."""
import fractions, re, z3
from .terms import *
from .core import *
from .lib import Lib
from .loops import Loops

SKIP = ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr")

class Env:
    __slots__ = ("vars", "this", "tu", "va", "fn")
    def __init__(e, tu, this=None, va=None, fn=None): e.vars = {}; e.this = this; e.tu = tu; e.va = va; e.fn = fn

class Engine(Lib, Loops, Exec):
    def __init__(ex, prog, timeout=8000):
        Exec.__init__(ex, prog, timeout); ex.env = Env(""); ex.loop_specs = {}; ex.summary_notes = []
        ex.gnames = {}
    # ================================================================ globals
    def global_lv(ex, tu, node):
        """storage of a namespace-scope variable"""
        name = node["name"]
        # an extern declaration refers to the definition in another unit
        if node.get("storageClass") == "extern" or not any(c.get("kind", "").endswith("Expr") or "Literal" in c.get("kind", "") for c in node.get("inner", [])):
            for t, n in ex.p.globals.get("byname", {}).get(name, []):
                if n.get("storageClass") != "static" and any("kind" in c for c in n.get("inner", [])) and node.get("storageClass") != "static": tu, node = t, n
        r = "g:%s:%s" % (tu, name)
        if r not in ex.state.store:
            if r in ex.gnames: v = ex.gnames[r]
            else:
                env = ex.env; ex.env = Env(tu)
                try:
                    init = [c for c in node.get("inner", []) if "kind" in c and not c["kind"].endswith("Attr")]
                    v = ex.init_value(node["type"], init[0] if init else None)
                finally: ex.env = env
                ex.gnames[r] = v
            ex.state.store[r] = v
        return LV(r)
    def preload(ex, tus):
        """evaluate the globals of the units before any path splits"""
        for tu in tus:
            for n in ex.p.globals.get(tu, {}).values():
                try: ex.global_lv(tu, n)
                except (Unsupported, PathDead): pass
    # ================================================================ types
    def default_value(ex, ty, zero=False):
        """value of a default-initialised object (indeterminate scalars are fresh unless zero)"""
        t = clean(ty) if isinstance(ty, str) else tname(ty); t = strip_ref(t)
        if is_string(t): return EMPTY
        if is_vector(t): return Vec((), t)
        it = int_type(t)
        if it: return (False if it[0] == 1 else 0) if zero else ex.indet(t)
        if t in ("double", "float"): return 0 if zero else Opaque("double")
        if t.endswith("*"): return NULL
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            if m.group(1).strip() == "char": return EMPTY
            return Vec([ex.default_value(m.group(1).strip(), zero) for _ in range(int(m.group(2)))], t)
        if t.startswith(("std::stringstream", "std::ostringstream", "std::basic_stringstream", "std::basic_ostringstream")): return EMPTY
        if t.startswith(("std::istringstream", "std::basic_istringstream")): return EMPTY
        if t.startswith(("std::set<", "set<")): return Opaque("set", ())
        m = re.match(r"(?:std::)?pair<(.*)>$", t)
        if m:
            a, b = split_targs(m.group(1)); return Struct("pair", {"first": ex.default_value(a, True), "second": ex.default_value(b, True)})
        if t.startswith(("std::ofstream", "std::basic_ofstream")): return Opaque("ofstream", None)
        if t.startswith(("std::ifstream", "std::basic_ifstream")): return Opaque("ifstream", None)
        rec = ex.record(t)
        if rec is not None:
            f = {}
            for name, fty, node in rec:
                init = [c for c in node.get("inner", []) if c.get("kind", "") not in ("FullComment",) and not c.get("kind", "").endswith("Attr")] if node.get("hasInClassInitializer") else []
                if init: f[name] = ex.init_value(fty, init[0])
                else: f[name] = ex.default_value(fty, zero)
            return Struct(t, f)
        return Opaque("object of type " + t)
    def indet(ex, t):
        v = fresh("indet"); w, s = int_type(t); lo, hi = ex.trange(w, s)
        if w == 1: return fresh("indet", "bool")
        ex.vb[v.decl().name()] = (lo, hi); ex.fact(z3.And(v >= lo, v <= hi))
        return v
    def record(ex, t):
        r = ex.p.records
        if t in r: return r[t]
        short = t.split("::")[-1]
        if short in r: return r[short]
        for k in r:
            if k.endswith("::" + t): return r[k]
        for k, v in ex.p.typedefs.items():
            if k.split("::")[-1] == short:
                u = tname(v)
                if u != t and u in r: return r[u]
        return None
    def init_value(ex, ty, n):
        t = tname(ty) if not isinstance(ty, str) else clean(ty)
        if n is None: return ex.default_value(t, zero=False)
        v = ex.val(n, want=t)
        return ex.coerce(v, t)
    def coerce(ex, v, t):
        t = strip_ref(t)
        if is_string(t) and isinstance(v, (CStr, Ptr)): return ex.cstring(v)
        m = re.match(r"char\[(\d+)\]$", t.replace(" ", ""))
        if m: return v.r if isinstance(v, CStr) else EMPTY if isinstance(v, (Vec, int)) else v
        return v
    # ================================================================ function calls
    def find_def(ex, tu, decl):
        """definition of a declared project function"""
        d = ex.p.byid.get((tu, decl["id"])) if "id" in decl else None
        q = (d or {}).get("_q")
        if q is None:
            # template specialisation or block-scope declaration: by name and type
            name = decl.get("name", ""); c = [f for k, l in ex.p.funcs.items() if k.split("::")[-1] == name for f in l if f.tu == tu and f.node.get("id") == decl.get("id")]
            if c: return c[0]
            if d is None:
                c = [f for k, l in ex.p.funcs.items() if k == name for f in l if f.type == decl.get("type", {}).get("qualType")]
                return c[0] if c else None
            return None
        l = ex.p.funcs.get(q, [])
        ty = d.get("type", {}).get("qualType")
        same = [f for f in l if f.type == ty]
        if not same and len({f.type for f in l}) == 1 and ty and re.sub(r"\w+::", "", l[0].type) == re.sub(r"\w+::", "", ty): same = l
        own = [f for f in same if f.tu == tu]
        if own: return own[0]
        if same and not (d.get("storageClass") == "static"): return same[0]
        return None
    def call_def(ex, f, args, this=None, va=None):
        """call of a function with a body; args: list of LV (reference parameters) or values"""
        if f.qname in ex.contracts and f.qname not in ex.under_proof:
            ex.used_contracts.add(f.qname)
            return ex.contracts[f.qname](ex, f, args, this)
        if f.qname in ex.rec_contracts and f.qname in ex.callstack:      # a recursive call is judged by the contract of the function itself
            ex.used_contracts.add(f.qname)
            return ex.rec_contracts[f.qname](ex, f, args, this)
        if ex.depth > 60: raise Unsupported("recursion of %s" % f.qname)
        ex.inlined.add(f.qname)
        if ex.callstack.count(f.qname) > 12: raise Unsupported("recursion of %s without contract" % f.qname)
        def body():
            saved = ex.env; ex.env = Env(f.tu, this, va, f); ex.depth += 1; ex.callstack.append(f.qname)
            try:
                for p, a in zip(f.params, args): ex.bind_param(p, a)
                for ini in f.inits: ex.ctor_init(ini)
                o = ex.stmt(f.body)
                if o is None: return ("ret", None)
                return o
            finally:
                ex.env = saved; ex.depth -= 1; ex.callstack.pop()
        outs = ex.explore(body)
        o = ex.join(outs)
        return o[1] if len(o) > 1 else None
    under_proof = (); rec_contracts = {}
    def ctor_init(ex, ini):
        fld = ini.get("anyInit", {}).get("name")
        if fld is None: return
        e = [c for c in ini.get("inner", []) if "kind" in c]
        if e:
            t = tname(ini["anyInit"]["type"]); x = e[0]
            while x["kind"] == "ExprWithCleanups": x = x["inner"][0]
            if x["kind"] == "CXXDefaultInitExpr": return        # (the members start with these values already)
            ex.store(ex.env.this.f(fld), ex.init_value(t, e[0]))
    def bind_param(ex, p, a):
        t = tname2(p); td = tname(p)
        if is_ref(t) or is_ref(td):
            if not isinstance(a, LV): a = ex.new(a, "tmp")
            ex.env.vars[p["id"]] = a
        else:
            if isinstance(a, LV): a = ex.load(a)
            lv = ex.env.vars[p["id"]] = ex.new(ex.coerce(a, td), p.get("name", "p"))
            if int_type(td): ex.vartype[lv.root] = int_type(td)
    def eval_args(ex, tu, params, argnodes, defaults_of=None):
        out = []
        for k, a in enumerate(argnodes):
            if a["kind"] == "CXXDefaultArgExpr":
                pd = params[k] if k < len(params) else None
                d = [c for c in (pd or {}).get("inner", []) if "kind" in c]
                if not d and defaults_of is not None:
                    pp = [c for c in defaults_of.get("inner", []) if c["kind"] == "ParmVarDecl"]
                    d = [c for c in pp[k].get("inner", []) if "kind" in c] if k < len(pp) else []
                if not d: raise Unsupported("default argument")
                a = d[0]
                saved = ex.env
                v = ex.val(a); out.append(v); continue
            pt = tname2(params[k]) if k < len(params) else ""; pd = tname(params[k]) if k < len(params) else ""
            if is_ref(pt) or is_ref(pd): out.append(ex.glv(a))
            else: out.append(ex.val(a))
        return out
    # ================================================================ statements
    def stmt(ex, n):
        k = n["kind"]; f = getattr(ex, "s_" + k, None)
        if f: return f(n)
        if k.endswith("Expr") or k.endswith("Operator") or k.endswith("Literal") or k == "ExprWithCleanups":
            ex.effect(n); return None
        raise Unsupported("statement " + k)
    def s_CompoundStmt(ex, n):
        for c in n.get("inner", []):
            o = ex.stmt(c)
            if o is not None: return o
        return None
    def s_NullStmt(ex, n): return None
    def s_DeclStmt(ex, n):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl": ex.declare(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "FunctionDecl", "StaticAssertDecl", "EmptyDecl", "CXXRecordDecl", "UsingDirectiveDecl"): 
                if d["kind"] == "FunctionDecl": ex.p.byid[ex.env.tu, d["id"]] = d; d.setdefault("_q", d["name"])
            else: raise Unsupported("declaration " + d["kind"])
        return None
    def declare(ex, d):
        t = tname2(d); td = tname(d)
        init = [c for c in d.get("inner", []) if "kind" in c and not c["kind"].endswith("Attr")]
        if d.get("storageClass") == "static": raise Unsupported("static local variable")
        if is_ref(t) or is_ref(td):
            ex.env.vars[d["id"]] = ex.glv(init[0]); return
        v = ex.init_value(td, init[0] if init else None)
        lv = ex.env.vars[d["id"]] = ex.new(v, d.get("name", "v")); ex.localtype[lv.root] = td
        if int_type(td): ex.vartype[lv.root] = int_type(td)
    def s_IfStmt(ex, n):
        inner = [c for c in n["inner"]]; i = 0
        if n.get("hasInit"): ex.stmt(inner[0]); i += 1
        if n.get("hasVar"): ex.stmt(inner[i]); i += 1
        c = ex.cond(inner[i]); th = inner[i+1]; el = inner[i+2] if n.get("hasElse") and len(inner) > i + 2 else None
        return ex.branch(c, lambda: ex.stmt(th), lambda: ex.stmt(el) if el is not None else None)
    def branch(ex, c, th, el):
        c = simp(c) if is_sym(c) else c
        if isinstance(c, bool): return th() if c else el()
        t = ex.feasible(c); f = t and ex.feasible(Not(c)) or not t
        if not t: return el()
        if not ex.feasible(Not(c)): return th()
        def run():
            if ex.choose(2) == 0: ex.assume(c); return th()
            ex.assume(Not(c)); return el()
        return ex.join(ex.explore(run))
    def s_ReturnStmt(ex, n):
        e = [c for c in n.get("inner", []) if "kind" in c]
        if not e: return ("ret", None)
        fn = ex.env.fn
        if fn is not None and is_ref(fn.type.split("(")[0]): return ("ret", ex.glv(e[0]))
        v = ex.val(e[0])
        if fn is not None:
            rt = clean(fn.type.split("(")[0])
            if is_string(rt): v = ex.coerce(v, "std::string")
        return ("ret", v)
    def s_BreakStmt(ex, n): return ("break",)
    def s_ContinueStmt(ex, n): return ("cont",)
    def s_DoStmt(ex, n):
        body, cond = n["inner"][0], n["inner"][1]
        for it in range(ex.unroll_limit):
            o = ex.stmt(body)
            if o and o[0] == "break": return None
            if o and o[0] == "ret": return o
            if not ex.decide(ex.cond(cond)): return None
        raise Unsupported("do loop without bound")
    def s_WhileStmt(ex, n):
        inner = n["inner"]
        if n.get("hasVar"): raise Unsupported("while with declaration")
        return ex.loop(n, inner[0], None, inner[-1])
    def s_ForStmt(ex, n):
        init, cv, cond, inc, body = n["inner"]
        if "kind" in cv: raise Unsupported("for with condition variable")
        if "kind" in init: ex.stmt(init)
        return ex.loop(n, cond if "kind" in cond else None, inc if "kind" in inc else None, body)
    def s_SwitchStmt(ex, n):
        inner = [c for c in n["inner"] if "kind" in c]; v = ex.val(inner[0]); body = inner[-1]
        items = []     # flat list of (labels, stmt)
        def add(c):
            if c["kind"] == "CaseStmt":
                ch = [x for x in c["inner"] if "kind" in x]; items.append(("case", ex.val(ch[0]))); add(ch[-1])
            elif c["kind"] == "DefaultStmt": items.append(("default", None)); add(c["inner"][0])
            else: items.append(("s", c))
        for c in body.get("inner", []): add(c)
        labels = [(i, x[1]) for i, x in enumerate(items) if x[0] == "case"]
        dflt = [i for i, x in enumerate(items) if x[0] == "default"]
        def run_from(i):
            for kind, s in items[i:]:
                if kind != "s": continue
                o = ex.stmt(s)
                if o is not None: return None if o[0] == "break" else o
            return None
        def go(k):
            if k == len(labels): return run_from(dflt[0]) if dflt else None
            i, lv = labels[k]
            return ex.branch(Eq(v, lv), lambda: run_from(i), lambda: go(k + 1))
        return go(0)
    # ================================================================ loops
    localtype = {}
    loop_hook = None      # loops under an invariant given by the specification
    def loop(ex, n, cond, inc, body):
        """unrolled while the guard is decided; summarised otherwise"""
        if ex.loop_hook is not None:
            r = ex.loop_hook(ex, n, cond, inc, body)
            if r is not NotImplemented: return r
        mark = None
        for it in range(ex.unroll_limit):
            here = ex.state
            c = ex.cond(cond) if cond is not None else True
            c = simp(c) if is_sym(c) else c
            if not isinstance(c, bool):
                if not ex.feasible(c): c = False
                elif not ex.feasible(Not(c)):
                    c = True
                    if mark is None: mark = (here.clone(), dict(ex.env.vars), len(ex.obls))
            if c is False: return None
            if c is not True:
                if mark is not None:        # the first iterations are decided by the facts only: summarise all of them
                    w = ex.state.writes; ex.state = mark[0]; ex.state.writes = w; ex.env.vars.clear(); ex.env.vars.update(mark[1]); del ex.obls[mark[2]:]
                return ex.summarise(n, cond, inc, body)
            o = ex.join(ex.explore(lambda: ex.stmt(body)))
            if o is not None:
                if o[0] == "break": return None
                if o[0] == "ret": return o
            if inc is not None: ex.effect(inc)
        raise Unsupported("loop not decided after %d iterations" % ex.unroll_limit)
    def s_CXXForRangeStmt(ex, n):
        inner = n["inner"]
        rng = inner[1]["inner"][0]; var = inner[-2]["inner"][0]; body = inner[-1]
        init = [c for c in rng["inner"] if "kind" in c][0]
        lv = ex.glv(init)
        v = ex.load(lv); byref = is_ref(tname2(var)) or is_ref(tname(var))
        def bind(i):
            el = lv.i(i)
            ex.env.vars[var["id"]] = el if byref else ex.new(ex.load(el), var.get("name", "e"))
        if isinstance(v, Opaque) and v.what == "initlist": v = v.data
        if isinstance(v, Vec) or (is_rope(v) and lit_of(v) is not None):
            for i in range(len(v.el) if isinstance(v, Vec) else len(lit_of(v))):
                bind(i)
                o = ex.join(ex.explore(lambda: ex.stmt(body)))
                if o is not None:
                    if o[0] == "break": return None
                    if o[0] == "ret": return o
            return None
        if isinstance(v, SVec): return ex.summarise_range(n, lv, v.n, bind, body)
        if is_rope(v): return ex.summarise_range(n, lv, ex.rlen(v), bind, body)
        raise Unsupported("range for over %r" % type(v))
    # ================================================================ expressions
    def cond(ex, n):
        v = ex.val(n); return ex.to_bool(v)
    def to_bool(ex, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, float): return v != 0
        if isinstance(v, Ptr): return Not(v.null)
        if isinstance(v, CStr): return True
        if is_sym(v):
            if z3.is_bool(v): return v
            return simp(v != 0)
        if isinstance(v, Opaque) and v.what in ("istream",): return v.data
        raise Unsupported("condition %r" % (v,))
    def to_int(ex, v):
        if isinstance(v, bool): return int(v)
        if is_sym(v) and z3.is_bool(v): return simp(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        return v
    def effect(ex, n):
        k = n["kind"]
        if k in SKIP or (k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp",)) or (k == "CStyleCastExpr" and n.get("castKind") == "ToVoid"): return ex.effect(n["inner"][0])
        if n.get("valueCategory") == "lvalue" and k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): ex.lv(n)
        elif n.get("valueCategory") == "lvalue" or n.get("type", {}).get("qualType") == "void": ex.anyv(n)
        else: ex.anyv(n)
    def anyv(ex, n):
        k = n["kind"]; f = getattr(ex, "e_" + k, None)
        if f is None: raise Unsupported("expression " + k)
        return f(n)
    def val(ex, n, want=None):
        """value of an expression (glvalues are read)"""
        k = n["kind"]
        if k in SKIP: return ex.val(n["inner"][0], want)
        if k == "InitListExpr": return ex.initlist(n, want)
        v = ex.anyv(n)
        if isinstance(v, LV): v = ex.load(v)
        return v
    def lv(ex, n):
        """storage of a glvalue expression"""
        k = n["kind"]
        if k in SKIP: return ex.lv(n["inner"][0])
        v = ex.anyv(n)
        if not isinstance(v, LV): raise Unsupported("not an lvalue: %s" % k)
        return v
    def glv(ex, n):
        """storage for binding a reference: lvalue, or a materialised temporary"""
        k = n["kind"]
        if k in SKIP: return ex.glv(n["inner"][0])
        if k == "InitListExpr": return ex.new(ex.initlist(n, tname(n)), "tmp")
        v = ex.anyv(n)
        if isinstance(v, LV): return v
        return ex.new(v, "tmp")
    # ---- wrappers
    def e_ParenExpr(ex, n): return ex.anyv(n["inner"][0])
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr
    def e_MaterializeTemporaryExpr(ex, n):
        return ex.new(ex.val(n["inner"][0], tname(n)), "tmp")
    def e_CXXDefaultInitExpr(ex, n): raise Unsupported("default member initialiser")
    def e_ImplicitValueInitExpr(ex, n): return ex.default_value(tname(n), True)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    # ---- literals
    def e_IntegerLiteral(ex, n): return int(n["value"])
    def e_CharacterLiteral(ex, n):
        v = int(n["value"]); return v - 256 if v > 127 and tname(n) == "char" else v
    def e_CXXBoolLiteralExpr(ex, n): return bool(n["value"])
    def e_CXXNullPtrLiteralExpr(ex, n): return NULL
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_FloatingLiteral(ex, n):
        f = float(n["value"]); return int(f) if f == int(f) and abs(f) < 2**53 else f
    def e_StringLiteral(ex, n):
        return CStr(rope(cstr_value(n["value"])))
    def e_CXXThisExpr(ex, n):
        if ex.env.this is None: raise Unsupported("this outside of a method")
        return Ptr(ex.env.this)
    def e_UnaryExprOrTypeTraitExpr(ex, n):
        t = clean(n.get("argType", {}).get("desugaredQualType") or n.get("argType", {}).get("qualType", "")) if "argType" in n else tname(n["inner"][0])
        m = re.match(r"(.*)\[(\d+)\]$", t)
        cnt = 1
        if m: t = m.group(1).strip(); cnt = int(m.group(2))
        it = int_type(t)
        if not it or n.get("name") != "sizeof": raise Unsupported("sizeof")
        return max(1, it[0] // 8) * cnt
    def e_PredefinedExpr(ex, n): return CStr(rope("f"))
    # ---- names
    def e_DeclRefExpr(ex, n):
        d = n["referencedDecl"]; k = d["kind"]
        if k in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            if d["id"] in ex.env.vars: return ex.env.vars[d["id"]]
            g = ex.p.globals.get(ex.env.tu, {}).get(d["id"])
            if g is None:
                node = ex.p.byid.get((ex.env.tu, d["id"]))
                if node is not None and node.get("kind") == "VarDecl": g = node
            if g is None:
                nm = d.get("name", "")
                l = ex.p.globals.get("byname", {}).get(nm, [])
                if nm in ("npos",): return ex.new((1 << 64) - 1, "npos")
                if nm in ("cout", "cerr", "clog"): return ex.new(Opaque("stdout"), "cout")
                own = [x for x in l if x[0] == ex.env.tu] or l
                if own: return ex.global_lv(*own[0])
                return ex.extern_var(nm, d)
            return ex.global_lv(ex.env.tu, g)
        if k == "EnumConstantDecl":
            if (ex.env.tu, d["id"]) in ex.p.enums: return ex.p.enums[ex.env.tu, d["id"]]
            c = ex.ext_enum(d.get("name"))
            if c is not None: return c
            raise Unsupported("enum constant %s" % d.get("name"))
        if k in ("FunctionDecl", "CXXMethodDecl"): return FnRef(d.get("name"), (ex.env.tu, d))
        if k == "NonTypeTemplateParmDecl": raise Unsupported("template parameter")
        raise Unsupported("name of kind " + k)
    def extern_var(ex, nm, d):
        if nm == "npos": return ex.new((1 << 64) - 1, "npos")
        m = {"app": 1, "ate": 2, "binary": 4, "in": 8, "out": 16, "trunc": 32}.get(nm)
        if m is not None and "openmode" in str(d.get("type", {}).get("qualType", "")).lower(): return ex.new(m, nm)
        raise Unsupported("external variable %s" % nm)
    def ext_enum(ex, nm): return {"out": 16}.get(nm)
    def e_MemberExpr(ex, n):
        b = n["inner"][0]; name = n.get("name")
        if n["referencedMemberDecl"] and "bound member function" in n.get("type", {}).get("qualType", ""): raise Unsupported("bound member")
        if n.get("isArrow"):
            p = ex.val(b); lv = ex.deref(p)
        else:
            v = ex.anyv(b)
            lv = v if isinstance(v, LV) else ex.new(v, "tmp")
        if name == "npos": return (1 << 64) - 1
        if not any(k == "i" for k, _ in lv.path) and lv.root in ex.state.store:
            o = ex._get(ex.state.store[lv.root], lv.path)
            if isinstance(o, Struct) and isinstance(o.f.get(name), LV): return o.f[name]      # reference member
        return lv.f(name)
    def deref(ex, p):
        if isinstance(p, LV): p = ex.load(p)
        if isinstance(p, It): return p.lv.i(p.idx)
        if not isinstance(p, Ptr): raise Unsupported("dereference of %r" % (type(p),))
        if p.lv is None or p.null is True:
            ex.oblige("no null pointer dereference", False); raise PathDead()
        if p.null is not False and not ex.proves(Not(p.null)):
            ex.oblige("no null pointer dereference", Not(p.null)); ex.assume(Not(p.null))
        return p.lv
    def e_ArraySubscriptExpr(ex, n):
        a, b = n["inner"]; base = ex.val(a) ; i = ex.to_int(ex.val(b))
        return ex.subscript(base, i)
    def subscript(ex, base, i):
        if isinstance(base, Ptr):
            lv = ex.deref(base)
            if lv.path and lv.path[-1][0] == "i" and isinstance(ex._container(lv), (Vec, SVec)):
                return LV(lv.root, lv.path[:-1] + (("i", simp(zint(lv.path[-1][1]) + zint(i)) if is_sym(lv.path[-1][1]) or is_sym(i) else lv.path[-1][1] + i),))
            return lv.i(i)
        if isinstance(base, CStr): return ex.new(ex.char_at(base.r, i, cstr=True), "ch")
        if isinstance(base, It): return base.lv.i(ex.iadd(base.idx, i))
        raise Unsupported("subscript of %r" % (type(base),))
    def _container(ex, lv):
        try: return ex._get(ex.state.store[lv.root], lv.path[:-1])
        except (Unsupported, KeyError): return None
    def iadd(ex, a, b):
        if not is_sym(a) and not is_sym(b): return a + b
        return simp(zint(a) + zint(b))
    # ---- casts
    def e_ImplicitCastExpr(ex, n): return ex.cast(n)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    def cast(ex, n):
        ck = n.get("castKind"); e = n["inner"][0]
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived"): return ex.anyv(e) if e["kind"] != "InitListExpr" else ex.initlist(e, tname(n))
        if ck == "LValueToRValue":
            v = ex.anyv(e)
            return ex.load(v) if isinstance(v, LV) else v
        if ck == "ArrayToPointerDecay":
            v = ex.anyv(e)
            if isinstance(v, CStr): return v
            if isinstance(v, LV):
                x = ex.load(v)
                if is_rope(x) and v.root.startswith("__lit"): return CStr(x)
                if isinstance(x, (Vec, SVec)): return Ptr(v.i(0))
                return Ptr(v)
            raise Unsupported("array decay")
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"): return ex.anyv(e)
        if ck == "ToVoid": ex.effect(e); return None
        if ck == "NullToPointer": return NULL
        if ck in ("ConstructorConversion", "UserDefinedConversion"): return ex.val(e)
        v = ex.val(e)
        if ck == "PointerToBoolean": return ex.to_bool(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"): return ex.to_bool(v)
        t = tname(n)
        if ck == "IntegralCast": return ex.int_cast(v, t)
        if ck == "IntegralToFloating":
            v = ex.to_int(v); c = cint(v)
            if c is not None: return c if abs(c) <= 2**53 else int(float(c))
            if ex.within(v, -2**53, 2**53) or ex.proves(z3.And(v >= -2**53, v <= 2**53)): return v
            return Opaque("double")
        if ck == "FloatingToIntegral": return ex.float_to_int(v, t)
        if ck == "FloatingCast": return v
        if ck == "BitCast": return v
        raise Unsupported("cast " + str(ck))
    def float_to_int(ex, v, t):
        w, s = int_type(t) or (None, None)
        if w is None: raise Unsupported("float to " + t)
        if isinstance(v, float): v = int(v)
        if isinstance(v, Opaque):
            return ex.indet(t)
        lo, hi = ex.trange(w, s); c = cint(v)
        if c is not None:
            if lo <= c <= hi: return c
            ex.assumed.add("conversion of a double outside the range of %s gives the x86 result (cvttsd2si: lowest value)" % t)
            if (w, s) == (64, True): return lo
            if (w, s) == (32, True): return lo
            return ex.indet(t)
        inr = z3.And(v >= lo, v <= hi)
        if ex.proves(inr): return v
        ex.assumed.add("conversion of a double outside the range of %s gives the x86 result (cvttsd2si: lowest value)" % t)
        if s and w >= 32: return simp(z3.If(inr, v, z3.IntVal(lo)))
        r = ex.indet(t)
        return simp(z3.If(inr, v, r))
    def int_cast(ex, v, t):
        v = ex.to_int(v)
        if strip_ref(t) == "bool": return ex.to_bool(v)
        it = int_type(t)
        if it is None:
            if ex.is_enum(t): return v
            raise Unsupported("cast to " + t)
        if isinstance(v, (Opaque, float)): raise Unsupported("cast of " + repr(v))
        return ex.wrap(v, *it)
    def is_enum(ex, t): return any(isinstance(k, str) and k.startswith(t + "::") for k in ex.p.enums) or t.startswith(("std::_Ios", "std::filesystem"))
    # ---- operators
    def e_UnaryOperator(ex, n):
        op = n["opcode"]; e = n["inner"][0]
        if op == "&":
            v = ex.anyv(e)
            if isinstance(v, FnRef): return v
            if not isinstance(v, LV): raise Unsupported("address of a temporary")
            return Ptr(v)
        if op == "*":
            p = ex.val(e)
            if isinstance(p, CStr): return ex.new(ex.char_at(p.r, 0, cstr=True), "ch")
            if isinstance(p, FnRef): return p
            return ex.deref(p)
        if op in ("++", "--"):
            lv = ex.lv(e); old = ex.load(lv); d = 1 if op == "++" else -1
            if isinstance(old, It): new = It(old.lv, ex.iadd(old.idx, d))
            elif isinstance(old, Ptr): raise Unsupported("pointer increment")
            else:
                it = int_type(tname(e))
                if it is None: raise Unsupported("increment of " + tname(e))
                new = ex.wrap(ex.iadd(ex.to_int(old), d), *it, arith=it[0] >= 32, what=op)
            ex.store(lv, new)
            return old if n.get("isPostfix") else lv
        v = ex.val(e)
        if op == "!": return Not(ex.to_bool(v))
        if op == "+": return v
        if op == "-":
            if isinstance(v, Opaque): return v
            if isinstance(v, float): return -v
            v = ex.to_int(v)
            if tname(n) in ("double", "float"): return -v if not is_sym(v) else simp(-v)
            return ex.wrap(-v if not is_sym(v) else simp(-v), *int_type(tname(n)), arith=True, what="unary -")
        if op == "~":
            v = ex.to_int(v); w, s = int_type(tname(n))
            return ex.wrap(simp(-zint(v) - 1) if is_sym(v) else -v - 1, w, s)
        raise Unsupported("unary " + op)
    def e_BinaryOperator(ex, n):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=":
            # right operand first (C++17)
            v = ex.val(b, tname(a)); lv = ex.lv(a)
            ex.store(lv, v); return lv
        if op == ",": ex.effect(a); return ex.anyv(b)
        if op in ("&&", "||"):
            x = ex.cond(a)
            if is_sym(x):
                x = simp(x)
            if isinstance(x, bool):
                if (op == "&&") != x: return x
                return ex.cond(b)
            if not ex.feasible(x): x = False
            elif not ex.feasible(Not(x)): x = True
            if isinstance(x, bool):
                if (op == "&&") != x: return x
                return ex.cond(b)
            if pure(b):
                # evaluate the right side under the left's truth, without splitting the path
                g = zbool(x if op == "&&" else Not(x)); mark = len(ex.state.pc); ex.state.pc.append(g)
                y = ex.cond(b); st = ex.state
                if not (len(st.pc) > mark and st.pc[mark] is g): raise Unsupported("paths split in a condition")
                extra = st.pc[mark+1:]; del st.pc[mark:]
                # what was learnt on the way (the condition of a path kept after a split included) holds under the left side only
                for f in extra:
                    if id(f) in ex.factset: st.pc.append(f); continue
                    st.pc.append(z3.Implies(g, f))
                return simp(z3.And(zbool(x), zbool(y))) if op == "&&" else simp(z3.Or(zbool(x), zbool(y)))
            if ex.decide(x): return ex.cond(b) if op == "&&" else True
            return False if op == "&&" else ex.cond(b)
        x = ex.val(a); y = ex.val(b)
        return ex.binop(op, x, y, tname(n), tname(a))
    def e_CompoundAssignOperator(ex, n):
        op = n["opcode"][:-1]; a, b = n["inner"]
        y = ex.val(b); lv = ex.lv(a); x = ex.load(lv)
        ct = clean(n.get("computeResultType", n["type"]).get("desugaredQualType") or n.get("computeResultType", n["type"])["qualType"])
        it = int_type(ct)
        if it and not isinstance(x, (Opaque, float)): x = ex.int_cast(x, ct)
        r = ex.binop(op, x, y, ct, ct)
        t = tname(a)
        if int_type(t): r = ex.int_cast(r, t)
        ex.store(lv, r); return lv
    def binop(ex, op, x, y, rt, at):
        if isinstance(x, It) or isinstance(y, It): return ex.it_op(op, x, y)
        if isinstance(x, Ptr) or isinstance(y, Ptr) or isinstance(x, CStr) or isinstance(y, CStr):
            if op in ("==", "!="):
                r = ex.ptr_eq(x, y); return r if op == "==" else Not(r)
            raise Unsupported("pointer arithmetic")
        if isinstance(x, Opaque) or isinstance(y, Opaque) or isinstance(x, float) or isinstance(y, float):
            return ex.float_op(op, x, y)
        x, y = ex.to_int(x), ex.to_int(y)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if not is_sym(x) and not is_sym(y): return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
            a, b = zint(x), zint(y)
            (la, ha), (lb, hb) = ex.bounds(a) if not z3.is_real(a) else (None, None), ex.bounds(b) if not z3.is_real(b) else (None, None)
            lt = True if ha is not None and lb is not None and ha < lb else None; gt = True if la is not None and hb is not None and la > hb else None
            le = True if ha is not None and lb is not None and ha <= lb else None; ge = True if la is not None and hb is not None and la >= hb else None
            if lt or gt:
                return {"==": False, "!=": True, "<": bool(lt), "<=": bool(lt), ">": bool(gt), ">=": bool(gt)}[op]
            if le and op in ("<=", ">"): return op == "<="
            if ge and op in (">=", "<"): return op == ">="
            return simp({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if rt in ("double", "float"): return ex.float_op(op, x, y)
        it = int_type(rt)
        if it is None: raise Unsupported("operator %s on %s" % (op, rt))
        w, s = it
        if op in ("+", "-", "*"):
            if not is_sym(x) and not is_sym(y): v = {"+": x + y, "-": x - y, "*": x * y}[op]
            else:
                a, b = zint(x), zint(y); v = simp(a + b if op == "+" else a - b if op == "-" else a * b)
            return ex.wrap(v, w, s, arith=True, what=op)
        if op in ("/", "%"):
            if not ex.proves(Not(Eq(y, 0))):
                ex.oblige("no division by zero", Not(Eq(y, 0))); ex.assume(Not(Eq(y, 0)))
            if not is_sym(x) and not is_sym(y):
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return ex.wrap(q, w, s, arith=True) if op == "/" else x - q * y
            cx = (ex.bounds(x)[0] if is_sym(x) else x); cy = (ex.bounds(y)[0] if is_sym(y) else y)
            if cx is not None and cx >= 0 and cy is not None and cy > 0:
                if cint(y) is not None and is_sym(x): return lindiv(x, cint(y))[0 if op == "/" else 1]
                return simp(zint(x) / zint(y)) if op == "/" else simp(zint(x) % zint(y))
            if cint(y) is not None and cint(y) > 0 and is_sym(x) and ex.proves(zint(x) >= 0): return lindiv(x, cint(y))[0 if op == "/" else 1]
            if ex.proves(z3.And(zint(x) >= 0, zint(y) > 0)): return simp(zint(x) / zint(y)) if op == "/" else simp(zint(x) % zint(y))
            a, b = zint(x), zint(y)
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return ex.wrap(simp(q), w, s, arith=True) if op == "/" else simp(a - q * b)
        if op in ("<<", ">>"):
            k = cint(y)
            if k is None:
                y = ex.concretize(y, 65); k = y
            if not 0 <= k < max(w, 32):
                ex.oblige("shift amount in range", False, "%s by %s on %d bits" % (op, k, w)); return 0
            if op == ">>":
                return x >> k if not is_sym(x) else lindiv(x, 1 << k)[0] if k else x
            v = x << k if not is_sym(x) else simp(zint(x) * (1 << k))
            if s:
                # C++17: a signed value may reach the sign bit's weight, not pass it
                if not is_sym(v):
                    if x < 0 or v >= (1 << w): ex.oblige("no overflow in signed shift", False)
                    return ex.wrap(v, w, s)
                return ex.wrap(v, w, s, arith=True, what="<<")
            return ex.wrap(v, w, s)
        if op in ("&", "|", "^"): return ex.bitop(op, x, y, w, s)
        raise Unsupported("operator " + op)
    def bitop(ex, op, x, y, w, s):
        if not is_sym(x) and not is_sym(y):
            r = {"&": x & y, "|": x | y, "^": x ^ y}[op]; return r
        if is_sym(y): x, y = (y, x) if not is_sym(x) else (x, y)
        if is_sym(y): raise Unsupported("bit operation on two unknown values")
        m = y & ((1 << w) - 1); lo = ex.bounds(x)[0]
        u = x if lo is not None and lo >= 0 else simp(x % (1 << w))
        parts = []; b = 0
        while b < w:
            if m >> b & 1:
                e = b
                while e < w and m >> e & 1: e += 1
                h = ex.bounds(u)[1] if is_sym(u) else u
                t = u if b == 0 else simp(zint(u) / (1 << b))
                if h is None or h >= (1 << e): t = simp(zint(t) % (1 << (e - b)))
                parts.append(t if b == 0 else simp(zint(t) * (1 << b))); b = e
            else: b += 1
        a = 0
        for t in parts: a = ex.iadd(a, t)
        if op == "&": r = a
        elif op == "|": r = simp(zint(u) + m - zint(a))
        else: r = simp(zint(u) + m - 2 * zint(a))
        if s: return ex.wrap(r, w, s)
        return r
    def concretize(ex, v, limit):
        """split the path on the values of a small integer"""
        lo, hi = ex.bounds(v)
        if lo is None or hi is None or hi - lo > 300: raise Unsupported("unknown value needed")
        vals = [k for k in range(lo, hi + 1) if ex.feasible(Eq(v, k))]
        if not vals: raise PathDead()
        if len(vals) > limit: raise Unsupported("too many values")
        k = vals[ex.choose(len(vals))]; ex.assume(Eq(v, k)); return k
    def ptr_eq(ex, x, y):
        if isinstance(x, CStr) or isinstance(y, CStr):
            if isinstance(x, Ptr) and x.null is True or isinstance(y, Ptr) and y.null is True: return False
            raise Unsupported("pointer comparison")
        if isinstance(x, int) and x == 0: x = NULL
        if isinstance(y, int) and y == 0: y = NULL
        if y.lv is None: return x.null if x.lv is not None else True
        if x.lv is None: return y.null
        if x.lv.root != y.lv.root or len(x.lv.path) != len(y.lv.path): 
            return And(x.null, y.null)
        c = True
        for (k1, a), (k2, b) in zip(x.lv.path, y.lv.path): c = And(c, Eq(a, b)) if k1 == "i" else And(c, a == b)
        return Or(And(x.null, y.null), And(Not(x.null), Not(y.null), c))
    def it_op(ex, op, x, y):
        if isinstance(x, It) and isinstance(y, It):
            if x.lv.key() != y.lv.key():
                raise Unsupported("iterators of different containers")
            if op == "==": return Eq(x.idx, y.idx)
            if op == "!=": return Not(Eq(x.idx, y.idx))
            if op == "-": return ex.iadd(x.idx, -y.idx if not is_sym(y.idx) else simp(-y.idx))
            return ex.binop(op, x.idx, y.idx, "long", "long")
        if isinstance(x, It) and op == "+": return It(x.lv, ex.iadd(x.idx, y))
        if isinstance(x, It) and op == "-": return It(x.lv, ex.iadd(x.idx, -y if not is_sym(y) else simp(-y)))
        raise Unsupported("iterator operator " + op)
    def float_op(ex, op, x, y):
        cmpo = ("==", "!=", "<", ">", "<=", ">=")
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in cmpo:
                a, b = ex.real(x), ex.real(y)
                if a is None or b is None: return fresh("fcmp", "bool")
                return simp({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
            return Opaque("double")
        if is_sym(x) or is_sym(y):
            a, b = zint(x) if not isinstance(x, float) else None, zint(y) if not isinstance(y, float) else None
            if (a is None) != (b is None) and op in cmpo:
                # an integer against a fraction
                c = x if a is None else y
                if c == c and abs(c) < 2**62:
                    fl = int(c // 1); v = b if a is None else a; o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if a is None else op
                    return {"==": False, "!=": True}[o] if o in ("==", "!=") else simp(v <= fl if o in ("<", "<=") else v > fl)
            if a is None or b is None:
                return fresh("fcmp", "bool") if op in cmpo else Opaque("double")
            if op in cmpo: return simp({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
            if op in ("+", "-", "*"):
                v = simp(a + b if op == "+" else a - b if op == "-" else a * b)
                if ex.proves(z3.And(v >= -2**53, v <= 2**53)): return v
            return Opaque("double")
        if op in cmpo: return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        try: r = {"+": lambda: float(x) + float(y), "-": lambda: float(x) - float(y), "*": lambda: float(x) * float(y), "/": lambda: float(x) / float(y)}[op]()
        except (ZeroDivisionError, KeyError, OverflowError): return Opaque("double")
        return int(r) if r == r and abs(r) != float("inf") and r == int(r) else r
    def real(ex, x):
        """the real number a (finite) double stands for; None: not known to be the same one each time"""
        if not isinstance(x, Opaque):
            if isinstance(x, float): return None if x != x or abs(x) == float("inf") else z3.RealVal(str(fractions.Fraction(x)))
            return z3.ToReal(zint(x)) if is_sym(x) else z3.RealVal(int(x))
        if x.what != "double" or x.data is None: return None
        if isinstance(x.data, tuple) and len(x.data) == 2 and x.data[0] == "abs":
            a = ex.real(Opaque("double", x.data[1]) if isinstance(x.data[1], tuple) else x.data[1])
            return None if a is None else z3.If(a >= 0, a, -a)
        k = ex.dkey(x)
        if k is None: return None
        nm, args = "dbl:" + k[0], k[1]
        return z3.Function(nm, *[z3.IntSort() for _ in args], z3.RealSort())(*[zint(a) for a in args]) if args else z3.Real(nm)
    def dkey(ex, x):
        """name and arguments of a number the verifier does not look into"""
        def flat(d):
            if isinstance(d, tuple):
                q = [flat(y) for y in d]; return "(" + ",".join(n for n, a in q) + ")", tuple(z for n, a in q for z in a)
            return ("_", (d,)) if is_sym(d) else (str(d), ())
        if isinstance(x, Opaque): return None if x.data is None or x.what != "double" else flat(x.data)
        return flat(x) if not isinstance(x, float) else (repr(x), ())
    def e_ConditionalOperator(ex, n):
        c, a, b = n["inner"]; x = ex.cond(c)
        if n.get("valueCategory") == "lvalue": return ex.anyv(a) if ex.decide(x) else ex.anyv(b)
        x = simp(x) if is_sym(x) else x
        if isinstance(x, bool): return ex.val(a if x else b)
        return ex.cond_value([(x, lambda: ex.val(a)), (Not(x), lambda: ex.val(b))])
    # ---- objects
    def initlist(ex, n, want=None):
        t = strip_ref(want or tname(n)); el = [c for c in n.get("inner", []) if "kind" in c]
        if n.get("array_filler"):
            el = [c for c in n["array_filler"] if c.get("kind") != "ImplicitValueInitExpr"]
        t0 = strip_ref(tname(n))
        if t0 not in ("void", "") and t0 != t and (ex.record(t0) is not None or t0.endswith("]")): t = t0
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            et = m.group(1).strip(); v = [ex.init_value(et, c) for c in el]
            if et == "char": return rope(*[chr(x & 255) for x in v]) if any(v) else EMPTY
            while len(v) < int(m.group(2)): v.append(ex.default_value(et, True))
            return Vec(v, et)
        if is_vector(t): return Vec([ex.val(c) for c in el], t)
        if is_string(t): return EMPTY if not el else ex.coerce(ex.val(el[0]), t)
        if int_type(t) or t in ("double", "float") or t.endswith("*"): return ex.val(el[0]) if el else ex.default_value(t, True)
        m = re.match(r"(?:std::)?pair<(.*)>$", t)
        if m:
            if not el: return ex.default_value(t, True)
            ta, tb = split_targs(m.group(1)); return Struct("pair", {"first": ex.coerce(ex.val(el[0]), ta), "second": ex.coerce(ex.val(el[1]), tb)})
        rec = ex.record(t)
        if rec is not None:
            f = {}
            for k, (name, fty, node) in enumerate(rec):
                if k < len(el): f[name] = ex.init_value(fty, el[k]) if el[k]["kind"] != "CXXDefaultInitExpr" else ex.default_value(t, True).get(name)
                else: f[name] = ex.default_value(fty, True)
            return Struct(t, f)
        if len(el) == 1: return ex.val(el[0])
        raise Unsupported("initialiser list of " + t)
    def e_InitListExpr(ex, n): return ex.initlist(n)
    def e_CXXStdInitializerListExpr(ex, n):
        v = ex.val(n["inner"][0])
        if isinstance(v, Ptr): v = ex.load(LV(v.lv.root, v.lv.path[:-1]))
        return v
    def e_CXXNewExpr(ex, n):
        if n.get("isArray"): raise Unsupported("array new")
        t = tname(n).rstrip("*").strip(); inner = [c for c in n.get("inner", []) if "kind" in c]
        v = ex.val(inner[0], t) if inner and inner[0]["kind"] not in ("CXXConstructExpr",) else ex.default_value(t, zero=False)
        if inner and inner[0]["kind"] == "CXXConstructExpr" and len(inner[0].get("inner", [])) > 0: v = ex.val(inner[0])
        return Ptr(ex.new(v, "heap"))
    def e_CXXDeleteExpr(ex, n):
        p = ex.val(n["inner"][0]); ex.on_delete(p); return None
    def on_delete(ex, p): pass
    def e_LambdaExpr(ex, n): return Lambda(n, ex.env, ex.env.this, ex.env.tu)
    def call_lambda(ex, lam, args):
        n = lam.node
        op = None
        def find(x):
            nonlocal op
            for c in x.get("inner", []):
                if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()": op = op or c
                elif c.get("kind") == "CXXRecordDecl": find(c)
        find(n)
        if op is None: raise Unsupported("lambda")
        params = [c for c in op.get("inner", []) if c["kind"] == "ParmVarDecl"]
        body = next((c for c in op.get("inner", []) if c["kind"] == "CompoundStmt"), None) or n["inner"][-1]
        def run():
            saved = ex.env; e = Env(lam.tu, lam.this, None, None); e.vars = dict(lam.env.vars); ex.env = e
            try:
                for p, a in zip(params, args): ex.bind_param(p, a)
                o = ex.stmt(body)
                return o or ("ret", None)
            finally: ex.env = saved
        o = ex.join(ex.explore(run))
        return o[1] if len(o) > 1 else None
    def e_CXXConstructExpr(ex, n):
        t = strip_ref(tname(n)); args = [c for c in n.get("inner", []) if "kind" in c and c["kind"] != "CXXDefaultArgExpr"]
        return ex.construct(t, args, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    # ---- calls
    def callee(ex, n):
        e = n
        while e["kind"] in ("ImplicitCastExpr", "ParenExpr"): e = e["inner"][0]
        return e
    def e_CallExpr(ex, n):
        c = ex.callee(n["inner"][0]); argn = n["inner"][1:]
        if c["kind"] == "DeclRefExpr" and c["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            d = c["referencedDecl"]
            f = ex.find_def(ex.env.tu, d)
            if f is not None:
                decl = ex.p.byid.get((ex.env.tu, d["id"]))
                np = len(f.params)
                args = ex.eval_args(ex.env.tu, f.params, argn[:np], decl)
                va = [ex.val(a) for a in argn[np:]] if len(argn) > np else []
                if np and "..." in f.type: return ex.call_def(f, args, None, [(v, tname(a)) for v, a in zip(va, argn[np:])])
                return ex.call_def(f, args)
            if (ex.env.tu, d["id"]) in ex.p.byid and ex.p.byid[ex.env.tu, d["id"]].get("_q") and ex.p.byid[ex.env.tu, d["id"]].get("storageClass") != "extern":
                pass
            return ex.builtin(d["name"], argn, n)
        v = ex.val(n["inner"][0])
        if isinstance(v, Lambda): return ex.call_lambda(v, [ex.glv(a) for a in argn])
        if isinstance(v, FnRef): return ex.call_fnref(v, [ex.glv(a) for a in argn])
        raise Unsupported("call through %r" % (v,))
    def call_fnref(ex, v, args):
        tu, d = v.node; f = ex.find_def(tu, d)
        if f is not None: return ex.call_def(f, args)
        return ex.builtin_v(v.q, [ex.load(a) if isinstance(a, LV) else a for a in args])
    def e_CXXMemberCallExpr(ex, n):
        m = n["inner"][0]; argn = n["inner"][1:]
        while m["kind"] == "ParenExpr": m = m["inner"][0]
        if m["kind"] != "MemberExpr": raise Unsupported("member call through " + m["kind"])
        b = m["inner"][0]; name = m.get("name"); 
        bt = tname(b)
        if m.get("isArrow"):
            p = ex.val(b)
            obj = ex.deref(p)
            bt = bt.rstrip().rstrip("*").strip() if not isinstance(p, It) else bt
        else:
            v = ex.anyv(b); obj = v if isinstance(v, LV) else ex.new(v, "tmp")
        mid = m.get("referencedMemberDecl")
        d = ex.p.byid.get((ex.env.tu, mid)) if mid else None
        if d is not None:
            f = ex.find_def(ex.env.tu, d)
            if f is None: raise Unsupported("method %s without body" % name)
            np = len(f.params); args = ex.eval_args(ex.env.tu, f.params, argn[:np], d)
            if "..." in f.type:
                return ex.call_def(f, args, obj, [(ex.val(a), tname(a)) for a in argn[np:]])
            return ex.call_def(f, args, obj)
        return ex.method(obj, strip_ref(bt), name, argn, n)
    def e_CXXOperatorCallExpr(ex, n):
        c = ex.callee(n["inner"][0]); argn = n["inner"][1:]
        name = c["referencedDecl"]["name"] if c["kind"] == "DeclRefExpr" else None
        if name is None: raise Unsupported("operator call")
        d = ex.p.byid.get((ex.env.tu, c["referencedDecl"]["id"]))
        if d is not None and d.get("isImplicit") and name == "operator=": return ex.operator("=", argn, n)
        if d is not None and d.get("_q"):
            f = ex.find_def(ex.env.tu, d)
            if f is not None: return ex.call_def(f, ex.eval_args(ex.env.tu, f.params, argn[1:], d), ex.glv(argn[0]))
        return ex.operator(name[8:], argn, n)

def lindiv(x, k):
    """quotient and remainder of a linear term by a positive constant, terms divisible by it taken out"""
    x = z3.simplify(x, som=True); terms = list(x.children()) if z3.is_add(x) else [x]
    q, rest, c = [], [], 0
    for t in terms:
        if isinstance(t, z3.IntNumRef): c += t.as_long()
        elif z3.is_mul(t) and isinstance(t.arg(0), z3.IntNumRef):
            m = t.arg(0).as_long(); u = t.arg(1) if t.num_args() == 2 else z3.Product(*t.children()[1:])
            if m // k: q.append((m // k) * u)
            if m % k: rest.append((m % k) * u)
        elif k == 1: q.append(t)
        else: rest.append(t)
    q0 = c // k; c -= q0 * k
    rem = z3.IntVal(c) if not rest else z3.Sum(rest) + c
    qq = z3.Sum(q) + q0 if q else z3.IntVal(q0)
    if not rest: return simp(qq), simp(rem)
    return simp(qq + rem / k), simp(rem % k)

def split_targs(s):
    d = 0; out = []; cur = ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip()); return out

def pure(n):
    """no side effects in this expression (by kind)"""
    k = n.get("kind")
    if k in ("CXXNewExpr", "CXXDeleteExpr", "CompoundAssignOperator", "LambdaExpr"): return False
    if k == "BinaryOperator" and n.get("opcode") == "=": return False
    if k == "UnaryOperator" and n.get("opcode") in ("++", "--"): return False
    if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
        nm = callee_name(n)
        if nm not in PURE: return False
    return all(pure(c) for c in n.get("inner", []) if "kind" in c)
PURE = {"size", "length", "empty", "find", "find_first_of", "end", "begin", "cend", "cbegin", "c_str", "back", "front", "operator==", "operator!=", "operator[]", "at", "is_first_valid", "is_nonfirst_valid", "in_range", "abs", "fabs",
        "operator+", "isalpha", "isdigit", "isspace", "isalnum", "count", "operator<", "operator*", "operator->", "compare", "substr"}
def callee_name(n):
    e = n["inner"][0]
    while e["kind"] in ("ImplicitCastExpr", "ParenExpr"): e = e["inner"][0]
    if e["kind"] == "MemberExpr": return e.get("name")
    if e["kind"] == "DeclRefExpr": return e["referencedDecl"]["name"]
    return None

_ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "?": "?"}
def cstr_value(s):
    """text of a string literal as clang prints it"""
    i = s.index('"') + 1; out = []; end = s.rindex('"')
    while i < end:
        c = s[i]
        if c == "\\":
            i += 1; c = s[i]
            if c == "x":
                j = i + 1
                while j < end and s[j] in "0123456789abcdefABCDEF": j += 1
                out.append(chr(int(s[i+1:j], 16) & 255)); i = j; continue
            if c in "01234567":
                j = i
                while j < end and j < i + 3 and s[j] in "01234567": j += 1
                out.append(chr(int(s[i:j], 8) & 255)); i = j; continue
            out.append(_ESC.get(c, c)); i += 1
        else: out.append(c); i += 1
    return "".join(out)
