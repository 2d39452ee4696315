"""Symbolic executor over clang's AST: paths, merging, loops, contracts, obligations."""
import re, time, itertools, contextlib
import z3
from .terms import *

class PathDead(Exception): pass
class CannotMerge(Exception): pass

class State:
    __slots__ = ("store", "pc", "files", "writes")
    def __init__(s, store=None, pc=None, files=None):
        s.store = store or {}; s.pc = pc or []; s.files = files or []; s.writes = None
    def clone(s):
        t = State(dict(s.store), list(s.pc), list(s.files)); t.writes = set(s.writes) if s.writes is not None else None
        return t

class Frame:
    def __init__(f, prefix): f.prefix = prefix; f.choices = []; f.alts = []

class Obligation:
    def __init__(o, name, status, detail="", t=0.0, solver="z3", model=None):
        o.name = name; o.status = status; o.detail = detail; o.t = t; o.solver = solver; o.model = model

INT_TYPES = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
  "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "bool": (1, False),
  "int8_t": (8, True), "uint8_t": (8, False), "int16_t": (16, True), "uint16_t": (16, False), "int32_t": (32, True), "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False),
  "size_t": (64, False), "size_type": (64, False), "std::size_t": (64, False), "difference_type": (64, True), "__mode_t": (32, False), "unsigned": (32, False), "time_t": (64, True), "std::time_t": (64, True),
  "SigType": (32, True), "BitLayout": (32, True), "MultiplexType": (32, True), "CommentTarget": (32, True), "AttributeType": (32, True), "ConditionalType": (32, True)}

def clean(t):
    t = t.replace("VERIF_NS::", "").replace("(anonymous namespace)::", "")
    t = re.sub(r"\b(const|volatile|struct|class|enum)\b\s*", "", t)
    t = t.replace("std::__cxx11::", "std::")
    return t.strip()
def tname(node_or_type):
    t = node_or_type.get("type", node_or_type)
    return clean(t.get("desugaredQualType") or t.get("qualType", ""))
def tname2(node_or_type):
    t = node_or_type.get("type", node_or_type)
    return clean(t.get("qualType", ""))
def strip_ref(t): 
    t = t.strip()
    while t.endswith("&"): t = t[:-1].strip()
    return t
def is_ref(t): return t.strip().endswith("&")
def is_string(t):
    t = strip_ref(t)
    return t in ("std::string", "string", "std::basic_string<char>", "basic_string<char>") or t.startswith("std::basic_string<char") 
def is_vector(t): return strip_ref(t).startswith(("std::vector<", "vector<"))
def int_type(t):
    t = strip_ref(t)
    return INT_TYPES.get(t)

def has_quant(f):
    seen = set(); todo = [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): return True
        todo += t.children()
    return False
class Exec:
    def __init__(ex, prog, timeout=8000):
        ex.p = prog; ex.vartype = {}; ex.state = State(); ex.frame = None; ex.obls = []; ex.contracts = {}; ex.used_contracts = set()
        ex.solver = z3.Solver(); ex.solver.set("timeout", timeout); ex.asserted = []; ex.timeout = timeout
        ex.vb = {}; ex.bmemo = {}; ex.solver_time = 0.0; ex.queries = 0; ex.inlined = set(); ex.assumed = set()
        ex.nroot = 0; ex.globals = {}; ex.depth = 0; ex.current = None; ex.builtins_used = set(); ex.unroll_limit = 400
        ex.callstack = []; ex.deadline = None; ex.loop_hooks = {}; ex.prefix = ""; ex.noub = False; ex.qcache = {}
        ex.on_file = None; ex.factset = {}; ex.factbyid = {}; ex.rangefact = {}; ex.rangekeep = []
    # ------------------------------------------------------------ solver
    def _sync(ex):
        pc = ex.state.pc; a = ex.asserted
        i = 0
        while i < len(a) and i < len(pc) and a[i] is pc[i]: i += 1
        if len(a) > i:
            ex.solver.pop(len(a) - i); del a[i:]
        for f in pc[i:]:
            ex.solver.push(); ex.solver.add(f); a.append(f)
    def check(ex, *extra):
        """satisfiability of pc and extra: 'sat' / 'unsat' / 'unknown'"""
        if ex.deadline and time.time() > ex.deadline: raise Unsupported("time limit of this function reached")
        ex._sync(); t = time.time()
        ex.solver.push()
        for f in extra: ex.solver.add(zbool(f))
        r = ex.solver.check()
        ex.last_model = ex.solver.model() if r == z3.sat else None
        ex.solver.pop(); ex.solver_time += time.time() - t; ex.queries += 1
        return str(r)
    def fact(ex, f):
        """a fact about the symbols of the model (true on every path): kept with the path, no part of branch conditions"""
        k = f.get_id(); f0 = ex.factbyid.get(k)
        if f0 is None or not z3.eq(f0, f): ex.factbyid[k] = f; ex.factset[id(f)] = f; f0 = f
        if not any(x is f0 for x in ex.state.pc): ex.state.pc.append(f0)
    def feasible(ex, c):
        c = simp(c) if is_sym(c) else c
        if isinstance(c, bool): return c
        if not ex.quantified(): return ex.check(c) != "unsat"
        # quantified facts: instances by patterns first (an unknown answer keeps the path)
        ex.solver.set("smt.mbqi", False)
        try: r = ex.check(c)
        finally: ex.solver.set("smt.mbqi", True)
        return r != "unsat"
    qmemo = {}
    def quantified(ex):
        m = ex.qmemo
        for f in ex.state.pc:
            k = id(f); e = m.get(k)
            if e is None or e[0] is not f: e = m[k] = (f, has_quant(f))
            if e[1]: return True
        return False
    def proves(ex, c):
        c = simp(c) if is_sym(c) else c
        if isinstance(c, bool): return c
        return ex.check(Not(c)) == "unsat"
    def assume(ex, c):
        c = simp(c) if is_sym(c) else c
        if c is True: return
        if c is False: raise PathDead()
        ex.state.pc.append(c)
    step_mode = False       # inductive steps: the state before the step is arbitrary on purpose
    def oblige(ex, name, c, detail=""):
        """a proof obligation at the current point: pc implies c"""
        c = simp(c) if is_sym(c) else c
        t = time.time(); nm = ex.prefix + name
        if c is True: st = "unsat"
        elif c is False: st = ex.check()
        else: st = ex.check(Not(c))
        if st == "sat" and not ex.step_mode and (getattr(ex, "weak", False) or ex.havocked(c)): st = "unknown"       # the state is known too little for a definite answer
        o = Obligation(nm, {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[st], detail, time.time() - t)
        if st == "sat":
            m = ex.last_model
            o.model = {str(d): str(m[d])[:200] for d in m.decls()[:60]} if m is not None else {}
            o.detail = (detail + " | violated: %s" % (str(c)[:600],)).strip()
            o.raw = m
        ex.obls.append(o)
        return st == "unsat"
    def havocked(ex, c):
        def h(t, seen):
            if t.get_id() in seen: return False
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and "havoc" in t.decl().name(): return True
            return any(h(x, seen) for x in t.children())
        seen = set()
        return is_sym(c) and h(c, seen) or any(h(f, seen) for f in ex.state.pc if id(f) not in ex.factset)
    @contextlib.contextmanager
    def under(ex, c):
        """the case of condition c (nothing when it cannot happen): yields whether it can"""
        mark = len(ex.state.pc); ex.state.pc.append(zbool(simp(c) if is_sym(c) else c))
        try: yield ex.check() != "unsat"
        finally: del ex.state.pc[mark:]
    def decide(ex, c):
        if is_sym(c): c = simp(c)
        if isinstance(c, bool): return c
        if isinstance(c, int): return c != 0
        t = ex.feasible(c)
        if not t: return False
        f = ex.feasible(Not(c))
        if not f: return True
        k = ex.choose(2)
        ex.assume(c if k == 0 else Not(c))
        return k == 0
    def choose(ex, n):
        if n == 1: return 0
        fr = ex.frame
        if fr is None: raise AssertionError("case split outside of an exploration")
        pos = len(fr.choices)
        if pos < len(fr.prefix): k = fr.prefix[pos]; alts = []
        else: k = 0; alts = list(range(1, n))
        fr.choices.append(k); fr.alts.append(alts)
        return k
    def explore(ex, thunk, limit=3000):
        base = ex.state; saved = ex.frame; results = []; work = [[]]
        try:
            while work:
                prefix = work.pop(); ex.state = base.clone(); ex.frame = Frame(prefix)
                try: out = thunk()
                except PathDead: out = None; dead = True
                else: dead = False
                fr = ex.frame
                for j in range(len(prefix), len(fr.choices)):
                    for a in fr.alts[j]: work.append(fr.choices[:j] + [a])
                if not dead: results.append((ex.state, out))
                if len(results) > limit: raise Unsupported("too many paths")
        finally:
            ex.frame = saved; ex.state = base
        return results
    # ------------------------------------------------------------ values
    def bounds(ex, e):
        """sound interval of a z3 Int term (None = unbounded)"""
        c = cint(e)
        if c is not None: return (c, c)
        k = e.get_id()
        if k in ex.bmemo and ex.bmemo[k][0] is e or (k in ex.bmemo and z3.eq(ex.bmemo[k][0], e)): return ex.bmemo[k][1]
        r = ex._bounds(e); ex.bmemo[k] = (e, r); return r
    def _bounds(ex, e):
        d = e.decl().kind(); ch = e.children()
        if d == z3.Z3_OP_UNINTERPRETED:
            return ex.vb.get(e.decl().name(), (None, None))
        if d == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                l, h = ex.bounds(c)
                lo = None if lo is None or l is None else lo + l; hi = None if hi is None or h is None else hi + h
            return lo, hi
        if d == z3.Z3_OP_SUB:
            lo, hi = ex.bounds(ch[0])
            for c in ch[1:]:
                l, h = ex.bounds(c)
                lo = None if lo is None or h is None else lo - h; hi = None if hi is None or l is None else hi - l
            return lo, hi
        if d == z3.Z3_OP_UMINUS:
            l, h = ex.bounds(ch[0]); return (None if h is None else -h, None if l is None else -l)
        if d == z3.Z3_OP_MUL:
            lo, hi = ex.bounds(ch[0])
            for c in ch[1:]:
                l, h = ex.bounds(c)
                if None in (lo, hi, l, h):
                    if cint(ch[0]) is not None and len(ch) == 2:
                        k = cint(ch[0]); a, b = (l, h) if k >= 0 else (h, l)
                        return (None if a is None else a * k, None if b is None else b * k)
                    return None, None
                v = [lo*l, lo*h, hi*l, hi*h]; lo, hi = min(v), max(v)
            return lo, hi
        if d == z3.Z3_OP_IDIV:
            l, h = ex.bounds(ch[0]); k = cint(ch[1])
            if k and k > 0: return (None if l is None else l // k, None if h is None else h // k)
            return None, None
        if d == z3.Z3_OP_MOD:
            k = cint(ch[1])
            if k and k > 0:
                l, h = ex.bounds(ch[0])
                if l is not None and h is not None and l >= 0 and h < k: return l, h
                return 0, k - 1
            return None, None
        if d == z3.Z3_OP_ITE:
            a, b = ex.bounds(ch[1]), ex.bounds(ch[2])
            return (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
        if d == z3.Z3_OP_TO_INT or d == z3.Z3_OP_TO_REAL: return None, None
        return None, None
    def within(ex, e, lo, hi):
        l, h = ex.bounds(e)
        return l is not None and h is not None and l >= lo and h <= hi
    def trange(ex, w, s):
        return (-(1 << (w-1)), (1 << (w-1)) - 1) if s else (0, (1 << w) - 1)
    def wrap(ex, e, w, s, arith=False, what=""):
        """value e converted to an integer type of w bits; arith: result of an arithmetic operation"""
        lo, hi = ex.trange(w, s); c = cint(e)
        if c is not None:
            if lo <= c <= hi: return c
            if arith and s: ex.oblige("no signed overflow " + what, False)
            c &= (1 << w) - 1
            return c - (1 << w) if s and c >> (w-1) else c
        e = simp(e)
        if not is_sym(e): return ex.wrap(e, w, s, arith, what)
        if ex.within(e, lo, hi): return e
        inr = z3.And(e >= lo, e <= hi)
        if ex.check(z3.Not(inr)) == "unsat": return e
        if arith and s:
            if not ex.oblige("no signed overflow " + what, inr): ex.assume(inr)
            return e
        m = e % (1 << w)
        if not s: return simp(m)
        return simp(z3.If(m >= (1 << (w-1)), m - (1 << w), m))
    def sym_int(ex, name, ty=None, lo=None, hi=None, args=()):
        it = int_type(ty) if ty else None
        if it:
            l, h = ex.trange(*it); lo = l if lo is None else lo; hi = h if hi is None else hi
        if args:
            v = z3.Function(name, *([z3.IntSort()] * (len(args) + 1)))(*[zint(a) for a in args])
        else: v = z3.Int(name)
        ex.vb[name] = (lo, hi)
        f = []
        if lo is not None: f.append(v >= lo)
        if hi is not None: f.append(v <= hi)
        if f: ex.fact(z3.And(*f))
        return v
    def assume_bound(ex, v, lo, hi):
        if lo is not None: ex.state.pc.append(v >= lo)
        if hi is not None: ex.state.pc.append(v <= hi)
    # ------------------------------------------------------------ store
    def new(ex, val, tag="t"):
        ex.nroot += 1; r = "%s#%d" % (tag, ex.nroot)
        ex.state.store[r] = val
        return LV(r)
    def load(ex, lv):
        if lv.root not in ex.state.store: raise Unsupported("read of unknown object %s" % lv)
        v = ex.state.store[lv.root]
        return ex._get(v, lv.path)
    def _get(ex, v, path):
        for k, a in path:
            if k == "f":
                if isinstance(v, Struct): v = v.get(a)
                else: raise Unsupported("field %s of %r" % (a, type(v)))
            else: v = ex.index(v, a)
        if is_sym(v): ex.known_range(v)
        return v
    def known_range(ex, v):
        """the range of a symbol belongs to every path that reads it (fields of arbitrary objects are created when first read)"""
        k = v.get_id(); f = ex.rangefact.get(k)
        if f is None:
            f = False
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.sort() == z3.IntSort():
                lo, hi = ex.vb.get(v.decl().name(), (None, None))
                if lo is not None and hi is not None and not (z3.is_app(v) and any(z3.is_var(c) for c in v.children())): f = z3.And(v >= lo, v <= hi)
            ex.rangefact[k] = f; ex.rangekeep.append(v)
        if f is not False: ex.fact(f)
    def index(ex, v, i):
        if isinstance(v, Vec):
            c = cint(i)
            if c is not None:
                if not 0 <= c < len(v.el):
                    ex.oblige("index in bounds", False, "index %d of %d" % (c, len(v.el))); raise PathDead()
                return v.el[c]
            if not len(v.el): ex.oblige("index in bounds", False); raise PathDead()
            if not ex.oblige("index in bounds", z3.And(i >= 0, i < len(v.el))): ex.assume(z3.And(i >= 0, i < len(v.el)))
            r = v.el[-1]
            for k in range(len(v.el) - 2, -1, -1): r = ex.merge(simp(i == k), v.el[k], r)
            return r
        if isinstance(v, SVec):
            inb = And(simp(zint(i) >= 0), simp(zint(i) < zint(v.n)))
            if inb is not True and not ex.proves(inb):
                ex.oblige("index in bounds", inb, "%s[%s]" % (v.name, i)); ex.assume(inb)
            return ex.known_part(ex.svec_read(v, i), i)
        if is_rope(v): return ex.char_at(v, i)
        if isinstance(v, CStr): return ex.char_at(v.r, i, cstr=True)
        raise Unsupported("index of %r" % (type(v),))
    def svec_read(ex, v, i):
        def go(k):
            if k < 0: return v.elem(i)
            e = v.log[k]
            if e[0] == "set":
                c = Eq(i, e[1])
                if not isinstance(c, bool):
                    if ex.proves(c): c = True
                    elif ex.proves(Not(c)): c = False
                if c is True: return e[2]
                if c is False: return go(k - 1)
                return ex.merge(c, e[2], go(k - 1))
            if e[0] == "each":       # ("each", lo, hi, fn): elements lo<=j<hi were replaced by fn(j, old)
                _, lo, hi, fn = e
                c = And(simp(zint(i) >= zint(lo)), simp(zint(i) < zint(hi)))
                if not isinstance(c, bool):
                    if ex.proves(c): c = True
                    elif ex.proves(Not(c)): c = False
                old = go(k - 1)
                if c is False: return old
                new = fn(i, old)
                return new if c is True else ex.merge(c, new, old)
            raise Unsupported("log")
        return go(len(v.log) - 1)
    def known_part(ex, r, i):
        """alternatives already decided are taken out (small texts only, the size of a merged text can be exponential)"""
        if not is_rope(r) or not is_sym(i): return r
        def size(t, left):
            for g in t:
                if isinstance(g, Cho):
                    left = size(g.b, size(g.a, left - 1))
                if left < 0: return -1
            return left
        return ex.resolve(r) if any(isinstance(g, Cho) for g in r) and size(r, 12) >= 0 else r
    def store(ex, lv, val):
        if ex.state.writes is not None: ex.state.writes.add(lv.key())
        if not lv.path:
            ex.state.store[lv.root] = val; return
        if lv.root not in ex.state.store: raise Unsupported("write to unknown object %s" % lv)
        ex.state.store[lv.root] = ex._set(ex.state.store[lv.root], lv.path, val)
    def _set(ex, v, path, val):
        if not path: return val
        k, a = path[0]
        if k == "f":
            if not isinstance(v, Struct): raise Unsupported("field write in %r" % (type(v),))
            if len(path) == 1: return v.set(a, val)
            return v.set(a, ex._set(v.get(a), path[1:], val))
        if isinstance(v, Vec):
            c = cint(a)
            if c is None:
                if not ex.oblige("index in bounds (write)", z3.And(a >= 0, a < len(v.el))): ex.assume(z3.And(a >= 0, a < len(v.el)))
                return Vec([ex.merge(simp(a == j), ex._set(e, path[1:], val), e) for j, e in enumerate(v.el)], v.ety)
            if not 0 <= c < len(v.el):
                ex.oblige("index in bounds (write)", False, "index %d of %d" % (c, len(v.el))); raise PathDead()
            el = list(v.el); el[c] = ex._set(el[c], path[1:], val)
            return Vec(el, v.ety)
        if isinstance(v, SVec):
            inb = And(simp(zint(a) >= 0), simp(zint(a) < zint(v.n)))
            if inb is not True and not ex.proves(inb):
                ex.oblige("index in bounds (write)", inb); ex.assume(inb)
            new = val if len(path) == 1 else ex._set(ex.svec_read(v, a), path[1:], val)
            return SVec(v.n, v.elem, v.log + (("set", a, new),), v.ety, v.name)
        if is_rope(v):
            s = lit_of(v); c = cint(a); x = cint(val)
            if s is not None and c is not None and x is not None and 0 <= c < len(s): return rope(s[:c] + chr(x & 255) + s[c+1:])
        raise Unsupported("indexed write in %r" % (type(v),))
    # ------------------------------------------------------------ merging
    either = {}; either_ok = False
    def merge(ex, c, a, b):
        if a is b: return a
        if isinstance(c, bool): return a if c else b
        if isinstance(a, (int, bool)) or (is_sym(a) and not isinstance(a, tuple)):
            if isinstance(a, bool) != isinstance(b, bool) and not is_sym(a) and not is_sym(b): raise CannotMerge()
            if not (isinstance(b, (int, bool)) or is_sym(b)): raise CannotMerge()
            if is_sym(a) and is_sym(b) and a.sort() != b.sort(): raise CannotMerge()
            if is_sym(a) and z3.is_real(a) or is_sym(b) and z3.is_real(b): return simp(z3.If(c, a, b))
            r = Ite(c, a, b)
            return r
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float) and a == b: return a
            raise CannotMerge()
        if is_rope(a) and is_rope(b): return ex.merge_rope(c, a, b)
        if type(a) != type(b): raise CannotMerge()
        if isinstance(a, Struct):
            if a.type != b.type: raise CannotMerge()
            f = {}
            for k in set(a.f) | set(b.f): f[k] = ex.merge(c, a.get(k), b.get(k))
            return Struct(a.type, f, a.mk if a.mk is b.mk or not b.mk else b.mk if not a.mk else lambda n, a=a, b=b, c=c: ex.merge(c, a.get(n), b.get(n)))
        if isinstance(a, Vec):
            if len(a.el) != len(b.el): raise CannotMerge()
            return Vec([ex.merge(c, x, y) for x, y in zip(a.el, b.el)], a.ety)
        if isinstance(a, SVec):
            if a.elem is b.elem and a.n is b.n and len(a.log) == len(b.log) and all(x is y for x, y in zip(a.log, b.log)): return a
            if a.elem is b.elem and (a.n is b.n or zkey(a.n) == zkey(b.n)):
                k = 0
                while k < len(a.log) and k < len(b.log) and a.log[k] is b.log[k]: k += 1
                base = SVec(a.n, a.elem, a.log[:k], a.ety, a.name); r = base
                for src, cc in ((a, c), (b, Not(c))):
                    for e in src.log[k:]:
                        if e[0] == "set":
                            r = SVec(r.n, r.elem, r.log + (("set", e[1], ex.merge(cc, e[2], ex.svec_read(r, e[1]))),), r.ety, r.name)
                        elif e[0] == "each":
                            def fn(j, old, fn0=e[3], cc=cc): return ex.merge(cc, fn0(j, old), old)
                            r = SVec(r.n, r.elem, r.log + (("each", e[1], e[2], fn),), r.ety, r.name)
                return r
            if any(x[0] != "set" for x in a.log + b.log): raise CannotMerge()
            if not ex.either_ok: raise CannotMerge()
            # one of two containers
            n = ex.merge(c, a.n, b.n)
            def pick(i, a=a, b=b, c=c):
                x = None
                with ex.under(c): x = ex.svec_read(a, i)
                with ex.under(Not(c)): y = ex.svec_read(b, i)
                return ex.merge(c, x, y)
            r = SVec(n, pick, (), a.ety, "either!%d" % len(ex.either)); ex.either[r.name] = (c, a, b); return r
        if isinstance(a, Ptr):
            if a.lv is None and b.lv is None: return a
            if a.lv is None: return Ptr(b.lv, Or(c, b.null) if b.null is not True else True) if True else None
            if b.lv is None: return Ptr(a.lv, Or(Not(c), a.null))
            if a.lv.key() == b.lv.key(): return Ptr(a.lv, Ite(c, a.null, b.null))
            # same container, different index
            if a.lv.root == b.lv.root and len(a.lv.path) == len(b.lv.path):
                path = []
                for (k1, x1), (k2, x2) in zip(a.lv.path, b.lv.path):
                    if k1 != k2: raise CannotMerge()
                    if k1 == "f":
                        if x1 != x2: raise CannotMerge()
                        path.append((k1, x1))
                    else: path.append(("i", Ite(c, x1, x2)))
                return Ptr(LV(a.lv.root, path), Ite(c, a.null, b.null))
            raise CannotMerge()
        if isinstance(a, CStr): return CStr(ex.merge_rope(c, a.r, b.r))
        if isinstance(a, It):
            if a.lv.key() != b.lv.key(): raise CannotMerge()
            return It(a.lv, Ite(c, a.idx, b.idx))
        if isinstance(a, LV):
            if a.key() == b.key(): return a
            raise CannotMerge()
        if isinstance(a, FnRef) and a.q == b.q: return a
        if isinstance(a, Opaque):
            if a.what == b.what and (a.data is b.data or ex.same_data(a.data, b.data)): return a
            if ex.either_ok: return Opaque("choice", (c, a, b))
            raise CannotMerge()
        raise CannotMerge()
    def same_data(ex, p, q):
        """the same number for certain"""
        if isinstance(p, tuple) and isinstance(q, tuple): return len(p) == len(q) and all(ex.same_data(x, y) for x, y in zip(p, q))
        if is_sym(p) or is_sym(q): return not isinstance(p, (str, tuple)) and not isinstance(q, (str, tuple)) and p is not None and q is not None and zkey(p) == zkey(q)
        return p is not None and type(p) == type(q) and p == q and isinstance(p, (str, int))
    def merge_rope(ex, c, a, b):
        if rkey(a) == rkey(b): return a
        k = 0
        while k < len(a) and k < len(b) and a[k].key() == b[k].key(): k += 1
        pre, a, b = a[:k], a[k:], b[k:]
        if a and b and isinstance(a[0], Lit) and isinstance(b[0], Lit):
            x, y = a[0].s, b[0].s; j = 0
            while j < len(x) and j < len(y) and x[j] == y[j]: j += 1
            if j:
                pre = rope(pre, x[:j]); a = rope(x[j:], a[1:]); b = rope(y[j:], b[1:])
        return rope(pre, Cho(c, a, b))
    def merge_states(ex, base_n, items):
        """items: list of (state, value); returns (state, value) or raises CannotMerge"""
        st, val = items[0]
        for st2, val2 in items[1:]:
            # common pc prefix
            n = 0
            while n < len(st.pc) and n < len(st2.pc) and st.pc[n] is st2.pc[n]: n += 1
            fs = ex.factset
            ca, cb = And(*[x for x in st.pc[n:] if id(x) not in fs]), And(*[x for x in st2.pc[n:] if id(x) not in fs])
            facts = [x for x in st.pc[n:] + st2.pc[n:] if id(x) in fs]
            # find a discriminating condition
            cond = ca
            store = {}
            for k in set(st.store) | set(st2.store):
                x, y = st.store.get(k), st2.store.get(k)
                if x is None: store[k] = y
                elif y is None or x is y: store[k] = x
                else: store[k] = ex.merge(cond, x, y)
            v = ex.merge(cond, val, val2) if val is not val2 else val
            if len(st.files) != len(st2.files) or any(a is not b for a, b in zip(st.files, st2.files)):
                raise CannotMerge()
            new = State(store, st.pc[:n], list(st.files))
            for x in facts:
                if not any(x is y for y in new.pc[n:]): new.pc.append(x)
            if not (ca is True or cb is True):
                d = simp(Or(ca, cb)) if True else None
                if d is not True: new.pc.append(zbool(d))
            if st.writes is not None or st2.writes is not None: new.writes = (st.writes or set()) | (st2.writes or set())
            st, val = new, v
        return st, val
    def join(ex, outs):
        """outs: list of (state, outcome) with outcome None / ('break',) / ('cont',) / ('ret', v) / ('val', v)"""
        if not outs: raise PathDead()
        groups = {}
        for st, o in outs: groups.setdefault(o[0] if o else "n", []).append((st, o))
        final = []
        for k, l in groups.items():
            merged = []     # greedy merging
            for st, o in l:
                v = o[1] if o and len(o) > 1 else None
                for i, (st1, v1) in enumerate(merged):
                    try:
                        merged[i] = ex.merge_states(0, [(st1, v1), (st, v)]); break
                    except (CannotMerge, Unsupported): pass
                else: merged.append((st, v))
            for st, v in merged: final.append((st, None if k == "n" else (k, v) if k in ("ret", "val") else (k,)))
        i = ex.choose(len(final))
        ex.state = final[i][0].clone()
        return final[i][1]
    def cond_value(ex, n_thunks):
        """evaluate alternatives [(cond, thunk)] and merge the values"""
        outs = []
        for c, th in n_thunks:
            c = simp(c) if is_sym(c) else c
            if c is False or (c is not True and not ex.feasible(c)): continue
            def run(c=c, th=th):
                ex.assume(c); return ("val", th())
            outs += ex.explore(run)
        return ex.join(outs)[1]
