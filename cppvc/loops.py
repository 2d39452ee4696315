"""Summaries of loops of unknown length.  One arbitrary iteration k is executed on a state in which everything the loop
writes is replaced by its value after k iterations (an induction on k); what each written place holds is found from the
difference: linear counters, appended text, pushed elements, pointwise updates, recursively defined scalars."""
import re
import z3
from .terms import *
from .core import *

KMAX = (1 << 31) - 2
RANGES = [(0, 255), (0, 65535), (0, (1 << 31) - 1), (-(1 << 31), (1 << 31) - 1), (0, (1 << 32) - 1), (-(1 << 63), (1 << 63) - 1), (0, (1 << 64) - 1)]

class Sub:
    """substitution of the iteration variable, the symbols made in the iteration and the accumulators"""
    def __init__(s, ex, k, to, f0, f1, acc=None, rootset=(), fam=None):
        s.ex = ex; s.k = k; s.to = zint(to); s.f0 = f0; s.f1 = f1; s.acc = acc or {}; s.rootset = rootset; s.fam = fam; s.memo = {}; s.kname = k.decl().name()
    def made(s, name):
        m = re.search(r"!(\d+)", name)
        return m is not None and s.f0 < int(m.group(1)) <= s.f1 and name != s.kname
    def term(s, t):
        if not is_sym(t): return t
        r = s.go(t)
        return simp(r)
    def go(s, t):
        key = t.get_id()
        if key in s.memo: return s.memo[key][1]
        if z3.is_quantifier(t):
            r = z3.substitute(t, (s.k, s.to))
            cs = {}
            consts_of(t.body(), cs); pairs = []
            for nm in names_of(t):
                if s.made(nm):
                    if nm not in cs: raise Unsupported("quantified symbol of a loop iteration")
                    f = z3.Function(nm + "@", z3.IntSort(), cs[nm].sort()); pairs.append((cs[nm], f(s.to)))
                    if nm in s.ex.vb: s.ex.vb[nm + "@"] = s.ex.vb[nm]
            if pairs: r = z3.substitute(r, *pairs)
        elif z3.is_var(t): r = t
        elif z3.is_app(t):
            d = t.decl(); ch = [s.go(c) for c in t.children()]
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if nm == s.kname: r = s.to
                elif s.made(nm):
                    nn = nm + "@"; f = z3.Function(nn, *([z3.IntSort()] + [d.domain(i) for i in range(d.arity())] + [d.range()]))
                    r = f(s.to, *ch)
                    if nm in s.ex.vb:
                        s.ex.vb[nn] = s.ex.vb[nm]; lo, hi = s.ex.vb[nm]
                        if not has_var(r):
                            if lo is not None: s.ex.fact(r >= lo)
                            if hi is not None: s.ex.fact(r <= hi)
                else: r = d(*ch) if ch else t
            elif not ch: r = t
            elif all(a is b for a, b in zip(ch, t.children())): r = t
            else:
                r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not z3.eq(a, b)]) if False else rebuild(t, d, ch)
        else: raise Unsupported("term")
        s.memo[key] = (t, r); return r
    def rope(s, r):
        out = []
        for x in r:
            if isinstance(x, Hole):
                if x.name in s.acc: out.append(s.acc[x.name](s.term(x.args[0]))); continue
                a = [s.term(v) for v in x.args]; nm = x.name
                if s.made(nm): nm = nm + "@"; a = [s.to if is_sym(s.to) and not isinstance(s.to, z3.IntNumRef) else cint(s.to)] + a
                x = Hole(nm, a, x.cls, x.minlen, x.first, x.last, x.maxlen)
            elif isinstance(x, Fmt): x = Fmt(s.term(x.val), x.spec)
            elif isinstance(x, Ch): x = Ch(s.term(x.val))
            elif isinstance(x, Cho):
                c = s.term(x.cond)
                if c is True: out.append(s.rope(x.a)); continue
                if c is False: out.append(s.rope(x.b)); continue
                x = Cho(c, s.rope(x.a), s.rope(x.b))
            elif isinstance(x, Each): s.memo[x.var.get_id()] = (x.var, x.var); x = Each(x.var, s.term(x.lo), s.term(x.hi), s.rope(x.body))
            elif isinstance(x, Fun): x = Fun(x.name, s.rope(x.arg), x.cls, x.minlen)
            out.append((x,))
        return rope(*out)
    def lv(s, l):
        path = tuple((a, s.term(b) if a == "i" else b) for a, b in l.path)
        if s.fam is not None and l.root not in s.rootset and not l.root.startswith("g:"):
            to = s.to if not isinstance(s.to, z3.IntNumRef) else s.to.as_long()
            return LV(s.fam(l.root), (("i", to),) + path)
        return LV(l.root, path)
    def val(s, v):
        if isinstance(v, (bool, int, float, str)) or v is None: return v
        if is_sym(v): return s.term(v)
        if is_rope(v): return s.rope(v)
        if isinstance(v, tuple): return tuple(s.val(x) for x in v)
        if isinstance(v, Struct):
            return Struct(v.type, {k: s.val(x) for k, x in v.f.items()}, (lambda n, v=v: s.val(v.get(n))) if v.mk else None)
        if isinstance(v, Vec): return Vec([s.val(x) for x in v.el], v.ety)
        if isinstance(v, SVec):
            if v.name in s.ex.either and not v.log:
                c, a, b = s.ex.either[v.name]; return s.ex.merge(s.term(c), s.val(a), s.val(b))
            log = []
            for e in v.log:
                if e[0] == "set": log.append(("set", s.term(e[1]), s.val(e[2])))
                else: log.append(("each", s.term(e[1]), s.term(e[2]), lambda j, old, fn=e[3]: s.val(fn(j, old))))
            return SVec(s.term(v.n), lambda i, v=v: s.at(v, i), log, v.ety, v.name)
        if isinstance(v, Ptr): return v if v.lv is None else Ptr(s.lv(v.lv), s.term(v.null) if is_sym(v.null) else v.null)
        if isinstance(v, It): return It(s.lv(v.lv), s.term(v.idx))
        if isinstance(v, CStr): return CStr(s.rope(v.r))
        if isinstance(v, LV): return s.lv(v)
        if isinstance(v, Opaque): return Opaque(v.what, s.val(v.data) if isinstance(v.data, tuple) else v.data)
        return v
    def at(s, v, i):
        # element i of a vector whose description depends on k; i itself is a term of the new state
        x = v.elem(i)
        if is_sym(i) and mentions(i, s.kname): raise Unsupported("index of an iteration")
        return s.val(x)

def rebuild(t, d, ch):
    k = d.kind()
    if k == z3.Z3_OP_ADD: return z3.Sum(ch)
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    return d(*ch)
def has_var(t):
    if z3.is_var(t): return True
    return any(has_var(c) for c in t.children())
def names_of(t, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    if t.get_id() in seen: return out
    seen.add(t.get_id())
    if z3.is_quantifier(t): return names_of(t.body(), out, seen)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(t.decl().name())
    for c in t.children(): names_of(c, out, seen)
    return out
def consts_of(t, out):
    if z3.is_quantifier(t): consts_of(t.body(), out); return
    if z3.is_const(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[t.decl().name()] = t
    for c in t.children(): consts_of(c, out)
def mentions(t, name): return is_sym(t) and name in names_of(t)
def value_names(v, out=None, depth=0):
    """symbols of a value"""
    out = set() if out is None else out
    if is_sym(v): names_of(v, out)
    elif is_rope(v):
        for x in v:
            if isinstance(x, Hole):
                out.add(x.name)
                for a in x.args: value_names(a, out)
            elif isinstance(x, (Fmt, Ch)): value_names(x.val, out)
            elif isinstance(x, Cho): value_names(x.cond, out); value_names(x.a, out); value_names(x.b, out)
            elif isinstance(x, Each): value_names(x.lo, out); value_names(x.hi, out); value_names(x.body, out)
            elif isinstance(x, Fun): value_names(x.arg, out)
    elif isinstance(v, tuple):
        for x in v: value_names(x, out)
    elif isinstance(v, Struct):
        for x in v.f.values(): value_names(x, out)
    elif isinstance(v, Vec):
        for x in v.el: value_names(x, out)
    elif isinstance(v, SVec):
        value_names(v.n, out)
        for e in v.log:
            if e[0] == "set": value_names(e[1], out); value_names(e[2], out)
    elif isinstance(v, (Ptr, It)):
        if v.lv is not None:
            for a, b in v.lv.path:
                if a == "i": value_names(b, out)
        if isinstance(v, It): value_names(v.idx, out)
        else: value_names(v.null, out)
    elif isinstance(v, CStr): value_names(v.r, out)
    return out

def loc_of(key_lv):
    """written place cut at the first index"""
    root, path = key_lv.root, key_lv.path
    p = []
    for a, b in path:
        if a == "i": break
        p.append((a, b))
    return root, tuple(p)

class ReadFilled(Unsupported):
    """the loop reads elements of a vector that it fills itself"""
    def __init__(e, loc, mark): Unsupported.__init__(e, "read of a vector that the loop fills"); e.loc = loc; e.mark = mark
def ceildiv(e, c):
    """the smallest integer not below e / c"""
    if c == 1: return e
    if cint(e) is not None: return -(-cint(e) // c)
    whole, rest, r = [], [], 0
    for t in (e.children() if z3.is_add(e) else [e]):
        if cint(t) is not None: r += cint(t)
        elif z3.is_mul(t) and t.num_args() == 2 and cint(t.arg(0)) is not None and cint(t.arg(0)) % c == 0: whole.append(cint(t.arg(0)) // c * t.arg(1))
        else: rest.append(t)
    w = z3.Sum(whole) if whole else z3.IntVal(0)
    if not rest: return simp(w + (-(-r // c)))
    return simp(w + (z3.Sum(rest) + (r + c - 1)) / c)
class Loops:
    def summarise(ex, n, cond, inc, body):
        if cond is None: raise Unsupported("loop without condition")
        def bodyf(k):
            o = ex.stmt(body)
            if o is not None and o[0] == "cont": o = None
            if o is None and inc is not None: ex.effect(inc)
            return o
        return ex.summ(lambda: ex.cond(cond), bodyf, None)
    def summarise_range(ex, n, lv, length, bind, body):
        def bodyf(k):
            bind(k); o = ex.stmt(body)
            return None if o is not None and o[0] == "cont" else o
        return ex.summ(None, bodyf, length)
    # ------------------------------------------------------------
    def summ(ex, guard, bodyf, N):
        base = ex.state.clone(); rootset = set(base.store); k = fresh("k"); kname = k.decl().name(); ex.vb[kname] = (0, KMAX)
        ex.assumed.add("containers and texts hold fewer than 2^31-1 elements")
        classes = {}; info = {}; envvars = dict(ex.env.vars)
        saved_weak = getattr(ex, "weak", False)
        for attempt in range(12):
            f0 = fresh_count(); st = base.clone(); ex.state = st; nobl = len(ex.obls); start_writes = st.writes
            st.writes = set()
            st.pc.append(z3.And(k >= 0, k <= KMAX))
            if N is not None: st.pc.append(k < zint(N))
            for loc, c in classes.items():
                lv = LV(*loc); info[loc] = {"v0": ex._get(base.store[loc[0]], loc[1])}
                m = info[loc]["marker"] = ex.marker(loc, c, info[loc], k)
                ex.state.store[loc[0]] = ex._set(ex.state.store[loc[0]], loc[1], m) if loc[1] else m
            f1 = fresh_count(); npc = len(st.pc); guards = []
            def run():
                if guard is not None:
                    c = guard(); guards.append(c); ex.assume(c)
                    if is_sym(c) and classes: ex.before_end(c, k, kname, base, classes, info)
                # effects of the condition are part of the iteration
                o = bodyf(k)
                return o or ("n",)
            def tracked():
                ex.loopwrites = None
                return run()
            try: outs = ex.explore(tracked)
            except ReadFilled as e:
                if e.mark not in [i.get("elem") for i in info.values()] or classes.get(e.loc, ("",))[0] != "push": raise
                classes[e.loc] = ("hvec",); del ex.obls[nobl:]; continue
            f2 = fresh_count()
            if not outs: raise Unsupported("no path through the loop body")
            # what was written
            locs = set()
            for s, o in outs:
                for r, p in s.writes or ():
                    if r in rootset:
                        q = []
                        for a, b in p:
                            if a == "i": break
                            q.append((a, b))
                        locs.add((r, tuple(q)))
            for r in {l[0] for l in locs}:
                mine = sorted((l for l in locs if l[0] == r), key=lambda l: len(l[1]))
                for i, a in enumerate(mine):
                    for b in mine[i+1:]:
                        if b[1][:len(a[1])] == a[1]: locs.discard(b)
            changed = False
            for loc in list(classes):
                if any(l != loc and l[0] == loc[0] and loc[1][:len(l[1])] == l[1] for l in locs): del classes[loc]; changed = True
            for s, o in outs:
                if len(s.files) != len(base.files) or any(a is not b for a, b in zip(s.files, base.files)): raise Unsupported("files are written in a loop")
            normal = [(s, o) for s, o in outs if o[0] == "n"]; exits = [(s, o) for s, o in outs if o[0] != "n"]
            for loc in sorted(locs, key=str):
                if any(c != loc and c[0] == loc[0] and loc[1][:len(c[1])] == c[1] for c in classes): continue
                if loc not in classes:
                    v0 = ex._get(base.store[loc[0]], loc[1])
                    ends = [ex._get(s.store[loc[0]], loc[1]) for s, o in normal] or [ex._get(s.store[loc[0]], loc[1]) for s, o in exits]
                    classes[loc] = ex.guess(v0, ends, [s for s, o in normal]); changed = True
            if not changed:
                for loc in list(classes):
                    c2 = ex.verify(loc, classes[loc], info[loc], normal, k, kname, f1, f2, npc)
                    if c2 != classes[loc]: classes[loc] = c2; changed = True
            if exits and not getattr(ex, "weak", False): ex.weak = True; changed = True
            if changed:
                del ex.obls[nobl:]; continue
            break
        else: raise Unsupported("no invariant found for the loop")
        ex.weak = saved_weak
        # ---- number of iterations
        ex._loopinfo = info
        ex.state = base.clone(); ex.state.writes = start_writes
        if N is None:
            N = ex.trips(guards, k, kname, base, classes, normal, npc)
        ex.state.writes = start_writes        # what the loop writes counts as written for a loop around it
        if start_writes is not None:
            for loc in classes: start_writes.add((loc[0], loc[1]))
        cap = dict(k=k, N=N, classes=dict(classes), info=info, normal=normal, exits=exits, base=base, npc=npc, finals={}, fn=list(ex.callstack))
        ex.loops.append(cap)
        fams = {}
        def fam(root):
            if root not in fams: fams[root] = ex.family(root, N, normal, k, f1, f2, rootset, fam)
            return fams[root]
        acc = {}
        def sub(to): return Sub(ex, k, to, f1, f2, acc, rootset, fam)
        for loc, c in classes.items():
            if c[0] == "app": acc[info[loc]["mark"]] = ex.app_final(info[loc], sub)
        Nz = zint(N)
        def state_at(st, to, src):
            """values of the written places after `to` iterations"""
            for loc, c in classes.items():
                v = ex.final(loc, c, info[loc], to, sub, normal, npc, k, N)
                if to is N: cap["finals"][loc] = v
                st.store[loc[0]] = ex._set(st.store[loc[0]], loc[1], v) if loc[1] else v
        def pathcond(s): return And(*[f for f in s.pc[npc:] if id(f) not in ex.factset and not (guards and False)])
        alt = ex.choose(1 + len(exits)) if exits else 0
        st = base.clone(); st.writes = ex.state.writes; ex.state = st
        if alt == 0:
            if exits:
                j = z3.Int("j!%d" % fresh_next())
                ec = Or(*[simp(zbool(Sub(ex, k, j, f1, f2, acc, rootset, None).term(pathcond(s)) if is_sym(pathcond(s)) else pathcond(s))) for s, o in exits])
                if ec is True: ex.assume(Eq(N, 0))
                elif is_sym(ec): ex.state.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Nz), Not(ec))))
                if ex.check() == "unsat": raise PathDead()
            state_at(st, N, None)
            if guard is not None:
                c = guard(); ex.assume(Not(c))
            ex.env.vars.update({a: b for a, b in envvars.items()})
            return None
        s, o = exits[alt - 1]
        ks = fresh("kexit"); ex.vb[ks.decl().name()] = (0, KMAX)
        ex.state.pc.append(z3.And(ks >= 0, ks < Nz) if not (guard is not None and False) else ks >= 0)
        S = Sub(ex, k, ks, f1, f2, acc, rootset, None)
        for f in s.pc[npc:]:
            g = S.term(f)
            if g is True: continue
            if g is False: raise PathDead()
            ex.state.pc.append(g)
        j = z3.Int("j!%d" % fresh_next())
        ec = Or(*[simp(zbool(Sub(ex, k, j, f1, f2, acc, rootset, None).term(pathcond(x)) if is_sym(pathcond(x)) else pathcond(x))) for x, _ in exits])
        if ec is True: ex.assume(Eq(ks, 0))
        elif is_sym(ec): ex.state.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ks), Not(ec))))
        if ex.check() == "unsat": raise PathDead()
        # values: before iteration ks, then the changes of the exit path
        state_at(st, ks, None)
        mks = ex.map_base(classes, info, st)
        for loc, c in classes.items():
            v = ex._get(s.store[loc[0]], loc[1])
            nv = ex.exit_value(loc, c, info[loc], v, S, ks, st)
            st.store[loc[0]] = ex._set(st.store[loc[0]], loc[1], nv) if loc[1] else nv
        # objects made in the last iteration keep their own roots
        S2 = S
        for r, v in s.store.items():
            if r not in rootset: st.store[r] = S2.val(v)
        ex.env.vars.update({a: b for a, b in envvars.items()})
        if o[0] == "break": return None
        return ("ret", S2.val(o[1]) if len(o) > 1 else None)
    # ------------------------------------------------------------ classes
    def guess(ex, v0, ends, states=()):
        a = ends[0] if ends else v0
        if isinstance(v0, It) and all(isinstance(e, It) for e in ends):
            d = {cint(simp(zint(e.idx) - zint(v0.idx))) for e in ends}
            if len(d) == 1 and None not in d: return ("ind", d.pop())
            return ("last",)
        if isinstance(v0, bool) or is_sym(v0) and z3.is_bool(v0): return ("bool",)
        if isinstance(v0, int) or is_sym(v0) and z3.is_int(v0):
            d = {cint(simp(zint(e) - zint(v0))) if isinstance(e, int) or is_sym(e) and z3.is_int(e) else None for e in ends}
            if len(d) == 1 and None not in d: return ("ind", d.pop())
            if d == {None} and len(states) == len(ends):       # a wrapping step that does not wrap on these paths
                for x in (-1, 1):
                    keep = ex.state; ok = True
                    for s, e in zip(states, ends):
                        ex.state = s
                        if not ex.proves(simp(zint(e) == zint(v0) + x)): ok = False; break
                    ex.state = keep
                    if ok: return ("ind", x)
            return ("int", 0)
        if is_rope(v0): return ("app",)
        if isinstance(v0, (Vec, SVec)):
            if all(isinstance(e, SVec) and isinstance(v0, SVec) and (e.n is v0.n or zkey(e.n) == zkey(v0.n)) for e in ends): return ("map",)
            return ("push",)
        if isinstance(v0, Ptr) and all(isinstance(e, Ptr) for e in ends):
            sh = {ptr_shape(e.lv) for e in list(ends) + [v0] if e.lv is not None}
            if len(sh) == 1 and None not in sh: return ("ptr",) + next(iter(sh))
        if all(isinstance(e, Opaque) and e.what == "set" for e in list(ends) + [v0]): return ("set",)
        return ("last",)
    def marker(ex, loc, c, inf, k):
        v0 = inf["v0"]; kind = c[0]; u = "v!%d" % fresh_next()
        if kind == "ind":
            if isinstance(v0, It): return It(v0.lv, simp(zint(v0.idx) + c[1] * k))
            if not loc[1] and loc[0] in ex.vartype and c[1] not in (0, 1) or not loc[1] and loc[0] in ex.vartype and cint(v0) is None:
                # a variable always holds a value of its type
                lo, hi = ex.trange(*ex.vartype[loc[0]]); ex.state.pc.append(z3.And(zint(v0) + c[1] * k >= lo, zint(v0) + c[1] * k <= hi))
            return simp(zint(v0) + c[1] * k)
        if kind == "int":
            nm = "havoc.%s" % u; f = z3.Function(nm, z3.IntSort(), z3.IntSort()); lo, hi = RANGES[c[1]]; ex.vb[nm] = (lo, hi); inf["f"] = f
            ex.state.pc.append(z3.And(f(k) >= lo, f(k) <= hi)); return f(k)
        if kind == "bool":
            f = z3.Function("havoc.%s" % u, z3.IntSort(), z3.BoolSort()); inf["f"] = f; return f(k)
        if kind == "app":
            inf["mark"] = "acc.%s" % u
            return (Hole("acc.%s" % u, (k,), ALL, rope_minlen(v0)),)
        if kind == "fold":
            inf["mark"] = "havoc.fold.%s" % u; return (Hole(inf["mark"], (k,), ALL, 0),)
        if kind == "text":
            return (Hole("havoc.%s" % u, (k,), ALL, 0),)
        if kind == "ptr":
            # a pointer to one of the elements of a container (or null)
            nm = "havoc.pidx.%s" % u; f = z3.Function(nm, z3.IntSort(), z3.IntSort()); g = z3.Function("havoc.pnull.%s" % u, z3.IntSort(), z3.BoolSort()); inf["f"], inf["g"] = f, g; ex.vb[nm] = (0, KMAX)
            ex.state.pc.append(z3.And(f(k) >= 0, f(k) <= KMAX)); return Ptr(LV(c[1], [(a, f(k)) if a == "i" else (a, b) for a, b in c[2]]), g(k))
        if kind == "push":
            nm = "cnt.%s" % u; f = z3.Function(nm, z3.IntSort(), z3.IntSort()); inf["cnt"] = f; ex.vb[nm] = (0, KMAX)
            n0 = len(v0.el) if isinstance(v0, Vec) else v0.n
            inf["n0"] = n0; inf["name"] = "pushed.%s" % u
            ex.state.pc.append(z3.And(f(k) >= 0, f(k) <= k))
            def elem(i): raise ReadFilled(loc, elem)
            inf["elem"] = elem
            return SVec(simp(zint(n0) + f(k)), elem, (), v0.ety, inf["name"])
        if kind == "hvec":
            # a vector the loop reads and changes: length and elements are arbitrary after each iteration
            inf["mark"] = "havoc.vec.%s" % u; return ex.havoc_vec(inf["mark"], k, v0.ety)
        if kind == "set":
            # a set of texts: what is in it after k iterations stays open, it only grows
            a = tuple(x for y in v0.data if isinstance(y, tuple) and y and y[0] == "unknown" for x in y[2])
            inf["mark"] = ("unknown", u, (k,) + a); return Opaque("set", v0.data + (inf["mark"],))
        if kind == "map":
            def unknown(j, old): raise Unsupported("read of an element written in an earlier iteration")
            inf["nlog"] = len(v0.log) + 1
            return SVec(v0.n, v0.elem, v0.log + (("each", 0, k, unknown),), v0.ety, v0.name)
        return Opaque("havoc")
    def havoc_vec(ex, mark, k, ety):
        from .lib import vec_elt
        t = vec_elt(ety)
        f = z3.Function(mark + "#", z3.IntSort(), z3.IntSort()); ex.vb[mark + "#"] = (0, KMAX); n = f(zint(k)); ex.fact(z3.And(n >= 0, n <= KMAX))
        if is_string(t): el = lambda i: (Hole(mark, (k, i), ALL, 0),)
        elif int_type(t):
            g = z3.Function(mark, z3.IntSort(), z3.IntSort(), z3.IntSort()); ex.vb[mark] = ex.trange(*int_type(t))
            def el(i):
                v = g(zint(k), zint(i)); lo, hi = ex.vb[mark]; ex.fact(z3.And(v >= lo, v <= hi)); return v
        else: raise Unsupported("read of a vector that the loop fills")
        return SVec(n, el, (), ety, mark)
    def verify(ex, loc, c, inf, normal, k, kname, f1, f2, npc):
        kind = c[0]; v0 = inf["v0"]
        for s, o in normal:
            ex.state = s; v = ex._get(s.store[loc[0]], loc[1])
            if kind == "ind":
                want = simp(zint(v0.idx if isinstance(v0, It) else v0) + c[1] * (k + 1))
                if isinstance(v0, It):
                    if not isinstance(v, It): return ("last",)
                    e = Eq(v.idx, want)
                else:
                    if not (isinstance(v, int) or is_sym(v)): return ("last",)
                    e = Eq(v, want)
                if e is not True and not ex.proves(e): return ("last",) if isinstance(v0, It) else ("int", 0)
            elif kind == "int":
                lo, hi = RANGES[c[1]]; e = And(simp(zint(v) >= lo), simp(zint(v) <= hi)); e0 = And(simp(zint(v0) >= lo), simp(zint(v0) <= hi))
                if not ex.proves(e) or not ex.proves(e0):
                    if c[1] + 1 == len(RANGES): raise Unsupported("no range of an integer written in a loop")
                    return ("int", c[1] + 1)
            elif kind == "app":
                ok = is_rope(v) and v and isinstance(v[0], Hole) and v[0].name == inf["mark"] and z3.eq(zint(v[0].args[0]), k) and inf["mark"] not in value_names(v[1:]) and "len:" + inf["mark"] not in value_names(v[1:])
                if not ok: return ("fold",)
            elif kind == "fold":
                # a text built from its former value: kept as a recursively defined text
                if not is_rope(v) or not any(isinstance(x, Hole) and x.name == inf["mark"] for x in v) and inf["mark"] not in value_names(v) and "len:" + inf["mark"] not in value_names(v): return ("text",)
            elif kind == "text":
                if not is_rope(v): return ("last",)
            elif kind == "push":
                if not isinstance(v, SVec) or v.name != inf["name"] or v.elem is not inf["elem"] or len(v.log) > 1: return ("last",)
                if len(v.log) == 1:
                    e = v.log[0]
                    if e[0] != "set" or Eq(e[1], simp(zint(inf["n0"]) + inf["cnt"](k))) is not True or Eq(v.n, simp(zint(inf["n0"]) + inf["cnt"](k) + 1)) is not True: return ("last",)
            elif kind == "set":
                n = len(v0.data) + 1
                if not (isinstance(v, Opaque) and v.what == "set" and len(v.data) >= n and isinstance(v.data[n-1], tuple) and v.data[n-1][:2] == inf["mark"][:2]): return ("last",)
            elif kind == "hvec":
                if not isinstance(v, (SVec, Vec)): return ("last",)
            elif kind == "ptr":
                if not isinstance(v, Ptr) or v.lv is not None and ptr_shape(v.lv) != c[1:]: return ("last",)
            elif kind == "map":
                if not isinstance(v, SVec) or zkey(v.n) != zkey(v0.n) and not (v.n is v0.n or Eq(v.n, v0.n) is True): return ("last",)
                for e in v.log[inf["nlog"]:]:
                    if e[0] != "set" or not ex.proves(Eq(e[1], k)): return ("last",)
        return c
    def trips(ex, guards, k, kname, base, classes, normal=(), npc=0):
        """number of iterations of a counting loop from its condition"""
        try: return ex.trips_linear(guards, k, kname, base, classes)
        except Unsupported as e:
            why = e
        # a guard a < b (a > b) where b stays and every iteration moves a towards it: some number N of iterations
        g = guards[0] if guards else None
        if g is None or not is_sym(g) or any(not (is_sym(x) and z3.eq(x, g)) for x in guards): raise why
        atom, neg = g, False
        while z3.is_not(atom): atom = atom.arg(0); neg = not neg
        if not (z3.is_app(atom) and atom.num_args() == 2 and z3.is_int(atom.arg(0))): raise why
        op = atom.decl().kind(); OP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">"}.get(op)
        if OP is None: raise why
        if neg: OP = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[OP]
        a, b = atom.arg(0), atom.arg(1); d = a - b if OP in ("<", "<=") else b - a       # grows while the loop runs, stops at 0 or 1
        subs = ex.state
        for s, o in normal:
            ex.state = s; pairs = []
            for loc, c in classes.items():
                inf = ex._loopinfo[loc]
                if c[0] in ("int", "ind") and not isinstance(inf.get("marker"), It):
                    m = inf["marker"]; v = ex._get(s.store[loc[0]], loc[1])
                    if is_sym(m): pairs.append((m, zint(v)))
            d1 = z3.substitute(d, *(pairs + [(k, k + 1)]))
            if not ex.proves(simp(d1 >= d + 1)): ex.state = subs; raise why
        ex.state = base.clone(); N = fresh("trips"); ex.vb[N.decl().name()] = (0, KMAX)
        ex.state.pc.append(z3.And(N >= 0, N <= KMAX))
        return N
    def before_end(ex, g, k, kname, base, classes, info):
        """a loop that runs until a == b counts its iterations: iteration k is reached only below that number"""
        atom, neg = g, False
        while z3.is_not(atom): atom = atom.arg(0); neg = not neg
        if not (neg and z3.is_eq(atom) and z3.is_int(atom.arg(0))) or not mentions(atom, kname): return
        keep, li = ex.state, getattr(ex, "_loopinfo", None); ex._loopinfo = info
        try: T = ex.trips_linear([g], k, kname, base, classes)
        except Unsupported: T = None
        finally: ex.state = keep; ex._loopinfo = li
        if T is not None: ex.assume(simp(k < zint(T)))
    def trips_linear(ex, guards, k, kname, base, classes):
        if not guards: raise Unsupported("loop condition")
        g = guards[0]
        if any(not (x is g or (is_sym(x) and is_sym(g) and z3.eq(x, g))) for x in guards): raise Unsupported("loop condition with several values")
        if not is_sym(g): raise Unsupported("loop condition does not depend on the iteration")
        atom, neg = g, False
        while z3.is_not(atom): atom = atom.arg(0); neg = not neg
        if not (z3.is_app(atom) and atom.num_args() == 2 and z3.is_int(atom.arg(0))): raise Unsupported("loop condition %s" % str(g)[:80])
        op = atom.decl().kind(); a, b = atom.arg(0), atom.arg(1)
        d = a - b; s = lambda x: simp(z3.substitute(d, (k, zint(x))))
        d0, d1, d2 = s(0), s(1), s(2); c = cint(simp(zint(d1) - zint(d0)))
        if not c or abs(c) > 64 or cint(simp(zint(d2) - zint(d1))) != c: raise Unsupported("loop condition is not linear: %s" % str(g)[:80])
        OP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}.get(op)
        if OP is None: raise Unsupported("loop condition")
        if neg: OP = {"<=": ">", "<": ">=", ">=": "<", ">": "<=", "==": "!="}[OP]
        if OP == "==": raise Unsupported("loop condition")
        # d(k) = d0 + c*k  OP 0
        if OP == "!=":
            if abs(c) != 1: raise Unsupported("loop condition")
            T = simp(-c * zint(d0))
        elif c > 0:
            if OP == "<": T = ceildiv(simp(-zint(d0)), c)
            elif OP == "<=": T = ceildiv(simp(-zint(d0) + 1), c)
            else: raise Unsupported("loop without end")
        else:
            if OP == ">": T = ceildiv(simp(zint(d0)), -c)
            elif OP == ">=": T = ceildiv(simp(zint(d0) + 1), -c)
            else: raise Unsupported("loop without end")
        if mentions(T, kname): raise Unsupported("loop condition changes in the loop")
        own = {x for inf in ex._loopinfo.values() for x in [inf.get("mark"), "len:%s" % (inf.get("mark"),), inf["f"].name() if "f" in inf else None, inf["cnt"].name() if "cnt" in inf else None] if x}
        for nm in names_of(T) if is_sym(T) else ():
            if nm in own or nm.startswith(("len:acc.", "acc.")) and nm.split(":")[-1] in own: raise Unsupported("loop condition changes in the loop")
        ex.state = base.clone()
        if ex.proves(simp(zint(T) >= 0)): return T
        if OP == "!=": raise Unsupported("loop may run past its end")
        return simp(z3.If(zint(T) >= 0, zint(T), z3.IntVal(0)))
    def family(ex, root, N, normal, k, f1, f2, rootset, fam):
        """objects made by the iterations: element j is the object of iteration j"""
        new = "fam:" + root
        src = [s for s, o in normal if root in s.store]
        if not src: raise Unsupported("object of a loop iteration")
        if len(src) > 1:
            v = src[0].store[root]
            for s in src[1:]:
                if s.store[root] is not v: raise Unsupported("object of several paths of a loop")
        v = src[0].store[root]
        ex.state.store[new] = SVec(N, lambda j: Sub(ex, k, j, f1, f2, {}, rootset, fam).val(v), (), None, new)
        return new
    def app_final(ex, inf, sub):
        v0 = inf["v0"]
        def make(to):
            if inf.get("delta") is None: raise Unsupported("text of a loop")
            if cint(to) == 0: return v0
            j = z3.Int("j!%d" % fresh_next())
            return rope(v0, Each(j, 0, to, sub(j).rope(inf["delta"])))
        return make
    def merged(ex, loc, normal, npc, pick):
        """value at the end of the normal paths"""
        r = None
        for s, o in reversed(normal):
            v = pick(ex._get(s.store[loc[0]], loc[1]))
            if r is None: r = v
            else: r = ex.merge(And(*[f for f in s.pc[npc:] if id(f) not in ex.factset]), v, r)
        return r
    def final(ex, loc, c, inf, to, sub, normal, npc, k, N):
        kind = c[0]; v0 = inf["v0"]; toz = zint(to)
        if kind == "ind":
            if isinstance(v0, It): return It(v0.lv, simp(zint(v0.idx) + c[1] * toz))
            return simp(zint(v0) + c[1] * toz)
        if not normal:
            if kind in ("push", "map", "app", "fold", "int", "bool", "text", "last", "ptr", "set"): return v0
        if kind == "set": return v0 if cint(to) == 0 else Opaque("set", v0.data + ((inf["mark"][0], inf["mark"][1], (to,) + inf["mark"][2][1:]),))
        if kind == "app":
            if "delta" not in inf: inf["delta"] = ex.merged(loc, normal, npc, lambda v: v[1:])
            return ex.app_final(inf, sub)(to)
        if kind in ("int", "fold", "ptr", "text") and is_sym(to) and is_sym(N) and z3.eq(to, N):
            r = ex.last_write(loc, kind, inf, sub, normal, npc, k, N)
            if r is not None: return r
        if kind == "ptr":
            if cint(to) == 0: return v0
            return Ptr(LV(c[1], [(a, inf["f"](toz)) if a == "i" else (a, b) for a, b in c[2]]), inf["g"](toz))
        if kind == "hvec": return v0 if cint(to) == 0 else ex.havoc_vec(inf["mark"], to, v0.ety)
        if kind == "fold":
            if inf["mark"] not in ex.folds:
                ex.folds[inf["mark"]] = dict(base=v0, k=k, N=N, steps=[([f for f in s.pc], ex._get(s.store[loc[0]], loc[1])) for s, o in normal])
            return v0 if cint(to) == 0 else (Hole(inf["mark"], (to,), ALL, 0),)
        if kind == "int" or kind == "bool":
            f = inf["f"]
            if not inf.get("def"):
                inf["def"] = True
                try:
                    v = ex.merged(loc, normal, npc, lambda v: v)
                    j = z3.Int("j!%d" % fresh_next()); nx = Sub(ex, k, j, fresh_count(), fresh_count(), {}, (), None)
                    S = sub(j); e = S.term(v) if is_sym(v) else v
                    val = zbool(e) if kind == "bool" else zint(e); val0 = zbool(v0) if kind == "bool" else zint(v0)
                    inf["facts"] = [f(0) == val0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(N)), f(j + 1) == val))]
                    if kind == "int" and is_sym(v):
                        ms = ex.state; nst = normal[0][0].clone()
                        # monotone growth is proved for one iteration and then used for all
                        ok = True
                        for s, o in normal:
                            ex.state = s
                            if not ex.proves(simp(zint(ex._get(s.store[loc[0]], loc[1])) >= f(k))): ok = False; break
                        ex.state = ms
                        if ok:
                            a, b = z3.Int("j!%d" % fresh_next()), z3.Int("j!%d" % fresh_next())
                            inf["facts"].append(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a <= zint(N)), f(a) <= f(zint(N)))))
                    if kind == "bool":
                        t, fl = simp(z3.substitute(zbool(v), (f(k), z3.BoolVal(True)))), simp(z3.substitute(zbool(v), (f(k), z3.BoolVal(False))))
                        if t is True:
                            # the flag stays once it is set: it is set iff it was set before or in one of the iterations
                            w = z3.Int("w!%d" % fresh_next()); a = z3.Int("j!%d" % fresh_next())
                            cj = zbool(sub(a).term(fl) if is_sym(fl) else fl); cw = zbool(sub(w).term(fl) if is_sym(fl) else fl)
                            fN = f(zint(N))
                            inf["facts"] = [z3.Implies(fN, z3.Or(zbool(v0), z3.And(w >= 0, w < zint(N), cw))), z3.Implies(zbool(v0), fN), z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zint(N), cj), fN))]
                except (Unsupported, CannotMerge): inf["facts"] = []
            for q in inf["facts"]: ex.fact(q)
            r = f(toz)
            if kind == "int":
                lo, hi = RANGES[c[1]]; ex.fact(z3.And(r >= lo, r <= hi))
            return r
        if kind == "text" or kind == "last":
            try: v = ex.merged(loc, normal, npc, lambda v: v)
            except CannotMerge: v = None
            nm = [x for x in (value_names(v) if v is not None else ["havoc."]) if x.startswith(("havoc.", "acc.", "len:acc.", "cnt."))]
            if v is None or nm or isinstance(v, Opaque) and v.what == "havoc":
                return (Hole("havoc.%d" % fresh_next(), (), ALL, 0),) if kind == "text" else Opaque("havoc")
            last = sub(simp(toz - 1)).val(v)
            ne = simp(toz > 0)
            if ne is True or ex.proves(ne): return last
            if ne is False or ex.proves(Not(ne)): return v0
            try: return ex.merge(ne, last, v0)
            except CannotMerge: return (Hole("havoc.%d" % fresh_next(), (), ALL, 0),) if kind == "text" else Opaque("havoc")
        if kind == "map":
            v = ex.merged(loc, normal, npc, lambda v: ex.svec_read(v, k) if v.log[inf["nlog"]:] else ex.svec_read(v0, k)) if not inf.get("cell") else inf["cell"]
            inf["cell"] = v
            def fn(j, old): return sub(j).val(v)
            return SVec(v0.n, v0.elem, v0.log + (("each", 0, to, fn),), v0.ety, v0.name)
        if kind == "push":
            pushes = [(s, ex._get(s.store[loc[0]], loc[1])) for s, o in normal]
            pc = lambda s: And(*[f for f in s.pc[npc:] if id(f) not in ex.factset])
            on = [(s, v) for s, v in pushes if v.log]; n0 = inf["n0"]
            def old(i):
                if not isinstance(v0, Vec): return ex.svec_read(v0, i)
                c = cint(i)
                if c is not None and 0 <= c < len(v0.el): return v0.el[c]
                r = v0.el[-1]
                for q in range(len(v0.el) - 2, -1, -1): r = ex.merge(Eq(i, q), v0.el[q], r)
                return r
            val = None
            for s, v in reversed(on):
                x = v.log[0][2]; val = x if val is None else ex.merge(pc(s), x, val)
            if len(on) == len(pushes):
                if cint(n0) == 0: elem = lambda i: sub(i).val(val)
                else:
                    def elem(i):
                        c1 = simp(zint(i) < zint(n0))
                        if c1 is True or is_sym(c1) and ex.proves(c1): return old(i)
                        x = sub(simp(zint(i) - zint(n0))).val(val)
                        if c1 is False or ex.proves(Not(c1)): return x
                        return ex.merge(c1, old(i), x)
                return SVec(simp(zint(n0) + toz), elem, (), v0.ety, inf["name"])
            if not on: return v0
            cond = Or(*[zbool(pc(s)) for s, v in on])
            if not inf.get("sel"):
                u = fresh_next(); inf["sel"] = "sel!%d" % u; sel = zfun1(inf["sel"]); rank = zfun1("rank!%d" % u); cnt = inf["cnt"]
                ex.vb[inf["sel"]] = (0, KMAX); ex.vb["rank!%d" % u] = (0, KMAX)
                a = z3.Int("j!%d" % fresh_next()); cN = cnt(zint(N))
                ca = lambda t: zbool(sub(t).term(cond) if is_sym(cond) else cond)
                inf["facts"] = [z3.And(cN >= 0, cN <= zint(N)),
                    z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < cN), z3.And(sel(a) >= 0, sel(a) < zint(N), ca(sel(a)), rank(sel(a)) == a)), patterns=[sel(a)]),
                    z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < zint(N), ca(a)), z3.And(rank(a) >= 0, rank(a) < cN, sel(rank(a)) == a)), patterns=[rank(a)])]
                b = z3.Int("j!%d" % fresh_next())
                inf["facts"].append(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < cN), sel(a) < sel(b)), patterns=[z3.MultiPattern(sel(a), sel(b))]))
                inf["rank"] = rank; tot = Or(*[zbool(pc(s)) for s, v in pushes])
                ex.selinfo[inf["sel"]] = dict(sel=sel, rank=rank, count=cN, N=N, cond=ca, total=lambda t: zbool(sub(t).term(tot) if is_sym(tot) else tot))
            for q in inf["facts"]: ex.fact(q)
            if not (is_sym(to) and is_sym(N) and z3.eq(to, N) or cint(to) is not None and cint(to) == cint(N)): raise Unsupported("vector filled in a loop that ends early")
            sel = zfun1(inf["sel"]); cN = inf["cnt"](zint(N))
            def elem(i):
                if cint(n0) == 0: return sub(sel(zint(i))).val(val)
                c1 = simp(zint(i) < zint(n0))
                if c1 is True or is_sym(c1) and ex.proves(c1): return old(i)
                x = sub(sel(simp(zint(i) - zint(n0)) if is_sym(simp(zint(i) - zint(n0))) else z3.IntVal(simp(zint(i) - zint(n0))))).val(val)
                if c1 is False or ex.proves(Not(c1)): return x
                return ex.merge(c1, old(i), x)
            return SVec(simp(zint(n0) + cN), elem, (), v0.ety, inf["sel"])
        raise Unsupported("loop class " + kind)
    def last_write(ex, loc, kind, inf, sub, normal, npc, k, N):
        """a place that an iteration either leaves alone or overwrites with a value that does not depend on the former one: its final
        value is that of the last iteration that overwrites it (number w), or the old one if there is none (w = -1)"""
        if "lw" not in inf:
            inf["lw"] = None
            try: v = ex.merged(loc, normal, npc, lambda v: v)
            except (Unsupported, CannotMerge): return None
            m = inf["marker"]; bad = {inf.get("mark"), "len:%s" % (inf.get("mark"),)}
            if kind == "text": bad = {m[0].name, "len:" + m[0].name}
            if kind in ("int", "ptr"): bad = {inf["f"].name()} | ({inf["g"].name()} if kind == "ptr" else set())
            r = unmark(ex, v, m, bad)
            if r is None or r[0] is False or r[1] is None: return None
            if any(x.startswith(("havoc.", "acc.", "len:acc.", "cnt.")) for x in list(value_names(r[1])) + list(value_names(r[0]))): return None
            c, x = r; cond = lambda t: c if isinstance(c, bool) else zbool(simp(sub(t).term(c)))
            key = ("lw", k.decl().name(), zkey(c)); memo = ex.__dict__.setdefault("lwmemo", {}); new = key not in memo
            if new:
                w = fresh("w"); ex.vb[w.decl().name()] = (-1, KMAX); memo[key] = (w, c); j = z3.Int("j!%d" % fresh_next()); Nz = zint(N)
                inf["lwfacts"] = [z3.Or(z3.And(w == -1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Nz), z3.Not(zbool(cond(j)))))),
                                        z3.And(w >= 0, w < Nz, zbool(cond(w)), z3.ForAll([j], z3.Implies(z3.And(j > w, j < Nz), z3.Not(zbool(cond(j)))))))]
            w = memo[key][0]; inf["lw"] = dict(loc=loc, k=k, N=N, w=w, cond=cond, val=lambda t: sub(t).val(x), v0=inf["v0"]); ex.lastw.append(inf["lw"])
        l = inf["lw"]
        if l is None: return None
        for q in inf.get("lwfacts", ()): ex.fact(q)
        try: return ex.merge(l["w"] >= 0, l["val"](l["w"]), inf["v0"])
        except CannotMerge: return None
    lastw = []
    def map_base(ex, classes, info, st): return None
    def exit_value(ex, loc, c, inf, v, S, ks, st):
        kind = c[0]; before = ex._get(st.store[loc[0]], loc[1]); v0 = inf["v0"]
        if kind in ("ind", "int", "bool", "text", "last", "fold", "ptr", "set"):
            if isinstance(v, Opaque) and v.what == "havoc": return before
            return S.val(v)
        if kind == "app":
            if not (v and isinstance(v[0], Hole) and v[0].name == inf["mark"]): return S.rope(v)
            return rope(before, S.rope(v[1:]))
        if kind == "map":
            r = before
            for e in v.log[inf["nlog"]:]:
                if e[0] != "set": raise Unsupported("update on the way out of a loop")
                r = SVec(r.n, r.elem, r.log + (("set", S.term(e[1]), S.val(e[2])),), r.ety, r.name)
            return r
        if kind == "push":
            r = before
            for e in v.log: r = ex.vpush(r, S.val(e[2]))
            return r
        raise Unsupported("loop class")
    selinfo = {}
    folds = {}
    loops = []

def ptr_shape(lv):
    """root and path of an object with at most one index"""
    if sum(a == "i" for a, b in lv.path) > 1: return None
    return lv.root, tuple((a, None) if a == "i" else (a, b) for a, b in lv.path)
def unmark(ex, v, m, bad):
    """(c, x): the value v is x under c and the marker m otherwise; None when it depends on the marker in another way"""
    if v is m: return False, None
    def both(c, a, b):
        if a is None or b is None: return None
        ch = Or(And(c, a[0]), And(Not(c), b[0]))
        x = b[1] if a[1] is None else a[1] if b[1] is None else ex.merge(And(c, a[0]), a[1], b[1])
        return ch, x
    def names(x): return set(value_names(x))
    try:
        if is_rope(v):
            if len(v) == 1 and isinstance(v[0], Hole) and v[0].name in bad: return False, None
            if len(v) == 1 and isinstance(v[0], Cho): return both(v[0].cond, unmark(ex, v[0].a, m, bad), unmark(ex, v[0].b, m, bad))
            return None if names(v) & bad else (True, v)
        if is_sym(v) and z3.is_int(v) and is_sym(m) and not isinstance(m, tuple):
            if z3.eq(v, m): return False, None
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE: return None if names(v.arg(0)) & bad else both(v.arg(0), unmark(ex, v.arg(1), m, bad), unmark(ex, v.arg(2), m, bad))
            return None if names(v) & bad else (True, v)
        if isinstance(v, int): return True, v
        if isinstance(v, Ptr) and isinstance(m, Ptr):
            if v.lv is None: return None if names(v.null) & bad else (True, v)
            ix = [b for a, b in v.lv.path if a == "i"]; mi = [b for a, b in m.lv.path if a == "i"]
            if not ix: return None
            r = unmark(ex, ix[0], mi[0], bad)
            if r is None or r[0] is False: return None
            c, x = r; g = m.null
            # the null flag: overwritten under the same condition
            n1 = simp(z3.substitute(zbool(v.null), (zbool(g), z3.BoolVal(True)))) if is_sym(v.null) else v.null
            n2 = simp(z3.substitute(zbool(v.null), (zbool(g), z3.BoolVal(False)))) if is_sym(v.null) else v.null
            sol = z3.Solver(); sol.set("timeout", 2000); sol.add(zbool(Not(c)), z3.Not(z3.And(zbool(n1), z3.Not(zbool(n2)))))
            if sol.check() != z3.unsat: return None
            sol = z3.Solver(); sol.set("timeout", 2000); sol.add(zbool(c), zbool(n1) != zbool(n2))
            if sol.check() != z3.unsat: return None
            return c, Ptr(LV(v.lv.root, [(a, x) if a == "i" else (a, b) for a, b in v.lv.path]), n2)
    except (CannotMerge, Unsupported): return None
    return None if names(v) & bad else (True, v)
def zfun1(name): return z3.Function(name, z3.IntSort(), z3.IntSort())
from . import terms as _t
def fresh_count(): return _t._fresh[0]
def fresh_next():
    _t._fresh[0] += 1; return _t._fresh[0]
