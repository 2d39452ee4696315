"""Models of the C++ standard library used by the project (part of the trusted base), on the values of terms.py."""
import re, math
import z3
from . import rx as _rx
from .terms import *
from .core import *

NPOS = (1 << 64) - 1
MAXTEXT = 500       # assumed bound on the length of a name or path when it is printed into a fixed buffer

def seg_maxlen(s):
    if isinstance(s, Lit): return len(s.s)
    if isinstance(s, Hole): return s.maxlen
    if isinstance(s, Ch): return 1
    if isinstance(s, Fmt):
        m = re.search(r"\d+", s.spec.lstrip("0#-+ ")); w = int(m.group()) if m else 0
        return max(w, 22)
    if isinstance(s, Cho):
        a, b = rope_maxlen(s.a), rope_maxlen(s.b)
        return None if a is None or b is None else max(a, b)
    if isinstance(s, Fun): return rope_maxlen(s.arg)
    return None
def rope_maxlen(r):
    t = 0
    for s in r:
        m = seg_maxlen(s)
        if m is None: return None
        t += m
    return t

_fn = {}
def zfun(name, n, sort="int"):
    k = (name, n, sort)
    if k not in _fn:
        out = z3.IntSort() if sort == "int" else z3.BoolSort() if sort == "bool" else z3.RealSort()
        _fn[k] = z3.Function(name, *([z3.IntSort()] * n + [out])) if n else (z3.Int(name) if sort == "int" else z3.Bool(name) if sort == "bool" else z3.Real(name))
    return _fn[k]
def app(name, args, sort="int"):
    f = zfun(name, len(args), sort)
    return f(*[zint(a) for a in args]) if args else f
_lits = {}
def lit_id(s): return _lits.setdefault(s, len(_lits) + 1)
_cplx = {}
def cplx_id(key): return _cplx.setdefault(key, len(_cplx) + 1)
def free_vars(v, out=None):
    out = {} if out is None else out
    def go(e):
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[e.decl().name()] = e
        for c in e.children(): go(c)
    if is_sym(v): go(v)
    return out
def seg_vars(s, out):
    if isinstance(s, Hole):
        for a in s.args: free_vars(a, out)
    elif isinstance(s, (Fmt, Ch)): free_vars(s.val, out)
    elif isinstance(s, Cho):
        free_vars(s.cond, out)
        for x in s.a + s.b: seg_vars(x, out)
    elif isinstance(s, Each):
        free_vars(s.lo, out); free_vars(s.hi, out); o2 = {}
        for x in s.body: seg_vars(x, o2)
        o2.pop(s.var.decl().name(), None); out.update(o2)
    elif isinstance(s, Fun):
        for x in s.arg: seg_vars(x, out)
def rope_vars(r):
    out = {}
    for s in r: seg_vars(s, out)
    return [out[k] for k in sorted(out)]

class Lib:
    # ================================================================ text
    def seglen(ex, s):
        """length of one segment: python int or term with its interval registered"""
        if isinstance(s, Lit): return len(s.s)
        if isinstance(s, Ch): return 1
        if isinstance(s, Cho): return Ite(s.cond, ex.rlen(s.a), ex.rlen(s.b))
        if isinstance(s, Hole): nm, args = "len:" + s.name, s.args
        elif isinstance(s, Fun) and s.name in ("lower", "upper"): return ex.rlen(s.arg)
        else:
            vs = []; seg_vars(s, o := {}); vs = [o[k] for k in sorted(o)]
            nm, args = "len:x%d" % cplx_id(s.key()), vs
        v = app(nm, args); lo, hi = seg_minlen(s), seg_maxlen(s)
        if hi is None: hi = 1 << 40          # (a text in memory)
        if ex.vb.get(nm) != (lo, hi) or True:
            ex.vb[nm] = (lo, hi)
            f = z3.And(v >= lo, v <= hi)
            if isinstance(s, Fmt) and s.spec in ("d", "u", "zu", "llu", "lld"):
                x = zint(s.val); f = z3.And(f, z3.If(z3.And(x >= 0, x <= 9), v == 1, z3.If(z3.And(x >= 10, x <= 99), v == 2, z3.Implies(x >= 0, v >= 3))))
            if isinstance(s, Each): f = z3.And(f, z3.If(zint(s.hi) > zint(s.lo), v >= sum(seg_minlen(x) for x in s.body), v == 0))
            ex.fact(f)
            if isinstance(s, Each): ex.lensegs[nm] = (vs, f)
        return v
    lensegs = {}
    _lenmemo = {}
    def len_facts(ex, c):
        """the facts about the lengths of repeated texts that occur in a condition, for its instances of them"""
        if not is_sym(c): return
        m = ex._lenmemo.get(c.get_id())
        if m is None or not z3.eq(m[0], c):
            fs = []; seen = {}
            def go(e):
                """returns whether the term has bound variables"""
                k = e.get_id()
                if k in seen: return seen[k]
                if z3.is_var(e) or z3.is_quantifier(e): seen[k] = True; return True
                bv = any([go(x) for x in e.children()])
                if z3.is_app(e) and not bv and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("len:"):
                    nm = e.decl().name(); r = ex.lensegs.get(nm); b = ex.vb.get(nm)
                    if b is not None and None not in b: fs.append(z3.And(e >= b[0], e <= b[1]))
                    if r is not None and len(r[0]) == e.num_args(): fs.append(z3.substitute(r[1], [(x, y) for x, y in zip(r[0], e.children())]))
                seen[k] = bv; return bv
            go(c); m = ex._lenmemo[c.get_id()] = (c, fs)
        for f in m[1]: ex.fact(f)
    def rlen(ex, r):
        n = 0
        for s in r: n = ex.iadd(n, ex.seglen(s))
        return n
    def resolve(ex, r):
        """the rope with every alternative decided by the path taken out"""
        out = []
        for s in r:
            if isinstance(s, Cho):
                ex.len_facts(s.cond)
                if ex.proves(s.cond): out.append(ex.resolve(s.a)); continue
                if ex.proves(Not(s.cond)): out.append(ex.resolve(s.b)); continue
                s = Cho(s.cond, ex.resolve(s.a), ex.resolve(s.b))
            out.append((s,))
        return rope(*out)
    def nonempty(ex, r):
        if rope_minlen(r) > 0: return True
        if not r: return False
        c = False
        for s in r:
            if isinstance(s, Cho): c = Or(c, Ite(s.cond, ex.nonempty(s.a), ex.nonempty(s.b)))
            else: c = Or(c, simp(zint(ex.seglen(s)) > 0))
        return simp(c) if is_sym(c) else c
    def cstring(ex, v):
        """characters at a const char*"""
        if isinstance(v, CStr): return v.r
        if isinstance(v, Ptr):
            if v.lv is None or v.null is True: ex.oblige("no null string", False); raise PathDead()
            x = ex.load(v.lv) if not (v.lv.path and v.lv.path[-1] == ("i", 0) and not isinstance(ex.load(LV(v.lv.root, v.lv.path[:-1])), (Vec, SVec))) else ex.load(LV(v.lv.root, v.lv.path[:-1]))
            if is_rope(x): return x
            if isinstance(x, Opaque) and x.what == "charp": return x.data
        if is_rope(v): return v
        raise Unsupported("string at %r" % (v,))
    def char_facts(ex, v, mask):
        lo = None; vals = [(c if c < 128 else c - 256) for c in range(256) if mask >> c & 1]
        if not vals: raise PathDead()
        vals.sort(); rng = []
        for c in vals:
            if rng and rng[-1][1] == c - 1: rng[-1][1] = c
            else: rng.append([c, c])
        if len(rng) <= 40: ex.fact(z3.Or([z3.And(v >= a, v <= b) if a != b else v == a for a, b in rng]))
        return vals[0], vals[-1]
    def sym_char(ex, name, args, mask):
        v = app(name, args)
        nm = name
        lo, hi = ex.char_facts(v, mask); ex.vb[nm] = (-128, 127)
        return v
    def char_at(ex, r, i, cstr=False):
        """character i (a signed char) of the rope"""
        c = cint(i)
        if c is not None:
            pos = 0; k = 0
            while k < len(r):
                s = r[k]
                if isinstance(s, Lit):
                    if c < pos + len(s.s):
                        if c < pos: raise Unsupported("negative index")
                        o = ord(s.s[c - pos]); return o - 256 if o > 127 else o
                    pos += len(s.s)
                elif isinstance(s, Ch):
                    if c == pos: return s.val
                    pos += 1
                elif isinstance(s, Cho):
                    rest = r[k+1:]
                    return ex.cond_value([(s.cond, lambda: ex.char_at(rope(s.a, rest), c - pos, cstr)), (Not(s.cond), lambda: ex.char_at(rope(s.b, rest), c - pos, cstr))])
                elif isinstance(s, Hole):
                    rel = c - pos
                    if rel < s.minlen:
                        return ex.sym_char("chr:" + s.name, s.args + (rel,), s.first if rel == 0 else s.cls)
                    L = ex.seglen(s)
                    if ex.proves(L > rel): return ex.sym_char("chr:" + s.name, s.args + (rel,), s.first if rel == 0 else s.cls)
                    if ex.proves(L <= rel):
                        if k + 1 < len(r):
                            if rel == 0 or ex.proves(L == 0): k += 1; continue
                            raise Unsupported("character behind an unknown text")
                        if cstr and ex.proves(L == rel): return 0
                        if ex.proves(L == rel): return 0
                        ex.oblige("index inside the string", False); raise PathDead()
                    if k + 1 == len(r):
                        # inside or just behind the text
                        return ex.cond_value([(L > rel, lambda: ex.sym_char("chr:" + s.name, s.args + (rel,), s.first if rel == 0 else s.cls)),
                                              (L == rel, lambda: 0), (L < rel, lambda: ex.beyond())])
                    return ex.cond_value([(L > rel, lambda: ex.sym_char("chr:" + s.name, s.args + (rel,), s.first if rel == 0 else s.cls)),
                                          (L == 0 if rel == 0 else L <= rel, lambda: ex.char_at(r[k+1:], 0, cstr) if rel == 0 else ex.fail_unsupported("character behind an unknown text"))])
                else: raise Unsupported("character of %r" % (s,))
                k += 1
            if c == pos: return 0
            ex.oblige("index inside the string", False, "index %d of %d" % (c, pos)); raise PathDead()
        # symbolic index
        if len(r) == 1 and isinstance(r[0], Hole):
            h = r[0]; L = ex.seglen(h)
            inb = z3.And(zint(i) >= 0, zint(i) <= L)
            if not ex.proves(inb):
                ex.oblige("index inside the string", inb); ex.assume(inb)
            def inside(): return ex.sym_char("chr:" + h.name, h.args + (i,), h.cls | h.first)
            return ex.cond_value([(zint(i) < L, inside), (zint(i) == L, lambda: 0)])
        n = lit_of(r)
        if n is not None:
            i2 = ex.concretize(i, 70); return ex.char_at(r, i2, cstr)
        # index counted from the end
        L = ex.rlen(r)
        for back in range(1, 24):
            if ex.proves(zint(i) == zint(L) - back): return ex.char_back(r, back)
        raise Unsupported("character at an unknown position %s of %r" % (i, r))
    def beyond(ex):
        ex.oblige("index inside the string", False); raise PathDead()
    def fail_unsupported(ex, m): raise Unsupported(m)
    def char_back(ex, r, back=1):
        """back-th character from the end"""
        if not r: ex.oblige("string not empty", False); raise PathDead()
        s = r[-1]
        if isinstance(s, Lit):
            if len(s.s) >= back: o = ord(s.s[-back]); return o - 256 if o > 127 else o
            return ex.char_back(r[:-1], back - len(s.s))
        if isinstance(s, Ch): return s.val if back == 1 else ex.char_back(r[:-1], back - 1)
        if isinstance(s, Cho):
            return ex.cond_value([(s.cond, lambda: ex.char_back(rope(r[:-1], s.a), back)), (Not(s.cond), lambda: ex.char_back(rope(r[:-1], s.b), back))])
        if isinstance(s, (Hole, Fmt, Fun, Each)):
            m = s.last if isinstance(s, Hole) and back == 1 else seg_cls(s)
            def inside():
                if isinstance(s, Hole): return ex.sym_char("chrb%d:" % back + s.name, s.args, m)
                if isinstance(s, Each) and back <= rope_minlen(s.body): return ex.char_back(rsubst(s.body, [(s.var, simp(zint(s.hi) - 1))]), back)
                seg_vars(s, o := {}); return ex.sym_char("chrb%d:x%d" % (back, cplx_id(s.key())), tuple(o[k] for k in sorted(o)), m)
            if seg_minlen(s) >= back: return inside()
            L = ex.seglen(s)
            if back == 1: return ex.cond_value([(zint(L) > 0, inside), (zint(L) == 0, lambda: ex.char_back(r[:-1], 1))])
            if ex.proves(zint(L) >= back): return inside()
            if ex.proves(zint(L) == 0): return ex.char_back(r[:-1], back)
        raise Unsupported("last character of %r" % (s,))
    # ---------------------------------------------------------------- equality of texts
    def txt(ex, r):
        """integer term standing for the text: literals have distinct constants, equal ropes equal terms"""
        s = lit_of(r)
        if s is not None: return lit_id(s)
        if len(r) == 1 and isinstance(r[0], Hole): return app("txt:" + r[0].name, r[0].args)
        return app("txt:x%d" % cplx_id(rkey(r)), rope_vars(r))
    def rope_eq(ex, a, b):
        if any(isinstance(g, Each) for g in a + b): a, b = ex.refold(a), ex.refold(b)
        while a and b:
            if a[0].key() == b[0].key(): a, b = a[1:], b[1:]; continue
            if isinstance(a[0], Lit) and isinstance(b[0], Lit):
                x, y = a[0].s, b[0].s; n = min(len(x), len(y))
                if x[:n] != y[:n]: return False
                a = rope(x[n:], a[1:]); b = rope(y[n:], b[1:]); continue
            break
        while a and b:
            if a[-1].key() == b[-1].key(): a, b = a[:-1], b[:-1]; continue
            if isinstance(a[-1], Lit) and isinstance(b[-1], Lit):
                x, y = a[-1].s, b[-1].s; n = min(len(x), len(y))
                if x[-n:] != y[-n:]: return False
                a = rope(a[:-1], x[:-n]); b = rope(b[:-1], y[:-n]); continue
            break
        if not a and not b: return True
        for u, v in ((a, b), (b, a)):
            if not u: return Not(ex.nonempty(v))
            m = rope_maxlen(u)
            if m is not None and rope_minlen(v) > m: return False
            t = lit_of(u)
            if t is not None:
                mask = rope_cls(v)
                if any(not (mask >> c & 1) for c in t.encode("latin1", "replace")): return False
                if isinstance(v[0], Hole) and v[0].minlen > 0 and t and not (v[0].first >> (ord(t[0]) & 255) & 1): return False
                if isinstance(v[-1], Hole) and v[-1].minlen > 0 and t and not (v[-1].last >> (ord(t[-1]) & 255) & 1): return False
                if isinstance(v[0], Lit) and not t.startswith(v[0].s[:len(t)]): return False
                if isinstance(v[-1], Lit) and not t.endswith(v[-1].s): return False
                if len(v) == 2 and isinstance(v[0], Lit) and isinstance(v[1], Hole): return ex.rope_eq((v[1],), rope(t[len(v[0].s):])) if t.startswith(v[0].s) else False
                if len(v) == 2 and isinstance(v[1], Lit) and isinstance(v[0], Hole): return ex.rope_eq((v[0],), rope(t[:-len(v[1].s)])) if t.endswith(v[1].s) else False
                if len(v) == 1 and isinstance(v[0], Fun) and v[0].name == "lower" : 
                    if t != t.lower(): return False
                if len(v) == 1 and isinstance(v[0], Ch): return Eq(v[0].val, ord(t) if ord(t) < 128 else ord(t) - 256) if len(t) == 1 else False
            # a text of characters outside of the other's class
            if len(u) >= 1 and any(isinstance(s, Lit) and any(not (rope_cls(v) >> (ord(ch) & 255) & 1) for ch in s.s) for s in u): return False
        for u, v in ((a, b), (b, a)):
            if len(u) == 1 and isinstance(u[0], Cho):
                return simp(z3.If(u[0].cond, zbool(ex.rope_eq(u[0].a, v)), zbool(ex.rope_eq(u[0].b, v))))
            for k, s in enumerate(u):
                if isinstance(s, Cho) and len(u) <= 4:
                    return simp(z3.If(s.cond, zbool(ex.rope_eq(rope(u[:k], s.a, u[k+1:]), v)), zbool(ex.rope_eq(rope(u[:k], s.b, u[k+1:]), v))))
        if len(a) == 1 and len(b) == 1 and isinstance(a[0], Ch) and isinstance(b[0], Ch): return Eq(a[0].val, b[0].val)
        if len(a) == 1 and len(b) == 1 and isinstance(a[0], Fmt) and isinstance(b[0], Fmt) and a[0].spec == b[0].spec: return Eq(a[0].val, b[0].val)
        return Eq(ex.txt(a), ex.txt(b))
    # ================================================================ printf
    def format(ex, fmt, args):
        f = lit_of(fmt)
        if f is None:
            for k, x in enumerate(fmt):
                if isinstance(x, Cho): return rope(Cho(x.cond, ex.format(rope(fmt[:k], x.a, fmt[k+1:]), args), ex.format(rope(fmt[:k], x.b, fmt[k+1:]), args)))
            raise Unsupported("format text not known")
        out = []; pos = 0; k = 0
        for m in re.finditer(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsfgpoe%])", f):
            if "%" in f[pos:m.start()]: raise Unsupported("format " + f[pos:m.start()])
            out.append(f[pos:m.start()]); pos = m.end()
            fl, wd, pr, ln, cv = m.groups()
            if cv == "%": out.append("%"); continue
            if wd == "*" or k >= len(args):
                if k >= len(args): ex.oblige("printf argument present", False, f); raise PathDead()
                raise Unsupported("format width *")
            v, ty = args[k]; k += 1
            if cv == "s":
                if ln or pr: raise Unsupported("format " + m.group())
                if not isinstance(v, (CStr, Ptr)): ex.oblige("printf: %s gets a string", False, f); raise PathDead()
                t = ex.cstring(v)
                if wd:
                    s = lit_of(t)
                    if s is None: raise Unsupported("padded unknown text")
                    t = rope(("%" + (fl or "") + wd + "s") % s)
                out.append(t); continue
            if cv in "diuxXc":
                v = ex.to_int(v)
                if isinstance(v, (CStr, Ptr, Opaque, float)) or not (isinstance(v, int) or is_sym(v)):
                    ex.oblige("printf: %%%s gets an integer" % cv, False, f); raise PathDead()
                w = {"hh": 8, "h": 16, None: 32}.get(ln, 64)
                v = ex.wrap(v, w, cv in "di")
                spec = (fl or "") + (wd or "") + (("." + pr) if pr else "") + cv
                c = cint(v)
                if cv == "c": out.append(Ch(v)); continue
                if c is not None: out.append(pyfmt(spec, c))
                else: out.append(Fmt(v, spec))
                continue
            if cv in "fge":
                out.append(Fmt(v, (pr and "." + pr or "") + cv) if not isinstance(v, Opaque) else Hole("dbl:%s:%s" % (m.group(), (ex.dkey(v) or (id(v),))[0]), (ex.dkey(v) or (0, ()))[1], FMTCLS | cls(".infa"), 1)); continue
            raise Unsupported("format " + m.group())
        if "%" in f[pos:]: raise Unsupported("format " + f[pos:])
        out.append(f[pos:])
        return rope(*[(x,) if isinstance(x, Seg) else x for x in out])
    def print_to(ex, dst, n, r):
        """snprintf into a buffer of n characters"""
        if isinstance(dst, Ptr) and (dst.lv is None or dst.null is True):
            return ex.rlen(r)
        if not isinstance(dst, Ptr): raise Unsupported("print target")
        lv = dst.lv
        if lv.path and lv.path[-1] == ("i", 0): lv = LV(lv.root, lv.path[:-1])
        c = cint(n); m = rope_maxlen(r)
        L = None
        if c is not None and m is not None and m < c: pass
        else:
            L = ex.rlen(r)
            if not ex.proves(zint(L) < zint(n)):
                # the text may be cut: the buffer then holds an unknown prefix
                if ex.trust_fits: ex.assumed.add("texts printed into fixed buffers fit (names and paths of at most %d characters)" % MAXTEXT)
                else:
                    ex.oblige("printed text fits its buffer", zint(L) < zint(n), "text %r into %s bytes" % (r, n)); ex.assume(zint(L) < zint(n))
        cap = ex.capacity(lv)
        if cap is not None and is_sym(n) and not ex.proves(zint(n) <= zint(cap)) or cap is not None and not is_sym(n) and not is_sym(cap) and n > cap: 
            ex.oblige("size given to snprintf is within the buffer", zint(n) <= zint(cap))
        ex.store(lv, r)
        return L if L is not None else ex.rlen(r)
    trust_fits = False
    def capacity(ex, lv):
        return None
    # ================================================================ construction
    def construct(ex, t, args, n):
        if is_string(t):
            if not args: return EMPTY
            vals = [ex.val(a) for a in args]
            v = vals[0]
            if len(vals) == 1:
                if is_rope(v): return v
                if isinstance(v, (CStr, Ptr)): return ex.cstring(v)
                if isinstance(v, It): raise Unsupported("string of iterator")
            if len(vals) == 2 and isinstance(v, (CStr, Ptr)):
                r = ex.cstring(v); L = ex.rlen(r)
                if ex.proves(Eq(L, vals[1])): return r
                s, c = lit_of(r), cint(vals[1])
                if s is not None and c is not None and c <= len(s): return rope(s[:c])
                raise Unsupported("string of part of a buffer")
            if len(vals) == 2 and (isinstance(v, int) or is_sym(v)):     # count, char
                c = cint(v); ch = cint(vals[1])
                if c is not None and ch is not None: return rope(chr(ch & 255) * c)
                if ch is not None:
                    seg_vars_ = free_vars(v); ks = [seg_vars_[k] for k in sorted(seg_vars_)]
                    return (Hole("rep:%d:%s" % (ch, zkey(v)), (), 1 << (ch & 255), 0),)
            if len(vals) == 2 and isinstance(v, It) and isinstance(vals[1], It):
                r = ex.load(v.lv)
                if is_rope(r) and cint(v.idx) == 0 and ex.proves(Eq(vals[1].idx, ex.rlen(r))): return r
            if len(vals) == 3 and isinstance(v, str): pass
            raise Unsupported("string constructor")
        if is_vector(t):
            if not args: return Vec((), t)
            vals = [ex.val(a) for a in args]; v = vals[0]
            if isinstance(v, (Vec, SVec, Opaque)) : return v
            et = t[t.index("<")+1:t.rindex(">")].split(",")[0].strip()
            if isinstance(v, (int,)) or is_sym(v):
                if et == "char":
                    return Struct("charbuf", {"size": v, "r": EMPTY})
                d = vals[1] if len(vals) > 1 else ex.default_value(et, True)
                return ex.vec_of(v, d, t)
            if isinstance(v, It) and len(vals) == 2:
                src = ex.load(v.lv)
                if isinstance(src, (Vec,)) and cint(v.idx) is not None and cint(vals[1].idx) is not None: return Vec(src.el[cint(v.idx):cint(vals[1].idx)], t)
                if isinstance(src, SVec) and cint(v.idx) == 0 and ex.proves(Eq(vals[1].idx, src.n)): return src
            raise Unsupported("vector constructor")
        m = re.match(r"(?:std::)?pair<(.*)>$", t)
        if m:
            from .exec import split_targs
            if not args: return ex.default_value(t, True)
            vals = [ex.val(a) for a in args]
            if len(vals) == 1 and isinstance(vals[0], Struct): return vals[0]
            ta, tb = split_targs(m.group(1)); return Struct("pair", {"first": ex.coerce(vals[0], ta), "second": ex.coerce(vals[1], tb)})
        if "stringstream" in t or "ostringstream" in t or "istringstream" in t:
            if not args: return EMPTY
            v = ex.val(args[0]); return v if is_rope(v) else ex.cstring(v)
        if t.startswith(("std::basic_regex", "std::regex")) and "token_iterator" not in t:
            v = ex.val(args[0]) if args else CStr(EMPTY); r = v if is_rope(v) else v.data if isinstance(v, Opaque) else ex.cstring(v)
            return Opaque("regex", r)
        if t.startswith(("std::regex_token_iterator", "std::sregex_token_iterator")):
            if not args: return Opaque("rxend")
            vals = [ex.val(a) for a in args]
            if len(vals) == 1: return vals[0]
            return ex.rx_token(vals)
        if t.startswith(("std::match_results", "std::smatch")): return Opaque("smatch", None)
        if t.startswith(("std::basic_ofstream", "std::ofstream")):
            ex.open_mode(args); return Opaque("ofstream", ex.val(args[0]) if args else None)
        if t.startswith(("std::basic_ifstream", "std::ifstream")): return Opaque("ifstream", ex.val(args[0]) if args else None)
        if t.startswith(("std::filesystem::path", "path", "std::filesystem::__cxx11::path")):
            v = ex.val(args[0]) if args else CStr(EMPTY); return v if is_rope(v) else ex.cstring(v)
        if t.startswith(("__gnu_cxx::__normal_iterator", "std::_Rb_tree", "std::reverse_iterator")): return ex.val(args[0])
        if t.startswith(("std::set<", "set<")) and not args: return Opaque("set", ())
        if t.startswith("std::allocator"): return Opaque("allocator")
        if t.startswith("std::locale"): return Opaque("locale")
        if t.startswith("std::initializer_list"): return ex.val(args[0])
        if t.startswith("std::sub_match") or t.startswith("std::__cxx11::sub_match"): return ex.val(args[0])
        if t == "std::function" or t.startswith("std::function<"): return ex.val(args[0])
        # project type
        ctors = [f for q, l in ex.p.funcs.items() for f in l if q.split("::")[-1] == t.split("::")[-1] and q.endswith(t.split("::")[-1] + "::" + t.split("::")[-1])]
        cn = [f for f in ctors if len(f.params) == len(args) and f.node.get("kind") == "CXXConstructorDecl"]
        if len(args) == 1 and not cn:
            v = ex.val(args[0])
            if isinstance(v, Struct): return v
        if not args and not cn:
            return ex.default_value(t, zero=n.get("requiresZeroInitialization", False))
        if cn:
            lv = ex.new(ex.default_value(t), "obj")
            ex.call_def(cn[0], ex.eval_args(ex.env.tu, cn[0].params, args), lv)
            return ex.load(lv)
        if len(args) == 1:
            v = ex.val(args[0])
            return v
        raise Unsupported("constructor of " + t)
    def vec_of(ex, n, d, t):
        c = cint(n)
        if c is not None and c <= 4096: return Vec([d] * c, t)
        return SVec(n, lambda i, d=d: d, (), t, "v")
    # ================================================================ vectors
    def vsize(ex, v):
        if isinstance(v, Vec): return len(v.el)
        if isinstance(v, SVec): return v.n
        if is_rope(v): return ex.rlen(v)
        if isinstance(v, Struct) and v.type == "charbuf": return v.get("size")
        if isinstance(v, Opaque) and v.what == "set": raise Unsupported("size of a set")
        raise Unsupported("size of %r" % (v,))
    def vpush(ex, v, x):
        if isinstance(v, Vec): return Vec(v.el + (x,), v.ety)
        if isinstance(v, SVec): return SVec(ex.iadd(v.n, 1), v.elem, v.log + (("set", v.n, x),), v.ety, v.name)
        raise Unsupported("push_back on %r" % (v,))
    # ================================================================ methods
    def method(ex, obj, t, name, argn, n):
        argn = [a for a in argn if a["kind"] != "CXXDefaultArgExpr"]
        v = ex.load(obj)
        t = strip_ref(clean(t))
        if name == "operator bool" and (isinstance(v, bool) or is_sym(v) and z3.is_bool(v)): return v
        if name.startswith(("operator basic_string", "operator string_type", "operator std::")) and is_rope(v): return v
        if isinstance(v, Opaque) and v.what == "submatch" and name.startswith("operator "): return v.data
        if name == "operator=" and len(argn) == 1:
            x = ex.val(argn[0], t); ex.store(obj, ex.as_rope(x) if is_rope(v) else x); return obj
        if is_rope(v):
            f = getattr(ex, "str_" + name, None)
            if "stream" in t or "basic_ios" in t or "ios_base" in t or f is None:
                f = getattr(ex, "ss_" + name, None) or f
            if f is None: raise Unsupported("string method " + name)
            return f(obj, v, argn)
        if isinstance(v, (Vec, SVec)) or (isinstance(v, Struct) and v.type == "charbuf"):
            f = getattr(ex, "vec_" + name, None)
            if f is None: raise Unsupported("vector method " + name)
            return f(obj, v, argn)
        if isinstance(v, Opaque):
            f = getattr(ex, "%s_%s" % (v.what, name), None)
            if f is None: raise Unsupported("method %s of %s" % (name, v.what))
            return f(obj, v, argn)
        if isinstance(v, It): raise Unsupported("iterator method")
        raise Unsupported("method %s of %r" % (name, type(v)))
    # ---- strings
    def rval(ex, a):
        v = ex.val(a); return ex.as_rope(v)
    def as_rope(ex, v):
        if is_rope(v): return v
        if isinstance(v, (CStr, Ptr)): return ex.cstring(v)
        if isinstance(v, (int,)) or (is_sym(v) and z3.is_int(v)): return rope((Ch(v),)) if is_sym(v) else rope(chr(v & 255))
        raise Unsupported("text of %r" % (v,))
    def str_size(ex, o, v, a): return ex.rlen(v)
    str_length = str_size
    def str_empty(ex, o, v, a): return Not(ex.nonempty(v))
    def str_c_str(ex, o, v, a): return CStr(v)
    str_data = str_c_str
    def str_clear(ex, o, v, a): ex.store(o, EMPTY)
    def str_push_back(ex, o, v, a): ex.store(o, rope(v, ex.as_rope(ex.val(a[0]))))
    def str_append(ex, o, v, a):
        x = ex.val(a[0])
        if len(a) == 2:
            y = ex.val(a[1])
            if isinstance(x, int) and isinstance(y, int): ex.store(o, rope(v, chr(y & 255) * x)); return o
            raise Unsupported("append")
        ex.store(o, rope(v, ex.as_rope(x))); return o
    def str_back(ex, o, v, a): return ex.char_back(v, 1)
    def str_front(ex, o, v, a): return ex.char_at(v, 0)
    def str_at(ex, o, v, a): return ex.char_at(v, ex.to_int(ex.val(a[0])))
    def str_compare(ex, o, v, a):
        if len(a) == 3:
            q, n, pat = cint(ex.to_int(ex.val(a[0]))), cint(ex.to_int(ex.val(a[1]))), ex.rval(a[2]); t = lit_of(pat)
            if q == 0 and t is not None and n == len(t): return ex.starts(v, pat, 0, 1)
        if len(a) != 1: raise Unsupported("compare of parts")
        e = ex.rope_eq(v, ex.rval(a[0]))
        if isinstance(e, bool): return 0 if e else 1
        return simp(z3.If(e, z3.IntVal(0), z3.IntVal(1)))
    def str_begin(ex, o, v, a): return It(o, 0)
    str_cbegin = str_begin
    def str_end(ex, o, v, a): return It(o, ex.rlen(v))
    str_cend = str_end
    def str_pop_back(ex, o, v, a):
        ex.store(o, ex.chop(v))
    def chop(ex, v):
        if not v: ex.oblige("pop_back of a non-empty string", False); raise PathDead()
        s = v[-1]
        if isinstance(s, Lit): return rope(v[:-1], s.s[:-1])
        if isinstance(s, Ch): return v[:-1]
        if isinstance(s, Hole) and (s.minlen > 0 or ex.proves(zint(ex.seglen(s)) > 0)):
            return rope(v[:-1], (Hole("chop:" + s.name, s.args, s.cls, max(0, s.minlen - 1), s.first, s.cls, s.maxlen),))
        if isinstance(s, Each) and ex.proves(zint(s.hi) > zint(s.lo)):
            h = simp(zint(s.hi) - 1); return rope(v[:-1], (Each(s.var, s.lo, h, s.body),), ex.chop(rsubst(s.body, [(s.var, zint(h))])))
        raise Unsupported("pop_back")
    def refold(ex, r):
        """a repeated part followed by its next repetition is one more repetition"""
        def strip(a, p):
            a, p = list(a), list(p)
            while p:
                if not a: return None
                if a[0].key() == p[0].key(): a.pop(0); p.pop(0); continue
                if isinstance(a[0], Lit) and isinstance(p[0], Lit) and len(p) == 1 and a[0].s.startswith(p[0].s): a[0] = Lit(a[0].s[len(p[0].s):]); p.pop(0); continue
                return None
            return tuple(a)
        i = 0
        while i < len(r):
            e = r[i]
            if isinstance(e, Each):
                rest = strip(r[i + 1:], rsubst(e.body, [(e.var, zint(e.hi))]))
                if rest is not None and rkey(rest) != rkey(r[i + 1:]): r = rope(r[:i], (Each(e.var, e.lo, simp(zint(e.hi) + 1), e.body),), rest); continue
            i += 1
        return r
    def str_resize(ex, o, v, a):
        k = ex.to_int(ex.val(a[0]))
        ex.store(o, ex.rope_prefix(v, k))
    def rope_prefix(ex, v, k):
        c = cint(k); s = lit_of(v)
        if c is not None and s is not None:
            return rope(s[:c]) if c <= len(s) else rope(s + "\0" * (c - len(s)))
        if c is not None:
            pos = 0
            for j, g in enumerate(v):
                if pos == c: return v[:j]
                if isinstance(g, Lit):
                    if c <= pos + len(g.s): return rope(v[:j], g.s[:c - pos])
                    pos += len(g.s)
                elif isinstance(g, Ch): pos += 1
                else: break
        L = 0
        if is_sym(k):
            for j in range(len(v) + 1):          # the same term
                d = cint(simp(zint(k) - zint(L)))
                if d == 0: return v[:j]
                if d is not None and j < len(v) and isinstance(v[j], Lit) and 0 <= d <= len(v[j].s): return rope(v[:j], v[j].s[:d])
                if j < len(v): L = ex.iadd(L, ex.seglen(v[j]))
        L = 0
        for j in range(len(v) + 1):
            if cint(simp(zint(k) - zint(L))) is None and ex.proves(Eq(L, k)) or cint(k) is not None and cint(k) == cint(L): return v[:j]
            if j < len(v):
                if isinstance(v[j], Lit):
                    d = simp(zint(k) - zint(L)); d = cint(d)
                    if d is not None and 0 <= d <= len(v[j].s): return rope(v[:j], v[j].s[:d])
                L = ex.iadd(L, ex.seglen(v[j]))
        # the text ends in segments of known length: split the path on the place
        ends = []; L = ex.rlen(v); j = len(v)
        while j and len(ends) < 24:
            g = v[j - 1]
            if isinstance(g, Ch): ends.append((L, v[:j])); L = simp(zint(L) - 1)
            elif isinstance(g, Lit):
                for q in range(len(g.s), 0, -1): ends.append((L, rope(v[:j - 1], g.s[:q]))); L = simp(zint(L) - 1)
            else: break
            j -= 1
        if len(ends) >= 2:
            ends.append((L, v[:j]))
            for l, r in ends[:26]:
                if ex.decide(Eq(k, l)): return r
        raise Unsupported("prefix of unknown length %r of %r" % (k, v))
    def rope_suffix(ex, v, k):
        """text from position k"""
        c = cint(k)
        if c == 0: return v
        L = 0
        for j in range(len(v) + 1):
            d = simp(zint(k) - zint(L)) if is_sym(k) or is_sym(L) else k - L
            d = cint(d)
            if d == 0: return v[j:]
            if j < len(v):
                if isinstance(v[j], Lit) and d is not None and 0 < d < len(v[j].s): return rope(v[j].s[d:], v[j+1:])
                if d is not None and d < 0: break
                if isinstance(v[j], Hole) and d == 1 and j == 0 and (v[j].minlen > 0 or ex.proves(zint(ex.seglen(v[j])) > 0)):
                    h = v[j]; return rope((Hole("tail:" + h.name, h.args, h.cls, max(0, h.minlen - 1), h.cls, h.last, h.maxlen),), v[1:])
                if ex.proves(Eq(L, k)): return v[j:]
                L = ex.iadd(L, ex.seglen(v[j]))
        raise Unsupported("suffix from unknown position %r of %r" % (k, v))
    def str_substr(ex, o, v, a):
        pos = ex.to_int(ex.val(a[0])) if a else 0; k = ex.to_int(ex.val(a[1])) if len(a) > 1 else NPOS
        try:
            r = ex.rope_suffix(v, pos)
            return r if cint(k) == NPOS else ex.rope_prefix(r, k)
        except Unsupported:
            # a part of the text at unknown places: an unknown text that depends on the text and the places only
            if not all(isinstance(g, (Lit, Hole)) for g in v): raise
            ex.oblige("position of the part inside the text", simp(zint(pos) <= zint(ex.rlen(v))))
            return (Hole("part:x%d" % cplx_id(rkey(v)), tuple(rope_vars(v)) + (pos, k), rope_cls(v), 0),)
    def str_erase(ex, o, v, a):
        if not a: ex.store(o, EMPTY); return o
        p = ex.to_int(ex.val(a[0]))
        k = ex.to_int(ex.val(a[1])) if len(a) > 1 else NPOS
        if cint(k) == NPOS or ex.proves(Eq(ex.iadd(p, k), ex.rlen(v))):
            try: r = ex.rope_prefix(v, p)
            except Unsupported:
                if not all(isinstance(g, (Lit, Hole)) for g in v): raise
                ex.oblige("position inside the text", simp(z3.And(zint(p) >= 0, zint(p) <= zint(ex.rlen(v)))))
                r = (Hole("part:x%d" % cplx_id(rkey(v)), tuple(rope_vars(v)) + (0, p), rope_cls(v), 0),)
            ex.store(o, r); return o
        ex.store(o, rope(ex.rope_prefix(v, p), ex.rope_suffix(v, ex.iadd(p, k)))); return o
    def str_insert(ex, o, v, a):
        if len(a) == 3:
            p, k, c = (ex.to_int(ex.val(x)) for x in a)
            ch = cint(c)
            if cint(p) == 0 and ch is not None:
                kk = cint(k)
                if kk is not None:
                    if kk < 0 or kk > 1 << 20:
                        ex.oblige("length of inserted text is not negative", False); raise PathDead()
                    ex.store(o, rope(chr(ch & 255) * kk, v)); return o
                ex.oblige("length of inserted text", z3.And(zint(k) >= 0, zint(k) < (1 << 30)))
                ex.store(o, rope((Hole("rep:%d:%s" % (ch, zkey(k)), (), 1 << (ch & 255), 0),), v)); return o
        elif len(a) == 2:
            p = ex.to_int(ex.val(a[0]))
            ex.store(o, rope(ex.rope_prefix(v, p), ex.as_rope(ex.val(a[1])), ex.rope_suffix(v, p))); return o
        raise Unsupported("insert")
    def str_rfind(ex, o, v, a):
        pat = ex.rval(a[0])
        if len(a) > 1:
            k = ex.to_int(ex.val(a[1]))
            if cint(k) == 0: return ex.starts(v, pat, 0, NPOS)
            if cint(k) != NPOS: raise Unsupported("rfind from a position")
        return ex.find_generic(v, pat, None, last=True)
    def starts(ex, v, pat, yes, no):
        """yes if the text begins with the pattern"""
        p = ex.find_generic(v, pat, 0); c = Eq(p, 0)
        return yes if c is True else no if c is False else simp(z3.If(zbool(c), z3.IntVal(yes), z3.IntVal(no)))
    def str_str(ex, o, v, a): return v
    def str_find(ex, o, v, a):
        pat = ex.rval(a[0]); start = ex.to_int(ex.val(a[1])) if len(a) > 1 else 0
        return ex.find_generic(v, pat, start)
    def find_exact(ex, v, p):
        """first occurrence, if it is at a known place; None: unknown"""
        # exact position when the text before it cannot contain the pattern
        pm = cls(p); L = 0
        for j, g in enumerate(v):
            if isinstance(g, Lit):
                i = g.s.find(p)
                if i >= 0: return ex.iadd(L, i)
                if j + 1 < len(v) and any(g.s.endswith(p[:q]) for q in range(1, len(p))): 
                    if len(p) > 1: break
            elif isinstance(g, (Hole, Fun, Fmt)) and (seg_cls(g) & cls(p[0])) == 0: pass
            elif isinstance(g, Ch) and ex.proves(simp(zint(g.val) != ord(p[0]))): pass
            elif isinstance(g, (Hole, Fun, Fmt)) and len(p) > 1 and any(not (seg_cls(g) >> (ord(ch) & 255) & 1) for ch in p):
                # an occurrence would have to leave this segment
                if j + 1 < len(v): break
            else: break
            L = ex.iadd(L, ex.seglen(g))
        else: return NPOS
        return None
    def find_generic(ex, v, pat, start, last=False):
        p, s = lit_of(pat), lit_of(v); c = cint(start) if start is not None else None
        if p is None: raise Unsupported("find of an unknown text")
        if s is not None and not last and c is not None:
            r = s.find(p, c); return r if r >= 0 else NPOS
        if s is not None and last:
            r = s.rfind(p); return r if r >= 0 else NPOS
        if p == "": return start or 0
        if not last and c == 0:
            i = ex.find_exact(v, p)
            if i is not None: return i
        elif not last and start is not None and (c is None or c > 0) and len(v) > 1 and lit_of(v) is None:
            # from a place between two known parts: the search in the rest
            try: w = ex.rope_suffix(v, start)
            except Unsupported: w = None
            if w is not None and w is not v:
                i = ex.find_exact(w, p)
                if i is not None: return NPOS if cint(i) == NPOS else ex.iadd(start, i)
        if not (rope_cls(v) & cls(p)) or any(not (rope_cls(v) >> (ord(ch) & 255) & 1) for ch in p): return NPOS
        # uninterpreted position
        key = "%sfind:%s:%s:%s" % ("havoc." if last else "", p, last, zkey(start) if start is not None else "")
        pos = app("%s:x%d" % (key, cplx_id(rkey(v))), rope_vars(v))
        L = ex.rlen(v)
        ex.vb["%s:x%d" % (key, cplx_id(rkey(v)))] = (0, NPOS)
        lo = start if start is not None else 0
        ex.fact(z3.Or(pos == NPOS, z3.And(pos >= zint(lo), pos + len(p) <= zint(L))))
        if not last and c == 0 and v:
            # the text does not begin with the pattern
            for g in v:
                e = isinstance(g, Each)
                if e: g = g.body[0] if g.body else Lit("")
                if isinstance(g, Lit):
                    if not g.s or g.s.startswith(p) or p.startswith(g.s): break
                elif isinstance(g, Hole):
                    if g.first & cls(p[0]) or e and not g.minlen: break
                elif not isinstance(g, Fmt) or seg_cls(g) & cls(p[0]): break
                if not e and (not isinstance(g, Hole) or g.minlen): ex.fact(pos != 0); break
            else: ex.fact(pos != 0)
        return pos
    def str_find_first_of(ex, o, v, a):
        x = ex.as_rope(ex.val(a[0])); p = lit_of(x)
        if p is None or len(a) > 1: raise Unsupported("find_first_of")
        return ex.find_set(v, cls(p), True)
    def str_find_first_not_of(ex, o, v, a):
        p = lit_of(ex.as_rope(ex.val(a[0])))
        if p is None or len(a) > 1: raise Unsupported("find_first_not_of")
        return ex.find_set(v, ALL & ~cls(p), True)
    def str_find_last_of(ex, o, v, a):
        p = lit_of(ex.as_rope(ex.val(a[0])))
        if p is None or len(a) > 1: raise Unsupported("find_last_of")
        return ex.find_set(v, cls(p), False)
    def str_find_last_not_of(ex, o, v, a):
        p = lit_of(ex.as_rope(ex.val(a[0])))
        if p is None or len(a) > 1: raise Unsupported("find_last_not_of")
        return ex.find_set(v, ALL & ~cls(p), False)
    def find_set(ex, v, mask, first):
        """position of the first/last character in the class"""
        segs = list(v) if first else list(reversed(v)); L = 0
        def begins(g): return isinstance(g, Lit) and g.s and mask >> (ord(g.s[0]) & 255) & 1 or isinstance(g, Hole) and g.minlen and not g.first & ~mask or isinstance(g, (Fmt, Ch)) and not seg_cls(g) & ~mask
        for q, g in enumerate(segs):
            if first and isinstance(g, Each) and q + 1 < len(segs) and g.body and begins(g.body[0]) and begins(segs[q + 1]): return L
            if isinstance(g, Lit):
                idx = [i for i, ch in enumerate(g.s) if mask >> (ord(ch) & 255) & 1]
                if idx:
                    if first: return ex.iadd(L, idx[0])
                    return ex.iadd(ex.rlen(v), -(cint(L) if cint(L) is not None else 0) - (len(g.s) - idx[-1])) if cint(L) is not None else simp(zint(ex.rlen(v)) - zint(L) - (len(g.s) - idx[-1]))
            elif isinstance(g, Hole):
                c0 = g.first if first else g.last
                if not (g.cls & mask): pass
                elif g.minlen > 0 and not (c0 & ~mask):
                    if first: return L
                    return simp(zint(ex.rlen(v)) - zint(L) - 1)
                else: break
            elif not (seg_cls(g) & mask): pass
            elif (isinstance(g, (Fmt, Ch)) or isinstance(g, Fun) and g.minlen) and not seg_cls(g) & ~mask:
                return L if first else simp(zint(ex.rlen(v)) - zint(L) - 1)
            else: break
            L = ex.iadd(L, ex.seglen(g))
        else: return NPOS
        key = "fset:%x:%s:x%d" % (mask, first, cplx_id(rkey(v)))
        pos = app(key, rope_vars(v)); ex.vb[key] = (0, NPOS)
        ex.fact(z3.Or(pos == NPOS, z3.And(pos >= 0, pos < zint(ex.rlen(v)))))
        return pos
    # ---- regular expressions
    def rx_source(ex, o):
        if not isinstance(o, Opaque) or o.what != "regex": raise Unsupported("regular expression")
        s = lit_of(ex.as_rope(o.data))
        if s is None: raise Unsupported("unknown regular expression")
        return s
    rx_hidden = None
    def rx_token(ex, vals):
        a, b, rx = vals[:3]; sub = cint(vals[3]) if len(vals) > 3 else 0
        if not isinstance(a, It) or not isinstance(b, It): raise Unsupported("token iterator")
        r, whole = ex.seq_range(a, b)
        if not whole or not is_rope(r) or sub is None: 
            if not ex.rx_hidden: raise Unsupported("token iterator")
        v = ex.rx_hidden(r, rx, vals[3] if len(vals) > 3 else 0) if ex.rx_hidden else _rx.tokens(ex, r, ex.rx_source(rx), sub)
        return It(ex.new(v, "tokens"), 0)
    def smatch_of(ex, o):
        v = ex.load(o)
        if v.data is None: raise Unsupported("no match")
        return v.data
    def smatch_prefix(ex, o, v, a): return Opaque("submatch", ex.smatch_of(o).prefix)
    def smatch_suffix(ex, o, v, a): return Opaque("submatch", ex.smatch_of(o).suffix)
    def smatch_size(ex, o, v, a): return len(v.data.groups) if v.data is not None else 0
    def smatch_empty(ex, o, v, a): return v.data is None
    def smatch_str(ex, o, v, a): return ex.smatch_get(v, ex.to_int(ex.val(a[0])) if a else 0).data
    def smatch_get(ex, v, i):
        i = cint(i)
        if v.data is None or i is None: raise Unsupported("group of a match")
        if i >= len(v.data.groups): return Opaque("submatch", EMPTY)
        return Opaque("submatch", v.data.groups[i])
    def submatch_str(ex, o, v, a): return v.data
    def submatch_length(ex, o, v, a): return ex.rlen(v.data)
    def rx_find(ex, argn, fn):
        args = [a for a in argn if a["kind"] != "CXXDefaultArgExpr"]
        if len(args) not in (2, 3): raise Unsupported("search by a regular expression")
        r = ex.as_rope(ex.val(args[0])); src = ex.rx_source(ex.val(args[-1])); m = fn(ex, r, src)
        if len(args) == 3: ex.store(ex.lv(args[1]), Opaque("smatch", m))
        return m is not None
    def f_regex_search(ex, argn, n): return ex.rx_find(argn, _rx.search)
    def f_regex_match(ex, argn, n): return ex.rx_find(argn, _rx.match)
    def f_regex_replace(ex, argn, n):
        args = [a for a in argn if a["kind"] != "CXXDefaultArgExpr"]
        if len(args) != 3: raise Unsupported("replacement by a regular expression")
        f = lit_of(ex.rval(args[2]))
        if f is None: raise Unsupported("replacement text")
        return _rx.replace(ex, ex.resolve(ex.rval(args[0])), ex.rx_source(ex.val(args[1])), f)
    # ---- streams (content as rope)
    def ss_str(ex, o, v, a):
        if a: ex.store(o, ex.rval(a[0])); return None
        return v
    def ss_clear(ex, o, v, a):
        return None
    def ss_rdbuf(ex, o, v, a): return Opaque("rdbuf", o)
    def ss_imbue(ex, o, v, a): return Opaque("locale")
    def ss_precision(ex, o, v, a): return 6
    # ---- vectors
    def vec_size(ex, o, v, a): return ex.vsize(v)
    def vec_empty(ex, o, v, a): return Eq(ex.vsize(v), 0)
    def vec_clear(ex, o, v, a): ex.store(o, Vec((), v.ety))
    def vec_begin(ex, o, v, a): return It(o, 0)
    vec_cbegin = vec_begin
    def vec_end(ex, o, v, a): return It(o, ex.vsize(v))
    vec_cend = vec_end
    def vec_push_back(ex, o, v, a):
        x = ex.val(a[0], vec_elt(v.ety)); x = ex.coerce(x, vec_elt(v.ety)); ex.store(o, ex.vpush(ex.load(o), x))
    def vec_emplace_back(ex, o, v, a):
        if len(a) == 1: return ex.vec_push_back(o, v, a)
        from .exec import split_targs
        et = vec_elt(v.ety); m = re.match(r"(?:std::)?pair<(.*)>$", et)
        if not a: x = ex.default_value(et, True)
        elif m and len(a) == 2:
            ta, tb = split_targs(m.group(1)); x = Struct("pair", {"first": ex.coerce(ex.val(a[0]), ta), "second": ex.coerce(ex.val(a[1]), tb)})
        else: raise Unsupported("emplace_back of %s" % et)
        ex.store(o, ex.vpush(ex.load(o), x))
    def vec_pop_back(ex, o, v, a):
        if isinstance(v, Vec) and v.el: ex.store(o, Vec(v.el[:-1], v.ety)); return
        raise Unsupported("pop_back")
    def vec_reserve(ex, o, v, a): return None
    def vec_resize(ex, o, v, a):
        k = ex.to_int(ex.val(a[0]))
        if isinstance(v, Vec) and not v.el:
            ex.store(o, ex.vec_of(k, ex.val(a[1]) if len(a) > 1 else ex.default_value(vec_elt(v.ety), True), v.ety)); return
        c = cint(k)
        if isinstance(v, Vec) and c is not None:
            d = ex.default_value(vec_elt(v.ety), True); ex.store(o, Vec((v.el + (d,) * c)[:c], v.ety)); return
        raise Unsupported("resize")
    def vec_back(ex, o, v, a):
        s = ex.vsize(v)
        if s == 0: ex.oblige("back of a non-empty vector", False); raise PathDead()
        return o.i(ex.iadd(s, -1))
    def vec_front(ex, o, v, a): return o.i(0)
    def vec_at(ex, o, v, a): return o.i(ex.to_int(ex.val(a[0])))
    def vec_data(ex, o, v, a):
        if isinstance(v, Struct): return Ptr(o.f("r"))
        return Ptr(o.i(0))
    def vec_insert(ex, o, v, a): raise Unsupported("vector insert")
    # ---- sets of texts: tuple of (kind, ...) events; membership stays uninterpreted
    def set_insert(ex, o, v, a):
        ex.store(o, Opaque("set", v.data + (ex.val(a[0]),))); return Opaque("pair")
    def set_find(ex, o, v, a):
        return Opaque("setit", (o, v, ex.val(a[0])))
    def set_end(ex, o, v, a): return Opaque("setit", (o, v, None))
    def set_count(ex, o, v, a): return ex.to_int(ex.set_has(v, ex.val(a[0])))
    def set_clear(ex, o, v, a): ex.store(o, Opaque("set", ()))
    def set_has(ex, v, x):
        if v.data == (): return False
        c = False
        for y in v.data:
            if isinstance(y, tuple) and y and y[0] == "unknown": c = Or(c, app("sethas:%s" % y[1], [ex.txt(x)] + list(y[2]), "bool"))
            else: c = Or(c, ex.rope_eq(y, x))
        return c
    # ---- opaque things
    def open_mode(ex, a):
        # only plain and truncating modes write the file anew
        if len(a) < 2 or a[1]["kind"] == "CXXDefaultArgExpr": return
        m = cint(ex.to_int(ex.val(a[1])))
        if m is None: raise Unsupported("open mode")
        ex.oblige("the file is written anew", not m & 1 and not (m & 8 and not m & 32), "mode %d" % m)
    def ofstream_open(ex, o, v, a): ex.open_mode(a); ex.store(o, Opaque("ofstream", ex.val(a[0]))); return None
    def ofstream_close(ex, o, v, a): return None
    def ofstream_is_open(ex, o, v, a): return z3.Bool("ofstream_open")
    def ifstream_is_open(ex, o, v, a): return z3.Bool("ifstream_open")
    def ifstream_close(ex, o, v, a): return None
    # ================================================================ overloaded operators
    def operator(ex, op, argn, n):
        if op == "=":
            t = tname(argn[0])
            v = ex.val(argn[1], t); lv = ex.lv(argn[0])
            old = ex.load(lv)
            if is_rope(old): v = ex.as_rope(v)
            if is_vector(t) and isinstance(v, Vec) and v.ety is None: v = Vec(v.el, t)
            ex.store(lv, v); return lv
        if op == "<<": return ex.op_out(argn)
        if op == "()":
            f = ex.val(argn[0])
            if isinstance(f, Lambda): return ex.call_lambda(f, [ex.glv(a) for a in argn[1:]])
            raise Unsupported("call operator")
        x = ex.anyv(argn[0]) if op not in ("+=", "++", "--", "*", "->", "[]") else None
        if op == "[]":
            v = ex.anyv(argn[0]); lv = v if isinstance(v, LV) else ex.new(v, "tmp")
            i = ex.to_int(ex.val(argn[1])); v = ex.load(lv)
            if isinstance(v, Opaque) and v.what == "smatch": return ex.smatch_get(v, i)
            if isinstance(v, It): return v.lv.i(ex.iadd(v.idx, i))
            if is_rope(v):
                if n.get("valueCategory") == "lvalue": return ex.new(ex.char_at(v, i), "ch")
                return ex.char_at(v, i)
            return lv.i(i)
        if op == "*":
            p = ex.val(argn[0])
            if isinstance(p, It):
                v = ex.load(p.lv)
                if is_rope(v): return ex.new(ex.char_at(v, p.idx), "ch")
                return p.lv.i(p.idx)
            raise Unsupported("operator *")
        if op == "->":
            p = ex.val(argn[0])
            if isinstance(p, It): return Ptr(p.lv.i(p.idx))
            raise Unsupported("operator ->")
        if op in ("++", "--"):
            lv = ex.lv(argn[0]); old = ex.load(lv)
            if isinstance(old, It): ex.store(lv, It(old.lv, ex.iadd(old.idx, 1 if op == "++" else -1)))
            else: raise Unsupported("operator ++")
            return lv if len(argn) == 1 else old
        if op == "+=":
            lv = ex.lv(argn[0]); y = ex.val(argn[1]); v = ex.load(lv)
            if is_rope(v): ex.store(lv, rope(v, ex.as_rope(y))); return lv
            if isinstance(v, It): ex.store(lv, It(v.lv, ex.iadd(v.idx, y))); return lv
            raise Unsupported("operator +=")
        x = ex.load(x) if isinstance(x, LV) else x
        y = ex.val(argn[1]) if len(argn) > 1 else None
        return ex.op_values(op, x, y)
    def op_values(ex, op, x, y):
        if isinstance(y, Opaque) and y.what == "rxend" and isinstance(x, It): y = It(x.lv, ex.vsize(ex.load(x.lv)))
        if isinstance(x, Opaque) and x.what == "rxend" and isinstance(y, It): x = It(y.lv, ex.vsize(ex.load(y.lv)))
        if isinstance(x, It) or isinstance(y, It): return ex.it_op(op, x, y)
        if isinstance(x, Opaque) and x.what == "setit":
            a, b = x.data, y.data
            k = a[2] if a[2] is not None else b[2]
            has = ex.set_has(a[1], k)
            return Not(has) if op == "==" else has
        if isinstance(x, Opaque) and x.what == "rxend" and isinstance(y, Opaque) and y.what == "rxend": return op == "=="
        if op in ("==", "!="):
            if isinstance(x, Struct) and isinstance(y, Struct) and x.type == "pair": 
                r = And(ex.val_eq(x.get("first"), y.get("first")), ex.val_eq(x.get("second"), y.get("second"))); return r if op == "==" else Not(r)
            r = ex.rope_eq(ex.as_rope(x), ex.as_rope(y)); return r if op == "==" else Not(r)
        if op == "+":
            if isinstance(x, (int,)) and not isinstance(x, bool): x = rope(chr(x & 255))
            return rope(ex.as_rope(x), ex.as_rope(y))
        if op in ("&", "|", "^", "~"):
            if isinstance(x, Opaque): return x
            return ex.bitop(op, x, y, 32, True)
        if op == "!":
            return Not(ex.to_bool(x))
        raise Unsupported("operator %s" % op)
    def val_eq(ex, a, b):
        if is_rope(a) and is_rope(b): return ex.rope_eq(a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return ex.ptr_eq(a, b)
        if isinstance(a, Struct) or isinstance(b, Struct): raise Unsupported("comparison of objects")
        return Eq(a, b)
    def op_out(ex, argn):
        v = ex.anyv(argn[0]); lv = v if isinstance(v, LV) else ex.new(v, "tmp")
        s = ex.load(lv); y = ex.val(argn[1])
        if isinstance(s, Opaque) and s.what == "stdout": return lv
        if isinstance(s, Opaque) and s.what == "ofstream":
            if isinstance(y, Opaque) and y.what == "rdbuf":
                content = ex.load(y.data); ex.state.files.append((s.data, content, s))
                ex.store(y.data, EMPTY) if False else ex.drain(y.data)
            else: ex.state.files.append((s.data, ex.as_rope(y), s))
            return lv
        if isinstance(y, FnRef) and y.q in ("endl",): y = rope("\n")
        elif isinstance(y, FnRef): return lv if y.q in ("fixed",) and ex.set_fmt(lv, y.q) is None else lv
        elif isinstance(y, Opaque) and y.what == "setprecision": ex.set_fmt(lv, y); return lv
        elif isinstance(y, Opaque) and y.what == "put_time": y = (Hole("datetime", (), PRINT | cls(" "), 1),)
        elif isinstance(y, bool): y = rope(str(int(y)))
        elif isinstance(y, int):
            t = tname(argn[1]); y = rope(chr(y & 255)) if t in ("char", "unsigned char", "signed char") else rope(str(y))
        elif is_sym(y) and z3.is_int(y):
            t = tname(argn[1]); y = (Ch(y),) if t in ("char", "unsigned char", "signed char") else (Fmt(y, "d"),)
        elif isinstance(y, (Opaque, float)) or is_sym(y): y = ex.out_double(lv, y)
        ex.store(lv, rope(s, ex.as_rope(y))); return lv
    def set_fmt(ex, lv, what):
        ex.streamfmt.setdefault(lv.key(), []).append(what if isinstance(what, str) else what.data); return None
    streamfmt = {}
    def out_double(ex, lv, y): raise Unsupported("printing a double")
    def drain(ex, lv): ex.store(lv, EMPTY)
    # ================================================================ functions
    def builtin(ex, name, argn, n):
        ex.builtins_used.add(name)
        h = ex.hooks.get(name)
        if h is not None: return h(ex, argn)
        f = getattr(ex, "f_" + name, None)
        if f is not None: return f(argn, n)
        vals = [ex.val(a) for a in argn if a["kind"] != "CXXDefaultArgExpr"]
        return ex.builtin_v(name, vals, n)
    def builtin_v(ex, name, vals, n=None):
        f = getattr(ex, "v_" + name, None)
        if f is None: raise Unsupported("function " + name)
        return f(*vals)
    hooks = {}
    # the outside world: any answer
    def v_exists(ex, *a): return zbool(simp(zint(ex.fresh_int("exists", 0, 1)) == 1))
    def v_is_directory(ex, *a): return zbool(simp(zint(ex.fresh_int("isdir", 0, 1)) == 1))
    def v_time(ex, *a): return ex.fresh_int("now", 0, (1 << 63) - 1)
    def v_localtime(ex, *a): return Ptr(ex.new(Opaque("tm"), "tm"), zbool(simp(zint(ex.fresh_int("notime", 0, 1)) == 1)))
    def v_put_time(ex, *a): return Opaque("put_time")
    def f_exit(ex, argn, n): raise PathDead()
    def fresh_int(ex, tag, lo, hi):
        v = fresh(tag); ex.vb[v.decl().name()] = (lo, hi); ex.assume(z3.And(v >= lo, v <= hi)); return v
    def f_snprintf(ex, argn, n):
        dst, k = ex.val(argn[0]), ex.to_int(ex.val(argn[1])); fmt = ex.cstring(ex.val(argn[2]))
        args = [(ex.val(a), tname(a)) for a in argn[3:]]
        return ex.print_to(dst, k, ex.format(fmt, args))
    def f_vsnprintf(ex, argn, n):
        dst, k = ex.val(argn[0]), ex.to_int(ex.val(argn[1])); fmt = ex.cstring(ex.val(argn[2]))
        va = ex.va_args(argn[3])
        return ex.print_to(dst, k, ex.format(fmt, va))
    def va_args(ex, node):
        v = ex.anyv(node)
        if isinstance(v, LV): v = ex.load(v)
        if isinstance(v, Ptr) and v.lv is not None:
            v = ex.load(v.lv if not (v.lv.path and v.lv.path[-1] == ("i", 0)) else LV(v.lv.root, v.lv.path[:-1]))
        if isinstance(v, Opaque) and v.what == "va": return v.data
        raise Unsupported("argument list")
    def va_lv(ex, node):
        """storage of a va_list object"""
        k = node["kind"]
        while k in ("ImplicitCastExpr", "ParenExpr"): node = node["inner"][0]; k = node["kind"]
        return ex.lv(node)
    def f___builtin_va_start(ex, argn, n): ex.store(ex.va_lv(argn[0]), Opaque("va", ex.env.va or [])); return None
    def f___builtin_va_end(ex, argn, n): return None
    def f___builtin_va_copy(ex, argn, n): ex.store(ex.va_lv(argn[0]), Opaque("va", ex.va_args(argn[1]))); return None
    def f_move(ex, argn, n): return ex.anyv(argn[0])
    f_forward = f_move
    def f_end(ex, argn, n):
        lv = ex.glv(argn[0]); return It(lv, ex.vsize(ex.load(lv)))
    def f_begin(ex, argn, n): return It(ex.glv(argn[0]), 0)
    f_cbegin, f_cend = f_begin, f_end
    def f_swap(ex, argn, n):
        a, b = ex.lv(argn[0]), ex.lv(argn[1]); x, y = ex.load(a), ex.load(b); ex.store(a, y); ex.store(b, x)
    def v_abs(ex, x):
        if isinstance(x, Opaque): return Opaque("double", ("abs", x.data))
        if isinstance(x, float): return abs(x)
        x = ex.to_int(x)
        if not is_sym(x): return abs(x)
        lo, hi = ex.bounds(x)
        if z3.is_int(x): ex.abs_min(x)
        return simp(z3.If(x >= 0, x, -x))
    def abs_min(ex, x):
        c = zint(x) > -(1 << 63)
        if not ex.proves(c): ex.oblige("abs: result representable", c); ex.assume(c)
    v_fabs = v_labs = v_llabs = v_abs
    def v_pow(ex, a, b):
        cb = cint(b)
        if a == 2 and cb is not None and 0 <= cb <= 1000: return 1 << cb
        if a == 2 and is_sym(b):
            k = ex.concretize(b, 256); return 1 << k if k >= 0 else 2.0 ** k
        raise Unsupported("pow")
    def v_min(ex, a, b): return min(a, b) if not is_sym(a) and not is_sym(b) else simp(z3.If(zint(b) < zint(a), zint(b), zint(a)))
    def v_max(ex, a, b): return max(a, b) if not is_sym(a) and not is_sym(b) else simp(z3.If(zint(a) < zint(b), zint(b), zint(a)))
    def v_toupper(ex, c): return ex.case_char(c, True)
    def v_tolower(ex, c): return ex.case_char(c, False)
    def case_char(ex, c, up):
        k = cint(c)
        if k is not None: return ord(chr(k).upper()) if up and 97 <= k <= 122 else k + 32 if not up and 65 <= k <= 90 else k
        c = zint(c)
        return simp(z3.If(z3.And(c >= 97, c <= 122), c - 32, c)) if up else simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
    def in_cls(ex, c, ranges):
        k = cint(c)
        if k is not None: return int(any(a <= k <= b for a, b in ranges))
        return simp(z3.If(z3.Or([z3.And(c >= a, c <= b) for a, b in ranges]), z3.IntVal(1), z3.IntVal(0)))
    def v_isalpha(ex, c): return ex.in_cls(c, [(65, 90), (97, 122)])
    def v_isdigit(ex, c): return ex.in_cls(c, [(48, 57)])
    def v_isalnum(ex, c): return ex.in_cls(c, [(65, 90), (97, 122), (48, 57)])
    def v_isspace(ex, c): return ex.in_cls(c, [(9, 13), (32, 32)])
    def v_isupper(ex, c): return ex.in_cls(c, [(65, 90)])
    def v_islower(ex, c): return ex.in_cls(c, [(97, 122)])
    def v_setlocale(ex, *a): return CStr(EMPTY)
    def v_classic(ex): return Opaque("locale")
    def v_setprecision(ex, k): return Opaque("setprecision", k)
    def v_put_time(ex, *a): return Opaque("put_time")
    def v_time(ex, *a): return ex.indet("long")
    def v_localtime(ex, *a): return Ptr(ex.new(Opaque("tm")), z3.Bool("localtime_null"))
    def f_exit(ex, argn, n):
        ex.state.files.append(("exit",)); raise PathDead()
    def v_to_string(ex, x): return rope(str(x)) if not is_sym(x) else (Fmt(x, "d"),)
    # ---- conversions of text
    def f_atoi(ex, argn, n): return ex.text_int(ex.cstring(ex.val(argn[0])), 32)
    def f_atoll(ex, argn, n): return ex.text_int(ex.cstring(ex.val(argn[0])), 64)
    f_atol = f_atoll
    def f_stoul(ex, argn, n): return ex.text_int(ex.as_rope(ex.val(argn[0])), 64, False)
    def f_strtoul(ex, argn, n, signed=False):
        if len(argn) != 3 or cint(ex.val(argn[2])) != 10: raise Unsupported("number of another base")
        e = ex.val(argn[1])
        if not (e == 0 or isinstance(e, Ptr) and (e.lv is None or e.null is True)): raise Unsupported("end of a number")
        return ex.text_int(ex.cstring(ex.val(argn[0])), 64, signed)
    f_strtoull = f_strtoul
    def f_strtol(ex, argn, n): return ex.f_strtoul(argn, n, True)
    f_strtoll = f_strtol
    def text_int(ex, r, w, signed=True):
        """number denoted by a text; texts printed from a number (Fmt d/u) read back exactly"""
        if any(isinstance(g, Cho) for g in r): r = ex.resolve(r)
        if len(r) == 1 and isinstance(r[0], Fmt) and r[0].spec in ("d", "u"):
            return ex.wrap(r[0].val, w, signed)
        s = lit_of(r)
        if s is not None:
            m = re.match(r"[ \t\n\v\f\r]*([-+]?\d+)", s); v = int(m.group(1)) if m else 0
            lo, hi = ex.trange(64, True)
            v = max(lo, min(hi, v)); return ex.wrap(v, w, signed)
        if len(r) > 1 and isinstance(r[0], Fmt) and r[0].spec in ("d", "u") and isinstance(r[1], Lit) and not r[1].s[0].isdigit(): return ex.wrap(r[0].val, w, signed)
        nm = "num%d:x%d" % (w, cplx_id(rkey(r))); v = app(nm, rope_vars(r)); lo, hi = ex.trange(w, signed)
        ex.vb[nm] = (lo, hi); ex.fact(z3.And(v >= lo, v <= hi))
        return v
    def f_atof(ex, argn, n):
        return ex.f_atof_text(ex.cstring(ex.val(argn[0])))
    def f_atof_text(ex, r):
        r = ex.resolve(r); s = lit_of(r)
        if s is not None:
            m = re.match(r"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)", s); v = float(m.group()) if m else 0.0
            return int(v) if v == int(v) and abs(v) < 2**53 else v
        if len(r) == 1 and isinstance(r[0], Fmt) and r[0].spec == "d":
            v = r[0].val
            if ex.proves(z3.And(zint(v) >= -2**53, zint(v) <= 2**53)): return v
        return Opaque("double", ("atof:%d" % cplx_id(rkey(r)),) + tuple(rope_vars(r)))
    # ---- algorithms
    def seq_range(ex, a, b):
        if not isinstance(a, It) or not isinstance(b, It) or a.lv.key() != b.lv.key(): raise Unsupported("iterator range")
        v = ex.load(a.lv)
        whole = cint(a.idx) == 0 and ex.proves(Eq(b.idx, ex.vsize(v)))
        return v, whole
    def f_find(ex, argn, n):
        a, b = ex.val(argn[0]), ex.val(argn[1]); x = ex.val(argn[2]); v, whole = ex.seq_range(a, b)
        return ex.search(a, b, v, lambda e: ex.val_eq(e, x))
    def f_find_if(ex, argn, n):
        a, b = ex.val(argn[0]), ex.val(argn[1]); f = ex.val(argn[2]); v, whole = ex.seq_range(a, b)
        def pred(i): return ex.to_bool(ex.call_pred(f, a.lv.i(i)))
        return ex.search(a, b, v, None, pred)
    def call_pred(ex, f, *lvs):
        if isinstance(f, Lambda): return ex.call_lambda(f, list(lvs))
        if isinstance(f, FnRef): return ex.call_fnref(f, list(lvs))
        raise Unsupported("predicate")
    def search(ex, a, b, v, eq, pred=None):
        P = pred if pred is not None else (lambda i: eq(ex.load(a.lv.i(i))))
        if isinstance(v, Vec) and cint(a.idx) is not None:
            def go(i):
                if i >= len(v.el): return It(a.lv, len(v.el))
                c = P(i)
                if isinstance(c, bool): return It(a.lv, i) if c else go(i + 1)
                if ex.decide(c): return It(a.lv, i)
                return go(i + 1)
            return go(cint(a.idx))
        if isinstance(v, SVec):
            # first position where the predicate holds, or the end
            j = fresh("j"); mark = len(ex.state.pc); inr = z3.And(j >= zint(a.idx), j < zint(b.idx))
            ex.state.pc.append(inr)
            saved = ex.state.clone()
            pj = ex.cond_of(lambda: P(j))
            side = [f for f in ex.state.pc[mark+1:]]
            ex.state = saved; del ex.state.pc[mark:]
            pos = fresh("found"); ex.vb[pos.decl().name()] = (0, None)
            ex.assume(z3.And(pos >= zint(a.idx), pos <= zint(b.idx)))
            sub = lambda t, x: z3.substitute(zbool(t), (j, zint(x)))
            body = z3.Implies(z3.And(j >= zint(a.idx), j < pos), z3.Not(zbool(pj)))
            ex.state.pc.append(z3.Implies(pos < zint(b.idx), sub(z3.And(*(side + [zbool(pj)])) if side else pj, pos)))
            ex.state.pc.append(z3.ForAll([j], body))
            ex.notes_search[pos.decl().name()] = (j, pj, a.idx, b.idx)
            return It(a.lv, pos)
        raise Unsupported("search in %r" % (v,))
    notes_search = {}
    def cond_of(ex, th):
        """truth value of a computation that may split paths (no effects kept)"""
        outs = ex.explore(lambda: ("val", th()))
        st, o = ex.merge_states(0, [(s, x[1]) for s, x in outs]) if len(outs) > 1 else (outs[0][0], outs[0][1][1])
        ex.state = st
        return o
    def f_count(ex, argn, n):
        a, b = ex.val(argn[0]), ex.val(argn[1]); x = ex.val(argn[2]); v, whole = ex.seq_range(a, b)
        if is_rope(v) and whole and cint(x) is not None:
            ch = cint(x) & 255; tot = 0
            for s in v:
                if isinstance(s, Lit): tot = ex.iadd(tot, s.s.count(chr(ch)))
                elif not (seg_cls(s) >> ch & 1): pass
                else:
                    seg_vars(s, o := {}); nm = "count%d:x%d" % (ch, cplx_id(s.key())); t = app(nm, [o[k] for k in sorted(o)]); ex.vb[nm] = (0, None)
                    ex.fact(t >= 0); tot = ex.iadd(tot, t)
            return tot
        raise Unsupported("count")
    def f_all_of(ex, argn, n):
        a, b = ex.val(argn[0]), ex.val(argn[1]); f = ex.val(argn[2]); v, whole = ex.seq_range(a, b)
        if is_rope(v) and whole:
            for s in v:
                m = seg_cls(s)
                for c in range(256):
                    if m >> c & 1 and ex.call_pred(f, ex.new(c if c < 128 else c - 256, "c")) in (0, False):
                        raise Unsupported("all_of")
            return True
        raise Unsupported("all_of")
    def f_transform(ex, argn, n):
        a, b, d = ex.val(argn[0]), ex.val(argn[1]), ex.val(argn[2]); f = ex.val(argn[3]); v, whole = ex.seq_range(a, b)
        if is_rope(v) and whole and isinstance(d, It) and d.lv.key() == a.lv.key():
            ex.store(a.lv, ex.map_rope(v, f)); return It(a.lv, b.idx)
        raise Unsupported("transform")
    def map_rope(ex, v, f):
        table = {}
        def m1(c):
            if c not in table:
                r = ex.call_pred(f, ex.new(c if c < 128 else c - 256, "c")); r = cint(r)
                if r is None: raise Unsupported("transform")
                table[c] = r & 255
            return table[c]
        full = [m1(c) for c in range(256)]
        lower = all(full[c] == (c + 32 if 65 <= c <= 90 else c) for c in range(256)); upper = all(full[c] == (c - 32 if 97 <= c <= 122 else c) for c in range(256))
        nm = "lower" if lower else "upper" if upper else "map%d" % cplx_id(("map",) + tuple(full))
        out = []
        for s in v:
            if isinstance(s, Lit): out.append(Lit("".join(chr(full[ord(c) & 255]) for c in s.s)))
            elif isinstance(s, Fun) and s.name == nm and nm in ("lower", "upper"): out.append(s)
            else:
                k = seg_cls(s); k2 = 0
                for c in range(256):
                    if k >> c & 1: k2 |= 1 << full[c]
                if all(full[c] == c for c in range(256) if k >> c & 1): out.append(s)
                elif isinstance(s, Fun) and s.name in ("lower", "upper") and nm in ("lower", "upper"): out.append(Fun(nm, s.arg, k2, s.minlen))
                else: out.append(Fun(nm, (s,), k2, seg_minlen(s)))
        return rope(*[(x,) for x in out])
    def f_sort(ex, argn, n):
        a, b = ex.val(argn[0]), ex.val(argn[1]); f = ex.val(argn[2]) if len(argn) > 2 else None
        v, whole = ex.seq_range(a, b)
        if not whole: raise Unsupported("sort of a part")
        ex.store(a.lv, ex.sorted_value(a.lv, v, f)); return None
    def sorted_value(ex, lv, v, f):
        if isinstance(v, Vec) and len(v.el) <= 1: return v
        if isinstance(v, SVec): return ex.sort_svec(v, f)
        raise Unsupported("sort")
    def sort_svec(ex, v, f):
        """a permutation of the elements in the order of the comparison"""
        k = fresh("perm").decl().name(); src = v
        inv = k + "inv"; i, j = fresh("i"), fresh("i")
        P = zfun(k, 1); Q = zfun(inv, 1); N = zint(v.n)
        ex.vb[k] = (0, None); ex.vb[inv] = (0, None)
        def elem(x, src=src, P=P):
            p = P(zint(x)); return ex.svec_read(src, p)
        out = SVec(v.n, elem, (), v.ety, v.name + "'")
        x = z3.Int("x!p")
        ex.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < N), z3.And(P(x) >= 0, P(x) < N, Q(P(x)) == x)), patterns=[P(x)]))
        ex.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < N), z3.And(Q(x) >= 0, Q(x) < N, P(Q(x)) == x)), patterns=[Q(x)]))
        ex.sorted_info[k] = (out, f, src)
        return out
    sorted_info = {}

def vec_elt(t):
    from .exec import split_targs
    if not t: return ""
    t = clean(t)
    if "<" not in t: return ""
    return split_targs(t[t.index("<")+1:t.rindex(">")])[0]

def pyfmt(spec, c):
    m = re.match(r"([-+ #0]*)(\d*)(?:\.(\d+))?([diuxX])", spec); fl, wd, pr, cv = m.groups()
    neg = c < 0; b = abs(c)
    if cv in "diu": s = str(b)
    elif cv == "x": s = "%x" % c
    else: s = "%X" % c
    if pr: s = s.rjust(int(pr), "0")
    pre = "-" if neg else "+" if "+" in fl and cv in "di" else ""
    if "#" in fl and cv in "xX" and c != 0: pre += "0" + cv
    w = int(wd or 0)
    if "-" in fl: return (pre + s).ljust(w)
    if "0" in fl and not pr: return pre + s.rjust(w - len(pre), "0")
    return (pre + s).rjust(w)
