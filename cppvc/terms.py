"""Values of the verifier: machine integers as Python ints or z3 Int terms, reals for symbolic doubles,
ropes for strings, vectors with an update log for containers of symbolic size."""
import z3

class Unsupported(Exception):
    """a construct or a decision outside the verifier's reach: never a violation"""

Z = z3
def is_sym(v): return isinstance(v, z3.ExprRef)
def cint(v):
    """python int of a concrete value or None"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, z3.IntNumRef): return v.as_long()
    return None
def simp(e):
    if not isinstance(e, z3.ExprRef): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if isinstance(e, z3.IntNumRef): return e.as_long()
    return e
def zint(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    return v
def zbool(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    if not a: return True
    if len(a) == 1: return a[0]
    return z3.And(*a)
def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    if not a: return False
    if len(a) == 1: return a[0]
    return z3.Or(*a)
def Not(a):
    if isinstance(a, bool): return not a
    return simp(z3.Not(a))
def Implies(a, b): return Or(Not(a), b)
def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if not is_sym(a) and not is_sym(b) and type(a) == type(b) and a == b: return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return simp(z3.If(c, zbool(a), zbool(b)))
    return simp(z3.If(c, zint(a), zint(b)))
def Eq(a, b):
    if not is_sym(a) and not is_sym(b): return a == b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a): return simp(zbool(a) == zbool(b))
    return simp(zint(a) == zint(b))
_fresh = [0]
def fresh(name, sort="int"):
    _fresh[0] += 1
    n = "%s!%d" % (name, _fresh[0])
    return {"int": z3.Int, "bool": z3.Bool, "real": z3.Real}[sort](n)

# ---------------------------------------------------------------- character classes (bit masks over bytes)
def cls(chars): 
    m = 0
    for c in chars: m |= 1 << (c if isinstance(c, int) else ord(c))
    return m
ALL = (1 << 256) - 1
DIG = cls("0123456789"); ALPHA = cls("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"); WORD = DIG | ALPHA | cls("_")
SPACE = cls(" \t\n\v\f\r"); PRINT = sum(1 << c for c in range(33, 127)); HIGH = sum(1 << c for c in range(128, 256))
UP = cls("ABCDEFGHIJKLMNOPQRSTUVWXYZ"); LOW = cls("abcdefghijklmnopqrstuvwxyz")

# ---------------------------------------------------------------- ropes
class Seg: __slots__ = ()
class Lit(Seg):
    __slots__ = ("s",)
    def __init__(x, s): x.s = s
    def key(x): return ("L", x.s)
    def __repr__(x): return repr(x.s)
class Hole(Seg):
    """unknown text: every character in cls, at least minlen characters, first character in first, last in last"""
    __slots__ = ("name", "args", "cls", "minlen", "first", "last", "maxlen")
    def __init__(x, name, args=(), cls=ALL, minlen=0, first=None, last=None, maxlen=None):
        x.name = name; x.args = tuple(normidx(a) for a in args); x.cls = cls; x.minlen = minlen; x.first = cls if first is None else first; x.last = cls if last is None else last; x.maxlen = maxlen
    def key(x): return ("H", x.name, tuple(zkey(a) for a in x.args))
    def __repr__(x): return "<%s%s>" % (x.name, list(x.args) if x.args else "")
    def len(x):
        if not x.args: return z3.Int("len:" + x.name)
        f = z3.Function("len:" + x.name, *([z3.IntSort()] * (len(x.args) + 1)))
        return f(*[zint(a) for a in x.args])
    def zstr(x):
        if not x.args: return z3.String("str:" + x.name)
        return z3.Function("str:" + x.name, *([z3.IntSort()] * len(x.args) + [z3.StringSort()]))(*[zint(a) for a in x.args])
class Fmt(Seg):
    """printed integer"""
    __slots__ = ("val", "spec")
    def __init__(x, val, spec): x.val = val; x.spec = spec
    def key(x): return ("F", zkey(x.val), x.spec)
    def __repr__(x): return "{%s:%s}" % (x.val, x.spec)
class Ch(Seg):
    __slots__ = ("val",)
    def __init__(x, val): x.val = val
    def key(x): return ("C", zkey(x.val))
    def __repr__(x): return "Ch(%s)" % x.val
class Cho(Seg):
    __slots__ = ("cond", "a", "b", "_k")
    def __init__(x, cond, a, b): x.cond = cond; x.a = a; x.b = b; x._k = None
    def key(x):
        if x._k is None: x._k = ("O", zkey(x.cond), rkey(x.a), rkey(x.b))
        return x._k
    def __repr__(x): return "(%s ? %s : %s)" % (x.cond, list(x.a), list(x.b))
class Each(Seg):
    """concatenation of body[var] for lo <= var < hi"""
    __slots__ = ("var", "lo", "hi", "body", "_k")
    def __init__(x, var, lo, hi, body): x.var = var; x.lo = lo; x.hi = hi; x.body = body; x._k = None
    def depth(x): return 1 + max([g.depth() for g in each_in(x.body)], default=0)
    def key(x):
        if x._k is None:        # the name of the index does not matter
            d = x.depth(); b = z3.Int("bound!%d" % d); x._k = ("E", d, zkey(x.lo), zkey(x.hi), rkey(rsubst(x.body, [(x.var, b)])))
        return x._k
    def __repr__(x): return "EACH[%s in %s..%s: %s]" % (x.var, x.lo, x.hi, list(x.body))
def each_in(r):
    for g in r:
        if isinstance(g, Each): yield g
        elif isinstance(g, Cho): yield from each_in(g.a); yield from each_in(g.b)
        elif isinstance(g, Fun): yield from each_in(g.arg)
class Fun(Seg):
    """uninterpreted string function of a rope (e.g. lower-case of a name)"""
    __slots__ = ("name", "arg", "cls", "minlen")
    def __init__(x, name, arg, cls=ALL, minlen=0): x.name = name; x.arg = arg; x.cls = cls; x.minlen = minlen
    def key(x): return ("U", x.name, rkey(x.arg))
    def __repr__(x): return "%s(%s)" % (x.name, list(x.arg))

_alive = {}
def zkey(v):
    """key of a value: terms are hash-consed by z3, the reference keeps the id valid"""
    if not is_sym(v): return v
    k = v.get_id()
    if k not in _alive: _alive[k] = v
    return "t%d" % k
_ropes = {}
def rkey(r):
    """interned key of a rope"""
    return _ropes.setdefault(tuple(s.key() for s in r), len(_ropes))

def rope(*parts):
    out = []
    for p in parts:
        if isinstance(p, str): p = (Lit(p),)
        elif isinstance(p, Seg): p = (p,)
        for s in p:
            if isinstance(s, Ch) and cint(s.val) is not None: s = Lit(chr(cint(s.val) & 255))
            if isinstance(s, Lit):
                if not s.s: continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].s + s.s); continue
            out.append(s)
    return tuple(out)
EMPTY = ()
def lit_of(r):
    """the python string of a fully concrete rope, else None"""
    if not r: return ""
    if len(r) == 1 and isinstance(r[0], Lit): return r[0].s
    return None
def is_rope(v): return isinstance(v, tuple) and all(isinstance(s, Seg) for s in v)

def seg_minlen(s):
    if isinstance(s, Lit): return len(s.s)
    if isinstance(s, (Hole, Fun)): return s.minlen
    if isinstance(s, Fmt): return 1
    if isinstance(s, Ch): return 1
    if isinstance(s, Cho): return min(rope_minlen(s.a), rope_minlen(s.b))
    return 0
def rope_minlen(r): return sum(seg_minlen(s) for s in r)

FMTCLS = DIG | cls("-+xXabcdefABCDEF ")
def seg_cls(s):
    if isinstance(s, Lit): return cls(s.s.encode("latin1", "replace") if all(ord(c) < 256 for c in s.s) else s.s.encode("utf8", "surrogateescape"))
    if isinstance(s, (Hole, Fun)): return s.cls
    if isinstance(s, Fmt): return DIG | cls("-") if s.spec in ("d", "i", "ld", "lld") else DIG if s.spec in ("u", "zu", "lu", "llu") else FMTCLS
    if isinstance(s, Cho): return rope_cls(s.a) | rope_cls(s.b)
    if isinstance(s, Each): return rope_cls(s.body)
    return ALL
def rope_cls(r):
    m = 0
    for s in r: m |= seg_cls(s)
    return m

def normidx(e):
    if not is_sym(e): return e
    w = normdiv(e); return e if w.eq(e) else simp(w)
def normdiv(e):
    """(c*x + d) div c  =  x + d div c  and  (c*x + d) mod c  =  d mod c  inside a term"""
    if not is_sym(e) or not z3.is_app(e) or not e.num_args(): return e
    ch = [normdiv(c) for c in e.children()]
    k = e.decl().kind()
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 1:
        c = ch[1].as_long(); whole, rest, d = [], [], 0
        for t in (ch[0].children() if z3.is_add(ch[0]) else [ch[0]]):
            if z3.is_int_value(t): d += t.as_long()
            elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % c == 0: whole.append(t.arg(0).as_long() // c * t.arg(1))
            else: rest.append(t)
        if not rest: return z3.simplify(z3.Sum(whole + [z3.IntVal(d // c)])) if k == z3.Z3_OP_IDIV else z3.IntVal(d % c)
    return e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
def rsubst(r, subs):
    """substitute z3 terms (list of pairs) inside a rope"""
    def z(v):
        if not is_sym(v): return v
        v = simp(z3.substitute(v, *subs))
        if is_sym(v) and z3.is_int(v):
            w = normdiv(v)
            if not w.eq(v): v = simp(w)
        return v
    out = []
    for s in r:
        if isinstance(s, Hole): s = Hole(s.name, [z(a) for a in s.args], s.cls, s.minlen, s.first, s.last, s.maxlen) if s.args else s
        elif isinstance(s, Fmt): s = Fmt(z(s.val), s.spec)
        elif isinstance(s, Ch): s = Ch(z(s.val))
        elif isinstance(s, Cho):
            c = z(s.cond)
            if c is True: out.extend(rsubst(s.a, subs)); continue
            if c is False: out.extend(rsubst(s.b, subs)); continue
            s = Cho(c, rsubst(s.a, subs), rsubst(s.b, subs))
        elif isinstance(s, Each): s = Each(s.var, z(s.lo), z(s.hi), rsubst(s.body, subs))
        elif isinstance(s, Fun): s = Fun(s.name, rsubst(s.arg, subs), s.cls, s.minlen)
        out.append(s)
    return rope(*[(x,) for x in out])

def zstr(r):
    """z3 string term of a rope (used only for equality reasoning)"""
    parts = []
    for s in r:
        if isinstance(s, Lit): parts.append(z3.StringVal(s.s))
        elif isinstance(s, Hole): parts.append(s.zstr())
        elif isinstance(s, Cho): parts.append(z3.If(s.cond, zstr(s.a), zstr(s.b)))
        elif isinstance(s, Fmt): parts.append(z3.Function("fmt:" + s.spec, z3.IntSort(), z3.StringSort())(zint(s.val)))
        elif isinstance(s, Fun): parts.append(z3.Function("fun:" + s.name, z3.StringSort(), z3.StringSort())(zstr(s.arg)))
        elif isinstance(s, Ch): parts.append(z3.Function("chr", z3.IntSort(), z3.StringSort())(zint(s.val)))
        else: raise Unsupported("string term of %r" % (s,))
    if not parts: return z3.StringVal("")
    if len(parts) == 1: return parts[0]
    return z3.Concat(*parts)

def rlen(r):
    """length of a rope (python int or z3 term) and the facts needed about it"""
    n = 0; facts = []
    for s in r:
        if isinstance(s, Lit): n = n + len(s.s)
        elif isinstance(s, Hole):
            l = s.len(); facts.append(l >= s.minlen)
            if s.maxlen is not None: facts.append(l <= s.maxlen)
            n = n + l
        elif isinstance(s, Ch): n = n + 1
        elif isinstance(s, Cho):
            a, fa = rlen(s.a); b, fb = rlen(s.b); facts += fa + fb; n = n + Ite(s.cond, a, b)
        else:
            l = z3.Int("len:%s" % (abs(hash(s.key())),)); facts.append(l >= seg_minlen(s))
            if isinstance(s, Fmt): facts.append(l <= 24)
            n = n + l
    return simp(n) if is_sym(n) else n, facts

# ---------------------------------------------------------------- aggregates
class Struct:
    __slots__ = ("type", "f", "mk")
    def __init__(x, type, f, mk=None): x.type = type; x.f = f; x.mk = mk      # mk(field) creates lazily
    def get(x, n):
        v = x.f.get(n)
        if v is None:
            if x.mk is None: raise Unsupported("no field %s in %s" % (n, x.type))
            v = x.mk(n); x.f[n] = v          # lazily created value: same on every clone
        return v
    def set(x, n, v):
        f = dict(x.f); f[n] = v
        return Struct(x.type, f, x.mk)
    def __repr__(x): return "%s{%s}" % (x.type, ", ".join("%s=%r" % kv for kv in list(x.f.items())[:8]))

class Vec:
    """vector / array of concrete length"""
    __slots__ = ("el", "ety")
    def __init__(x, el, ety=None): x.el = tuple(el); x.ety = ety
    def __repr__(x): return "Vec%r" % (list(x.el),)
class SVec:
    """vector of symbolic length: elements elem(idx) for idx < base, then appended values; update log on top.
    log: list of (idx, value) point updates, or ('each', var, lo, hi, cond, fn) pointwise maps"""
    __slots__ = ("n", "elem", "log", "ety", "name")
    def __init__(x, n, elem, log=(), ety=None, name="v"): x.n = n; x.elem = elem; x.log = tuple(log); x.ety = ety; x.name = name
    def __repr__(x): return "SVec(%s,len=%s,log=%r)" % (x.name, x.n, x.log)

class Opaque:
    """value of a type the verifier does not look into"""
    __slots__ = ("what", "data")
    def __init__(x, what, data=None): x.what = what; x.data = data
    def __repr__(x): return "Opaque(%s)" % (x.what,)

class LV:
    """lvalue / pointer target: root address and path of ('f', name) / ('i', index)"""
    __slots__ = ("root", "path")
    def __init__(x, root, path=()): x.root = root; x.path = tuple(path)
    def f(x, n): return LV(x.root, x.path + (("f", n),))
    def i(x, k): return LV(x.root, x.path + (("i", k),))
    def key(x): return (x.root, tuple((a, zkey(b)) for a, b in x.path))
    def __repr__(x): return "&%s%s" % (x.root, "".join("." + str(b) if a == "f" else "[%s]" % b for a, b in x.path))
class Ptr:
    """pointer: null condition and target"""
    __slots__ = ("lv", "null")
    def __init__(x, lv, null=False): x.lv = lv; x.null = null
    def __repr__(x): return "Ptr(%s%s)" % (x.lv, "" if x.null is False else ", null=%s" % x.null)
NULL = Ptr(None, True)
class CStr:
    """const char* to immutable characters"""
    __slots__ = ("r",)
    def __init__(x, r): x.r = r
    def __repr__(x): return "CStr%r" % (list(x.r),)
class It:
    """iterator of the container stored at lv"""
    __slots__ = ("lv", "idx")
    def __init__(x, lv, idx): x.lv = lv; x.idx = idx
    def __repr__(x): return "It(%s,%s)" % (x.lv, x.idx)
class Lambda:
    __slots__ = ("node", "env", "this", "tu")
    def __init__(x, node, env, this, tu): x.node = node; x.env = env; x.this = this; x.tu = tu
class FnRef:
    __slots__ = ("q", "node")
    def __init__(x, q, node=None): x.q = q; x.node = node
    def __repr__(x): return "FnRef(%s)" % x.q
