"""Reading the C text the generator emits: tokens over ropes, C expressions with their C types, values as bit vectors."""
import re
import z3
from .terms import *

class Tok:
    __slots__ = ("k", "v", "sfx", "base")
    def __init__(t, k, v, sfx="", base=10): t.k = k; t.v = v; t.sfx = sfx; t.base = base
    def __repr__(t): return "%s:%r%s" % (t.k, t.v, t.sfx)
    def key(t):
        if t.k == "id": return ("id", idkey(t.v))
        if t.k == "num": return ("num", zkey(t.v), t.sfx)
        return (t.k, t.v)
def idkey(v): return tuple(a if isinstance(a, str) else a.key() for a in v)
OPS = ["<<=", ">>=", "...", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "%=", "##"]

class BadText(Unsupported): pass

def seg_class_is_word(s):
    return isinstance(s, (Hole, Fun)) and not (s.cls & ~WORD)
def tokens(r, keep_nl=False):
    """C tokens of a rope without comments, directives excluded by the caller.  Choices and repetitions become nested tokens."""
    out = []; word = []       # word: pieces of the word (identifier or number) being built
    def flush():
        if not word: return
        w = list(word); word.clear()
        first = w[0]
        if isinstance(first, str) and first[0].isdigit() or isinstance(first, Fmt):
            out.append(number(w)); return
        out.append(Tok("id", tuple(w)))
    def put(p):
        if isinstance(p, str) and word and isinstance(word[-1], str): word[-1] += p
        else: word.append(p)
    for s in r:
        if isinstance(s, Lit):
            t = s.s; i = 0
            while i < len(t):
                c = t[i]
                if c.isalnum() and ord(c) < 128 or c == "_": put(c); i += 1; continue
                flush()
                if c in " \t\r\v\f": i += 1; continue
                if c == "\n":
                    if keep_nl: out.append(Tok("nl", "\n"))
                    i += 1; continue
                if c in "\"'":
                    j = t.find(c, i + 1)
                    if j < 0: raise BadText("unterminated literal")
                    out.append(Tok("str", t[i:j+1])); i = j + 1; continue
                for o in OPS:
                    if t.startswith(o, i): out.append(Tok("op", o)); i += len(o); break
                else: out.append(Tok("op", c)); i += 1
        elif isinstance(s, Fmt):
            put(s)
        elif isinstance(s, (Hole, Fun)):
            if seg_class_is_word(s) and (seg_minlen(s) > 0 or word): put(s)
            else:
                flush(); out.append(Tok("text", s))
        elif isinstance(s, (Cho, Each)):
            flush(); out.append(Tok("alt" if isinstance(s, Cho) else "each", s))
        else: flush(); out.append(Tok("text", s))
    flush()
    return out
def number(w):
    lead = w[0] if isinstance(w[0], str) else ""
    if len(w) == 1 and isinstance(w[0], str):
        m = re.match(r"(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$", w[0])
        if not m: raise BadText("number %r" % (w,))
        s = m.group(1); base = 16 if s[:2] in ("0x", "0X") else 8 if len(s) > 1 and s[0] == "0" else 10
        return Tok("num", int(s, base), m.group(2).upper(), base)
    if isinstance(w[0], Fmt): pre, f, rest = "", w[0], w[1:]
    elif len(w) >= 2 and w[0] in ("0x", "0X") and isinstance(w[1], Fmt): pre, f, rest = "0x", w[1], w[2:]
    else: raise BadText("number %r" % (w,))
    sfx = rest[0] if rest else ""
    if len(rest) > 1 or not isinstance(sfx, str) or not re.match(r"[uUlL]*$", sfx): raise BadText("number %r" % (w,))
    m = re.match(r"([-+ #0]*)(\d*)([duixX])$", f.spec)
    if not m or " " in m.group(1) or "+" in m.group(1): raise BadText("number format " + f.spec)
    fl, wd, cv = m.groups()
    if wd and "0" not in fl and "-" not in fl: raise BadText("number format " + f.spec)
    if cv in "xX":
        if ("#" in fl) == (pre == "0x"):
            if not (pre == "" and cint(f.val) is not None): raise BadText("hexadecimal number without 0x")
        return Tok("num", f.val, sfx.upper(), 16)
    if pre: raise BadText("decimal digits after 0x")
    if wd and "0" in fl: raise BadText("decimal number with leading zeros")
    return Tok("num", f.val, sfx.upper(), 10)

# ---------------------------------------------------------------- expressions
class Node:
    __slots__ = ("k", "a", "v")
    def __init__(n, k, a=(), v=None): n.k = k; n.a = a; n.v = v
    def __repr__(n): return "%s(%s%s)" % (n.k, "" if n.v is None else "%r " % (n.v,), ", ".join(map(repr, n.a)))
PREC = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]
TYPES = {"uint8_t": (8, False), "uint16_t": (16, False), "uint32_t": (32, False), "uint64_t": (64, False), "int8_t": (8, True), "int16_t": (16, True),
         "int32_t": (32, True), "int64_t": (64, True), "int": (32, True), "unsigned": (32, False), "bitext_t": None, "ubitext_t": None, "sigfloat_t": ("real",)}
class Parser:
    def __init__(p, toks): p.t = toks; p.i = 0
    def peek(p, k=0): return p.t[p.i + k] if p.i + k < len(p.t) else Tok("end", "")
    def next(p): t = p.peek(); p.i += 1; return t
    def isop(p, o, k=0): t = p.peek(k); return t.k == "op" and t.v == o
    def expect(p, o):
        if not p.isop(o): raise BadText("expected %s, found %r in %r" % (o, p.peek(), p.t[max(0, p.i-6):p.i+6]))
        p.i += 1
    def idname(p, t): return t.v[0] if t.k == "id" and len(t.v) == 1 and isinstance(t.v[0], str) else None
    def typename(p, k):
        return p.idname(p.peek(k)) if p.idname(p.peek(k)) in TYPES else None
    def expr(p):
        e = p.ternary()
        return e
    def assign(p):
        e = p.ternary(); t = p.peek()
        if t.k == "op" and t.v in ("=", "|=", "+=", "&=", "-=", "^="):
            p.i += 1; return Node("assign", (e, p.assign()), t.v)
        return e
    def ternary(p):
        c = p.binary(0)
        if p.isop("?"):
            p.i += 1; a = p.expr(); p.expect(":"); return Node("cond", (c, a, p.ternary()))
        return c
    def binary(p, lv):
        if lv == len(PREC): return p.unary()
        a = p.binary(lv + 1)
        while p.peek().k == "op" and p.peek().v in PREC[lv]:
            o = p.next().v; a = Node("bin", (a, p.binary(lv + 1)), o)
        return a
    def unary(p):
        t = p.peek()
        if t.k == "op" and t.v in ("-", "+", "~", "!", "&", "*"):
            p.i += 1; return Node("un", (p.unary(),), t.v)
        if t.k == "op" and t.v in ("++", "--"): p.i += 1; return Node("pre", (p.unary(),), t.v)
        if p.isop("(") and p.typename(1) and p.isop(")", 2):
            ty = p.typename(1); p.i += 3; return Node("cast", (p.unary(),), ty)
        return p.postfix()
    def postfix(p):
        t = p.next()
        if t.k == "op" and t.v == "(":
            e = p.assign(); p.expect(")"); e = Node("par", (e,))
        elif t.k == "id": e = Node("id", (), t.v)
        elif t.k == "num": e = Node("num", (), t)
        elif t.k == "text": e = Node("text", (), t.v)
        else: raise BadText("unexpected %r" % (t,))
        while True:
            if p.isop("["): p.i += 1; i = p.assign(); p.expect("]"); e = Node("idx", (e, i))
            elif p.isop("->"): p.i += 1; e = Node("arrow", (e,), p.next().v)
            elif p.isop("."): p.i += 1; e = Node("dot", (e,), p.next().v)
            elif p.isop("("):
                p.i += 1; args = []
                if not p.isop(")"):
                    args.append(p.assign())
                    while p.isop(","): p.i += 1; args.append(p.assign())
                p.expect(")"); e = Node("call", (e,) + tuple(args))
            elif p.isop("++") or p.isop("--"): e = Node("post", (e,), p.next().v)
            else: return e
def parse_expr(toks):
    p = Parser(toks); e = p.assign()
    if p.i != len(p.t): raise BadText("text after the expression: %r" % (p.t[p.i:p.i+8],))
    return e

# ---------------------------------------------------------------- values: bit vectors with C types
class CV:
    """value of a C integer type"""
    __slots__ = ("bv", "w", "s")
    def __init__(c, bv, w, s): c.bv = bv; c.w = w; c.s = s
def bvc(v, w): return z3.BitVecVal(v, w)
def conv(c, w, s):
    if w == c.w: b = c.bv
    elif w < c.w: b = z3.Extract(w - 1, 0, c.bv)
    else: b = z3.SignExt(w - c.w, c.bv) if c.s else z3.ZeroExt(w - c.w, c.bv)
    return CV(b, w, s)
def promote(c): return conv(c, 32, True) if c.w < 32 else c
def usual(a, b):
    a, b = promote(a), promote(b)
    if a.w == b.w:
        s = a.s and b.s
        return CV(a.bv, a.w, s), CV(b.bv, b.w, s)
    w = max(a.w, b.w); s = (a if a.w > b.w else b).s
    return conv(a, w, s), conv(b, w, s)
def literal(t):
    """type and value of an integer literal"""
    v = cint(t.v)
    if v is None: raise BadText("unknown number")
    u = "U" in t.sfx; l = t.sfx.count("L")
    if v < 0:      # printed negative number: minus applied to the literal
        s = literal(Tok("num", -v, t.sfx, t.base)); return CV(-s.bv, s.w, s.s)
    cands = []
    if not u and not l: cands = [(32, True)] + ([(32, False)] if t.base != 10 else []) + [(64, True)] + ([(64, False)] if t.base != 10 else [])
    elif u and not l: cands = [(32, False), (64, False)]
    elif not u: cands = [(64, True)] + ([(64, False)] if t.base != 10 else [])
    else: cands = [(64, False)]
    for w, s in cands:
        if v <= (1 << (w - (1 if s else 0))) - 1: return CV(bvc(v, w), w, s)
    raise BadText("literal too large")
class Undefined(Exception): pass

class Eval:
    """evaluation of an emitted expression; subclasses give the meaning of names.  ub collects conditions of undefined behaviour."""
    def __init__(e): e.ub = []; e.ext_width = 64
    def name(e, v): raise BadText("name %r" % (v,))
    def index(e, base, i): raise BadText("array %r" % (base,))
    def member(e, base, v): raise BadText("member %r" % (v,))
    def call(e, f, args): raise BadText("call %r" % (f,))
    def typ(e, n):
        t = TYPES[n]
        if n == "bitext_t": return (e.ext_width, True)
        if n == "ubitext_t": return (e.ext_width, False)
        return t
    def ev(e, n):
        k = n.k
        if k == "par": return e.ev(n.a[0])
        if k == "num": return literal(n.v)
        if k == "id": return e.name(n.v)
        if k == "cast": return conv(e.ev(n.a[0]), *e.typ(n.v))
        if k == "idx": return e.index(n.a[0], n.a[1])
        if k in ("arrow", "dot"): return e.member(n.a[0], n.v)
        if k == "call": return e.call(n.a[0], n.a[1:])
        if k == "un":
            x = e.ev(n.a[0])
            if n.v == "!": return CV(z3.If(x.bv == 0, bvc(1, 32), bvc(0, 32)), 32, True)
            x = promote(x)
            if n.v == "-": return CV(-x.bv, x.w, x.s)
            if n.v == "+": return x
            if n.v == "~": return CV(~x.bv, x.w, x.s)
        if k == "cond":
            c = e.ev(n.a[0]); a, b = usual(e.ev(n.a[1]), e.ev(n.a[2])); return CV(z3.If(c.bv != 0, a.bv, b.bv), a.w, a.s)
        if k == "bin": return e.binop(n.v, e.ev(n.a[0]), e.ev(n.a[1]))
        raise BadText("expression %s" % k)
    def binop(e, o, a, b):
        if o in ("<<", ">>"):
            a = promote(a); b = promote(b); bb = conv(b, a.w, b.s).bv
            e.ub.append(z3.UGE(bb, a.w))
            if o == "<<":
                if a.s: e.ub.append(z3.Or(a.bv < 0, z3.LShR(a.bv << bb, bb) != a.bv, (a.bv << bb) < 0))
                return CV(a.bv << bb, a.w, a.s)
            return CV((a.bv >> bb) if a.s else z3.LShR(a.bv, bb), a.w, a.s)
        if o in ("&&", "||"):
            x, y = a.bv != 0, b.bv != 0; return CV(z3.If(z3.And(x, y) if o == "&&" else z3.Or(x, y), bvc(1, 32), bvc(0, 32)), 32, True)
        a, b = usual(a, b); x, y = a.bv, b.bv
        if o in ("&", "|", "^"): return CV({"&": x & y, "|": x | y, "^": x ^ y}[o], a.w, a.s)
        if o in ("+", "-", "*"):
            if a.s:
                n = a.w; X, Y = z3.SignExt(n, x), z3.SignExt(n, y); R = {"+": X + Y, "-": X - Y, "*": X * Y}[o]
                e.ub.append(R != z3.SignExt(n, z3.Extract(n - 1, 0, R)))
            return CV({"+": x + y, "-": x - y, "*": x * y}[o], a.w, a.s)
        if o in ("==", "!=", "<", ">", "<=", ">="):
            c = {"==": x == y, "!=": x != y}.get(o)
            if c is None:
                c = ({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y} if a.s else {"<": z3.ULT(x, y), ">": z3.UGT(x, y), "<=": z3.ULE(x, y), ">=": z3.UGE(x, y)})[o]
            return CV(z3.If(c, bvc(1, 32), bvc(0, 32)), 32, True)
        if o in ("/", "%"):
            e.ub.append(y == 0)
            if a.s:
                e.ub.append(z3.And(x == bvc(1 << (a.w - 1), a.w), y == bvc(-1, a.w)))
                return CV(x / y if o == "/" else z3.SRem(x, y), a.w, a.s)
            return CV(z3.UDiv(x, y) if o == "/" else z3.URem(x, y), a.w, a.s)
        raise BadText("operator " + o)
