"""Straight-line execution of emitted C statements: fields of the message, payload bytes and out parameters as bit vectors,
calls recorded as events."""
import z3
from .terms import *
from .ctext import *
from .gentext import Stmts

def bv(name, w): return z3.BitVec(name, w)
class Mac:
    """use of a conversion macro: name, argument place, value of the argument, casts applied to the result (innermost first)"""
    def __init__(m, f, place, val, casts=()): m.f = f; m.place = place; m.val = val; m.casts = tuple(casts)
    def __repr__(m): return "%r(%r)%r" % (m.f, m.place, m.casts)
def idk(*parts):
    """key of an identifier made of the given texts (strings, ropes)"""
    out = []
    for p in rope(*parts):
        if isinstance(p, Lit):
            if out and isinstance(out[-1], str): out[-1] += p.s
            else: out.append(p.s)
        else: out.append(p)
    return tuple(x if isinstance(x, str) else x.key() for x in out)
def show(k): return "".join(x if isinstance(x, str) else "<%s>" % (x[1],) for x in k)

class CRun(Eval):
    """member types by key; chains: value of expression texts by hole key"""
    def __init__(c, members=None, default=None):
        Eval.__init__(c); c.members = members or {}; c.default = default; c.store = {}; c.initial = {}; c.events = []; c.assume = []; c.texts = {}; c.chain = {}; c.consts = {}; c.bytes = {}; c.written = []
        c.loop_handler = None; c.locals = {}; c.hashes = 0; c.macro = lambda k: False; c.hashw = 32; c.ended = False
    # ---- places
    def place(c, n):
        k = n.k
        if k == "par": return c.place(n.a[0])
        if k == "un" and n.v == "*" : return ("deref", c.place(n.a[0]))
        if k == "id": return ("id", idkey(n.v))
        if k == "arrow": return ("arrow", c.place(n.a[0]), idkey(n.v))
        if k == "dot": return ("dot", c.place(n.a[0]), idkey(n.v))
        if k == "idx": return ("idx", c.place(n.a[0]), zkey(c.const_index(n.a[1])))
        raise BadText("not a place: %r" % (n,))
    def const_index(c, n):
        if n.k == "par": return c.const_index(n.a[0])
        if n.k == "num": return n.v.v
        if n.k == "id" and idkey(n.v) in c.locals: return ("local", idkey(n.v))
        raise BadText("index %r" % (n,))
    def ptype(c, p):
        """C type of a place"""
        if p[0] == "arrow" and p[1] == ("id", ("_m",)):
            t = c.members.get(p[2])
            if t is not None: return t
            raise BadText("unknown member %s" % show(p[2]))
        if p[0] == "dot" and p[1] == ("arrow", ("id", ("_m",)), ("mon1",)): 
            t = c.members.get(("mon1",) + p[2])
            if t is not None: return t
            raise BadText("unknown member of mon1 %s" % show(p[2]))
        if p[0] == "idx": return (8, False)
        if p in c.outs: return c.outs[p]
        if p[0] == "id" and p[1] in c.locals: return c.locals[p[1]]
        if p[0] == "id" and p[1] in c.consts: return None
        raise BadText("unknown object %r" % (p,))
    outs = {}
    def read(c, p):
        if p[0] == "id" and p[1] in c.consts: return c.consts[p[1]]
        if p in c.store: return c.store[p]
        t = c.ptype(p)
        if t == ("real",): raise BadText("use of a sigfloat field")
        v = CV(bv("old:%s" % (p,), t[0]), t[0], t[1])
        if len(t) > 2:       # bit-field or known range
            v = CV(z3.simplify(v.bv), t[0], t[1])
        c.store[p] = v; c.initial[p] = v
        return v
    def write(c, p, v):
        t = c.ptype(p)
        if isinstance(v, CV):
            if t == ("real",): raise Unsupported("plain value in a sigfloat field")
            v = conv(v, t[0], t[1])
            if len(t) > 2 and t[2] < t[0]:    # value kept in a bit-field of t[2] bits
                e = z3.Extract(t[2] - 1, 0, v.bv); v = CV(z3.SignExt(t[0] - t[2], e) if t[1] else z3.ZeroExt(t[0] - t[2], e), t[0], t[1])
        c.store[p] = v; c.written.append(p); c.events.append(("set", p, v))
    # ---- expressions
    def name(c, v):
        k = idkey(v)
        if k in c.chain: return c.chain[k]
        return c.read(("id", k))
    def index(c, b, i): return c.read(("idx", c.place(b), zkey(c.const_index(i))))
    def member(c, b, v): raise BadText("member")
    def ev(c, n):
        if n.k == "text":
            r = c.texts.get(n.v.key())
            if r is None: raise BadText("unknown text in an expression")
            return r
        if n.k in ("arrow", "dot", "idx"): return c.read(c.place(n))
        if n.k == "un" and n.v == "*": return c.read(c.place(n))
        if n.k == "par": return c.ev(n.a[0])
        if n.k == "cast":
            x = c.ev(n.a[0])
            if isinstance(x, Mac): return Mac(x.f, x.place, x.val, x.casts + (n.v,))
            return conv(x, *c.typ(n.v))
        if n.k == "assign":
            return c.assign(n)
        if n.k in ("post", "pre"):
            p = c.place(n.a[0]); old = c.read(p); new = c.binop("+" if n.v == "++" else "-", old, CV(bvc(1, 32), 32, True)); c.write(p, new)
            return old if n.k == "post" else c.read(p)
        r = Eval.ev(c, n)
        return r
    def assign(c, n):
        p = c.place(n.a[0])
        if n.v == "=": v = c.ev(n.a[1])
        else:
            old = c.read(p); r = c.ev(n.a[1]); 
            if isinstance(r, Mac): raise BadText("macro in a compound assignment")
            v = c.binop(n.v[:-1], old, r)
        c.write(p, v)
        return v if isinstance(v, Mac) else c.read(p)
    def call(c, f, args):
        if f.k != "id": raise BadText("call of %r" % (f,))
        k = idkey(f.v)
        if k == ("GetSystemTick",):
            if args: raise BadText("GetSystemTick with arguments")
            c.events.append(("tick",)); return CV(bv("tick", 32), 32, False)
        if k == ("GetFrameHash",):
            if len(args) != 5: raise BadText("GetFrameHash with %d arguments" % len(args))
            c.hashes += 1; v = bv("hash%d" % c.hashes, c.hashw)
            method = idkey(args[3].v) if args[3].k == "id" else ("text", args[3].v.key()) if args[3].k == "text" else None
            c.events.append(("hash", c.place(args[0]), c.place(args[1]), c.place(args[2]), method, args[4].v.v if args[4].k == "num" else None, dict(c.store), c.hashes, list(c.events)))
            return CV(v, c.hashw, False)
        if k == ("__ext_sig__",):
            if len(args) != 2: raise BadText("__ext_sig__ with %d arguments" % len(args))
            x = conv(c.ev(args[0]), c.ext_width, False)
            b = c.signbits(args[1])
            m = bvc(1, c.ext_width) << conv(CV(b.bv - 1, b.w, False), c.ext_width, False).bv if b.w <= c.ext_width else None
            if m is None: raise BadText("bits of __ext_sig__")
            return CV((x.bv ^ m) - m, c.ext_width, True)
        if c.macro(k):
            if len(args) != 1: raise BadText("conversion macro with %d arguments" % len(args))
            return Mac(k, c.place(args[0]), c.ev(args[0]) if c.ptype(c.place(args[0])) != ("real",) else c.store.get(c.place(args[0])))
        c.events.append(("call", k, tuple(c.argkey(a) for a in args), dict(c.store))); return CV(bv("call%d" % len(c.events), 32), 32, False)
    def argkey(c, a):
        if a.k == "un" and a.v == "&": return ("&", c.place(a.a[0]))
        return c.place(a)
    def signbits(c, n):
        """second argument of __ext_sig__: a number, possibly symbolic; bounded 1..64 by the caller's assumption"""
        while n.k == "par": n = n.a[0]
        if n.k == "num":
            v = n.v.v
            if cint(v) is not None: return CV(bvc(cint(v) & 255, 8), 8, False)
            z = c.numsyms.get(zkey(v))
            if z is None: raise BadText("number of bits %s" % v)
            return z
        raise BadText("number of bits")
    numsyms = {}
    # ---- statements
    def run(c, stmts):
        for s in stmts:
            if c.ended: raise Unsupported("statement behind return")
            k = s[0]
            if k == "expr":
                if s[1].k in ("assign", "post", "pre", "call"): c.ev(s[1])
                else: c.ev(s[1])
            elif k in ("nop", "void"): pass
            elif k == "ret": c.events.append(("ret", c.place(s[1]) if s[1] is not None and s[1].k == "id" else s[1])); c.ended = True
            elif k == "loop": c.loop_handler(c, s[1])
            elif k == "block": c.run(s[1])
            elif k == "for": c.fill(s)
            elif k == "decl":
                t = c.typ(s[1]); c.locals[idkey(s[2])] = t
                if s[3] is not None: c.write(("id", idkey(s[2])), c.ev(s[3]))
            else: raise Unsupported("statement %s" % k)
    def fill(c, s):
        """for (i = 0; i < B; A[i++] = V); or for (i = 0; i < B; i++) A[i] = V;"""
        _, i, cond, inc, body = s
        def strip(n):
            while n.k == "par": n = n.a[0]
            return n
        if not (i and i[0] in ("expr", "decl")): raise Unsupported("loop form")
        if i[0] == "expr":
            a = i[1]
            if a.k != "assign" or a.v != "=": raise Unsupported("loop form")
            v = idkey(a.a[0].v) if a.a[0].k == "id" else None; start = a.a[1]
        else: v = idkey(i[2]); start = i[3]; c.locals[v] = c.typ(i[1])
        if v not in c.locals or start is None or start.k != "num": raise Unsupported("loop form")
        cond = strip(cond)
        if cond.k != "bin" or cond.v not in ("<", "!=", "<=") or cond.a[0].k != "id" or idkey(cond.a[0].v) != v: raise Unsupported("loop form")
        bnd = strip(cond.a[1])
        b = ("call", idkey(bnd.a[0].v), tuple(c.place(x) for x in bnd.a[1:])) if bnd.k == "call" and bnd.a[0].k == "id" else c.place(bnd) if bnd.k == "id" else None
        if b is None: raise Unsupported("bound of the loop")
        ids = lambda n, kk: n.k == kk and n.a[0].k == "id" and idkey(n.a[0].v) == v and n.v == "++"
        tgt = None
        if inc is not None and inc.k == "assign" and inc.v == "=" and body[0] in ("nop",) or inc is not None and inc.k == "assign" and body == ("block", []):
            l = strip(inc.a[0])
            if l.k == "idx" and ids(l.a[1], "post"): tgt = (l.a[0], inc.a[1])
        elif inc is not None and inc.k in ("post", "pre") and ids(inc, inc.k):
            st = body[1] if body[0] == "block" else [body]
            if len(st) == 1 and st[0][0] == "expr" and st[0][1].k == "assign" and st[0][1].v == "=":
                l = strip(st[0][1].a[0])
                if l.k == "idx" and l.a[1].k == "id" and idkey(l.a[1].v) == v: tgt = (l.a[0], st[0][1].a[1])
        if tgt is None: raise Unsupported("loop form")
        val = tgt[1]
        while val.k in ("par", "cast"): val = val.a[0]
        if val.k == "id": vk = ("id", idkey(val.v))
        elif val.k == "num": vk = ("num", cint(val.v.v))
        else: raise Unsupported("fill value")
        c.events.append(("fill", c.place(tgt[0]), cint(start.v.v), cond.v, b, vk))
