"""CSigPrinter::PrintPhysicalToRaw: the conversion macros of a signal.
Integer scaled signals: the macro texts are evaluated as C expressions (types, promotions, conversions as in C) for an arbitrary raw value, factor and
offset.  Decimal scaled signals: the macros are the formulas with the printed factor and offset."""
from .base import *
from ..lib import Fun
from ..gentext import tokens, expand
from ..ctext import Parser, parse_expr, BadText, Tok, literal
from .p2 import NAMES, trange
B31 = (1 << 31) - 1
TY = {n: (8 << (i & 3), i < 4) for i, n in enumerate(NAMES)}; TY["int"] = (32, True); TY["unsigned"] = (32, False)

class IV:
    """C integer value as mathematical integer"""
    __slots__ = ("v", "w", "s")
    def __init__(i, v, w, s): i.v = v; i.w = w; i.s = s
class Ev:
    def __init__(e, ex, x, name): e.ex = ex; e.x = x; e.nm = name; e.prod = {}; e.quot = {}
    def fits(e, v, w, s):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return simp(z3.And(zint(v) >= lo, zint(v) <= hi))
    def conv(e, a, w, s):
        if e.ex.proves(e.fits(a.v, w, s)): return IV(a.v, w, s)
        m = zint(a.v) % (1 << w)
        if s: m = z3.If(m >= (1 << (w - 1)), m - (1 << w), m)
        return IV(simp(m), w, s)
    def promote(e, a): return IV(a.v, 32, True) if a.w < 32 else a
    def usual(e, a, b):
        a, b = e.promote(a), e.promote(b)
        if a.w == b.w: w = a.w; s = a.s and b.s
        else: w = max(a.w, b.w); s = (a if a.w > b.w else b).s
        return e.conv(a, w, s), e.conv(b, w, s)
    def num(e, t):
        v = t.v; c = cint(v)
        if c is not None and c >= 0:
            b = literal(t); return IV(c, b.w, b.s)
        if t.sfx or t.base != 10: raise Unsupported("literal with suffix")
        if e.ex.proves(simp(z3.And(zint(v) >= -B31, zint(v) <= B31))): return IV(v, 32, True)
        raise Unsupported("number range")
    def ev(e, n):
        k = n.k
        if k == "par": return e.ev(n.a[0])
        if k == "num": return e.num(n.v)
        if k == "id":
            if n.v == ("x",): return e.x
            raise BadText("name %r" % (n.v,))
        if k == "cast":
            if n.v not in TY: raise Unsupported("cast to " + n.v)
            return e.conv(e.ev(n.a[0]), *TY[n.v])
        if k == "un" and n.v in "+-":
            a = e.promote(e.ev(n.a[0]))
            return a if n.v == "+" else e.res(IV(simp(-zint(a.v)), a.w, a.s))
        if k == "bin":
            a, b = e.usual(e.ev(n.a[0]), e.ev(n.a[1])); o = n.v
            if o == "+": v = simp(zint(a.v) + zint(b.v))
            elif o == "-": v = simp(zint(a.v) - zint(b.v))
            elif o == "*": v = e.times(a.v, b.v)
            elif o == "/": v = e.div(a.v, b.v)
            else: raise Unsupported("operator " + o)
            return e.res(IV(v, a.w, a.s))
        raise Unsupported("expression " + k)
    def times(e, a, b):
        for p, q in ((a, b), (b, a)):
            if cint(p) is not None: return simp(cint(p) * zint(q))
            for (x, y), m in e.prod.items():
                if e.ex.proves(zint(p) == zint(x)) and e.ex.proves(zint(q) == zint(y)): return m
        if e.ex.check() == "unsat": raise PathDead()
        e.exact(); return simp(zint(a) * zint(b))
    def div(e, a, b):
        if cint(b) == 1: return a
        for (x, y), m in e.prod.items():
            for p, q in ((x, y), (y, x)):
                if e.ex.proves(zint(b) == zint(q)) and e.ex.proves(zint(b) != 0) and e.ex.proves(zint(a) == zint(m)): return p
        if cint(b) == 0: raise BadText("division by zero")
        e.ex.oblige(e.nm + ": no division by zero", simp(zint(b) != 0)); e.exact()
        # truncating division: q with |a - q b| < |b| and the remainder's sign
        q = z3.Int("q!%d" % len(e.quot)); e.quot[q] = 1; A, B = zint(a), zint(b); r = A - q * B; ab = lambda v: z3.If(v >= 0, v, -v)
        e.ex.state.pc.append(z3.And(ab(r) < ab(B), z3.Implies(A >= 0, r >= 0), z3.Implies(A <= 0, r <= 0))); return q
    def claim(e, name, c, detail):
        """first with the product known by its range only, then exactly"""
        if not e.ex.proves(c): e.exact()
        e.ex.oblige(name, c, detail)
    def exact(e):
        """from here on the products are the real ones"""
        for (x, y), m in e.prod.items(): e.ex.state.pc.append(zint(m) == zint(x) * zint(y))
    def res(e, r):
        """result of an operation in its type: a signed one has to fit"""
        if r.s:
            e.claim(e.nm + ": no integer overflow", e.fits(r.v, r.w, True), "%s in %d bits" % (r.v, r.w)); return r
        return e.conv(r, r.w, False)

def defines(ex, t):
    """macros of the text: name key -> (parameters, body tokens); other lines have to be comments"""
    out = {}; lines = [[]]
    for s in t:
        if isinstance(s, Lit):
            p = s.s.split("\n")
            for i, x in enumerate(p):
                if i: lines.append([])
                if x: lines[-1].append(Lit(x))
        elif isinstance(s, Each): raise Unsupported("repetition")
        else: lines[-1].append(s)
    for l in lines:
        if not l: continue
        if not isinstance(l[0], Lit): raise Unsupported("line %r" % (l,))
        if l[0].s.lstrip().startswith("//"):
            for x in l[1:]:
                if not isinstance(x, Lit) and seg_cls(x) & cls("\n\\"): raise Unsupported("comment")
            continue
        for a, b in zip(l, l[1:]):
            if isinstance(a, Lit) and isinstance(b, Fmt) and a.s.endswith(("-", "+")) and not ex.proves(simp(zint(b.val) >= 0)): raise Unsupported("sign before a number")
        if not l[0].s.startswith("#define "): raise Unsupported("line %r" % (l,))
        tk = tokens(rope(l[0].s[8:], *[(x,) for x in l[1:]]))
        # object-like or function-like: a parenthesis right behind the name
        if not tk or tk[0].k != "id": raise BadText("macro name in %r" % (l,))
        k = tk[0].v; par = None; body = tk[1:]
        first = next((x for x in l[1:] if isinstance(x, Lit)), None) if len(l) > 1 else None
        if tight(l, k):
            i = next((i for i, x in enumerate(body) if x.k == "op" and x.v == ")"), None)
            if i is None: raise BadText("parameters")
            par = [x.v for x in body[1:i]]; body = body[i+1:]
        if idkey(k) in out: raise Unsupported("macro defined twice")
        out[idkey(k)] = (k, par, body)
    return out
def idkey(v): return tuple(a if isinstance(a, str) else a.key() for a in v)
def tight(l, k):
    """the macro name is followed by a parenthesis without a space"""
    if not isinstance(k[-1], str): raise Unsupported("macro name")
    for x in l:
        if isinstance(x, Lit):
            i = x.s.find(k[-1])
            if i >= 0 and (x is not l[0] or k[0] == k[-1]): return x.s[i+len(k[-1]):][:1] == "("
    raise Unsupported("macro name %r" % (k,))
def bare_x(n, inside=False):
    """the parameter stands outside of parentheses of its own"""
    if n.k == "id" and n.v == ("x",): return not inside
    return any(bare_x(a, n.k == "par") for a in n.a)
def setup(prog, L, signed, dbl, tag):
    run = Run(prog); ex = run.ex; ex.prefix = "PrintPhysicalToRaw[%s] " % tag
    f = run.fn("CSigPrinter::PrintPhysicalToRaw", 2); ex.preload([f.tu])
    def prt(ex, f_, args, this):
        v = args[0]; v = ex.load(v) if isinstance(v, LV) else v; p = args[1] if len(args) > 1 else 9; p = cint(ex.load(p) if isinstance(p, LV) else p)
        if len(args) > 2 and ex.load(args[2]) is not True if len(args) > 2 and isinstance(args[2], LV) else len(args) > 2 and args[2] is not True: raise Unsupported("prt_double without decimal point")
        if p is None: raise Unsupported("precision")
        key = v.data if isinstance(v, Opaque) else zkey(v)
        return (Hole("dbl%d:%s" % (p, "x%d" % lib_id(("dbl", repr(key)))), (), DIG | cls("-."), 3, maxlen=330),)
    ex.contracts["prt_double"] = prt
    return run, ex, f, prt
def lib_id(k):
    from ..lib import cplx_id
    return cplx_id(k)
def integer(prog, L, signed):
    run, ex, f, _ = setup(prog, L, signed, False, "%s, %d bits, integer scaled" % ("signed" if signed else "unsigned", L))
    F, O, T, M, R = z3.Ints("F O T M raw"); lo, hi = (-(1 << (L-1)), (1 << (L-1)) - 1) if signed else (0, (1 << L) - 1)
    for n in "FO": ex.vb[n] = (-B31, B31)
    ex.vb["T"] = (0, 7)
    ex.state.pc += [z3.And(F >= -B31, F <= B31, F != 0), z3.And(O >= -B31, O <= B31), z3.Or(F != 1, O != 0), z3.And(T >= 0, T <= 7)]
    tro = (0 if signed else 4) + next(i for i in range(4) if L <= 8 << i)
    # contract of GetSigType: every physical value (a linear function lies between its values at the ends) fits, a negative one needs a signed type
    for i in range(8):
        a, b = trange(i)
        for r in (lo, hi): ex.state.pc.append(z3.Implies(T == i, z3.And(r * F + O >= a, r * F + O <= b)))
    for r in (lo, hi): ex.state.pc.append(z3.Implies(r * F + O < 0, T <= 3))
    if signed: ex.state.pc.append(T <= 3)
    ex.state.pc.append(z3.Implies(T == 7, z3.Or(lo * F + O >= 1 << 32, hi * F + O >= 1 << 32)))
    ex.used_contracts.add("DbcLineParser::GetSigType")
    sv = signal(ex, "sig", (), LengthBit=L, Signed=signed, Factor=F, Offset=O, IsDoubleSig=False, IsSimpleSig=False, TypeRo=tro, TypePhys=T); sig = ex.new(sv, "sig")
    name = sv.get("Name"); drv = (name_hole("drv"),); dl = ex.new(drv, "drvname"); this = ex.new(arb(ex, "CSigPrinter", "prn"), "printer")
    def one():
        t = expand(ex, ex.as_rope(ex.call_def(f, [Ptr(sig), dl], this)))
        for i in range(7):
            if ex.decide(simp(T == i)): return t, i
        return t, 7
    n = 0
    for st, res in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1; t, tp = res; t = ex.resolve(t); D = defines(ex, t)
        key = lambda sfx: idkey((drv[0], "_", name[0], sfx))
        for what, sfx in (("physical to raw", "_toS"), ("raw to physical", "_fromS")):
            if key(sfx) not in D: raise Unsupported("macro %s not found in %r" % (sfx, t))
            k, par, body = D[key(sfx)]
            if par != [("x",)]: raise Unsupported("parameters of the macro %r" % (par,))
            try: node = parse_expr(body)
            except BadText as e: definite(t, str(e), list(drv) + list(name)); ex.oblige(what + ": the macro body is an expression", False, str(e)); continue
            ex.oblige(what + ": the expression stands in parentheses", node.k in ("par", "num", "call"), repr(node)[:200])
            ex.oblige(what + ": the parameter stands in parentheses", not bare_x(node), repr(node)[:200])
            mark = len(ex.state.pc)
            # an arbitrary raw value; M is raw * F, which lies between its values at the ends (lemma)
            ex.state.pc += [z3.And(R >= lo, R <= hi), z3.And(z3.Implies(F >= 0, z3.And(M >= lo * F, M <= hi * F)), z3.Implies(F <= 0, z3.And(M <= lo * F, M >= hi * F))), z3.Implies(F == 1, M == R), z3.Implies(F == -1, M == -R)]
            try:
                x = IV(R, *TY[NAMES[tro]]) if sfx == "_fromS" else IV(simp(M + O), *TY[NAMES[tp]])
                e = Ev(ex, x, what); e.prod[(R, F)] = M
                r = e.ev(node)
                if sfx == "_fromS": r = e.conv(r, *TY[NAMES[tp]]); e.claim("raw to physical: raw * factor + offset", Eq(r.v, simp(M + O)), "%s" % (r.v,))
                else: r = e.conv(r, *TY[NAMES[tro]]); e.claim("physical to raw: the raw value again", Eq(r.v, R), "%s" % (r.v,))
            except BadText as er: definite(t, str(er), list(drv) + list(name)); ex.oblige(what + ": the macro body is a C expression of x", False, str(er))
            finally: del ex.state.pc[mark:]
        k = key("_CovFactor")
        if k in D:
            nd = parse_expr(D[k][2]); r = Ev(ex, None, "CovFactor").ev(nd); ex.oblige("the factor macro", Eq(r.v, F), repr(nd))
    if not n: raise Unsupported("no path")
    s = summary(ex); s["extra"]["hint"] = {"len": L, "signed": bool(signed)}
    return s
def decimal(prog):
    run, ex, f, prt = setup(prog, 0, 0, True, "decimal scaled"); T = z3.Int("T"); ex.vb["T"] = (0, 7); ex.state.pc.append(z3.And(T >= 0, T <= 7)); Ln = z3.Int("L"); ex.vb["L"] = (1, 64); ex.state.pc.append(z3.And(Ln >= 1, Ln <= 64))
    sv = signal(ex, "sig", (), IsDoubleSig=True, IsSimpleSig=False, TypeRo=T, LengthBit=Ln); sig = ex.new(sv, "sig"); F, O = sv.get("Factor"), sv.get("Offset")
    name = sv.get("Name"); drv = (name_hole("drv"),); dl = ex.new(drv, "drvname"); this = ex.new(arb(ex, "CSigPrinter", "prn"), "printer")
    fac, off = prt(ex, None, [F, 9], None), prt(ex, None, [O, 9], None); n = 0
    # texts of the numbers are literals (contract of prt_double)
    def one():
        t = expand(ex, ex.as_rope(ex.call_def(f, [Ptr(sig), dl], this)))
        for i in range(7):
            if ex.decide(simp(T == i)): return t, i
        return t, 7
    num = {"x%d" % lib_id(("dbl", repr(F.data))): "factor", "x%d" % lib_id(("dbl", repr(O.data))): "offset"}
    for st, res in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1; t, tr = res; t = ex.resolve(t)
        # the literals as names
        used = {}
        def lit(s):
            if isinstance(s, Hole) and s.name.startswith("dbl"):
                p, k = s.name[3:].split(":"); used[num.get(k, "?")] = p; return Hole("num_" + num.get(k, "?"), (), WORD, 1)
            return s
        t2 = rope(*[(lit(s),) for s in t]); D = defines(ex, t2)
        for k, p in used.items(): ex.oblige("the %s is written with nine decimals" % k, p == "9", p)
        Fn, On = ("num_factor",), ("num_offset",)
        for what, sfx in (("physical to raw", "_toS"), ("raw to physical", "_fromS")):
            k = idkey((drv[0], "_", name[0], sfx))
            if k not in D: raise Unsupported("macro %s" % sfx)
            _, par, body = D[k]
            if par != [("x",)]: raise Unsupported("parameters of the macro %r" % (par,))
            body = [Tok("id", (b.v[0].name,)) if b.k == "id" and len(b.v) == 1 and isinstance(b.v[0], Hole) and b.v[0].name.startswith("num_") else b for b in body]
            # a literal of a negative number needs no parentheses of its own behind an operator with a space; none is assumed
            try: node = parse_expr(body)
            except BadText as e: raise Unsupported("macro body: " + str(e))
            ex.oblige(what + ": the expression stands in parentheses", node.k == "par", repr(node)[:200])
            ex.oblige(what + ": the parameter stands in parentheses", not bare_x(node), repr(node)[:200])
            m = strip(node)
            x, a, b = ("id", ("x",)), ("id", Fn), ("id", On)
            if sfx == "_fromS":
                want = [("+", p, q) for mul in (("*", x, a), ("*", a, x)) for p, q in ((mul, b), (b, mul))]
                ex.oblige("raw to physical: x * factor + offset", m in want, repr(m))
            else:
                ty = None
                if m[0] == "cast": ty, m = m[1], m[2]
                if ty is None: raise Unsupported("no cast in toS")
                ex.oblige("physical to raw: the result has the type of the raw field", ty == NAMES[tr], "%s, field %s" % (ty, NAMES[tr]))
                ex.oblige("physical to raw: (x - offset) / factor", m == ("/", ("-", x, b), a), repr(m))
        ex.oblige("negative numbers stand in parentheses", all(paren(t2, i) for i, s in enumerate(t2) if isinstance(s, Hole) and s.name.startswith("num_")), repr(t2))
    if not n: raise Unsupported("no path")
    return summary(ex)
def paren(t, i):
    """( number ): or at least no '-' or '+' directly before it"""
    p = t[i-1].s if i and isinstance(t[i-1], Lit) else ""
    return not p.endswith(("-", "+"))
def strip(n):
    if n.k == "par": return strip(n.a[0])
    if n.k == "id": return ("id", n.v)
    if n.k == "cast": return ("cast", n.v, strip(n.a[0]))
    if n.k == "bin": return (n.v, strip(n.a[0]), strip(n.a[1]))
    raise Unsupported("expression " + n.k)
def lemma(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "lemma "; r, F, q = z3.Ints("r F q")
    # truncating division of an exact multiple: |q*F| <= |a| < |q*F| + |F| and a = r*F force q = r
    a = r * F; ab = lambda v: z3.If(v >= 0, v, -v)
    d = z3.Int("d")     # d = q - r; q*F = a + d*F
    ex.oblige("(r*F)/F is r: a remainder smaller than the divisor that is a multiple of it is zero", z3.Implies(z3.And(F != 0, d != 0), z3.Or(z3.And(d >= 1, F >= 1, d * F >= F), z3.And(d >= 1, F <= -1, d * F <= F), z3.And(d <= -1, F >= 1, d * F <= -F), z3.And(d <= -1, F <= -1, d * F >= -F))))
    return summary(ex)
def units():
    from ..prove import Unit
    return [Unit("CSigPrinter::PrintPhysicalToRaw", ["C07"], [(integer, (L, s)) for L in range(1, 33) for s in (False, True)] + [(decimal, ()), (lemma, ())],
        "integer scaled signals of 1..32 bits, every factor, offset and raw value: fromS gives raw*factor+offset, toS gives the raw value again, no overflow; decimal scaled ones: x*factor+offset and (x-offset)/factor", assumed=["prt_double prints the number (C17)"])]
