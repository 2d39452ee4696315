"""CiMainGenerator::WriteSigStructField: the fields of a signal in the message struct and the comments above and behind them."""
from .base import *
from .. import lib as _lib
from ..gentext import doc, Strip, Line, If, tokens, expand, no_comment
from ..ctext import BadText
from .p2 import NAMES
NL = cls("\n"); BSL = cls("\\"); LCLS = TEXT & ~NL & ~cls("\r")
def lines(ex, tag, n):
    """an arbitrary text of n+1 lines: each one ends with blanks, before them stands a backslash or another character (or nothing)"""
    def line(k):
        i = (k,); bs = app(tag + ".bs", i, "bool"); sp = Hole(tag + ".sp", i, SPACE & ~NL & ~cls("\r"), 0, maxlen=TEXTMAX)
        p = Hole(tag + ".p", i, LCLS, 0, maxlen=TEXTMAX); q = Hole(tag + ".q", i, LCLS, 0, last=LCLS & ~SPACE & ~BSL, maxlen=TEXTMAX)
        return rope((Cho(bs, rope((p,), "\\"), (q,)),), (sp,))
    v = z3.Int("%s!l" % tag)
    return rope(line(0), (Each(v, 1, simp(n + 1), rope("\n", line(v))),))
def case(prog, kind, comment, vals, ty=2, ph_ty=2):
    run = Run(prog); ex = run.ex; ex.prefix = "WriteSigStructField[%s%s%s] " % (kind, ", comment" if comment else "", ", values" if vals else ", types %d %d" % (ty, ph_ty))
    f = run.fn("CiMainGenerator::WriteSigStructField", 3); ex.preload([f.tu])
    def prt(ex_, f_, args, this):
        a = args[0]; a = ex.load(a) if isinstance(a, LV) else a
        return (Hole("dbl:x%d" % _lib.cplx_id(("dbl", repr(a.data) if isinstance(a, Opaque) else zkey(a))), (), DIG | cls("-."), 3, maxlen=330),)
    ex.contracts["prt_double"] = prt
    T, P = ty, ph_ty; L, F, O, W = z3.Ints("L F O W"); n1, n2 = z3.Ints("n1 n2"); bits = z3.Bool("bits"); B = (1 << 31) - 1
    for x, lo, hi in ((L, 1, 64), (F, -B, B), (O, -B, B), (n1, 0, KMAX), (n2, 0, KMAX)): ex.vb[str(x)] = (lo, hi); ex.state.pc.append(z3.And(x >= lo, x <= hi))
    over = dict(TypeRo=T, TypePhys=P, LengthBit=L, IsSimpleSig=kind == "plain", IsDoubleSig=kind == "decimal scaled", CommentText=lines(ex, "com", n1) if comment else EMPTY, ValueText=lines(ex, "val", n2) if vals else EMPTY,
        Unit=(Hole("unit", (), LCLS, 0, maxlen=3000),))
    if kind == "integer scaled": over.update(Factor=F, Offset=O); ex.state.pc.append(F != 0)
    if kind == "decimal scaled": over.update(Factor=ex_real("FAC"), Offset=ex_real("OFF"))
    if kind == "plain": over.update(Factor=1, Offset=0)
    sv = signal(ex, "sig", (), **over); sig = ex.new(sv, "sig"); nm, ph = sv.get("Name"), sv.get("NameFloat")
    ex.vb["W"] = (0, 1 << 20); ex.state.pc.append(z3.And(W >= zint(ex.rlen(nm)), W <= 1 << 20))       # Gen_MainHeader: the width of the longest name
    fdv = arb(ex, "AppSettings_t", "fd"); sf = fdv.get("gen").get("usesigfloat_def"); fd = ex.new(fdv, "fd")
    this = ex.new(Struct("CiMainGenerator", {"fdesc": Ptr(fd), "fwriter": Struct("FileWriter", {"strm": ()})}), "gen")
    def one():
        ex.call_def(f, [sig, bits, W], this)
        t = ex.resolve(ex.load(this).get("fwriter").get("strm")); s = Strip(); code, end = s.run(t)
        ex.decide(bits); ex.decide(simp(L < 8)); return expand(ex, code), end, s
    n = 0
    for st, (code, end, s) in ex.explore(one):
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1
        ex.oblige("all the text of comments, units and values stays inside of comments", not s.problems, "; ".join(s.problems)[:300]); 
        if end is not None: raise Unsupported("the text does not end with a line")
        if s.problems: continue
        names = {g.name for g in s.inside if isinstance(g, Hole)}
        for on, tag in ((comment, "com"), (vals, "val")):
            if on: ex.oblige("the %s is printed" % {"com": "comment", "val": "value table's text"}[tag], {tag + ".p", tag + ".q"} <= names, repr(sorted(names)))
        free = [g for g in code if not isinstance(g, Lit) and seg_cls(g) & ~WORD]
        for g in free:
            ex.oblige("no free text outside of comments", not any(isinstance(x, Hole) and x.name.split(".")[0] in ("com", "val", "unit") for x in holes(g)), repr(g))
        d = [x for x in doc(code) if not (isinstance(x, Line) and not tokens(x.r))]
        fl = [x for x in d if isinstance(x, Line)]; cond = [x for x in d if isinstance(x, If)]
        if len(fl) + len(cond) != len(d): raise Unsupported("text of the field %r" % (code,))
        dc = [decl(ex, x) for x in fl]
        if any(x is None for x in dc): raise Unsupported("field %r" % (fl,))
        ex.oblige("the struct gets exactly one raw field", len(dc) == 1, repr(dc)[:300])
        if len(dc) != 1: continue
        w = L if ex.proves(bits) and ex.proves(simp(L < 8)) else None
        ex.oblige("the raw field has the raw type of the signal", dc[0][0] == NAMES[ty], "%s, want %s" % (dc[0][0], NAMES[ty])); ex.oblige("the raw field has the signal's name", dc[0][1] == nkey(nm), repr(dc[0][1]))
        if w is None: ex.oblige("no bit field for 8 bits and more, none without bit fields", dc[0][2] is None, repr(dc[0][2]))
        else: ex.oblige("the bit field is as wide as the signal", dc[0][2] is not None and Eq(dc[0][2], L), repr(dc[0][2]))
        if kind == "plain": ex.oblige("a plain signal has no physical field", not cond, repr(cond)[:200]); continue
        if len(cond) != 1 or cond[0].b or cond[0].kind not in ("ifdef",): raise Unsupported("sections of the field %r" % (cond,))
        ex.oblige("the physical field depends on the driver's floating point switch", rkey(cond[0].cond) == rkey(sf), repr(cond[0].cond))
        pl = [decl(ex, x) for x in cond[0].a if not (isinstance(x, Line) and not tokens(x.r))]
        if any(x is None for x in pl): raise Unsupported("physical field")
        want = "sigfloat_t" if kind == "decimal scaled" else NAMES[P]
        ex.oblige("one physical field with the physical type and name", pl == [(want, nkey(ph), None)], "%r, want %s %r" % (pl, want, ph))
    if not n: raise Unsupported("no path")
    return summary(ex)
def ex_real(n): return z3.Real(n)
def holes(g):
    if isinstance(g, Cho): return [x for y in g.a + g.b for x in holes(y)]
    if isinstance(g, Each): return [x for y in g.body for x in holes(y)]
    return [g]
def nkey(r): return tuple(a.s if isinstance(a, Lit) else a.key() for a in r)
def decl(ex, l):
    """(type, name, width) of a declaration"""
    if not isinstance(l, Line): return None
    try: tk = tokens(l.r)
    except BadText: return None
    if len(tk) < 3 or tk[0].k != "id" or tk[1].k != "id" or tk[-1].v != ";": return None
    ty = tk[0].v[0] if len(tk[0].v) == 1 and isinstance(tk[0].v[0], str) else None; nm = tuple(a if isinstance(a, str) else a.key() for a in tk[1].v)
    if len(tk) == 3: return ty, nm, None
    if len(tk) == 5 and tk[2].v == ":" and tk[3].k == "num": return ty, nm, tk[3].v
    return None
def units():
    from ..prove import Unit
    return [Unit("CiMainGenerator::WriteSigStructField", ["C05", "C20", "C12"], [(case, (k, c, v)) for k in ("plain", "integer scaled", "decimal scaled") for c, v in ((True, False), (False, True), (True, True))] +
        [(case, (k, False, False, t, p)) for k in ("plain", "integer scaled", "decimal scaled") for t in range(8) for p in (range(8) if k == "integer scaled" else (2,))],
        "raw field of the narrowest type with the signal's name (bit field width below 8 bits), physical field under the driver's switch; comment, value text and unit stay inside of comments whatever they contain", assumed=["units are shorter than 3000 characters", "names fit the width Gen_MainHeader gives"])]
