"""DbcLineParser::GetSigType and PrintType: types of the raw and the physical field."""
from .base import *

NAMES = ["int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t"]
def trange(i): w = 8 << (i & 3); return (-(1 << (w-1)), (1 << (w-1)) - 1) if i < 4 else (0, (1 << w) - 1)

def case(prog, L, signed, kind):
    run = Run(prog); ex = run.ex; ex.prefix = "GetSigType[%s, %d bits, %s] " % ("signed" if signed else "unsigned", L, kind)
    f = run.fn("DbcLineParser::GetSigType", 1); ex.preload([f.tu])
    F, O = z3.Int("F"), z3.Int("O"); B = (1 << 31) - 1
    if kind == "integer scaled":
        ex.vb["F"] = ex.vb["O"] = (-B, B)
        ex.state.pc += [z3.And(F >= -B, F <= B, F != 0), z3.And(O >= -B, O <= B)]
        over = dict(Factor=F, Offset=O, IsDoubleSig=False, IsSimpleSig=False)
    elif kind == "plain": over = dict(Factor=1, Offset=0, IsDoubleSig=False)
    else: over = dict(IsDoubleSig=True)
    sig = ex.new(signal(ex, "sig", (), LengthBit=L, Signed=signed, **over), "sig")
    this = ex.new(Struct("DbcLineParser", {}), "parser")
    n = 0
    for st, res in ex.explore(lambda: ex.call_def(f, [Ptr(sig)], this)):
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1; v = ex.load(sig); tro = v.get("TypeRo")
        want = (0 if signed else 4) + next(i for i in range(4) if L <= 8 << i)
        ex.oblige("the raw field has the narrowest type of its sign", Eq(tro, want), "TypeRo = %s, want %s" % (tro, NAMES[want]))
        if kind == "integer scaled":
            tp = v.get("TypePhys"); r = z3.Int("raw"); lo, hi = (-(1 << (L-1)), (1 << (L-1)) - 1) if signed else (0, (1 << L) - 1)
            mark = len(ex.state.pc); ex.state.pc += [z3.And(r >= lo, r <= hi)]
            # a linear function lies between its values at the ends (proved as a lemma of its own)
            ex.state.pc.append(z3.And(z3.Implies(F >= 0, z3.And(r * F >= lo * F, r * F <= hi * F)), z3.Implies(F <= 0, z3.And(r * F <= lo * F, r * F >= hi * F))))
            rt = z3.IntVal(0); rh = z3.IntVal(0)
            for i in range(8):
                a, b = trange(i); rt = z3.If(zint(tp) == i, z3.IntVal(a), rt); rh = z3.If(zint(tp) == i, z3.IntVal(b), rh)
            ex.oblige("TypePhys is a type", And(simp(zint(tp) >= 0), simp(zint(tp) <= 7)))
            ex.oblige("every physical value fits the type of the physical field", z3.And(r * F + O >= rt, r * F + O <= rh), "TypePhys = %s" % (tp,))
            ex.oblige("a negative physical value gets a signed type", z3.Implies(r * F + O < 0, zint(tp) <= 3))
            del ex.state.pc[mark:]
        for fld in ("Name", "StartBit", "Order", "Factor", "Offset", "LengthBit", "Signed", "IsDoubleSig"):
            a, b = v.get(fld), signal(ex, "sig", (), LengthBit=L, Signed=signed, **over).get(fld)
            ex.oblige("%s is not changed" % fld, same(ex, a, b))
    if not n: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    s = summary(ex); s["extra"]["hint"] = {"len": L, "signed": bool(signed)}
    return s
def same(ex, a, b):
    if is_rope(a): return rkey(a) == rkey(b)
    if isinstance(a, Opaque): return isinstance(b, Opaque) and ex.same_data(a.data, b.data)
    return Eq(a, b)
def narrow(prog, L, signed):
    """what the conversion macros rely on: the 64 bit unsigned type is taken only for values that need it"""
    run = Run(prog); ex = run.ex; ex.prefix = "GetSigType[%s, %d bits] " % ("signed" if signed else "unsigned", L)
    f = run.fn("DbcLineParser::GetSigType", 1); ex.preload([f.tu])
    F, O = z3.Int("F"), z3.Int("O"); B = (1 << 31) - 1; ex.vb["F"] = ex.vb["O"] = (-B, B)
    ex.state.pc += [z3.And(F >= -B, F <= B, F != 0), z3.And(O >= -B, O <= B)]
    sig = ex.new(signal(ex, "sig", (), LengthBit=L, Signed=signed, Factor=F, Offset=O, IsDoubleSig=False, IsSimpleSig=False), "sig"); this = ex.new(Struct("DbcLineParser", {}), "parser"); n = 0
    lo, hi = (-(1 << (L-1)), (1 << (L-1)) - 1) if signed else (0, (1 << L) - 1)
    for st, res in ex.explore(lambda: ex.call_def(f, [Ptr(sig)], this)):
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1; tp = ex.load(sig).get("TypePhys"); ex.oblige("a 64 bit unsigned physical field only for values above 2^32-1", z3.Implies(zint(tp) == 7, z3.Or(lo * F + O >= 1 << 32, hi * F + O >= 1 << 32)), str(tp))
    if not n: raise Unsupported("no path")
    return summary(ex)
def lemma(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "lemma "
    r, F, a, b = z3.Ints("r F a b")
    ex.oblige("r*F lies between a*F and b*F for a <= r <= b", z3.Implies(z3.And(a <= r, r <= b), z3.And(z3.Implies(F >= 0, z3.And(r * F >= a * F, r * F <= b * F)), z3.Implies(F <= 0, z3.And(r * F <= a * F, r * F >= b * F)))))
    return summary(ex)
def ptype(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "PrintType "
    f = run.fn("PrintType", 1); ex.preload([f.tu])
    for i, nm in enumerate(NAMES):
        e = "SigType::" + ("i" if i < 4 else "u") + str(8 << (i & 3))
        ex.oblige("enumerator %s has the value %d" % (e, i), enum(ex, e) == i)
        for st, r in ex.explore(lambda: ex.call_def(f, [i])):
            ex.state = st; t = lit_of(ex.as_rope(r)); ex.oblige("type %d is printed as %s" % (i, nm), t == nm, str(t))
    return summary(ex)

def units():
    from ..prove import Unit
    c = [(case, (L, s, k)) for L in range(1, 65) for s in (False, True) for k in ("plain", "integer scaled", "decimal scaled") if k != "integer scaled" or L <= 32]
    return [Unit("DbcLineParser::GetSigType", ["C05", "C06"], c + [(lemma, ())], "TypeRo is the narrowest type of the signal's sign for every length 1..64; for integer scaled signals up to 32 bits (|factor|, |offset| <= 2^31-1) TypePhys holds raw*factor+offset of every raw value; nothing else of the signal changes"),
            Unit("DbcLineParser::GetSigType: width for the conversions", ["C07"], [(narrow, (L, s)) for L in range(1, 33) for s in (False, True)], "what PrintPhysicalToRaw relies on"),
            Unit("PrintType", ["C05", "C06"], [(ptype, ())], "the printed C type of every SigType")]
