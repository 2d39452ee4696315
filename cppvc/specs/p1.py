"""CSigPrinter::PrintSignalExpr: the decoding and encoding expressions of one signal, for every byte order, length 1..64,
start bit and payload length (case split over order, length and start bit modulo 8; the byte position and the DLC stay symbolic)."""
from .base import *
from .. import ctext
from ..ctext import CV, bvc

RO = {}
class SigEval(ctext.Eval):
    def __init__(e, q, name, width, signed):
        ctext.Eval.__init__(e); e.q = q; e.nm = name; e.s = z3.BitVec("S", width); e.w = width; e.sg = signed; e.d = {}
    def off(e, n):
        if n.k == "num": v = n.v.v
        else: raise ctext.BadText("array index %r" % (n,))
        k = cint(simp(zint(v) - e.q))
        if k is None: raise ctext.BadText("array index %s" % v)
        return k
    def index(e, b, i):
        if b.k != "id" or b.v != ("_d",): raise ctext.BadText("array %r" % (b,))
        k = e.off(i); v = e.d.setdefault(k, z3.BitVec("d%d" % k if k >= 0 else "dm%d" % -k, 8))
        return CV(v, 8, False)
    def member(e, b, v):
        if b.k != "id" or b.v != ("_m",) or len(v) != 1 or not isinstance(v[0], Hole) or v[0].key() != e.nm.key(): raise ctext.BadText("member %r" % (v,))
        return CV(e.s, e.w, e.sg)

def layout(motorola, L, r):
    """list of (byte offset from the start byte, bit) of the signal's bits, least significant first"""
    out = []
    if not motorola:
        for i in range(L): out.append(((r + i) // 8, (r + i) % 8))
    else:
        b, k = 0, r
        for i in range(L):
            out.append((b, k)); k -= 1
            if k < 0: k = 7; b += 1
        out.reverse()
    return out
def ro_width(L): return 8 if L <= 8 else 16 if L <= 16 else 32 if L <= 32 else 64

def bvcheck(ex, name, neg, detail="", hint=None):
    """obligation over bit vectors: neg must be unsatisfiable"""
    s = z3.Solver(); s.set("timeout", 30000); s.add(neg); t = time.time(); r = s.check(); ex.solver_time += time.time() - t; ex.queries += 1
    st = {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[str(r)]
    o = Obligation(ex.prefix + name, st, detail, time.time() - t)
    if st == "failed": o.model = {str(d): str(s.model()[d]) for d in s.model().decls()}
    ex.obls.append(o); return st == "proved"

class ByteEval(SigEval):
    """the earlier content of the byte's expression is an | chain of unknown value"""
    hole = None; old8 = None
    def ev(e, n):
        if n.k == "text" and e.hole is not None and n.v.key() == e.hole.key(): return CV(e.old8, 8, False)
        return ctext.Eval.ev(e, n)
def or_chain(n):
    """operands of the top | chain"""
    return or_chain(n.a[0]) + or_chain(n.a[1]) if n.k == "bin" and n.v == "|" else [n]
def has_text(n): return n.k == "text" or any(has_text(a) for a in n.a if isinstance(a, ctext.Node))
def byte_ok(ex, nm2, q, nm, W, signed, S, new, o, had, exp):
    """the text of a byte is (earlier content |) an expression with exactly the signal's bits"""
    if rkey(new) == rkey(o) or not new and not had:
        bvcheck(ex, nm2 + "unchanged", exp != bvc(0, 8)); return
    e = ByteEval(q, nm, W, signed); e.s = S
    toks = ctext.tokens(new)
    try:
        nd = ctext.parse_expr(toks); ops = or_chain(nd)
        if nd.k in ("cond", "assign") or nd.k == "bin" and nd.v in ("||", "&&"): raise ctext.BadText("the expression of a byte cannot be continued by |")
        if had:
            if not (ops[0].k == "text" and ops[0].v.key() == o[0].key()) or any(has_text(x) for x in ops[1:]): 
                ex.oblige(nm2 + "earlier content is kept as the first operand of |", False, "%r" % (new,)); return
            e.hole = o[0]; e.old8 = z3.BitVec("old", 8)
            exp = e.old8 | exp
        elif any(has_text(x) for x in ops): raise Unsupported("unknown text in %r" % (new,))
        v = e.ev(nd)
    except ctext.BadText as bt: definite(new, bt, [nm, o[0]]); ex.oblige(nm2 + "is a C expression", False, "%s in %r" % (bt, new)); return
    if rope_minlen(new) < 2: ex.oblige(nm2 + "has at least two characters", zint(ex.rlen(new)) >= 2)
    for u in e.ub: bvcheck(ex, nm2 + "has no undefined shift", u)
    bvcheck(ex, nm2 + "holds exactly the signal's bits", ctext.conv(v, 8, False).bv != exp, "%r" % (new,))

ERR = "Dlc of this message must be greater"
def case(prog, order, L, r, deadline=None):
    a = sub(prog, order, L, r, True, deadline); b = sub(prog, order, L, r, False, deadline)
    return merge_summaries([a, b])
def sub(prog, order, L, r, inside, deadline=None):
    run = Run(prog, deadline=deadline); ex = run.ex
    mot = order == "M"
    ex.prefix = "PrintSignalExpr[%s len %d start%%8=%d] " % ("Motorola" if mot else "Intel", L, r)
    f = run.fn("CSigPrinter::PrintSignalExpr", 2)
    ex.preload([f.tu])
    q = z3.Int("q"); n = z3.Int("DLC"); ex.vb["q"] = (0, (1 << 28) - 1); ex.vb["DLC"] = (0, 64)
    ex.state.pc += [z3.And(q >= 0, q < (1 << 28)), z3.And(n >= 0, n <= 64)]
    nm = name_hole("S.name", ())
    lay = layout(mot, L, r); W = ro_width(L); nbytes = max(b for b, k in lay) + 1
    sg = z3.Bool("signed"); tro = z3.Int("TypeRo")
    sig = ex.new(signal(ex, "sig", (), Name=(nm,), StartBit=simp(8 * q + r), LengthBit=L, Order=enum(ex, "BitLayout::kMotorolla" if mot else "BitLayout::kIntel"), Signed=sg), "sig")
    old = lambda i: (Hole("tb", (i,), TEXT, 0, maxlen=None),)
    tb = ex.new(SVec(n, old, (), "std::vector<std::string>", "to_bytes"), "to_bytes")
    this = ex.new(Struct("CSigPrinter", {"sigs_expr": Vec((), "std::vector<CiExpr_t*>")}), "printer")
    fits = simp(q + nbytes <= n); ex.state.pc.append(fits if inside else Not(fits))
    outs = ex.explore(lambda: ex.call_def(f, [Ptr(sig), tb], this))
    cover = 0
    for st, res in outs:
        ex.state = st
        res = ex.resolve(ex.as_rope(res))
        if ex.check() == "unsat": continue
        txt = "".join(s.s for s in res if isinstance(s, Lit)); is_err = ERR in txt; cover += 1
        if not inside:
            if is_err:
                try: ctext.parse_expr(ctext.tokens(res)); ok = False
                except ctext.BadText: ok = True
                ex.oblige("a signal outside the payload yields the error text, no C expression", ok, txt[:200])
            else:
                try: ctext.parse_expr(ctext.tokens(res)); ex.oblige("a signal outside the payload yields the error text, no C expression", False, txt[:200])
                except ctext.BadText as b: raise Unsupported("text of a signal outside the payload: %s" % b)
        else:
            if is_err: ex.oblige("a signal inside the payload yields an expression", False, txt[:100]); continue
            for signed in (False, True):
                pf = "signed " if signed else "unsigned "
                e = SigEval(q, nm, W, signed)
                try: node = ctext.parse_expr(ctext.tokens(res)); v = e.ev(node)
                except ctext.BadText as b: definite(res, b, [nm]); ex.oblige(pf + "the decoding expression is a C expression over the payload", False, "%s in %r" % (b, res)); break
                if node.k in ("cond", "assign", "comma") or node.k == "bin" and node.v in ("||", "&&", ","): raise Unsupported("the decoding expression binds weaker than |")
                for u in e.ub: bvcheck(ex, pf + "no undefined shift in the decoding expression", u)
                bits = [z3.Extract(k, k, e.d.setdefault(b, z3.BitVec("d%d" % b, 8))) for b, k in reversed(lay)]
                want = z3.ZeroExt(64 - L, z3.Concat(*bits)) if L > 1 and L < 64 else z3.Concat(*bits) if L == 64 else z3.ZeroExt(63, bits[0])
                got = ctext.conv(v, 64, False)
                bvcheck(ex, "decoded value is exactly the signal's bits", got.bv != want, "%s" % (res,)) if not signed else None
                # encoding
                v2 = ex.load(tb); touched = {}
                if not isinstance(v2, SVec): raise Unsupported("to_bytes")
                okl = True
                for ent in v2.log:
                    if ent[0] != "set": raise Unsupported("to_bytes log")
                    k = cint(simp(zint(ent[1]) - q))
                    if k is None: raise Unsupported("to_bytes index")
                    touched[k] = ent[2]
                exp_bytes = {b for b, k in lay}
                for b in sorted(exp_bytes | set(touched)):
                    o = old(simp(q + b)); new = touched.get(b, o); ne = ex.nonempty(o)
                    sb = {k: i for i, (bb, k) in enumerate(lay) if bb == b}
                    exp = z3.Concat(*[z3.Extract(sb[k], sb[k], e.s) if k in sb else bvc(0, 1) for k in range(7, -1, -1)])
                    for had in (False, True):
                        nm2 = pf + "byte %d of the encoding (%s) " % (b, "after other signals" if had else "first signal")
                        mark = len(ex.state.pc); ex.state.pc.append(zbool(ne if had else Not(ne)))
                        try: byte_ok(ex, nm2, q, nm, W, signed, e.s, ex.resolve(new), o, had, exp)
                        finally: del ex.state.pc[mark:]
    if not cover: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex, {"hint": {"order": 0 if mot else 1, "len": L, "start_mod8": r}})

def units():
    from ..prove import Unit
    return [Unit("CSigPrinter::PrintSignalExpr", ["C01", "C02", "C03", "C04", "C15"], [(case, (o, L, r)) for o in "IM" for L in range(1, 65) for r in range(8)],
        "to_signals expression = exactly the signal's bits, to_bytes chunks = exactly the signal's bits at their place, error text iff the signal does not fit; all orders, lengths 1..64, start bits, DLC 0..64")]
