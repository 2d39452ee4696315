"""make_c_name: the name derived from a free text."""
from .base import *
from ..loops import names_of

ALPHAR = [(65, 90), (97, 122), (95, 95)]
def is_in(c, rs): return z3.Or([z3.And(c >= a, c <= b) for a, b in rs])
CASES = [("letter or underscore", lambda c, ne: is_in(c, ALPHAR), "c"), ("digit after the first kept character", lambda c, ne: z3.And(is_in(c, [(48, 57)]), ne), "c"),
         ("digit before any kept character", lambda c, ne: z3.And(is_in(c, [(48, 57)]), z3.Not(ne)), ""), ("space", lambda c, ne: c == 32, "_"),
         ("other character", lambda c, ne: z3.Not(z3.Or(is_in(c, ALPHAR + [(48, 57)]), c == 32)), "")]
def piece_is(ex, name, delta, c, ne):
    """the text added for character c is the one the definition demands"""
    for what, cond, want in CASES:
        mark = len(ex.state.pc); ex.state.pc.append(zbool(simp(cond(zint(c), zbool(ne)))))
        try:
            if ex.check() != "unsat":
                w = (Ch(c),) if want == "c" else rope(want)
                ex.oblige("%s: %s" % (name, what), ex.rope_eq(ex.resolve(delta), rope(*w)), "adds %r, want %r" % (delta, w))
        finally: del ex.state.pc[mark:]
def case(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "make_c_name "
    f = run.fn("make_c_name", 1); ex.preload([f.tu])
    s = (Hole("text", (), ALL & ~1, 0, maxlen=KMAX),)
    outs = ex.explore(lambda: split_rope(ex, ex.as_rope(ex.call_def(f, [ex.new(s, "s")]))))
    L = zint(ex.rlen(s)); seen = [0, 0]; chars = lambda i: ex.sym_char("chr:text", (i,), ALL & ~1)
    for st, r in outs:
        ex.state = st
        if ex.check() == "unsat": continue
        if ex.proves(L == 0): seen[0] = 1; ex.oblige("empty text gives the empty name", len(r) == 0, repr(r)); continue
        if len(r) == 1 and isinstance(r[0], Hole) and r[0].name in ex.folds:
            fo = ex.folds[r[0].name]; N = zint(r[0].args[0]); d = cint(simp(L - N)); mark = r[0].name
            if d is None or not 0 <= d <= 8: raise Unsupported("the loop does not run to the end of the text")
            if not ex.proves(zint(r[0].args[0]) == zint(fo["N"])): raise Unsupported("loop left early")
            # base: the characters handled before the induction starts
            if d > 1: raise Unsupported("more than one iteration before the induction")
            if d == 0: ex.oblige("before the first character nothing is kept", len(ex.resolve(fo["base"])) == 0)
            else: piece_is(ex, "first character", fo["base"], chars(0), False)
            # step: k characters done and the name so far is right; one more iteration
            k = fo["k"]; seen[1] = 1; keep = ex.state
            for pc, v in fo["steps"]:
                ex.state = State(dict(st.store), list(pc)); v = ex.resolve(v)
                if ex.check() == "unsat": continue
                if not v or not isinstance(v[0], Hole) or v[0].name != mark: ex.oblige("the name so far is kept", False, repr(v)); continue
                ne = zint(ex.seglen(v[0])) > 0
                piece_is(ex, "further character", v[1:], chars(simp(k + d)), ne)
            ex.state = keep
        elif len(ex.folds) == 0 or ex.proves(L == 1):
            if ex.proves(L == 1): piece_is(ex, "single character", r, chars(0), False)
            else: raise Unsupported("result %r" % (r,))
        else: raise Unsupported("result %r" % (r,))
    if not all(seen): ex.obls.append(Obligation(ex.prefix + "all lengths reached", "unknown", ""))
    return summary(ex)

def units():
    from ..prove import Unit
    return [Unit("make_c_name", ["C16"], [(case, ())], "for every text: the name is the text's letters, digits (after the first kept character) and underscores in order, spaces as underscores, nothing else (induction over the text)")]
