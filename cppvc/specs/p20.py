"""Decimal literals (prt_double), main."""
from .base import *
def literal(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "prt_double "; f = run.fn("prt_double", 3); ex.preload([f.tu]); n = 0
    neg = z3.Bool("negative"); INT = Hole("int", (), DIG, 1, maxlen=310); info = {}
    def imbue(o, v, a):
        l = ex.anyv(a[0]); l = ex.load(l) if isinstance(l, LV) else l
        info[o.key()] = isinstance(l, Opaque) and l.what == "locale" and l.data == "classic"; return Opaque("locale")
    def out(lv, y):
        if not isinstance(y, Opaque) or y.data != ("value",): raise Unsupported("printing %r" % (y,))
        fm = ex.streamfmt.get(lv.key(), []); pr = [x for x in fm if x != "fixed"]
        if "fixed" not in fm or any(cint(x) is None for x in pr): raise Unsupported("format of a double")
        P = cint(pr[-1]) if pr else 6
        if not 1 <= P <= 20: raise Unsupported("precision of %d" % P)
        info["P"] = P; d = []
        for j in range(P): v = z3.Int("d%d" % j); ex.vb["d%d" % j] = (48, 57); ex.fact(z3.And(v >= 48, v <= 57)); d.append(Ch(v))
        if info.get(lv.key()): sep = rope(".")
        else: sep = rope("," if ex.decide(z3.Bool("locale with a comma")) else ".")
        return rope(rope("-") if ex.decide(neg) else EMPTY, (INT,), sep, *[(x,) for x in d])
    ex.v_classic = lambda *a: Opaque("locale", "classic"); ex.ss_imbue = imbue; ex.out_double = out
    ex.assumed.add("a stream with fixed, precision P and the classic locale prints a finite double as [-]digits.P digits, correct to half a unit of the last digit")
    for st, r in ex.explore(lambda: split_rope(ex, ex.as_rope(ex.call_def(f, [Opaque("double", ("value",)), 9, True], None)))):
        ex.state = st
        if ex.check() == "unsat": continue
        n += 1; r = list(r); ng = ex.proves(neg); P = info["P"]
        if r and isinstance(r[0], Lit) and r[0].s[:1] == "-":
            ex.oblige("a minus sign for negative values only", ng); t = r[0].s[1:]; r = ([Lit(t)] if t else []) + r[1:]
        else: ex.oblige("negative values have a minus sign", simp(z3.Not(neg)))
        if not r or not isinstance(r[0], Hole) or r[0].key() != INT.key(): raise Unsupported("literal %r" % (r,))
        chars = []
        for s in r[1:]:
            if isinstance(s, Lit): chars += [ord(c) for c in s.s]
            elif isinstance(s, Ch): chars.append(s.val)
            else: raise Unsupported("literal %r" % (r,))
        ex.oblige("a decimal point behind the whole part", bool(chars) and simp(zint(chars[0]) == 46), repr(chars))
        if not chars: continue
        dec = chars[1:]; m = len(dec); d = [z3.Int("d%d" % j) for j in range(P)]
        ex.oblige("there is a decimal part", m >= 1, repr(dec))
        if not m: continue
        ex.oblige("decimals are digits", simp(z3.And(*[z3.And(zint(c) >= 48, zint(c) <= 57) for c in dec])), repr(dec))
        if m > 1: ex.oblige("no superfluous trailing zero", simp(zint(dec[-1]) != 48), repr(dec))
        k = max(P, m); V = z3.Sum(*[(d[j] - 48) * 10 ** (k - 1 - j) for j in range(P)], z3.IntVal(0)); W = z3.Sum(*[(zint(dec[j]) - 48) * 10 ** (k - 1 - j) for j in range(m)], z3.IntVal(0)); D = V - W
        # |printed value - text of the stream| + half a unit of the stream's last digit < 1e-9
        q = max(k, 9); half = 10 ** (q - P); lim = 2 * 10 ** (q - 9)
        for s in (D, -D): ex.oblige("correct to 1e-9", simp(2 * s * 10 ** (q - k) + half < lim), "%r" % (dec,))
    if not n: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
OPTS = ("is_help", "is_rewrite", "is_nodeutils", "is_nocanmon", "is_noconfig", "is_nofmon", "is_driver_dir", "add_gen_date")
def main_(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "main "; f = run.fn("main", 2); ex.preload([f.tu, run.fn("OptionsParser::GetOptions", 2).tu, run.fn("CoderApp::Run", 0).tu]); n = 0
    argc = z3.Int("argc"); ex.vb["argc"] = (0, 2**31 - 1); ex.fact(z3.And(argc >= 0, argc <= 2**31 - 1)); argv = Opaque("argv")
    opt = arb(ex, "OptionsParser::GenOptions", "opt"); calls = ex.new(0, "calls")
    def options(ex, f, args, this):
        a = [ex.load(x) if isinstance(x, LV) else x for x in args]
        ex.oblige("the options are read from the command line", len(a) == 2 and simp(Eq(zint(a[0]), argc)) and a[1] is argv, repr(a)); return opt
    def app(ex, f, args, this):
        o = this.get("Params") if hasattr(this, "get") else ex.load(this).get("Params")
        for k in ("dbc", "outdir", "drvname"):
            for q in ("first", "second"):
                x, y = o.get(k).get(q), opt.get(k).get(q)
                ex.oblige("the application has the options of the command line (%s.%s)" % (k, q), ex.rope_eq(ex.as_rope(x), ex.as_rope(y)) if q == "first" else simp(zbool(x) == zbool(y)), repr(x))
        for k in OPTS:
            x, y = o.get(k), opt.get(k)
            ex.oblige("the application has the options of the command line (%s)" % k, simp(zbool(x) == zbool(y)), repr(x))
        ex.store(calls, ex.load(calls) + 1)
    ex.contracts["OptionsParser::GetOptions"] = options; ex.contracts["CoderApp::Run"] = app
    for st, r in ex.explore(lambda: ex.call_def(f, [argc, argv], None)):
        ex.state = st
        if ex.check() == "unsat": continue
        k = zint(ex.load(calls)); ok = z3.And(*[zbool(opt.get(x).get("second")) for x in ("dbc", "outdir", "drvname")], z3.Not(zbool(opt.get("is_help"))), argc >= 7); n += 1
        with ex.under(ok):
            if ex.check() != "unsat": ex.oblige("the application runs when the options ask for it", simp(k == 1), repr(k))
        ex.oblige("the application runs at most once", simp(k <= 1), repr(k))
    if not n: ex.obls.append(Obligation(ex.prefix + "precondition reachable", "unknown", ""))
    return summary(ex)
def units():
    from ..prove import Unit
    return [Unit("main", ["C18"], [(main_, ())], "the application runs once, with the options of the command line",
                 assumed=["GetOptions and CoderApp::Run behave as their contracts (own units)"]),
            Unit("prt_double", ["C17"], [(literal, ())], "every finite value: positional, dot, within 1e-9, a decimal part without superfluous zeros")]
