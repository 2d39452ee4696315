"""The scanner's entry: line endings (str_trim), the version line, the two passes over the text."""
from .base import *
from .. import lib
from ..lib import Fun
from .p11 import scanner, Lines
from ..gentext import expand
from .p12 import num, text, live, U
MID = TEXT & ~cls("\n")

def trim(prog, kind):
    run = Run(prog); ex = run.ex; ex.prefix = "str_trim (%s) " % kind; f = run.fn("str_trim", 1); ex.preload([f.tu]); ns = [0]
    h = Hole("line", (), ALL & ~1, 1, maxlen=TEXTMAX); s = (h,) if kind != "empty" else EMPTY; L = ex.rlen(s)
    def one(): return expand(ex, ex.as_rope(ex.call_def(f, [ex.new(s, "s")], None)))
    n = 0
    for r in live(ex, ex.explore(one)):
        n += 1; r = ex.resolve(r)
        if kind == "empty": ex.oblige("an empty line holds no text", ex.rlen(r) == 0 or lit_of(r) == "\n", repr(r)); continue
        # the text up to a position m
        if r == () or not r: m = 0
        elif len(r) == 1 and isinstance(r[0], Hole) and r[0].name.startswith("part:x") and len(r[0].args) == 2 and cint(r[0].args[0]) == 0 and seg_is_part(ex, r[0], s): m = r[0].args[1]
        elif rkey(r) == rkey(s): m = L
        else: raise Unsupported("trimmed text %r" % (r,))
        c = lambda i: ex.char_at(s, i); j = z3.Int("j!q"); ex.vb["j!q"] = (0, TEXTMAX); uc = lambda v: simp(z3.If(zint(v) < 0, zint(v) + 256, zint(v)))
        ex.oblige("inside of the line", And(simp(zint(m) >= 0), simp(zint(m) <= zint(L))))
        with ex.under(simp(zint(m) > 0)) as ok:
            if ok: ex.oblige("what stays ends with a visible character", simp(uc(c(simp(zint(m) - 1))) > 32), repr(m))
        with ex.under(z3.And(j >= zint(m), j < zint(L))) as ok:
            if ok: ex.oblige("what is dropped is invisible", simp(uc(c(j)) <= 32), repr(m))
    if not n: raise Unsupported("no path")
    return summary(ex)
def seg_is_part(ex, h, s): return h.name == "part:x%d" % lib.cplx_id(rkey(s))

def version(prog, kind):
    run = Run(prog); ex = run.ex; ex.prefix = "FindVersion (%s) " % kind; f = run.fn("DbcScanner::FindVersion", 1); ex.preload([f.tu])
    hi, lo = num(ex, "hi", 0, (1 << 32) - 1), num(ex, "lo", 0, (1 << 32) - 1); sc = scanner(ex); this = ex.new(sc, "scanner"); v0 = sc.get("dblist").get("ver"); h0, l0 = v0.get("hi"), v0.get("low")
    N = (U(hi),); M = (U(lo),); sep = (Hole("sep", (), ALL & ~DIG & ~1, 1, maxlen=100),); word = (Hole("word", (), ALPHA, 1, maxlen=100),)
    line = {"version": rope('VERSION "', N, ".", M, '"'), "lower": rope('version "', N, ".", M, '"'), "mixed": rope('Version "', N, ".", M, '"'), "any separator": rope('VERSION "', N, sep, M, '"'), "no quotes": rope("VERSION ", N, ".", M), "no space": rope('VERSION"', N, ".", M, '"'),
        "other word": rope(word, ' "', N, ".", M, '"'), "empty": rope('VERSION ""'), "text": rope('VERSION "', (Hole("t", (), ALL & ~DIG & ~1 & ~cls('"'), 0, maxlen=100),), '"'), "message": rope("BO_ ", N, " ", (name_hole("m"),), ": ", M, " ", (name_hole("n"),)),
        "one number": rope('VERSION "', N, '"'), "behind": rope('VERSION "', N, ".", M, '" x'), "no text": EMPTY}[kind]
    takes = {"version": True, "lower": True, "mixed": True, "any separator": True, "no quotes": True, "no space": True}.get(kind, False)
    if kind == "other word": takes = ex.rope_eq((Fun("lower", word, WORD),), (Lit("version"),))
    n = 0
    def one():
        if kind == "other word": ex.decide(takes)
        ex.call_def(f, [ex.new(line, "line")], this)
    for r in live(ex, ex.explore(one)):
        n += 1; v = ex.load(this).get("dblist").get("ver"); a, b = v.get("hi"), v.get("low")
        t = takes if isinstance(takes, bool) else True if ex.proves(takes) else False
        ex.oblige("major version" if t else "major version stays", Eq(a, hi if t else h0), repr(a)); ex.oblige("minor version" if t else "minor version stays", Eq(b, lo if t else l0), repr(b))
    if not n: raise Unsupported("no path")
    return summary(ex)
def passes(prog):
    run = Run(prog); ex = run.ex; ex.prefix = "TrimDbcText "; f = run.fn("DbcScanner::TrimDbcText", 1); ex.preload([f.tu]); sc = scanner(ex); this = ex.new(sc, "scanner"); st = ex.new(Opaque("istream", z3.Bool("good")), "stream"); log = ex.new(Vec((), "ghost"), "log")
    def L(what, **d): ex.store(log, ex.vpush(ex.load(log), Struct("event", dict(d, what=what))))
    ex.istream_clear = lambda o, v, a: L("clear")
    def seekg(o, v, a):
        p = ex.to_int(ex.val(a[0]))
        if len(a) == 2 and cint(ex.to_int(ex.val(a[1]))) != 0: raise Unsupported("seekg")
        L("seek", to=p); return o
    ex.istream_seekg = seekg
    def part(name):
        def c(ex, f_, args, th):
            d = ex.load(this).get("dblist"); s = args[0]
            if not isinstance(s, LV) or s.key() != st.key(): raise Unsupported("stream given to " + name)
            m = d.get("msgs"); L(name, n=ex.vsize(m), mx=d.get("maxDlcValue"), hi=d.get("ver").get("hi"), low=d.get("ver").get("low")); 
            if name == "messages": ex.store(this.f("dblist"), arb(ex, "DbcMessageList_t", "read"))
        return c
    for nm, k in (("ParseMessageInfo", "messages"), ("ParseOtherInfo", "others")): ex.contracts[run_fn(ex, "DbcScanner::" + nm, 1).qname] = part(k)
    n = 0
    for r in live(ex, ex.explore(lambda: ex.call_def(f, [st], this))):
        n += 1; ev = [e.get("what") for e in ex.load(log).el]
        ex.oblige("messages first, then the other information, each once", [e for e in ev if e in ("messages", "others")] == ["messages", "others"], repr(ev))
        prev = None
        for i, e in enumerate(ex.load(log).el):
            w = e.get("what")
            if w == "others":
                back = [x for x in ex.load(log).el[:i]]; q = [j for j, x in enumerate(back) if x.get("what") in ("messages", "others")]; back = back[(q[-1] + 1) if q else 0:]
                sk = [x for x in back if x.get("what") == "seek"]
                ex.oblige("from the beginning of the text (%s)" % w, bool(sk) and sk[-1].get("to") == 0, repr(ev))
                if sk: ex.oblige("errors of the stream are cleared before (%s)" % w, any(x.get("what") == "clear" for x in back[:back.index(sk[-1])]), repr(ev))
            if w == "messages":
                for k, v in (("n", 0), ("mx", 0), ("hi", 0), ("low", 0)): ex.oblige("nothing of an earlier text stays: %s" % {"n": "messages", "mx": "largest DLC", "hi": "version", "low": "version"}[k], Eq(e.get(k), v), repr(e.get(k)))
    if not n: raise Unsupported("no path")
    return summary(ex)
def units():
    from ..prove import Unit
    return [Unit("str_trim", ["C10", "C11", "C12"], [(trim, ("text",)), (trim, ("empty",))], "for every line: what stays ends with a visible character, only invisible ones are dropped behind it"),
            Unit("DbcScanner::FindVersion", ["C21"], [(version, (k,)) for k in ("version", "lower", "mixed", "any separator", "no quotes", "no space", "other word", "empty", "text", "message", "one number", "behind", "no text")], "for every pair of numbers up to 2^32-1: the version is the one of the VERSION line; other lines leave it", assumed=["std::regex_match as modelled in rx.py", "std::stoul yields the number"]),
            Unit("DbcScanner::TrimDbcText", ["C10", "C11", "C12", "C21"], [(passes, ())], "both passes read the whole text from its beginning, messages first; nothing of an earlier text stays", assumed=["istream::seekg(0) after clear() returns to the beginning"])]
