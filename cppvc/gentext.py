"""Structure of emitted C text: lines, conditional directives, statements."""
import re
import z3
from .terms import *
from .ctext import *

def expand(ex, r):
    """the rope with its alternatives decided (the path is split where both are possible)"""
    out = []
    for s in r:
        if isinstance(s, Cho):
            ex.len_facts(s.cond); out.append(expand(ex, s.a if ex.decide(s.cond) else s.b))
        else: out.append((s,))
    return rope(*out)

class Line:
    __slots__ = ("r",)
    def __init__(l, r): l.r = r
    def __repr__(l): return "Line%r" % (list(l.r),)
class Loop:
    __slots__ = ("e",)
    def __init__(l, e): l.e = e
    def __repr__(l): return "Loop(%r)" % (l.e,)
def split_lines(r):
    """lines of a rope; an Each has to stand between two lines"""
    out = []; cur = []
    for s in r:
        if isinstance(s, Lit):
            parts = s.s.split("\n")
            for i, p in enumerate(parts):
                if i > 0: out.append(Line(rope(*[(x,) for x in cur]))); cur = []
                if p: cur.append(Lit(p))
        elif isinstance(s, Each):
            if cur: raise Unsupported("repetition inside a line")
            out.append(Loop(s))
        else: cur.append(s)
    if cur: out.append(Line(rope(*[(x,) for x in cur])))
    return out
def first_text(l):
    return l.r[0].s.lstrip() if l.r and isinstance(l.r[0], Lit) else ""
class If:
    """conditional section: macro key, texts when defined / not defined"""
    __slots__ = ("kind", "cond", "a", "b")
    def __init__(i, kind, cond, a, b): i.kind = kind; i.cond = cond; i.a = a; i.b = b
    def __repr__(i): return "If(%s %r: %r | %r)" % (i.kind, i.cond, i.a, i.b)
class Directive:
    __slots__ = ("name", "rest")
    def __init__(d, name, rest): d.name = name; d.rest = rest
    def __repr__(d): return "#%s%r" % (d.name, list(d.rest))
def strip_rope(r):
    r = list(r)
    while r and isinstance(r[0], Lit):
        t = r[0].s.lstrip(" \t")
        if t: r[0] = Lit(t); break
        r.pop(0)
    while r and isinstance(r[-1], Lit):
        t = r[-1].s.rstrip(" \t")
        if t: r[-1] = Lit(t); break
        r.pop()
    return rope(*[(x,) for x in r])
def no_comment(r):
    """a line without its // comment (texts behind // that could hold a line break are refused)"""
    out = []
    q = None
    for k, s in enumerate(r):
        if isinstance(s, Lit):
            t = s.s; i = 0
            while i < len(t):
                c = t[i]
                if q:
                    if c == "\\": i += 1
                    elif c == q: q = None
                elif c in "\"'": q = c
                elif c == "/" and t.startswith("//", i):
                    out.append(Lit(t[:i]))
                    for x in r[k+1:]:
                        if seg_cls(x) & cls("\n\\") and not isinstance(x, Lit): raise Unsupported("unknown text in a comment")
                    rest = t[i:] + "".join(x.s if isinstance(x, Lit) else "x" for x in r[k+1:])
                    if rest.rstrip().endswith("\\"): raise BadText("the comment continues in the next line")
                    return rope(*[(x,) for x in out])
                elif c == "/" and t.startswith("/*", i): raise Unsupported("block comment")
                i += 1
        out.append(s)
    return rope(*[(x,) for x in out])
def tree(lines):
    """nested conditional sections of the lines"""
    pos = 0
    def block(stop):
        nonlocal pos
        out = []
        while pos < len(lines):
            l = lines[pos]
            if isinstance(l, Line):
                t = first_text(l)
                if t.startswith("#"):
                    m = re.match(r"#\s*(\w+)", t)
                    if not m: raise BadText("directive %r" % (l,))
                    d = m.group(1)
                    rest = strip_rope(no_comment(rope(t[m.end():], l.r[1:])))
                    if d in ("else", "endif", "elif") and d in stop: return out, d, rest
                    if d in ("else", "endif", "elif"): raise BadText("#%s without #if" % d)
                    pos += 1
                    if d in ("ifdef", "ifndef", "if"):
                        a, e, _ = block(("else", "endif")); b = []
                        if e is None: raise BadText("#%s without #endif" % d)
                        pos += 1
                        if e == "else":
                            b, e, _ = block(("endif",))
                            if e is None: raise BadText("#else without #endif")
                            pos += 1
                        out.append(If(d, rest, a, b))
                    else: out.append(Directive(d, rest))
                    continue
            out.append(l); pos += 1
        return out, None, None
    r, e, _ = block(())
    return r
def doc(r): return tree(split_lines(r))
def conds(t, out=None):
    out = [] if out is None else out
    for x in t:
        if isinstance(x, If):
            if x.kind != "if" and rkey(x.cond) not in [rkey(c) for c in out]: out.append(x.cond)
            conds(x.a, out); conds(x.b, out)
    return out
def select(t, defined):
    """what remains when exactly the macros for which defined(cond) holds are defined"""
    out = []
    for x in t:
        if isinstance(x, If):
            if x.kind == "if": raise Unsupported("#if")
            d = defined(x.cond)
            if x.kind == "ifndef": d = not d
            out += select(x.a if d else x.b, defined)
        else: out.append(x)
    return out
def code_tokens(items):
    """tokens of the remaining lines; a Loop stays as one token"""
    out = []
    for x in items:
        if isinstance(x, Line): out += tokens(no_comment(x.r))
        elif isinstance(x, Loop): out.append(Tok("loop", x.e))
        else: raise Unsupported("directive %r in code" % (x,))
    return out
def hole_chain(toks, keys):
    """an unknown expression text stands for an | chain of two operands (the weakest binding it can have)"""
    out = []
    for t in toks:
        k = None
        if t.k == "text" and t.v.key() in keys: k = t.v.key()
        if t.k == "id" and len(t.v) == 1 and not isinstance(t.v[0], str) and t.v[0].key() in keys: k = t.v[0].key()
        if k is not None: out += [Tok("id", ("%chain1", keys[k])), Tok("op", "|"), Tok("id", ("%chain2", keys[k]))]
        else: out.append(t)
    return out

# ---------------------------------------------------------------- statements
class Stmts(Parser):
    """statements: ('expr', node) ('ret', node) ('loop', each) ('for', init, cond, inc, body) ('decl', type, name, node) ('block', list) ('if', cond, then, else)"""
    def stmts(p, end="}"):
        out = []
        while p.peek().k != "end" and not p.isop(end): out.append(p.stmt())
        return out
    def kw(p, w, k=0): return p.idname(p.peek(k)) == w
    def stmt(p):
        t = p.peek()
        if t.k == "loop": p.i += 1; return ("loop", t.v)
        if p.isop("{"):
            p.i += 1; b = p.stmts(); p.expect("}"); return ("block", b)
        if p.isop(";"): p.i += 1; return ("nop",)
        if p.kw("return"):
            p.i += 1
            if p.isop(";"): p.i += 1; return ("ret", None)
            e = p.comma(); p.expect(";"); return ("ret", e)
        if p.kw("if"):
            p.i += 1; p.expect("("); c = p.comma(); p.expect(")"); a = p.stmt(); b = None
            if p.kw("else"): p.i += 1; b = p.stmt()
            return ("if", c, a, b)
        if p.kw("for"):
            p.i += 1; p.expect("(")
            i = None if p.isop(";") else p.simple(); p.expect(";")
            c = None if p.isop(";") else p.comma(); p.expect(";")
            n = None if p.isop(")") else p.comma(); p.expect(")")
            return ("for", i, c, n, p.stmt())
        s = p.simple(); p.expect(";"); return s
    def simple(p):
        if p.typename(0) and p.peek(1).k == "id":
            ty = p.typename(0); p.i += 1; nm = p.next().v; e = None
            if p.isop("="): p.i += 1; e = p.assign()
            return ("decl", ty, nm, e)
        if p.isop("(") and p.kw("void", 1) and p.isop(")", 2):
            p.i += 3; return ("void", p.unary())
        return ("expr", p.comma())
    def comma(p):
        e = p.assign()
        return e
def parse_stmts(toks):
    p = Stmts(toks); s = p.stmts("<end>")
    if p.i != len(p.t): raise BadText("text after the statements: %r" % (p.t[p.i:p.i+8],))
    return s

# ---------------------------------------------------------------- comments
BS = 1 << 92; NLC = 1 << 10
class Strip:
    """takes the // comments out of a text with unknown parts; problems: places where a comment does not end with its line, or where
    an unknown part of a comment can hold a line break"""
    def __init__(s): s.problems = []; s.inside = []; s.fuzzy = False
    # state: None (code) or "q" + quote (code, in a literal) or (False/True,) comment that may end in a backslash
    def run(s, r, st=None):
        out = []
        for g in r:
            if isinstance(g, Lit):
                t = g.s; i = 0; keep = ""
                while i < len(t):
                    c = t[i]
                    if st == "b":
                        if t.startswith("*/", i): st = None; i += 1; keep += " "
                        elif c == "\n": keep += "\n"
                    elif isinstance(st, tuple):
                        if c == "\n":
                            if st[0]: s.problems.append("a comment line can end with a backslash")
                            keep += "\n"; st = None
                        elif c == "\\": st = (True,)
                        elif c not in " \t\r\v\f": st = (False,)
                    elif st:
                        keep += c
                        if c == "\\" and i + 1 < len(t): keep += t[i+1]; i += 1
                        elif c == st[1]: st = None
                        elif c == "\n": st = None
                    elif t.startswith("//", i): st = (False,); i += 1
                    elif t.startswith("/*", i): st = "b"; i += 1
                    else:
                        if c in "\"'": st = "q" + c
                        keep += c
                    i += 1
                if keep: out.append((Lit(keep),))
            elif isinstance(g, Cho):
                (a, sa), (b, sb) = s.run(g.a, st), s.run(g.b, st)
                if isinstance(sa, tuple) and isinstance(sb, tuple): st = (sa[0] or sb[0],)
                elif sa == sb: st = sa
                else: raise Unsupported("comment in one alternative")
                bol = not out or not rope(*out) or isinstance(rope(*out)[-1], Lit) and rope(*out)[-1].s.endswith("\n")
                if bol and all(all(isinstance(x, Lit) and not x.s.strip() for x in y) and (not y or y[-1].s.endswith("\n")) for y in (a, b)): out.append((Lit("\n"),))
                else: out.append(a if rkey(a) == rkey(b) else (Cho(g.cond, a, b),))
            elif isinstance(g, Each):
                s0 = st; n = len(s.problems); k = len(s.inside)
                for _ in range(3):
                    del s.problems[n:]; del s.inside[k:]
                    a, s1 = s.run(g.body, s0)
                    if s1 == s0: break
                    if isinstance(s0, tuple) and isinstance(s1, tuple): s0 = (s0[0] or s1[0],)
                    else: raise Unsupported("comment across a repetition")
                else: raise Unsupported("comment across a repetition")
                st = s1
                if all(isinstance(x, Lit) and not x.s.strip() for x in a): out.append((Lit("\n"),) if any("\n" in x.s for x in a) else EMPTY)
                else: out.append((Each(g.var, g.lo, g.hi, a),))
            elif isinstance(st, tuple):
                c = seg_cls(g); last = g.last if isinstance(g, Hole) else c; s.inside.append(g)
                raw = isinstance(g, Hole) and not g.name.startswith("part:")
                if c & NLC:
                    if not raw: raise Unsupported("text in a comment: %r" % (g,))
                    s.problems.append("%r is written into a comment and can hold a line break" % (g,))
                if last & BS or last & SPACE and c & BS:
                    if not raw: raise Unsupported("text in a comment: %r" % (g,))
                    st = (True,)
                elif not last & SPACE and rope_minlen((g,)) > 0: st = (False,)
            elif st == "b":
                s.inside.append(g)
                if seg_cls(g) & cls("*/\n"): raise Unsupported("text in a comment: %r" % (g,))
            elif st is None and not seg_cls(g) & ~cls(" \t"): out.append((Lit(" "),))
            else: out.append((g,))
        return rope(*out), st
