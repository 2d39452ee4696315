"""Model of std::regex (ECMAScript, C locale) on structured texts: texts made of literals and unknown parts whose character classes
decide where the patterns match.  Where an unknown part could match in part, the model gives up (Unsupported)."""
import re, itertools, z3
try: import re._parser as sp, re._constants as sc
except ImportError: import sre_parse as sp, sre_constants as sc
from .terms import *

_masks = {}
def mask(src):
    """class of the single characters a pattern matches"""
    if src not in _masks:
        r = re.compile(src, re.A); _masks[src] = sum(1 << c for c in range(256) if r.fullmatch(chr(c)))
    return _masks[src]
def unwrap(t):
    t = list(t)
    while len(t) == 1 and t[0][0] is sc.SUBPATTERN: t = list(t[0][1][3])
    return t
def single(item):
    """class mask of an item that matches exactly one character"""
    op, av = item
    if op is sc.LITERAL: return 1 << av if av < 256 else None
    if op is sc.NOT_LITERAL: return ALL & ~(1 << av)
    if op is sc.ANY: return ALL & ~(1 << 10) & ~(1 << 13)
    if op is sc.IN:
        m, neg = 0, False
        for o, a in av:
            if o is sc.NEGATE: neg = True
            elif o is sc.LITERAL: m |= 1 << a
            elif o is sc.RANGE: m |= sum(1 << c for c in range(a[0], a[1] + 1))
            elif o is sc.CATEGORY: m |= category(a)
            else: return None
        return ALL & ~m if neg else m
    if op is sc.CATEGORY: return category(av)
    return None
def category(a):
    s = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S", sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}.get(a)
    if s is None: raise Unsupported("class of a regular expression")
    return mask(s)
def repeat(item):
    """(class, min, max) of a repeated class"""
    op, av = item
    if op is sc.MAX_REPEAT:
        lo, hi, sub = av; sub = unwrap(sub)
        m = single(sub[0]) if len(sub) == 1 else None
        return None if m is None else (m, lo, hi if hi != sc.MAXREPEAT else None)
    m = single(item); return None if m is None else (m, 1, 1)
def parse(src):
    try: t = sp.parse(src, re.A)
    except re.error: raise Unsupported("regular expression %r" % (src,))
    t = unwrap(t)
    if len(t) == 1:
        r = repeat(t[0])
        if r is not None and r[1] == 1 and r[2] in (1, None): return ("class", r[0], r[2] is None)
        if t[0][0] is sc.BRANCH:
            alts = [unwrap(x) for x in t[0][1][1]]
            if len(alts) == 2 and len(alts[0]) == 1 and len(alts[1]) == 3:
                a = repeat(alts[0][0]); q, b, q2 = alts[1][0], unwrap([alts[1][1]]), alts[1][2]; qa, qb = single(q), single(q2); bb = repeat(b[0]) if len(b) == 1 else None
                if a and a[1:] == (1, None) and qa and qa == qb and bin(qa).count("1") == 1 and not a[0] & qa and bb and bb[1:] == (0, None) and not bb[0] & qa and bb[0] | qa == ALL: return ("words", a[0], qa)
    items = []
    def go(t, group):
        for it in t:
            if it[0] is sc.SUBPATTERN:
                if group: raise Unsupported("nested groups")
                go(it[1][3], it[1][0]); continue
            r = repeat(it)
            if r is None: raise Unsupported("regular expression %r" % (src,))
            items.append(r + (group,))
    go(sp.parse(src, re.A), None)
    return ("seq", items)

def chars(r):
    """the text as a list of characters (Lit of length 1) and unknown parts"""
    out = []
    for g in r:
        if isinstance(g, Lit): out += [Lit(c) for c in g.s]
        else: out.append(g)
    return out
def minlen(g): return 1 if isinstance(g, (Lit, Fmt, Ch)) else g.minlen if isinstance(g, (Hole, Fun)) else 0
def flat(ex, r):
    out = []
    for g in r:
        if isinstance(g, Cho): out += flat(ex, g.a if ex.decide(g.cond) else g.b)
        else: out.append(g)
    return out
def known(ex, r):
    """unknown parts that may be empty: decided"""
    out = []
    for g in chars(flat(ex, ex.resolve(tuple(r)))):
        if isinstance(g, Ch): raise Unsupported("regular expression on an unknown character")
        if isinstance(g, (Hole, Fun)) and not g.minlen and not ex.decide(ex.nonempty((g,))): continue
        out.append(g)
    return out
def inside(g, m, what="regular expression"):
    """1: all characters in the class, 0: none of them"""
    c = seg_cls(g)
    if not c & ~m: return 1
    if not c & m: return 0
    raise Unsupported("%s on %r" % (what, g))

_count = itertools.count()
class Toks:
    """list of tokens, possibly with a part of unknown length"""
    def __init__(s): s.el = []; s.rep = None        # rep: (position, count, function of the index -> list of tokens, tokens per index)
    def add(s, toks): s.el.append(rope(*toks) if toks else EMPTY)
def vec(ex, t, ety="std::vector<std::string>"):
    from .core import Vec, SVec
    if t.rep is None: return Vec(tuple(t.el), ety)
    pos, n, fn, per = t.rep; n = zint(n)
    pre, post = t.el[:pos], t.el[pos:]
    def elem(i):
        i = zint(i); j = simp(i - pos); q = simp(zint(j) / per) if per > 1 else j; md = simp(zint(j) % per) if per > 1 else 0
        x = None; row = fn(q)
        for k in reversed(range(per)): x = row[k] if x is None else ex.merge(Eq(md, k), row[k], x)
        for k in reversed(range(pos)):
            c = Eq(i, k)
            if not isinstance(c, bool): c = True if ex.proves(c) else False if ex.proves(Not(c)) else c
            x = pre[k] if c is True else x if c is False else ex.merge(c, pre[k], x)
        return x
    v = SVec(simp(n * per + pos), elem, (), ety, "tokens!%d" % next(_count))
    for p in post: v = ex.vpush(v, p)
    return v

def tokens(ex, r, src, sub):
    p = parse(src)
    if p[0] == "class" and sub == -1: return split(ex, r, p[1], p[2])
    if p[0] == "words" and sub == 0: return words(ex, r, p[1], p[2])
    raise Unsupported("tokens of %r (%r)" % (src, sub))
def each_body(ex, g):
    """(index -> parts of the body) of a repeated part"""
    body = g.body
    if any(isinstance(x, (Cho, Each)) for x in body): raise Unsupported("repeated part %r" % (g,))
    return lambda i: chars(rsubst(body, [(g.var, zint(i) + zint(g.lo))])), simp(zint(g.hi) - zint(g.lo))
def split(ex, r, m, plus):
    t = Toks(); cur, sep, seen = [], False, False
    for g in known(ex, r):
        if isinstance(g, Each):
            if not seg_cls(g) & m: cur.append(g); sep = False; continue
            fn, n = each_body(ex, g); v = z3.FreshConst(z3.IntSort(), "k"); parts = fn(v)
            if any(not minlen(x) for x in parts): raise Unsupported("split of %r" % (g,))
            side = [inside(x, m) for x in parts]
            # one token and its separators per repetition, behind a separator or at the beginning
            if cur or t.rep or not plus or (t.el and not sep) or 0 not in side or 1 not in side or side != sorted(side): raise Unsupported("split of %r" % (g,))
            if not ex.proves(n >= 0): raise Unsupported("length of a repeated part")
            k = side.index(1); t.rep = (len(t.el), n, lambda i, fn=fn, k=k: [rope(*fn(i)[:k])], 1); sep = True; first = not t.el; seen = seen or not first
            if first:
                # (the text behind begins a token in any case)
                sep = "each"
            continue
        s = inside(g, m)
        if sep == "each" and s: raise Unsupported("separator behind a repeated part")
        if not s: cur.append(g); sep = False; continue
        if not isinstance(g, Lit) and not plus: raise Unsupported("several separators")
        if plus and sep: continue
        t.add(cur); cur = []; sep = seen = True
    if sep == "each": raise Unsupported("text ends with a repeated part")
    if cur or not seen and not t.rep: t.add(cur)
    return vec(ex, t)
def words(ex, r, a, q):
    t = Toks(); cur, quoted = [], None
    parts = known(ex, r)
    def scan(parts, emit):
        nonlocal cur, quoted
        for g in parts:
            if quoted is not None:
                if seg_cls(g) & q:
                    if not isinstance(g, Lit): raise Unsupported("quote inside %r" % (g,))
                    emit(quoted + [g]); quoted = None
                else: quoted.append(g)
                continue
            if isinstance(g, Lit) and seg_cls(g) & q:
                if cur: emit(cur); cur = []
                quoted = [g]; continue
            if seg_cls(g) & q: raise Unsupported("quote inside %r" % (g,))
            if not minlen(g): raise Unsupported("tokens of %r" % (g,))
            if inside(g, a): cur.append(g)
            elif cur: emit(cur); cur = []
    for g in parts:
        if isinstance(g, Each):
            fn, n = each_body(ex, g); v = z3.FreshConst(z3.IntSort(), "k"); ps = fn(v)
            # whole tokens, begun and ended by characters that are in none
            if cur or quoted is not None or t.rep or not ps or not (isinstance(ps[-1], Lit) and seg_cls(ps[-1]) & q) and inside(ps[-1], a): raise Unsupported("tokens of %r" % (g,))
            if not ex.proves(n >= 0): raise Unsupported("length of a repeated part")
            row = []; scan(ps, row.append)
            if cur or quoted is not None: raise Unsupported("tokens of %r" % (g,))
            var = v; rows = [rope(*x) for x in row]
            t.rep = (len(t.el), n, lambda i, rows=rows, var=var: [rsubst(x, [(var, zint(i))]) for x in rows], len(rows)); continue
        scan([g], t.add)
    if quoted is not None: raise Unsupported("quote without end")
    if cur: t.add(cur)
    return vec(ex, t)

class Match:
    def __init__(s, prefix, suffix, groups): s.prefix = prefix; s.suffix = suffix; s.groups = groups
def search(ex, r, src):
    """first occurrence of  spaces* ... : classes around one literal character or word;  None: no occurrence"""
    p = parse(src)
    items = [x[:3] for x in p[1]] if p[0] == "seq" else [(p[1], 1, None if p[2] else 1)]
    ps = known(ex, r); allc = 0
    for g in ps: allc |= seg_cls(g)
    if any(x[1] > 0 and not x[0] & allc for x in items): return None
    fixed = [i for i, x in enumerate(items) if x[1:] == (1, 1)]
    if not fixed: raise Unsupported("search of %r" % (src,))
    k = fixed[0]; m0 = items[k][0]
    if any(items[i][0] & items[i + 1][0] for i in range(len(items) - 1)) and not all(x[1:] == (1, 1) for x in items[k:]): raise Unsupported("search of %r" % (src,))
    if k > 1 or k == 1 and (items[0][1:] != (1, None)): raise Unsupported("search of %r" % (src,))
    for j, g in enumerate(ps):
        if isinstance(g, Each):
            if seg_cls(g) & m0: raise Unsupported("search in %r" % (g,))
            continue
        if not seg_cls(g) & m0: continue
        if k == 1:
            # the part before decides whether this can be a match
            b = ps[j - 1] if j else None
            if b is None or isinstance(b, Each): 
                if b is None and isinstance(g, Lit): continue
                if not isinstance(g, Lit): 
                    if not first_cls(g) & m0 and not seg_cls(g) & items[0][0]: continue
                    raise Unsupported("search in %r" % (g,))
            elif not last_cls(b) & items[0][0]:
                if isinstance(g, Lit) or not seg_cls(g) & items[0][0]: continue
        if not isinstance(g, Lit):
            # only the first character of a part without the leading class could begin a match
            if k == 1 and not seg_cls(g) & items[0][0] and not first_cls(g) & m0: continue
            raise Unsupported("search in %r" % (g,))
        # forward
        e = j; ok = True
        for (m, lo, hi) in items[k:]:
            c = 0
            while e < len(ps) and (hi is None or c < hi):
                x = ps[e]
                if isinstance(x, Each): raise Unsupported("search in %r" % (x,))
                if hi is not None and not isinstance(x, Lit):
                    if not first_cls(x) & m: break
                    raise Unsupported("search in %r" % (x,))
                if not seg_cls(x) & m: break
                if seg_cls(x) & ~m:
                    if not first_cls(x) & m: break
                    raise Unsupported("search in %r" % (x,))
                c += 1; e += 1
            if c < lo: ok = False; break
        if not ok: continue
        b = j
        while k == 1 and b > 0:
            x = ps[b - 1]
            if isinstance(x, Each) or seg_cls(x) & items[0][0] and seg_cls(x) & ~items[0][0]:
                if isinstance(x, Each) and not seg_cls(x) & items[0][0] or not isinstance(x, Each) and not last_cls(x) & items[0][0]: break
                raise Unsupported("search in %r" % (x,))
            if not seg_cls(x) & items[0][0]: break
            b -= 1
        if k == 1 and b == j: raise Unsupported("search in %r" % (ps,))
        return Match(rope(*ps[:b]), rope(*ps[e:]), [rope(*ps[b:e])])
    return None
def first_cls(g): return g.first if isinstance(g, Hole) else seg_cls(g)
def last_cls(g): return g.last if isinstance(g, Hole) else seg_cls(g)
def match(ex, r, src):
    """match of the whole text by a sequence of classes that follow each other without choice"""
    p = parse(src)
    if p[0] != "seq":
        if p[0] != "class": raise Unsupported("match of %r" % (src,))
        items = [(p[1], 1, None if p[2] else 1, None)]
    else: items = p[1]
    # neighbours (over items that may be left out) must be disjoint: the greedy match is the only one
    for i, x in enumerate(items):
        for y in items[i + 1:]:
            if x[0] & y[0] and not (x[1] == x[2]): return _nomatch(ex, r, items)
            if y[1] > 0: break
    ps = known(ex, r); e = 0; groups = {}
    for (m, lo, hi, grp) in items:
        c, got = 0, []
        while e < len(ps) and (hi is None or c < hi):
            x = ps[e]
            if isinstance(x, Each): raise Unsupported("match of %r" % (x,))
            if not seg_cls(x) & m: break
            if seg_cls(x) & ~m:
                if not first_cls(x) & m: break
                raise Unsupported("match of %r" % (x,))
            if hi is not None and not isinstance(x, Lit): raise Unsupported("match of %r" % (x,))
            got.append(x); c += 1; e += 1
        if c < lo: return None
        if grp: groups[grp] = groups.get(grp, []) + got
    if e < len(ps): return None
    return Match(EMPTY, EMPTY, [rope(*ps)] + [rope(*groups.get(g, [])) for g in range(1, max(groups, default=0) + 1)])
def _nomatch(ex, r, items): raise Unsupported("match with choices")

# ---------------------------------------------------------------- regex_replace: one character, with or without a look ahead "then only C up to A or the end"
def ahead(t):
    """(class run over, characters to be found, end of text counts) of a look ahead"""
    t = unwrap(t); C = 0; items = list(t)
    if items and items[0][0] is sc.MAX_REPEAT:
        r = repeat(items[0])
        if r is None or r[1] != 0 or r[2] is not None: raise Unsupported("look ahead")
        C = r[0]; items = items[1:]
    items = unwrap(items); A, end = 0, False
    alts = [unwrap(x) for x in items[0][1][1]] if len(items) == 1 and items[0][0] is sc.BRANCH else [items]
    for a in alts:
        if len(a) != 1: raise Unsupported("look ahead")
        if a[0][0] is sc.AT and a[0][1] is sc.AT_END: end = True; continue
        m = single(a[0])
        if m is None: raise Unsupported("look ahead")
        A |= m
    return C, A, end
def follows(g, C, A, end):
    """does the text g (list of parts) satisfy the look ahead?  True, False; Unsupported where it depends"""
    g = list(g)
    while g:
        x = g.pop(0)
        if isinstance(x, Lit):
            for c in x.s:
                b = 1 << ord(c) if ord(c) < 256 else 0
                if A & b: return True
                if not C & b: return False
            continue
        if isinstance(x, Cho):
            a, b = follows(list(x.a) + g, C, A, end), follows(list(x.b) + g, C, A, end)
            if a == b: return a
            raise Unsupported("look ahead at %r" % (x,))
        if isinstance(x, Each):
            none = follows(g, C, A, end); some = follows(list(x.body) + [Each(x.var, simp(zint(x.lo) + 1), x.hi, x.body)] + g, C, A, end) if first_known(x.body) else None
            if none is some: return none
            raise Unsupported("look ahead at %r" % (x,))
        c = seg_cls(x); f = x.first if isinstance(x, Hole) else c
        if not c & ~C and not c & A: continue
        if not f & (C | A):
            if minlen(x) > 0: return False
            if not follows(g, C, A, end): return False
        raise Unsupported("look ahead at %r" % (x,))
    return end
def first_known(body):
    for x in body:
        if isinstance(x, Lit) and x.s: return True
        if not isinstance(x, Cho) or not first_known(x.a) or not first_known(x.b): return False
        return True
    return False
def replace(ex, r, src, fmt):
    if "$" in fmt: raise Unsupported("replacement text")
    try: t = list(sp.parse(src, re.A))
    except re.error: raise Unsupported("regular expression %r" % (src,))
    t = list(unwrap(t)) if len(t) == 1 else t
    X = single(t[0]) if t else None; look = None
    if X is None: raise Unsupported("regular expression %r" % (src,))
    if len(t) == 2 and t[1][0] is sc.ASSERT and t[1][1][0] == 1: look = ahead(t[1][1][1])
    elif len(t) != 1: raise Unsupported("regular expression %r" % (src,))
    def go(r, rest):
        out = []; r = list(r)
        for i, g in enumerate(r):
            behind = r[i+1:] + rest
            if isinstance(g, Lit):
                s = ""
                for j, c in enumerate(g.s):
                    hit = ord(c) < 256 and X >> ord(c) & 1
                    if hit and look: hit = follows([Lit(g.s[j+1:])] + behind if g.s[j+1:] else behind, *look)
                    s += fmt if hit else c
                out.append((Lit(s),) if s else EMPTY)
            elif isinstance(g, Cho): out.append((Cho(g.cond, go(g.a, behind), go(g.b, behind)),))
            elif isinstance(g, Each):
                if look:
                    # what follows one repetition: the next one or the end of the repeated part, it has to make no difference
                    a = go(g.body, [Each(g.var, g.lo, g.hi, g.body)] + behind); b = go(g.body, behind)
                    if rkey(a) != rkey(b): raise Unsupported("replacement in %r" % (g,))
                    out.append((Each(g.var, g.lo, g.hi, a),))
                else: out.append((Each(g.var, g.lo, g.hi, go(g.body, [])),))
            else:
                if not seg_cls(g) & X: out.append((g,)); continue
                if look is None: raise Unsupported("replacement in %r" % (g,))
                C, A, end = look; c = seg_cls(g); last = g.last if isinstance(g, Hole) else c
                if c & A: raise Unsupported("replacement in %r" % (g,))
                # a matching character in the unknown part: the rest of the part or what follows stops the look ahead
                if last & (C | X) and follows(behind, *look): raise Unsupported("replacement in %r" % (g,))
                out.append((g,))
        return rope(*out)
    return go(tuple(r), [])
