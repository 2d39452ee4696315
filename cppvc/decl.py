"""Declarations of emitted C text (headers and file scope of sources)."""
from .terms import *
from .ctext import *
from .crun import idk

class Decl:
    """kind: struct (typedef struct {...} name), func (ret name(params) with body tokens or None), var (type name), loop, other"""
    def __init__(d, kind, **kw): d.kind = kind; d.__dict__.update(kw)
    def __repr__(d): return "%s%r" % (d.kind, {k: v for k, v in d.__dict__.items() if k != "kind"})
def op(t, o): return t.k == "op" and t.v == o
def wordkey(t):
    if t.k == "id": return idkey(t.v)
    return None
def declarations(toks):
    out = []; i = 0; n = len(toks)
    while i < n:
        t = toks[i]
        if t.k == "loop": out.append(Decl("loop", e=t.v)); i += 1; continue
        if op(t, ";"): i += 1; continue
        cur = []; depth = 0; body = None; params = None
        while i < n:
            t = toks[i]
            if t.k == "loop" and depth == 0: break
            if depth == 0 and op(t, ";"): i += 1; break
            if depth == 0 and op(t, "{"):
                d = 1; j = i + 1
                while j < n and d:
                    if op(toks[j], "{"): d += 1
                    elif op(toks[j], "}"): d -= 1
                    j += 1
                if d: raise BadText("unbalanced braces")
                inner = toks[i+1:j-1]; i = j
                fn = bool(cur) and op(cur[-1], ")")
                cur.append(("body", inner))
                if fn: break
                continue
            if op(t, "(") or op(t, "["): depth += 1
            if op(t, ")") or op(t, "]"): depth -= 1
            if op(t, "}"): raise BadText("unbalanced braces")
            cur.append(t); i += 1
        else:
            if cur and not isinstance(cur[-1], tuple): raise BadText("declaration without end %r" % (cur[:6],))
        out.append(make(cur))
    return out
def make(cur):
    names = [wordkey(t) if isinstance(t, Tok) else None for t in cur]
    # a compound behind struct / union
    b = [k for k, t in enumerate(cur) if isinstance(t, tuple)]
    if names and names[0] == ("typedef",) and len(names) > 1 and names[1] == ("struct",) and len(b) == 1 and b[0] in (2, 3) and len(cur) == b[0] + 2 and names[-1]:
        return Decl("struct", name=names[-1], tag=names[2] if b[0] == 3 else None, members=cur[b[0]][1])
    # function: words ( params ) [body]
    p = [k for k, t in enumerate(cur) if isinstance(t, Tok) and op(t, "(")]
    if p and p[0] >= 2 and names[p[0]-1]:
        end = len(cur) - 1 if b else len(cur)
        if (not b or b == [len(cur) - 1]) and op(cur[end-1], ")"):
            par = []; q = []; depth = 0
            for t in cur[p[0]+1:end-1]:
                if op(t, ",") and depth == 0: par.append(q); q = []; continue
                depth += op(t, "("); depth -= op(t, ")"); q.append(t)
            if q or par: par.append(q)
            return Decl("func", ret=cur[:p[0]-1], name=names[p[0]-1], params=par, body=cur[-1][1] if b else None)
    if not b and not p and len(cur) >= 2 and all(names):
        ext = names[0] == ("extern",); w = names[1:] if ext else names
        if len(w) == 2: return Decl("var", extern=ext, type=w[0], name=w[1])
    return Decl("other", toks=cur)
def param(q):
    """(type words, stars, name) of a parameter"""
    ws = [wordkey(t) for t in q if t.k == "id"]; stars = sum(op(t, "*") for t in q)
    if len(ws) + stars != len(q) or len(ws) < 1: raise BadText("parameter %r" % (q,))
    if len(ws) == 1 and ws == [("void",)]: return (ws, 0, None)
    return (ws[:-1], stars, ws[-1])
def member(toks):
    """members of a struct: (type key, name key, bits token or None) or ('loop', each)"""
    out = []; i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "loop": out.append(("loop", t.v)); i += 1; continue
        if op(t, ";"): i += 1; continue
        j = i
        while j < len(toks) and not op(toks[j], ";"):
            if toks[j].k == "loop": raise BadText("member without ;")
            j += 1
        if j == len(toks): raise BadText("member without ; %r" % (toks[i:],))
        m = toks[i:j]; i = j + 1
        if len(m) == 2 and m[0].k == "id" and m[1].k == "id": out.append((idkey(m[0].v), idkey(m[1].v), None))
        elif len(m) == 4 and m[0].k == "id" and m[1].k == "id" and op(m[2], ":") and m[3].k == "num": out.append((idkey(m[0].v), idkey(m[1].v), m[3]))
        else: raise BadText("member %r" % (m,))
    return out
