"""Frame of the contract proofs: a unit runs the real functions symbolically from an arbitrary state that satisfies
the precondition and discharges the postcondition as named obligations."""
import time, sys, traceback, os, re
import z3
from ..terms import *
from ..core import *
from ..exec import Engine, Env
from ..loops import KMAX
from ..lib import Lib, app
from .. import lib as _lib

sys.setrecursionlimit(20000)
PROG = None
NAMECLS = WORD; TEXTMAX = 1 << 22
FIRST = ALPHA | cls("_")

class Run:
    """one execution of a unit's case in a worker process"""
    def __init__(r, prog, timeout=8000, deadline=None):
        r.ex = Engine(prog, timeout); r.ex.deadline = deadline
        Lib._lenfacts = {}; Lib.streamfmt = {}; Lib.notes_search = {}; Lib.sorted_info = {}; r.ex.folds = {}; r.ex.selinfo = {}; r.ex.loops = []; r.ex.lastw = []; r.ex.lwmemo = {}; r.ex.either = {}; r.ex.either_ok = False; r.ex.localtype = {}; r.ex.loop_hook = None; r.ex.qmemo = {}; r.ex.rec_contracts = {}; r.ex.hooks = {}
    def fn(r, q, np=None):
        f = r.ex.p.fn(q, np)
        if f is None:
            l = [g for k, v in r.ex.p.funcs.items() if k.split("::")[-1] == q.split("::")[-1] for g in v if np is None or len(g.params) == np]
            f = l[0] if len(l) == 1 else None
        if f is None: raise Unsupported("function %s not found in the sources" % q)
        return f

def run_fn(ex, q, np=None):
    f = ex.p.fn(q, np)
    if f is None: raise Unsupported("function %s not found in the sources" % q)
    return f
def summary(ex, extra=None):
    o = [dict(name=x.name, status=x.status, detail=x.detail[:1500], model=x.model) for x in ex.obls]
    return dict(obls=o, solver_time=ex.solver_time, queries=ex.queries, functions=sorted(ex.inlined), contracts=sorted(ex.used_contracts), assumed=sorted(ex.assumed), builtins=sorted(ex.builtins_used), extra=extra or {})

def name_hole(n, args=(), maxlen=500): return Hole(n, args, WORD, 1, FIRST, WORD, maxlen)

def enum(ex, q): 
    for k, v in ex.p.enums.items():
        if isinstance(k, str) and (k == q or k.endswith("::" + q)): return v
    raise Unsupported("enumeration constant " + q)

def signal(ex, tag="s", idx=(), **over):
    """an arbitrary signal: every field unknown, names identifiers"""
    idx = tuple(idx)
    def mk(f):
        if f in over: return over[f]
        return field(ex, "SignalDescriptor_t", f, tag, idx)
    return Struct("SignalDescriptor_t", dict(over), mk)
TEXT = ALL & ~1
def field(ex, rec, f, tag, idx):
    nm = "%s.%s" % (tag, f)
    for name, ty, node in ex.p.records.get(rec, ex.record(rec) or ()):
        if name == f: break
    else: raise Unsupported("field %s of %s" % (f, rec))
    t = tname(ty)
    if is_string(t):
        if f == "Name" or f == "NameFloat": return (name_hole(nm, idx),)
        return (Hole(nm, idx, TEXT, 0, maxlen=TEXTMAX),)
    if t == "bool": return app(nm, idx, "bool")
    if t in ("BitLayout", "SigType", "MultiplexType"): 
        v = app(nm, idx); hi = {"BitLayout": 1, "SigType": 7, "MultiplexType": 2}[t]; ex.vb[nm] = (0, hi); ex.fact(z3.And(v >= 0, v <= hi)); return v
    if int_type(t):
        v = app(nm, idx); lo, hi = ex.trange(*int_type(t)); ex.vb[nm] = (lo, hi); ex.fact(z3.And(v >= lo, v <= hi)); return v
    if t == "double": return Opaque("double", (nm,) + tuple(idx))
    return arb(ex, t, nm, idx)

def merge_summaries(l):
    o = dict(obls=[], solver_time=0.0, queries=0, functions=set(), contracts=set(), assumed=set(), builtins=set(), extra={})
    for x in l:
        o["obls"] += x["obls"]; o["solver_time"] += x["solver_time"]; o["queries"] += x["queries"]
        for k in ("functions", "contracts", "assumed", "builtins"): o[k] |= set(x[k])
        o["extra"].update(x["extra"])
    for k in ("functions", "contracts", "assumed", "builtins"): o[k] = sorted(o[k])
    return o

def definite(r, err, holes=()):
    """a text is judged wrong only when it is known exactly (apart from the given names)"""
    keys = [h.key() for h in holes]
    for s in r:
        if isinstance(s, Lit) or isinstance(s, Hole) and s.key() in keys: continue
        raise Unsupported("text not known exactly (%s): %r" % (err, s))

IDENT = {"Name", "NameFloat", "DrvName_orig", "drvname", "DRVNAME", "usebits_def", "usesruct_def", "usemon_def", "usemonofmon_def", "usesigfloat_def", "useroll_def", "usecsm_def", "verhigh_def", "verlow_def", "CsmMethod",
  "prt_initialDataByteValueName", "prt_dlcValidateMacroName"}
ENUMS = {"BitLayout": (0, 1), "SigType": (0, 7), "MultiplexType": (0, 2), "CommentTarget": (0, 2), "AttributeType": (0, 1)}
def arb(ex, ty, tag, idx=(), over=None):
    """an arbitrary value of a project type: everything unknown except what `over` gives (by dotted field path)"""
    over = over or {}; idx = tuple(idx); t = strip_ref(clean(ty) if isinstance(ty, str) else tname(ty)); last = tag.split(".")[-1]
    if is_string(t):
        if last in IDENT: return (name_hole(tag, idx),)
        return (Hole(tag, idx, TEXT, 0, maxlen=TEXTMAX),)
    if t == "bool": return app(tag, idx, "bool")
    if int_type(t) or t in ENUMS:
        v = app(tag, idx); lo, hi = ENUMS.get(t) or ex.trange(*int_type(t))
        ex.vb[tag] = (lo, hi); ex.fact(z3.And(v >= lo, v <= hi)); return v
    if t in ("double", "float"): return Opaque("double", (tag,) + tuple(idx))
    if is_vector(t):
        from ..lib import vec_elt
        et = vec_elt(t); n = over.get(last + "#") if last + "#" in over else arb(ex, "uint32_t", tag + "#", idx)
        if is_sym(n) and last + "#" not in over: ex.vb[tag + "#"] = (0, KMAX); ex.fact(n <= KMAX)
        return SVec(n, lambda i: arb(ex, et, tag + "[]", idx + (i,), over), (), t, tag)
    if t.endswith("*"): return over.get(last, Opaque("pointer %s" % tag))
    m = re.match(r"(?:std::)?pair<(.*)>$", t)
    if m:
        from ..exec import split_targs
        a, b = split_targs(m.group(1)); return Struct("pair", {"first": arb(ex, a, tag + ".first", idx, over), "second": arb(ex, b, tag + ".second", idx, over)})
    if "stringstream" in t: return EMPTY
    rec = ex.record(t)
    if rec is not None:
        def mk(f):
            if f in over and not callable(over[f]): return over[f]
            if f in over: return over[f](ex, tag + "." + f, idx)
            for name, fty, node in rec:
                if name == f: return arb(ex, fty, tag + "." + f, idx, over)
            raise Unsupported("field %s of %s" % (f, t))
        return Struct(t.split("::")[-1], {}, mk)
    raise Unsupported("arbitrary value of type " + t)

def split_rope(ex, r):
    """text with every alternative decided (splits the path)"""
    out = []
    for s in r:
        if isinstance(s, Cho): out.append(split_rope(ex, s.a if ex.decide(s.cond) else s.b))
        else: out.append((s,))
    return rope(*out)

def empty_writer(u, member):
    """nothing stays pending for the next file (the precondition every text unit starts from)"""
    ex = u.ex; w = ex.load(u.this).get(member); t = w.get("strm") if isinstance(w, Struct) and "strm" in w.f else None
    return t is not None and is_rope(t) and rkey(ex.resolve(t)) == rkey(EMPTY)
