"""Common part of the specs of the generated functions: an arbitrary message with its expression texts, the generator object,
configurations of the conditional macros, checks over bit vectors with a cache."""
from .base import *
from .. import gentext
from ..gentext import doc, conds, select, code_tokens, parse_stmts, hole_chain, expand
from ..ctext import CV, bvc, conv, BadText
from ..crun import CRun, Mac, idk, show, bv
from ..terms import *
from ..loops import value_names
import z3

TYPES8 = ["int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t"]
def tro(t): return (8 << (t & 3), t < 4)
TEXTMAX = 1 << 22
class Checks:
    """bit vector obligations, equal formulas are solved once"""
    def __init__(c, ex): c.ex = ex; c.memo = {}
    def valid(c, name, claim, assume=(), detail=""):
        ex = c.ex; neg = z3.And(*[zbool(a) for a in assume], z3.Not(zbool(claim))); neg = z3.simplify(neg); k = neg.sexpr()
        if k not in c.memo:
            s = z3.Solver(); s.set("timeout", 20000); s.add(neg); t = time.time(); r = str(s.check()); ex.solver_time += time.time() - t; ex.queries += 1
            c.memo[k] = (r, {str(d): str(s.model()[d]) for d in s.model().decls()} if r == "sat" else None)
        r, m = c.memo[k]
        o = Obligation(ex.prefix + name, {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r], detail)
        o.model = m; ex.obls.append(o); return r == "unsat"
    def same(c, name, a, b, assume=(), detail=""):
        """two C values are equal as numbers"""
        w = max(a.w, b.w) + 1
        ext = lambda x: z3.SignExt(w - x.w, x.bv) if x.s else z3.ZeroExt(w - x.w, x.bv)
        return c.valid(name, ext(a) == ext(b), assume, detail)
    def true(c, name, ok, detail=""):
        c.ex.obls.append(Obligation(c.ex.prefix + name, "proved" if ok else "failed", detail)); return ok

class Gen:
    """an arbitrary message and the generator"""
    def __init__(g, run, what):
        g.run = run; ex = g.ex = run.ex; ex.prefix = what + " "
        g.n = z3.Int("nsig"); ex.vb["nsig"] = (0, KMAX); ex.state.pc.append(z3.And(g.n >= 0, g.n <= KMAX))
        g.noroll = z3.Bool("noroll"); g.nocsm = z3.Bool("nocsm")
        g.roll = ex.new(signal(ex, "roll"), "roll"); g.csm = ex.new(signal(ex, "csm"), "csm")
        g.dlc = z3.Int("DLC"); ex.vb["DLC"] = (0, 64); ex.state.pc.append(z3.And(g.dlc >= 0, g.dlc <= 64))
        over = {"Signals#": g.n, "to_signals#": g.n, "RollSig": Ptr(g.roll, g.noroll), "CsmSig": Ptr(g.csm, g.nocsm), "DLC": g.dlc, "to_bytes#": g.dlc}
        g.val = arb(ex, "CiExpr_t", "sgs", (), over); g.sgs = ex.new(g.val, "sgs")
        g.fdv = arb(ex, "AppSettings_t", "fd"); g.fd = ex.new(g.fdv, "fd")
        rec = {x[0] for x in ex.record("CiMainGenerator")}
        if not {"fdesc", "fwriter", "prt_dlcValidateMacroName", "prt_initialDataByteValueName"} <= rec: raise Unsupported("members of CiMainGenerator")
        mk = {"fdesc": Ptr(g.fd), "fwriter": Struct("FileWriter", {"strm": ()}), "prt_dlcValidateMacroName": (name_hole("VALIDATE"),), "prt_initialDataByteValueName": (name_hole("INITBYTE"),)}
        g.this = ex.new(Struct("CiMainGenerator", mk), "gen")
        g.msg = g.val.get("msg"); g.gen = g.fdv.get("gen")
        g.NAME = g.msg.get("Name"); g.DRV = g.gen.get("DRVNAME"); g.drv = g.gen.get("drvname"); g.orig = g.gen.get("DrvName_orig")
        ex.state.pc.append(z3.Or(g.nocsm, z3.And(zint(ex.rlen(g.msg.get("CsmToByteExpr"))) >= 2, g.msg.get("CsmByteNum") < g.dlc)))      # BuildCConvertExprs
        g.J = z3.Int("J"); ex.vb["J"] = (0, KMAX)
        g.ck = Checks(ex)
        g.M = {"sf": g.gen.get("usesigfloat_def"), "mon": g.gen.get("usemon_def"), "roll": g.gen.get("useroll_def"), "csm": g.gen.get("usecsm_def"), "bits": g.gen.get("usebits_def"), "struct": g.gen.get("usesruct_def"), "mono": g.gen.get("usemonofmon_def")}
        ex.assumed.add("signal names of a message are pairwise different, no name is another one with _expt, _phys or _ro added, and none is mon1")
        ex.assumed.add("every text of the DBC file is shorter than 2^22 characters")
    def sig(g, j): return g.ex.svec_read(g.msg.get("Signals"), j)
    def text(g): return g.ex.load(g.this).get("fwriter").get("strm")
    def configs(g, cs):
        """assignments of the macros the text asks for"""
        keys = {rkey(v): k for k, v in g.M.items()}; names = []
        for c in cs:
            if rkey(c) not in keys: raise Unsupported("condition macro %r" % (c,))
            if keys[rkey(c)] not in names: names.append(keys[rkey(c)])
        for m in range(1 << len(names)):
            d = {k: False for k in g.M}; d.update({n: bool(m >> i & 1) for i, n in enumerate(names)}); yield d
    def macro_conds(g, t):
        out = conds(t)
        return out
    def pick(g, t, cfg):
        keys = {rkey(v): k for k, v in g.M.items()}
        def defined(c):
            if rkey(c) not in keys: raise Unsupported("condition macro %r" % (c,))
            return cfg[keys[rkey(c)]]
        return select(t, defined)
    def all_macros(g, t, ex):
        """conditions of the text and of the repetitions in it"""
        out = list(conds(t))
        def go(r):
            for s in r:
                if isinstance(s, Each): go_doc(s.body)
                elif isinstance(s, Cho): go(s.a); go(s.b)
        def go_doc(r):
            txt = list(r)
            for i, s in enumerate(txt):
                if isinstance(s, Lit):
                    for m in __import__("re").finditer(r"#\s*ifn?def ?$", s.s):
                        if i + 1 < len(txt) and isinstance(txt[i+1], (Hole,)): out.append((txt[i+1],))
                elif isinstance(s, Cho): go_doc(s.a); go_doc(s.b)
        return out, go, go_doc
    def loop_conds(g, r, out):
        """condition macros used inside repetitions"""
        def scan(r):
            r = list(r)
            for i, s in enumerate(r):
                if isinstance(s, Lit) and re.search(r"#\s*(ifn?def)\s+$", s.s) and i + 1 < len(r): out.append((r[i+1],))
                elif isinstance(s, Cho): scan(s.a); scan(s.b)
                elif isinstance(s, Each): scan(s.body)
        for s in r:
            if isinstance(s, Each): scan(s.body)
            elif isinstance(s, Cho): g.loop_conds(s.a, out); g.loop_conds(s.b, out)
        return out
    # ---- the C run of a text under a configuration
    def crun(g, cfg):
        c = CRun(); c.ext_width = 64; c.cfg = cfg; NAME = g.NAME
        c.consts = {idk(NAME, "_DLC"): CV(bv("DLC", 32), 32, False), idk(NAME, "_CANID"): CV(bv("CANID", 32), 32, False), idk(NAME, "_IDE"): CV(bv("IDE", 32), 32, False), ("dlc_",): CV(bv("dlc_", 8), 8, False)}
        c.members = {("mon1", "roll_error"): (32, False, 1), ("mon1", "csm_error"): (32, False, 1), ("mon1", "cycle_error"): (32, False, 1), ("mon1", "dlc_error"): (32, False, 1),
                     ("mon1", "last_cycle"): (32, False), ("mon1", "frame_cnt"): (32, False), ("mon1", "timeout_cycle"): (32, False)}
        return c
    def mk(g, *parts): return ("arrow", ("id", ("_m",)), idk(*parts))
    def mon(g, f): return ("dot", ("arrow", ("id", ("_m",)), ("mon1",)), (f,))
    def definite(g, r, err):
        """a text that is no C is judged wrong only when its parts are all known"""
        for s in r:
            if isinstance(s, (Lit, Hole, Fmt)): continue
            raise Unsupported("%s in %r" % (err, r))
