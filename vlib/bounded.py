"""Bounded end-to-end runs of the real tool: used to (a) replay failed obligations on the real code and
(b) stand in, labelled bounded, for glue code that is not under contract.  Each bNN(ctx) raises drv.Fail
with the failing input, or returns normally.  ctx.n counts evaluations."""
import os, random, re, itertools, ctypes, struct, json, subprocess
from .dbc import Sig, Msg, Dbc, rand_layout
from .drv import Gen, Fail, Drv, harness, u2s
from .build import run, build_unit, scratch, BuildError
from . import drv as _drvmod

def feed(ctx, name, code, lines, args=()):
    """output lines of a harness around one function of the real code; None when the function is not there any more"""
    try: exe = build_unit(name, code)
    except BuildError:
        ctx.sample({"note": "harness %s does not build against the current sources, skipped" % name}); return None
    fn = os.path.join(scratch(), name + ".txt"); open(fn, "w", encoding="utf-8", errors="surrogateescape").write("\n".join(lines) + "\n")
    for l in lines: _drvmod.SEEN.add(hash((name, l)))
    return run([exe, fn] + list(args), env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).stdout.split("\n")

class Ctx:
    def __init__(c, prop, tier, seed, hints=None):
        c.prop=prop; c.tier=tier; c.rng=random.Random("%s-%d" % (prop, seed)); c.n=0; c.samples=[]; c.hints=hints or []
        c.known=[]
    @property
    def deep(c): return c.tier == "thorough"
    def count(c, k=1): c.n += k
    def sample(c, x):
        if len(c.samples) < 3: c.samples.append(x)

def payloads(rng, dlc, n):
    yield [0]*dlc
    yield [0xFF]*dlc
    yield [0xAA]*dlc
    yield [0x55]*dlc
    for _ in range(n): yield [rng.randrange(256) for _ in range(dlc)]

# ------------------------------------------------------------------ layouts shared by C01..C03
def layout_msgs(ctx, disjoint=True):
    rng = ctx.rng; msgs = []
    def add(dlc, sigs):
        i = len(msgs)
        for k, s in enumerate(sigs): s.name = "S%d_%d" % (i, k)
        msgs.append(Msg(0x100 + i, "M%d" % i, dlc, sigs, ext=bool(i & 1)))
    # directed: single signals; every (order, length, start%8) is reached in the thorough tier
    combos = [(o, l, b) for o in "IM" for l in range(1, 65) for b in range(8)]
    if not ctx.deep:
        keep = [c for c in combos if c[1] in (1, 7, 8, 9, 16, 17, 32, 33, 34, 35, 39, 40, 64)]
        rest = [c for c in combos if c not in keep]
        keep = [c for c in keep if c[2] in (0, 7) or rng.random() < .2]
        combos = keep + rng.sample(rest, 70)
    for o, l, b in combos:
        for big in ((0, 1) if ctx.deep else (int(rng.random() < .4),)):
            need = (l + (b if o == "I" else 7 - b) + 7) // 8
            dlc = min(64, max(need + rng.randrange(0, 3), 1)) if not big else 64
            first = rng.randrange(0, dlc - need + 1) if rng.random() < .7 else dlc - need
            s = Sig("x", first*8 + b, l, o, rng.random() < .5)
            if s.fits(dlc): add(dlc, [s])
    for h in ctx.hints:
        s = Sig("x", h["start"], h["length"], h["order"], h.get("signed", False))
        if 1 <= h["dlc"] <= 64 and s.fits(h["dlc"]):
            add(h["dlc"], [s]); add(h["dlc"], [Sig("x", h["start"], h["length"], h["order"], not h.get("signed", False))])
    # several signals per message
    for k in range(60 if ctx.deep else 15):
        dlc = rng.choice([1,2,3,4,5,6,7,8,8,8,12,16,20,24,32,48,64])
        add(dlc, rand_layout(rng, dlc, rng.randint(2, 12)))
    if not disjoint:
        for k in range(6):
            dlc = rng.choice([4, 8, 16]); ss = []
            for _ in range(4):
                s = Sig("x", rng.randrange(dlc*8), rng.randint(1, 30), rng.choice("IM"), rng.random() < .5)
                if s.fits(dlc): ss.append(s)
            if ss: add(dlc, ss)
    return msgs

def _drv(ctx, msgs, defs=(), canstruct=False, bitext=64, drvname="drv", tail=(), opts=("-rw",), opt="-O0", **kw):
    g = Gen(Dbc(msgs, tail=tail).text(), drvname, opts)
    live = [m for m in msgs if m.sigs]
    fields = [[s.field for s in m.sigs] for m in live]
    lib = g.compile(harness(g, live, fields, canstruct=canstruct, **kw), defs, bitext=bitext, opt=opt)
    return g, live, Drv(lib, live, fields)

def describe(m, s=None):
    return {"message": "\n".join(m.lines()), **({"signal": s.line()} if s else {})}

def b01(ctx):
    msgs = layout_msgs(ctx, disjoint=False)
    for cfg in ([[], ["DRV_USE_BITS_SIGNAL", "DRV_USE_DIAG_MONITORS"]] if not ctx.deep else [[], ["DRV_USE_BITS_SIGNAL"], ["DRV_USE_DIAG_MONITORS"], ["DRV_USE_SIGFLOAT"]]):
        g, live, d = _drv(ctx, msgs, cfg) if "DRV_USE_DIAG_MONITORS" not in cfg else _mondrv(ctx, msgs, cfg)
        for i, m in enumerate(live):
            for data in payloads(ctx.rng, m.dlc, 12 if ctx.deep else 5):
                r, vals = d.unpack(i, data)
                ctx.count(len(vals))
                for s, v in zip(m.sigs, vals):
                    want = s.decode(data)
                    if u2s(v, 64, True) != u2s(want, 64, True):
                        raise Fail("Unpack of %s gives %d instead of %d" % (s.line().strip(), v, want), config=cfg, payload=data, **describe(m, s))
                if r != m.mid: raise Fail("Unpack returns id %#x instead of %#x" % (r, m.mid), **describe(m))
        ctx.sample({"message": live[0].lines(), "config": cfg})
        g.clean()
    # documented narrow helper type: 32-bit bitext holds signed signals up to 31 bits
    ms = [Msg(0x10+i, "N%d" % i, 8, [Sig("n%d" % i, 3, l, o, True)]) for i, (l, o) in enumerate([(2,"I"),(9,"I"),(31,"I"),(31,"M"),(8,"M")]) if Sig("n", 3, l, o).fits(8)]
    g, live, d = _drv(ctx, ms, [], bitext=32)
    for i, m in enumerate(live):
        for data in payloads(ctx.rng, m.dlc, 8):
            v = d.unpack(i, data)[1][0]; ctx.count()
            if v != m.sigs[0].decode(data): raise Fail("Unpack (32-bit bitext_t) gives %d" % v, payload=data, **describe(m))
    g.clean()

def _mondrv(ctx, msgs, cfg, **kw):
    return _drv(ctx, msgs, cfg, mon=False, **kw) if False else _drv_mon(ctx, msgs, cfg, **kw)

def _drv_mon(ctx, msgs, defs, canstruct=False, tail=(), methods=(), tick=False, hashf=False, drvname="drv", mono=False, opts=("-rw",), extra_c=""):
    g = Gen(Dbc(msgs, tail=tail).text(), drvname, opts)
    live = [m for m in msgs if m.sigs]
    fields = [[s.field for s in m.sigs] for m in live]
    defs = list(defs) + (["VERIF_TICK"] if tick else []) + (["VERIF_HASH"] if hashf else [])
    fmon = g.path("usr", g.low + "-fmon.c")
    mon = any("DIAG_MONITORS" in x for x in defs)
    code = harness(g, live, fields, canstruct=canstruct, mon=mon) + extra_c
    lib = g.compile(code, defs, methods=methods, extra=[fmon] if mon and "fmonstub" not in kwfix(extra_c) else [])
    return g, live, Drv(lib, live, fields)

def kwfix(x): return x

def rnd_val(rng, s):
    lo, hi = s.rawrange()
    return rng.choice([lo, hi, 0 if lo <= 0 else lo, rng.randint(lo, hi), rng.randint(lo, hi), hi >> 1, 1 if hi else 0])

def b02(ctx):
    msgs = layout_msgs(ctx, disjoint=False)
    msgs.append(Msg(0x7E1, "MuxMsg", 8, [Sig("Mux_selector", 0, 8, mux="M")] + [Sig("MultiplexedSignalWithLongName_%d" % i, 8 + i % 50, 1 + i % 7, mux="m%d" % i) for i in range(256)]))
    # shortest texts: one-letter names at every alignment
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for k in range(4):
        msgs.append(Msg(0x7D0 + k, "ShortNames%d" % k, 64, [Sig(al[j], j * 8 + (k if o == "I" else 7 - k), l, o) for j, (o, l) in enumerate([(ctx.rng.choice("IM"), ctx.rng.randint(1, 8 - k)) for _ in range(50)])]))
    msgs.append(Msg(0x7DF, "OneBits", 64, [Sig(al[j], j * 8 + ctx.rng.choice([0, 0, 1, 7]), 1, ctx.rng.choice("IM")) for j in range(50)]))
    for cfg in [[], ["DRV_USE_CANSTRUCT"]] + ([["DRV_USE_BITS_SIGNAL"], ["DRV_USE_CANSTRUCT", "DRV_USE_DIAG_MONITORS"]] if ctx.deep else [["DRV_USE_BITS_SIGNAL"]]):
        cs = "DRV_USE_CANSTRUCT" in cfg
        g, live, d = _drv_mon(ctx, msgs, cfg, canstruct=cs)
        for i, m in enumerate(live):
            for t in range(10 if ctx.deep else 5):
                vals = [[s.rawrange()[1], s.rawrange()[0], None][t] if t < 2 else rnd_val(ctx.rng, s) for s in m.sigs]
                # plain (non bit-field) fields may hold bits above the signal's width: only the low bits count
                junk = (not any("BITS" in c for c in cfg)) and t >= 3
                inp = [v if not junk else v ^ (ctx.rng.getrandbits(64) << s.length) for v, s in zip(vals, m.sigs)]
                d.set(i, inp)
                init = [ctx.rng.randrange(256) for _ in range(64)]
                r, ln, ide, mid, out = d.pack(i, init)
                want = [0]*m.dlc
                for s, v in zip(m.sigs, vals): s.encode(want, v)
                ctx.count()
                info = dict(config=cfg, values=inp, got=out[:m.dlc], want=want, **describe(m))
                if out[:m.dlc] != want: raise Fail("Pack of %s writes wrong payload bits" % m.name, **info)
                if out[m.dlc:] != init[m.dlc:]: raise Fail("Pack of %s writes past the DLC" % m.name, **info)
                if (r, ln, ide, mid) != (m.mid, m.dlc, int(m.ext), m.mid):
                    raise Fail("Pack of %s reports id/len/ide %s" % (m.name, (r, ln, ide, mid)), **info)
        ctx.sample({"message": live[-1].lines(), "config": cfg}); g.clean()

def b03(ctx):
    msgs = [m for m in layout_msgs(ctx) ]
    for cfg in [[]] + ([["DRV_USE_BITS_SIGNAL"], ["DRV_USE_CANSTRUCT"]] if ctx.deep else []):
        g, live, d = _drv_mon(ctx, msgs, cfg, canstruct="DRV_USE_CANSTRUCT" in cfg)
        for i, m in enumerate(live):
            for t in range(12 if ctx.deep else 6):
                vals = [s.rawrange()[t] if t < 2 else rnd_val(ctx.rng, s) for s in m.sigs]
                d.set(i, vals)
                _, _, _, _, out = d.pack(i, [ctx.rng.randrange(256) for _ in range(64)])
                getattr(d.lib, "fill_%d" % i)(ctx.rng.choice([0, 0xFF]))
                got = d.unpack(i, out[:m.dlc])[1]; ctx.count()
                for s, v, w in zip(m.sigs, got, vals):
                    if u2s(v, 64, True) != u2s(w, 64, True):
                        raise Fail("Pack/Unpack turns %d into %d for %s" % (w, v, s.line().strip()), config=cfg, values=vals, payload=out[:m.dlc], **describe(m, s))
        ctx.sample({"message": live[-1].lines()}); g.clean()

ERRTXT = "Dlc of this message must be greater"
def b04(ctx):
    rng = ctx.rng; cases = []
    for o in "IM":
        for l in (1, 2, 7, 8, 9, 12, 16, 20, 33, 64):
            for dlc in (1, 2, 7, 8, 12, 63, 64):
                for st in {0, 3, 7, dlc*8-1, dlc*8-2, dlc*8-7, dlc*8-8, dlc*8, dlc*8+1, dlc*8-l, dlc*8-l+1, 505, 511, 512, 513, 519, 4095, 65535, 65536, 65536+3, 65536+8*dlc-1, 1 << 24, 2**31-1}:
                    if st >= 0: cases.append((o, l, dlc, st))
    for h in ctx.hints: cases.append((h["order"], h["length"], h["dlc"], h["start"]))
    for _ in range(600): 
        dlc = rng.randint(1, 64)
        cases.append((rng.choice("IM"), rng.randint(1, 64), dlc, rng.choice([rng.randrange(dlc*8+70), rng.randrange(1024), rng.randrange(1 << 20)])))
    bad = [c for c in cases if not Sig("x", c[3], c[1], c[0]).fits(c[2])]
    good = [c for c in cases if Sig("x", c[3], c[1], c[0]).fits(c[2])]
    if not ctx.deep and len(bad) > 450: bad = bad[-150:] + rng.sample(bad[:-150], 300)
    msgs = []
    for i, (o, l, dlc, st) in enumerate(bad):
        sg = [Sig("B%d" % i, st, l, o, rng.random() < .3)]
        if i % 3 == 0:   # together with a well placed signal before or after it
            ok = Sig("A%d" % i, 0, rng.randint(1, 8), "I"); sg = [ok] + sg
        msgs.append(Msg(0x1000 + i, "MB%d" % i, dlc, sg, ext=True))
    if len(msgs) == 0: return
    for part in range(0, len(msgs), 300):
        chunk = msgs[part:part+300]
        g = Gen(Dbc(chunk).text())
        _check_ill(ctx, g, chunk)
        g.clean()
    # checksum signals that do not fit
    chunk = [Msg(0x700 + i, "MC%d" % i, d, [Sig("C%d" % i, s, 8, "I")]) for i, (d, s) in enumerate([(2, 16), (8, 64), (1, 8), (9, 80)])]
    g = Gen(Dbc(chunk, tail=['CM_ SG_ %d C%d "<Checksum:XOR8:1>";' % (m.mid, i) for i, m in enumerate(chunk)]).text())
    _check_ill(ctx, g, chunk); g.clean()
    ok = [Msg(0x1000+i, "MG%d" % i, c[2], [Sig("G%d" % i, c[3], c[1], c[0])], ext=True) for i, c in enumerate(good[:200])]
    g = Gen(Dbc(ok).text()); g.write_conf()
    rc, o = g.try_compile([g.path("lib", "drv.c")])[0]
    if rc: raise Fail("driver with fitting signals does not compile", dbc=g.textstr()[:5000], compiler=o[:2000])
    g.clean()
    ctx.sample({"ill-fitting (order,len,dlc,start)": bad[:3]})

def split_functions(src):
    """text of each Unpack_/Pack_ function in a generated source"""
    out = {}
    pos = [(m.start(), m.group(1), m.group(2)) for m in re.finditer(r"^uint32_t (Unpack|Pack)_(\w+?)\(", src, re.M)]
    for k, (p, kind, name) in enumerate(pos):
        e = src.find("\n}", p)
        out.setdefault((kind, name), []).append(src[p:e+2])
    return out

def _check_ill(ctx, g, chunk):
    """each function of an ill-fitting message must be uncompilable on its own"""
    g.write_conf(methods=())
    src = g.src(); fns = split_functions(src)
    low = g.low
    # ask the compiler about all the functions: each must be hit by at least one error
    n = 0
    errl = set()
    r = run(["gcc", "-std=gnu11", "-w", "-fmax-errors=0", "-fsyntax-only"] + g.incs() + [g.path("lib", low + ".c")])
    for mm in re.finditer(r"^[^\n:]*%s\.c:(\d+):\d+: error" % re.escape(low), r.stdout, re.M): errl.add(int(mm.group(1)))
    rc = r.returncode
    r2 = run(["gcc", "-std=gnu11", "-w", "-fmax-errors=0", "-fsyntax-only", "-DDRV_USE_CANSTRUCT"] + g.incs() + [g.path("lib", low + ".c")])
    for mm in re.finditer(r"^[^\n:]*%s\.c:(\d+):\d+: error" % re.escape(low), r2.stdout, re.M): errl.add(int(mm.group(1)))
    for m in chunk:
        ctx.count()
        for kind in ("Unpack", "Pack"):
            bodies = fns.get((kind, m.name + "_" + g.drv), [])
            if not bodies: continue
            for b in bodies:
                p = src.find(b); first = src.count("\n", 0, p) + 1; last = first + b.count("\n")
                ill = ERRTXT in b
                if not ill and not any(first <= e <= last for e in errl):
                    raise Fail("%s function of a message with a signal outside its %d byte payload has no error text and compiles" % (kind, m.dlc), function=b, **describe(m))
                if not any(first <= e <= last for e in errl) and rc == 0:
                    raise Fail("%s function of a message with an ill-fitting signal compiles" % kind, function=b, **describe(m))

def b05(ctx):
    rng = ctx.rng; msgs = []
    scal = [("1","0"), ("2","0"), ("1","5"), ("-1","0"), ("0.5","0"), ("1","-100"), ("100000","-7"), ("1.0","0"), ("1E-3", "-40")]
    for l in range(1, 65):
        for sg in (False, True):
            i = len(msgs); ss = []
            for k, (f, o) in enumerate(scal if ctx.deep else [scal[0]] + rng.sample(scal[1:], 2)):
                ss.append(Sig("T%d_%d" % (i, k), 0, l, "I", sg, f, o))
            msgs.append(Msg(0x100+i, "MT%d" % i, 64, [Sig(s.name, 64*k % 448, l, rng.choice("I"), sg, s.factor, s.offset) for k, s in enumerate(ss)][:7], ext=True))
    for cfg in ([], ["DRV_USE_SIGFLOAT"]):
        g, live, d = _drv(ctx, msgs, cfg, sizes=True)
        for i, m in enumerate(live):
            for s, sz in zip(m.sigs, d.sizes(i)):
                ctx.count()
                want = s.ctype_bits() // 8 * (-1 if s.signed else 1)
                if sz != want: raise Fail("field %s has %s%d-bit type, want %s%d" % (s.field, "signed " if sz < 0 else "unsigned ", abs(sz)*8, "signed " if want < 0 else "unsigned ", abs(want)*8), **describe(m, s))
        ctx.sample(describe(live[7])); g.clean()

def int_scaled(ctx, n):
    rng = ctx.rng; out = []
    dirF = [1, -1, 2, -2, 3, 10, 100, 127, 128, 255, 256, 1000, -1000, 32767, 40000, 65535, 65536, 100000, 2**31-1, -(2**31-1)]
    dirO = [0, 1, -1, 5, -5, 100, -100, 127, 128, -128, -129, 255, 256, -255, 32767, 32768, -32768, 65535, 65536, 1 << 20, 2**31-1, -(2**31-1)]
    for l in range(1, 33):
        for sg in (False, True):
            for k in range(n):
                F = rng.choice(dirF + [rng.randint(-300, 300) or 1, rng.randint(-2**31+1, 2**31-1) or 1]); O = rng.choice(dirO + [rng.randint(-70000, 70000), rng.randint(-2**31+1, 2**31-1)])
                if rng.random() < .3:   # boundary: make an extreme land next to a type limit
                    lo, hi = (-(1 << l-1), (1 << l-1)-1) if sg else (0, (1 << l)-1)
                    F = rng.choice([1, -1, 2, -2, 3, -3]); T = rng.choice([127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**31-1, 2**31, -2**31, -2**31-1, 0, -1])
                    O = T - F * rng.choice([lo, hi])
                    if abs(O) > 2**31-1: continue
                if F == 1 and O == 0: continue
                out.append((l, sg, F, O))
    for h in ctx.hints: out.append((h["length"], h["signed"], h["factor"], h["offset"]))
    return out

def scaled_msgs(ctx, combos):
    msgs = []
    for i, (l, sg, F, O) in enumerate(combos):
        s = Sig("P%d" % i, 0, l, ctx.rng.choice("IM"), sg, str(F), str(O))
        if s.order == "M": s.start = 7
        msgs.append(Msg(0x1000 + i, "MP%d" % i, 8, [s], ext=True))
    return msgs

def prange(l, sg, F, O):
    lo, hi = (-(1 << l-1), (1 << l-1)-1) if sg else (0, (1 << l)-1)
    a, b = lo*F+O, hi*F+O
    return min(a, b), max(a, b), lo, hi

def b06(ctx):
    combos = int_scaled(ctx, 40 if ctx.deep else 8)
    msgs = scaled_msgs(ctx, combos)
    g = Gen(Dbc(msgs).text())
    lib = g.compile('#include "drv.h"\nvoid sz(int* o){ int k=0; %s }' % " ".join("{ %s_t x; o[k++]=(int)sizeof(x.P%d_phys)*(((__typeof__(x.P%d_phys))-1)<0?-1:1); }" % (m.name, i, i) for i, m in enumerate(msgs)), ["DRV_USE_SIGFLOAT"], csrcs=False)
    o = (ctypes.c_int * len(msgs))(); lib.sz(o)
    for m, c, sz in zip(msgs, combos, o):
        lo, hi, _, _ = prange(*c); ctx.count(); b = abs(sz)*8
        tlo, thi = (-(1 << b-1), (1 << b-1)-1) if sz < 0 else (0, (1 << b)-1)
        if lo < tlo or hi > thi:
            raise Fail("physical range [%d, %d] does not fit the %s%d-bit field" % (lo, hi, "" if sz < 0 else "unsigned ", b), **describe(m))
    ctx.sample({"(len,signed,factor,offset)": combos[:3]}); g.clean()

def b07(ctx):
    combos = int_scaled(ctx, 20 if ctx.deep else 5)
    msgs = scaled_msgs(ctx, combos)
    g = Gen(Dbc(msgs).text())
    fields = [[s.field, s.phys] for m in msgs for s in m.sigs]
    L = harness(g, msgs, fields)
    for opt in ("-O0", "-O2"):
        lib = g.compile(L, ["DRV_USE_SIGFLOAT"], opt=opt)
        d = Drv(lib, msgs, fields)
        for i, (m, c) in enumerate(zip(msgs, combos)):
            l, sg, F, O = c; plo, phi, lo, hi = prange(*c); s = m.sigs[0]
            for raw in {lo, hi, 0, min(1, hi), lo//2, hi//2, ctx.rng.randint(lo, hi), ctx.rng.randint(lo, hi), max(lo, min(hi, hi-1))}:
                data = [0]*8; s.encode(data, raw)
                _, (r, p) = d.unpack(i, data); ctx.count()
                want = raw*F + O
                if r != raw or p != want: raise Fail("raw %d becomes physical %d instead of %d" % (raw, p, want), raw=raw, **describe(m))
                d.set(i, [0, want])
                out = d.pack(i, [0x5A]*64)[4]
                if out[:8] != data: raise Fail("physical %d is packed as %s instead of raw %d" % (want, out[:8], raw), raw=raw, **describe(m))
    ctx.sample({"(len,signed,factor,offset)": combos[:3]}); g.clean()
    # decimal scaled signals: same formula, powers of two make the arithmetic exact
    dm = []
    for i, (f, o) in enumerate([("0.5", "0"), ("0.25", "-40"), ("2.0", "1"), ("1.0", "0.5"), ("0.125", "100.25"), ("1e-1", "0"), ("0.001", "-3"), ("-0.5", "7"), ("1", "-0.75"), ("5E-1", "3")]):
        for sg in (False, True):
            dm.append(Msg(0x300+len(dm), "MD%d" % len(dm), 8, [Sig("D%d" % len(dm), 0, ctx.rng.choice([4, 8, 12, 16, 20]), "I", sg, f, o)]))
    g = Gen(Dbc(dm).text())
    code = '#include "drv.h"\n' + harness(g, dm, [[s.field for s in m.sigs] for m in dm]) + "".join(
        "double phys_%d(void){ return (double)M%d.%s; } void setp_%d(double v){ M%d.%s = v; }\n" % (i, i, m.sigs[0].phys, i, i, m.sigs[0].phys) for i, m in enumerate(dm))
    lib = g.compile(code, ["DRV_USE_SIGFLOAT"]); d = Drv(lib, dm, [[s.field for s in m.sigs] for m in dm])
    for i, m in enumerate(dm):
        s = m.sigs[0]; lo, hi = s.rawrange(); f, o = float(s.factor), float(s.offset)
        exact = f in (0.5, 0.25, 2.0, 1.0, 0.125, -0.5)
        for raw in {lo, hi, 0, 1 if hi >= 1 else 0, ctx.rng.randint(lo, hi)}:
            data = [0]*8; s.encode(data, raw)
            d.unpack(i, data); ph = getattr(lib, "phys_%d" % i); ph.restype = ctypes.c_double; p = ph(); ctx.count()
            if abs(p - (raw*f+o)) > 1e-6*max(1, abs(raw*f+o)): raise Fail("raw %d becomes physical %r instead of %r" % (raw, p, raw*f+o), **describe(m))
            if exact:
                d.set(i, [0]); getattr(lib, "setp_%d" % i)(ctypes.c_double(raw*f+o))
                out = d.pack(i, [0]*64)[4]
                if out[:8] != data: raise Fail("physical %r is packed to %s, want raw %d" % (raw*f+o, out[:8], raw), **describe(m))
    g.clean()

def binutil_fns(g, name=None):
    return g.read("butl", (name or g.low) + "-binutil.c"), g.read("butl", (name or g.low) + "-binutil.h")

def b08(ctx):
    rng = ctx.rng
    sizes = list(range(1, 36)) + [63, 64, 65, 100] + ([127, 128, 129, 200, 257, 500] if ctx.deep else [130])
    for n in sizes:
        ids = set()
        while len(ids) < n:
            ids.add(rng.choice([rng.randrange(0x800), rng.randrange(1 << 29), 0 if rng.random() < .2 else 0x7FF, 0x1FFFFFFF - rng.randrange(4)]) if rng.random() < .6 else (max(ids) + 1 if ids and max(ids) < 0x1FFFFFFF else 5))
        ids = list(ids); rng.shuffle(ids)
        msgs = [Msg(v, "R%d" % i, rng.randint(1, 8), [Sig("r%d" % i, 0, 8)], ext=v > 0x7FF or rng.random() < .1) for i, v in enumerate(ids)]
        if n > 3:
            empt = Msg(0x12345, "EMPTY", 8, []); 
            if 0x12345 not in ids: msgs.insert(rng.randrange(n), empt)
        g = Gen(Dbc(msgs).text(), "Drv" if n % 2 else "drv")
        live = [m for m in msgs if m.sigs]
        L = ['#include "%s-binutil.h"' % g.low, "#include <string.h>", "static %s_rx_t RX; static const void* seen_m; static const uint8_t* seen_d; static int seen_dlc, seen_id, calls;" % g.low]
        for i, m in enumerate(live):
            L.append("uint32_t Unpack_%s_%s(%s_t* _m, const uint8_t* _d, uint8_t dlc_){ seen_m=_m; seen_d=_d; seen_dlc=dlc_; seen_id=%d; calls++; return 0x40000000u+%d; }" % (m.name, g.drv, m.name, i, i))
        L.append("int probe(uint32_t id, const uint8_t* d, uint8_t dlc, uint32_t* ret){ calls=0; seen_id=-1; seen_m=0; *ret=%s_Receive(&RX, d, id, dlc); if (calls==0) return -1; if (calls!=1) return -2; if (seen_d!=d || seen_dlc!=dlc) return -3; switch(seen_id){ %s } return -5; }" % (
            g.low, " ".join("case %d: return seen_m==(const void*)&RX.%s ? %d : -4;" % (i, m.name, i) for i, m in enumerate(live))))
        lib = g.compile("\n".join(L), [], extra=[g.path("butl", g.low + "-binutil.c")], csrcs=False)
        lib.probe.argtypes = [ctypes.c_uint32, ctypes.c_void_p, ctypes.c_uint8, ctypes.c_void_p]
        buf = (ctypes.c_uint8 * 8)(); ret = ctypes.c_uint32()
        idx = {m.mid: i for i, m in enumerate(live)}
        probes = set(idx) | {v+1 for v in idx} | {max(v-1, 0) for v in idx} | {0, 1, 0x7FF, 0x800, 0x1FFFFFFF, 0x20000000, 0x80000000, 0xFFFFFFFF} | {v | 0x80000000 for v in idx} | {rng.randrange(1 << 32) for _ in range(20)}
        for p in probes:
            dl = rng.randrange(256); r = lib.probe(p, buf, dl, ctypes.byref(ret)); ctx.count()
            want = idx.get(p, -1); wr = 0x40000000 + want if want >= 0 else 0
            if r != want or ret.value != wr:
                raise Fail("Receive with id %#x: result code %d (want %d), returned %#x (want %#x)" % (p, r, want, ret.value, wr), ids=ids, dbc=g.textstr()[:4000], util=g.read("butl", g.low + "-binutil.c")[:6000])
        if n == 5: ctx.sample({"ids": ids})
        g.clean()

def struct_members(txt, name):
    m = re.search(r"typedef struct\s*\{([^{}]*)\}\s*%s;" % re.escape(name), txt)
    if not m: return None
    return re.findall(r"(\w+)_t\s+(\w+)\s*;", re.sub(r"//[^\n]*", "", m.group(1)))

def b09(ctx):
    rng = ctx.rng
    for it in range(60 if ctx.deep else 22):
        nodes = rng.sample(["ECU", "Bms", "A", "TCU_1", "gw", "N0DE", "B", "ECU2", "MCU", "mcu_ecu"], rng.randint(1, 7))
        msgs = []; tail = []; tx = {}; rx = {}
        ids = []; pool = [0, 1, 0xFF, 0x100, 0x10000, 0x20, 0x23, 0x1FFFFFFF, 0x0FFFFFFF]
        while len(ids) < 9:
            v = (rng.choice(ids) ^ (1 << rng.randrange(29))) if ids and rng.random() < .5 else rng.choice(pool + [rng.randrange(1 << 29)])
            if v not in ids: ids.append(v)
        for i in range(rng.randint(1, 9)):
            m = Msg(ids[i], "W%d" % i, rng.choice([1, 8, 12]), [], rng.choice(nodes), ext=ids[i] > 0x7FF or rng.random() < .3)
            for k in range(rng.choice([0, 1, 2, 3])):
                m.sigs.append(Sig("w%d_%d" % (i, k), k % 8, 1, "I", False, recs=rng.sample(nodes, rng.randint(1, min(3, len(nodes))))))
            msgs.append(m)
            tx[m.name] = [m.tx]; rx[m.name] = []
            for s in m.sigs:
                for r in s.recs:
                    if r not in rx[m.name]: rx[m.name].append(r)
            if rng.random() < .5:
                ex = rng.sample(nodes, rng.randint(1, min(3, len(nodes))))
                tail.append("BO_TX_BU_ %d : %s;" % (m.dbcid, ",".join(ex)))
                for e in ex:
                    if e not in tx[m.name]: tx[m.name].append(e)
        if rng.random() < .4: tail.append("BO_TX_BU_ %d : %s;" % (0x7654, nodes[0]))
        rng.shuffle(tail)
        drvn = rng.choice(["drv", "Net_DB"])
        g = Gen(Dbc(msgs, tail=tail).text(), drvn, ("-rw", "-nodeutils"))
        allnodes = []
        for m in msgs:
            for x in tx[m.name] + rx[m.name]:
                if x not in allnodes: allnodes.append(x)
        have = {f for f in os.listdir(g.path("butl"))}
        want = {(n + "_" + drvn + "-binutil." + e).lower() for n in allnodes for e in "ch"}
        ctx.count()
        if have != want: raise Fail("util drivers %s, want %s" % (sorted(have), sorted(want)), dbc=g.textstr())
        for n in allnodes:
            base = (n + "_" + drvn).lower(); h = g.read("butl", base + "-binutil.h")
            byid = sorted(msgs, key=lambda m: m.mid)
            for kind, tab in (("rx", rx), ("tx", tx)):
                w = sorted(m.name for m in byid if m.sigs and n in tab[m.name])
                got = struct_members(h, base + "_%s_t" % kind)
                gl = sorted(b for a, b in (got or []))
                if gl != w or any(a != b for a, b in got or []):
                    raise Fail("node %s: %s struct holds %s, want %s" % (n, kind, gl, w), dbc=g.textstr(), header=h)
        g.write_conf()
        for rc, o in g.try_compile([g.path("butl", f) for f in sorted(have) if f.endswith(".c")]):
            if rc: raise Fail("util driver does not compile", dbc=g.textstr(), compiler=o[:2000])
        g2 = Gen(Dbc(msgs, tail=tail).text(), drvn, ("-rw",))
        have = set(os.listdir(g2.path("butl")))
        if have != {drvn.lower() + "-binutil.c", drvn.lower() + "-binutil.h"}: raise Fail("util drivers %s without -nodeutils" % sorted(have), dbc=g.textstr())
        h = g2.read("butl", drvn.lower() + "-binutil.h")
        got = sorted(b for a, b in (struct_members(h, drvn.lower() + "_rx_t") or []))
        w = sorted(m.name for m in msgs if m.sigs)
        if got != w or struct_members(h, drvn.lower() + "_tx_t"): raise Fail("common util driver maps rx %s, want %s, tx must be absent" % (got, w), dbc=g.textstr(), header=h)
        if it == 0: ctx.sample({"dbc": g.textstr()})
        g.clean(); g2.clean()

def macro(h, name):
    m = re.search(r"^#define %s \((.*)\)\s*$" % re.escape(name), h, re.M)
    return m.group(1) if m else None

def mint(h, name):
    v = macro(h, name)
    if v is None: return None
    v = v.strip()
    mm = re.fullmatch(r"(-?)(0[xX][0-9a-fA-F]+|\d+)[uU]?", v)
    if not mm: return v
    t = mm.group(2); n = int(t, 16) if t[:2].lower() == "0x" else int(t, 8) if len(t) > 1 and t[0] == "0" else int(t)
    return -n if mm.group(1) else n

def b10(ctx):
    for low in (0, 0x80000000, None): b10_one(ctx, low)

def b10_one(ctx, zero):
    rng = ctx.rng; msgs = []; exp = []
    idp = [0, 1, 0x7FF, 0x800, 100, 0x1FFFFFFF, 0x1FFFFFFE, 0x10000000, 0x0FFFFFFF, 0x12345678 & 0x1FFFFFFF]
    lines = []
    def add(rawid, dlc, name, tx="ECU1", sig=True):
        lines.append("BO_ %d %s: %d %s" % (rawid, name, dlc, tx)); lines.append(' SG_ q_%s : 0|1@1+ (1,0) [0|0] "" RCV' % name)
        exp.append((rawid, dlc, name, tx))
    used = set(); n = 0
    for base in idp + [rng.randrange(1 << 29) for _ in range(40)]:
        for hi in (0, 0x80000000):
            if base in used: continue
            if rng.random() < .5: hi ^= 0x80000000
            if base == 0 and zero is not None: hi = zero
            used.add(base); n += 1
            add(base | hi, rng.choice([1, 2, 3, 7, 8, 9, 12, 16, 20, 24, 32, 48, 63, 64]), rng.choice(["Msg%d", "M%d_x", "_m%d", "ABC_%d", "z%d"]) % n, rng.choice(["E", "ECU1", "Vector__XXX", "a_b", "N9"]))
            break
    for rawid in (0x20000001, 0x40000002, 0x60000003, 0xA0000004, 0xC0000005, 0xE0000006, 0xFFFFFFFF, 0x20000000, 0x7FFFFFFF):
        n += 1; add(rawid, 8, "BadId%d" % n)
    for dlc in (0, 65, 66, 100, 255, 256, 257, 264, 320, 512, 1000, 65536 + 8):
        n += 1; add(0x500000 + n, dlc, "BadDlc%d" % n)
    order = list(range(len(exp))); rng.shuffle(order)
    text = 'VERSION "1.0"\n\n' + "\n".join(lines[2*i] + "\n" + lines[2*i+1] + "\n" for i in order)
    g = Gen(text, "drv", ("-rw", "-nodeutils")); h = g.hdr()
    defined = set(re.findall(r"^#define (\w+)_CANID ", h, re.M))
    want = set()
    for rawid, dlc, name, tx in exp:
        ok = 1 <= dlc <= 64 and not rawid & 0x60000000; ctx.count()
        line = "BO_ %d %s: %d %s" % (rawid, name, dlc, tx)
        if ok:
            want.add(name)
            got = (mint(h, name+"_CANID"), mint(h, name+"_IDE"), mint(h, name+"_DLC"))
            w = (rawid & 0x1FFFFFFF, rawid >> 31, dlc)
            if got != w: raise Fail("line %r gives (CANID, IDE, DLC) = %s, want %s" % (line, got, w), line=line)
            node = (tx + "_drv").lower(); uh = g.read("butl", node + "-binutil.h")
            if (name, name) not in (struct_members(uh, node + "_tx_t") or []): raise Fail("sender of %r is not recorded" % line, line=line)
            if len(re.findall(r"\bq_%s\b" % name, h)) == 0: raise Fail("signal of message %r lost" % line, line=line)
        else:
            if re.search(r"\b(q_)?%s\b" % name, h + g.src()): raise Fail("invalid line %r yields driver content" % line, line=line)
    if defined != want: raise Fail("messages defined %s differ from the valid lines" % sorted(defined ^ want), dbc=text[:4000])
    ctx.sample({"lines": lines[:4]}); g.clean()

SIGH = r'''
#include "parser/dbclineparser.h"
#include "helpers/formatter.h"
#include <iostream>
#include <fstream>
int main(int c, char** v){ std::ifstream f(v[1]); std::string l; 
 while (std::getline(f,l)) { DbcLineParser p; SignalDescriptor_t s; s.StartBit=0;s.LengthBit=0; bool is=p.IsSignalLine(l); bool ok=is && p.ParseSignalLine(&s,l);
  if(!ok){ printf("NO\n"); continue;}
  printf("%s\x1f%s\x1f%s\x1f%u\x1f%u\x1f%d\x1f%d\x1f%.17g\x1f%.17g\x1f%d\x1f%d\x1f%d", s.Name.c_str(), s.IsSimpleSig?"":s.NameFloat.c_str(), s.Unit.c_str(), s.StartBit, s.LengthBit, (int)s.Order, (int)s.Signed, s.Factor, s.Offset, (int)s.IsDoubleSig, (int)s.IsSimpleSig, (int)s.Multiplex);
  for (auto& r : s.RecS) printf("\x1f%s", r.c_str()); printf("\n"); } }
'''
def b11(ctx):
    rng = ctx.rng; sigs = []
    facs = ["1", "0", "2", "-1", "10", "255", "1.0", "0.5", "-0.25", "1e-3", "1E+2", "1E-009", "100000", "1.", "+2", "2.01", "0.000000001", "1e-10", "0.0000000001"]
    offs = ["0", "1", "-1", "-40", "5", "0.0", "-0.5", "1e2", "1E-1", "-100000", "0.000", "+3", "1e-11"]
    names = ["S", "Speed", "a_b_9", "_x", "X0", "SG", "M", "m0", "VeryLongSignalName_%d_with_more_than_thirty_two_chars"]
    units = ["", "km/h", "%", "deg C", "m/s^2", "°C", "Nm|x", "a,b", "[x]", "(1,0)", "0|8@1+", "'", "\\", "//", "%d%s", " x ", "SG_", "a : b", " : "]
    for i in range(1200 if ctx.deep else 400):
        recs = rng.sample(["ECU", "A", "Vector__XXX", "B_2", "n9", "R"], rng.randint(1, 5))
        s = Sig(rng.choice(names) + str(i) if rng.random() < .8 else "N%d" % i, rng.choice([0, 1, 7, 8, 63, 64, 511, rng.randrange(512)]), rng.choice([1, 8, 16, 32, 63, 64, rng.randint(1, 64)]),
                rng.choice("IM"), rng.random() < .5, rng.choice(facs), rng.choice(offs), rng.choice(units), recs, rng.choice(["", "", "M", "m0", "m12", "m255"]),
                rng.choice(["0", "-1.5", "1E+3"]), rng.choice(["0", "255", "1e5"]))
        s.name = s.name.replace("%", "")
        if i < len(facs) * len(offs): s.factor, s.offset = facs[i % len(facs)], offs[i // len(facs)]
        sigs.append(s)
    lines = []
    for s in sigs:
        l = s.line()
        v = rng.randrange(6)
        if v == 1: l = l.replace(",".join(s.recs), ", ".join(s.recs))
        if v == 2: l = "\t" + l.lstrip()
        if v == 3: l = l.replace(" : ", "  :  ", 1)
        if v == 4: l = l.replace(" (", "  (", 1)
        lines.append(l)
    out = feed(ctx, "sigh", SIGH, lines)
    if out is None: lines = []; out = [""]
    if len(out) < len(lines): raise Fail("signal line parser crashed on %r" % lines[max(0, len(out)-1)], output="\n".join(out[-20:]))
    for s, l, o in zip(sigs, lines, out):
        ctx.count()
        if o == "NO": raise Fail("well-formed signal line is rejected: %r" % l, line=l)
        p = o.split("\x1f")
        f, of = float(s.factor), float(s.offset); dbl = s.is_double
        if (f != 0 and abs(f) < 1e-9) or (of != 0 and abs(of) < 1e-9): f, of, dbl = 1.0, 0.0, False
        simple = not dbl and f == 1 and of == 0
        want = [s.name if simple else s.name + "_ro", "" if simple else s.name + "_phys", s.unit, str(s.start), str(s.length), "0" if s.order == "I" else "1", str(int(s.signed)), None, None, str(int(dbl)), str(int(simple)),
                {"": "0", "M": "1"}.get(s.mux, "2")] + s.recs
        for k, (a, b) in enumerate(itertools.zip_longest(p, want)):
            if k in (7, 8):
                if float(a) != (f, of)[k-7]: raise Fail("line %r: %s read as %s" % (l, ("factor", "offset")[k-7], a), line=l)
            elif a != b: raise Fail("line %r: field %d read as %r, want %r" % (l, k, a, b), line=l)
    # through the whole tool: struct fields
    okd = [s for s in sigs if re.fullmatch(r"[A-Za-z_]\w*", s.name) and s.fits(64) and float(s.factor) != 0 and s.unit not in ()][:60]
    msgs = [Msg(0x400+i, "QM%d" % i, 64, [s]) for i, s in enumerate(okd)]
    g = Gen(Dbc(msgs).text(), "drv", ("-rw", "-nodeutils")); h = g.hdr()
    for m, s in zip(msgs, okd):
        f, of, dbl = float(s.factor), float(s.offset), s.is_double
        if (f != 0 and abs(f) < 1e-9) or (of != 0 and abs(of) < 1e-9): f, of, dbl = 1.0, 0.0, False
        simple = not dbl and f == 1 and of == 0; ctx.count()
        body = re.search(r"typedef struct\n\{((?:(?!typedef struct).)*?)\} %s_t;" % m.name, h, re.S)
        if not body: raise Fail("no struct for %s" % m.name, **describe(m))
        b = re.sub(r"//[^\n]*", "", body.group(1))
        fl = re.findall(r"(\w+)\s+(\w+)\s*(?::\s*\d+\s*)?;", b)
        names_ = {x for _, x in fl} - {"mon1"}
        want = {s.name} if simple else {s.name + "_ro", s.name + "_phys"}
        if names_ != want: raise Fail("fields %s for %r, want %s" % (names_, s.line(), want), **describe(m, s))
        if not simple:
            t = {x for tt, x in [(tt, tt) for tt, nn in fl if nn.endswith("_phys")]}
            if (t == {"sigfloat_t"}) != dbl: raise Fail("physical field of %r has type %s" % (s.line(), t), **describe(m, s))
    g.clean(); ctx.sample({"lines": lines[:3]})

def info_dbc(ctx, n):
    """messages plus random CM_/BA_/VAL_ lines to present and absent targets; returns text and expectation"""
    rng = ctx.rng; msgs = []; exp = {}
    for i in range(n):
        ss = []
        for k in range(rng.randint(1, 4)):
            ss.append(Sig("sg%d" % k if rng.random() < .6 else "u%d_%d" % (i, k), 16*k, 8, "I", False, *rng.choice([("1", "0"), ("1", "0"), ("2", "0"), ("0.5", "1")])))
        if rng.random() < .4: ss[-1].name = "pl%d" % i; ss[-1].factor, ss[-1].offset = "1", "0"; ss.append(Sig("pl%d_ro" % i, 56, 8))
        mid = rng.choice([i * 7, 0x1000 + i, 0x7F0 + i])
        while any(mid == m.mid for m in msgs): mid += 1
        msgs.append(Msg(mid, "I%d" % i, 8, ss, ext=rng.random() < .5))
    # conflicting scaling of a signal name is the known macro finding of C07: keep one scaling per name
    sc = {}
    for m in msgs:
        for s in m.sigs:
            s.factor, s.offset = sc.setdefault(s.name, (s.factor, s.offset))
    return msgs

def b12(ctx):
    rng = ctx.rng
    texts = ["simple text", "with, punctuation: (a) [b] {c}!", "two\nlines", "three\nlines of\ntext", "ends with ;", "line ends;\nsecond line", "über straße é", "percent %d %s %n", "tabs\tinside", "slashes // and /* x", "a 'quoted' word", "SG_ 5 BO_ words", "x" * 300, "semi;colon", "é", "last line ß\nnext ü",
             "min: 0 max: 255", "  leading blanks", "number 12345", "a <tag> b", "html &amp;", "trailing dots ..."]
    for it in range(40 if ctx.deep else 14):
        msgs = info_dbc(ctx, rng.randint(1, 6)); tail = []; mc = {}; sc = {}; cyc = {}; vt = {}; vtx = {}
        ids = {m.mid for m in msgs}
        mk = [0]
        def marker():
            mk[0] += 1; return "Q%dQ" % mk[0]
        absent = []
        for _ in range(rng.randint(3, 16)):
            kind = rng.choice(["mc", "sc", "cyc", "val", "mc", "sc", "val"]); m = rng.choice(msgs); gone = rng.random() < .35
            dbcid = m.dbcid
            if gone:
                w = rng.choice([m.mid + 1000003, m.mid ^ 0x10000, 0x1FFFFFF0, m.mid + 0x10])
                while w & 0x1FFFFFFF in ids: w += 1
                dbcid = w | (m.dbcid & 0x80000000)
            t = rng.choice(texts); t = (marker() + " " + t) if rng.random() < .7 else t + " " + marker()
            s = rng.choice(m.sigs); sname = s.name; nosig = False
            if kind in ("sc", "val") and not gone and rng.random() < .3:
                sname = rng.choice([s.name + "x", s.name[:-1] + "_", "zz", s.name.upper() + "Q", s.name[:-1]]); nosig = sname not in [x.name for x in m.sigs]
                if not nosig: s = [x for x in m.sigs if x.name == sname][0]
            if kind == "mc":
                tail.append('CM_ BO_ %d "%s";' % (dbcid, t))
                if gone: absent.append(re.search(r"Q\d+Q", t).group(0))
                else: mc[m.name] = t
            elif kind == "sc":
                tail.append('CM_ SG_ %d %s "%s";' % (dbcid, sname, t))
                if gone or nosig: absent.append(re.search(r"Q\d+Q", t).group(0))
                else: sc[m.name, s.name] = t
            elif kind == "cyc":
                v = rng.choice([1, 10, 100, 1000, 60000, rng.randint(1, 99999)])
                tail.append('BA_ "GenMsgCycleTime" BO_ %d %d;' % (dbcid, v))
                if not gone: cyc[m.name] = v
            else:
                pairs = [(rng.choice([k, k * 17, -k, 255, 2**31 - 1, -2**31]), "%s %s" % (marker(), rng.choice(["On", "Off state", "a-b", "err: x", "N/A", "9lives", "ü"]))) for k in range(rng.randint(1, 4))]
                tail.append("VAL_ %d %s %s ;" % (dbcid, sname, " ".join('%d "%s"' % p for p in pairs)))
                if gone or nosig: absent += [p[1].split()[0] for p in pairs]
                else: vt[m.name, s.name] = pairs
        tail.append('CM_ "general Q999Q comment";'); absent.append("Q999Q")
        tail.append('CM_ BU_ A "node Q998Q comment";'); absent.append("Q998Q")
        tail.append('BA_ "SomeOther" BO_ %d 77;' % msgs[0].dbcid)
        rng.shuffle(tail)
        # last definition of a target wins: recompute in file order
        text = Dbc(msgs, tail=tail).text()
        mc2, sc2, cyc2, vt2, dead = {}, {}, {}, {}, set(absent)
        byid = {m.mid: m for m in msgs}
        for l in tail:
            a = re.match(r'CM_ BO_ (\d+) "(.*)";$', l, re.S)
            if a and (m := byid.get(int(a.group(1)) & 0x1FFFFFFF)): mc2[m.name] = a.group(2)
            a = re.match(r'CM_ SG_ (\d+) (\w+) "(.*)";$', l, re.S)
            if a and (m := byid.get(int(a.group(1)) & 0x1FFFFFFF)):
                if a.group(2) in [x.name for x in m.sigs]: sc2[m.name, a.group(2)] = a.group(3)
            a = re.match(r'BA_ "GenMsgCycleTime" BO_ (\d+) (\d+);', l)
            if a and (m := byid.get(int(a.group(1)) & 0x1FFFFFFF)): cyc2[m.name] = int(a.group(2))
            a = re.match(r'VAL_ (\d+) (\w+) (.*) ;$', l)
            if a and (m := byid.get(int(a.group(1)) & 0x1FFFFFFF)):
                if a.group(2) in [x.name for x in m.sigs]: vt2[m.name, a.group(2)] = [(int(p), q) for p, q in re.findall(r'(-?\d+) "([^"]*)"', a.group(3))]
        g = Gen(text); h = g.hdr(); ctx.count(len(tail))
        for q in dead:
            if re.search(r"\b%s\b" % q, h): raise Fail("text %s of an absent target appears in the driver" % q, dbc=text, header=h[:6000])
        # message sections: from its "def @" line to the next one; the message comment stands right before
        parts = re.split(r"^(?=// def @)", h, flags=re.M)
        secs = {}; pre = {}
        for k in range(1, len(parts)):
            nm = re.match(r"// def @(\w+) ", parts[k]).group(1); secs[nm] = parts[k]
            cl = []
            for line in reversed(parts[k-1].rstrip("\n").split("\n")):
                if line.startswith("//"): cl.append(line[2:].lstrip(" ") if False else line[3:] if line.startswith("// ") else line[2:])
                else: break
            pre[nm] = "\n".join(reversed(cl))
        for m in msgs:
            if m.name not in secs: raise Fail("message %s lost" % m.name, dbc=text)
            if m.name in mc2:
                w = "\n".join(x.rstrip() for x in mc2[m.name].split("\n")); gt = "\n".join(x.rstrip() for x in pre[m.name].split("\n"))
                if gt != w: raise Fail("comment of message %s is %r, want %r" % (m.name, gt, w), dbc=text)
            elif re.search(r"Q\d+Q", pre[m.name]): raise Fail("message %s got the comment %r of another target" % (m.name, pre[m.name]), dbc=text)
            c = re.search(r"#define %s_CYC \((\d+)U\)" % m.name, secs[m.name])
            if (int(c.group(1)) if c else None) != cyc2.get(m.name): raise Fail("cycle time of %s is %s, want %s" % (m.name, c and c.group(1), cyc2.get(m.name)), dbc=text)
            body = re.search(r"typedef struct\n\{(.*?)\} %s_t;" % m.name, secs[m.name], re.S).group(1)
            plain = body.split("#else", 1)[1]
            # each field preceded by its comment lines
            got = {}; cur = []
            for line in plain.split("\n"):
                st = line.strip()
                if st.startswith("//"): cur.append(line.strip()[2:])
                elif (mm := re.match(r"\s*u?int\d+_t\s+(\w+)\s*;", line)):
                    if not mm.group(1).endswith("_phys"): got[mm.group(1)] = cur
                    cur = []
                elif st.startswith("#") or st: cur = []
            for s in m.sigs:
                cl = [x[1:].rstrip() if x.startswith(" ") else x.rstrip() for x in got.get(s.field, [])]
                w = []
                if (m.name, s.name) in sc2: w += [x.rstrip() for x in sc2[m.name, s.name].split("\n")]
                if (m.name, s.name) in vt2: w += [(' %d : "%s"' % p).rstrip() for p in vt2[m.name, s.name]]
                if cl != w: raise Fail("signal %s.%s is described by %r, want %r" % (m.name, s.name, cl, w), dbc=text)
                mac = re.findall(r"#define (%s_%s_\w*) \((-?\d+)\)" % (s.field, m.name), secs[m.name])
                wm = {}
                for v, t in vt2.get((m.name, s.name), []):
                    nm = "%s_%s_%s" % (s.field, m.name, c_name(t)); wm.setdefault(nm, v)
                gm = {}
                for a, b in mac: gm.setdefault(a, int(b))
                if gm != wm: raise Fail("value macros of %s.%s are %s, want %s" % (m.name, s.name, gm, wm), dbc=text)
        g.clean()
        if it == 0: ctx.sample({"tail": tail[:5]})

def c_name(t):
    out = ""
    for ch in t.encode("utf-8", "surrogateescape").decode("latin1"):
        if (ch.isascii() and (ch.isalpha() or ch == "_")) or (out and ch.isascii() and ch.isdigit()): out += ch
        elif ch == " ": out += "_"
    return out

def b13(ctx):
    rng = ctx.rng
    seqs = [[8], [1], [64], [1, 8], [8, 1], [3, 64], [64, 3], [8, 8, 12], [12, 8, 8], [1, 2, 3, 4, 5], [5, 4, 3, 2, 1], [2, 63, 2]]
    seqs += [[rng.randint(1, 64) for _ in range(rng.randint(1, 8))] for _ in range(20 if ctx.deep else 8)]
    for sq in seqs:
        for tailmode in (0, 1, 2):
            msgs = [Msg(0x10+i, "L%d" % i, d, [Sig("l%d" % i, rng.randrange(8), 1)] if (rng.random() < .85 or i == 0) else []) for i, d in enumerate(sq)]
            tail = [] if tailmode == 0 else ["BO_TX_BU_ %d : A,B;" % (0x10 + rng.randrange(len(sq)))] if tailmode == 1 else ["BO_ 300 Bad: 99 A", "BO_ 301 Bad2: 0 A"]
            g, live, d = _drv(ctx, msgs, [], tail=tail)
            h = g.hdr(); ctx.count()
            mx = re.search(r"#define DRV_MAX_DLC_VALUE (\d+)U", h)
            if not mx or int(mx.group(1)) != max(sq): raise Fail("MAX_DLC_VALUE is %s for DLCs %s" % (mx and mx.group(1), sq), dbc=g.textstr())
            for i, m in enumerate(live):
                for fillv in (0xFF, 0x5A):
                    d.set(i, [0]); out = d.pack(i, [fillv]*64)[4]; ctx.count()
                    if out[:m.dlc] != [0]*m.dlc or out[m.dlc:] != [fillv]*(64-m.dlc):
                        raise Fail("Pack of an all zero %d byte message over %#x leaves %s" % (m.dlc, fillv, out), dbc=g.textstr(), dlcs=sq)
            g.clean()
    ctx.sample({"dlcs": seqs[-1]})

def b14(ctx):
    rng = ctx.rng; msgs = []; tail = []
    for l in range(1, 65):
        o = rng.choice("IM"); st = rng.choice([0, 3]) if o == "I" else 7
        nm = "Cnt%d" % l if l % 3 else "VeryLongRollingCounterName%d" % l
        sg = [Sig(nm, st, l, o)]
        if l < 40: sg.append(Sig("oth%d" % l, 80, 5, "I"))
        m = Msg(0x600 + l, "RC%d" % l, 16, sg); msgs.append(m)
        tail.append('CM_ SG_ %d %s "%s";' % (m.dbcid, nm, rng.choice(["<RollingCounter>", "counter <RollingCounter>", "<RollingCounter> text"])))
    plain = Msg(0x6FF, "NORC", 8, [Sig("cntx", 0, 4)]); msgs.append(plain)
    tail.append('CM_ SG_ %d cntx "RollingCounter without marker";' % plain.dbcid)
    for extra in ([], ["DRV_USE_BITS_SIGNAL"]):
        defs = ["DRV_USE_DIAG_MONITORS", "DRV_AUTO_ROLL"] + extra
        code = ""
        for i, m in enumerate(msgs):
            if m is plain: continue
            code += "uint64_t ex_%d(void){ return (uint64_t)M%d.%s_expt; }\n" % (i, i, m.sigs[0].name)
        g, live, d = _drv_mon(ctx, msgs, defs, tail=tail, extra_c=code)
        for i, m in enumerate(live):
            s = m.sigs[0]; mod = 1 << s.length; mask = mod - 1
            for v in {0, 1, mask, mask - 1 if mask else 0, mask >> 1, rng.randrange(mod)}:
                others = [rng.randrange(1 << x.length) for x in m.sigs[1:]]
                d.set(i, [v] + others); out = d.pack(i, [0xEE]*64)[4]; ctx.count()
                want = [0]*m.dlc; nv = v if m is plain else (v + 1) % mod
                s.encode(want, nv)
                for x, w in zip(m.sigs[1:], others): x.encode(want, w)
                if out[:m.dlc] != want: raise Fail("counter %s at %d: packed %s, want %s" % (s.name, v, out[:m.dlc], want), config=defs, **describe(m))
                if d.get(i)[0] & mask != nv: raise Fail("counter %s field is %d after Pack, want %d" % (s.name, d.get(i)[0], nv), config=defs, **describe(m))
            if m is plain: continue
            # receive sequence
            getattr(d.lib, "fill_%d" % i)(0); ex = getattr(d.lib, "ex_%d" % i); ex.restype = ctypes.c_uint64
            expect = 0; v = rng.randrange(mod)
            for step in range(8):
                v = rng.choice([expect, expect, expect, (v + 1) % mod, mask, rng.randrange(mod)])
                data = [rng.randrange(256) for _ in range(m.dlc)]
                for by, bi in s.bits(): data[by] &= ~(1 << bi)
                s.encode(data, v); d.unpack(i, data); ctx.count()
                err = d.mon(i)[2]
                if err != int(v != expect): raise Fail("roll_error is %d for received %d, expected %d (counter width %d)" % (err, v, expect, s.length), config=defs, **describe(m))
                expect = (v + 1) % mod
                if ex() != expect: raise Fail("expectation is %d after receiving %d (width %d), want %d" % (ex(), v, s.length, expect), config=defs, **describe(m))
        g.clean()
    # option off: nothing touched
    g, live, d = _drv_mon(ctx, msgs, ["DRV_USE_DIAG_MONITORS"], tail=tail)
    for i, m in enumerate(live):
        s = m.sigs[0]; v = rng.randrange(1 << s.length); d.set(i, [v] + [0]*(len(m.sigs)-1)); out = d.pack(i, [1]*64)[4]; want = [0]*m.dlc; s.encode(want, v); ctx.count()
        if out[:m.dlc] != want or d.mon(i)[2]: raise Fail("counter handled although AUTO_ROLL is off", **describe(m))
        d.unpack(i, want)
        if d.mon(i)[2]: raise Fail("roll_error set although AUTO_ROLL is off", **describe(m))
    g.clean(); ctx.sample({"tail": tail[:3]})

HASHC = """
uint32_t h_ret; uint8_t h_data[64]; uint32_t h_dlc, h_id, h_m, h_op, h_calls;
uint32_t verif_hash(const uint8_t* d, uint32_t dlc, uint32_t id, uint32_t method, uint32_t op){ h_calls++; h_dlc=dlc; h_id=id; h_m=method; h_op=op; memcpy(h_data, d, dlc<64?dlc:64); return h_ret; }
void h_set(uint32_t r){ h_ret=r; h_calls=0; } void h_get(uint32_t* o, uint8_t* dd){ o[0]=h_calls;o[1]=h_dlc;o[2]=h_id;o[3]=h_m;o[4]=h_op; memcpy(dd,h_data,64);} 
"""
def b15(ctx):
    rng = ctx.rng; msgs = []; tail = []; good = []
    meth = [("XOR8", 11), ("CRC8_J", 12), ("Sum", 13), ("m_4", 14)]
    def add(sig, dlc, method, op, fmt, isgood):
        i = len(msgs); sig.name = "ck%d" % i
        m = Msg(0x200 + i, "K%d" % i, dlc, [sig], ext=rng.random() < .3)
        used = set(sig.bits())
        for k in range(3):
            s = Sig("d%d_%d" % (i, k), rng.randrange(dlc*8), rng.randint(1, 16), rng.choice("IM"))
            if s.fits(dlc) and not used & set(s.bits()): used |= set(s.bits()); m.sigs.append(s)
        msgs.append(m); tail.append('CM_ SG_ %d %s "%s";' % (m.dbcid, sig.name, fmt % (method, op)))
        m.sigs.sort(key=lambda s: s.start); good.append((method, op, sig) if isgood else None)
    fmts = ["<Checksum:%s:%d>", "text <Checksum:%s:%d>", "<Checksum:%s:%d> text: more", "a: b <Checksum:%s:%d> c:d", "first\nsecond <Checksum:%s:%d>"]
    k = 0
    for l in range(1, 9):
        for b in range(0, 9 - l):
            for o in "IM":
                dlc = rng.choice([1, 2, 8, 8, 8, 12, 24, 64]); by = rng.choice([0, dlc-1, rng.randrange(dlc)])
                s = Sig("x", by*8 + (b if o == "I" else b + l - 1), l, o)
                if ctx.deep or l == 8 or rng.random() < .6:
                    add(s, dlc, meth[k % 4][0], rng.choice([0, 1, 3, 255, 1000]), fmts[k % len(fmts)], True); k += 1
    add(Sig("x", 4, 8, "I"), 8, "XOR8", 1, fmts[0], False)        # crosses a byte
    add(Sig("x", 3, 8, "M"), 8, "XOR8", 1, fmts[0], False)
    add(Sig("x", 12, 5, "I"), 8, "XOR8", 1, fmts[0], False)
    add(Sig("x", 0, 9, "I"), 8, "XOR8", 1, fmts[0], False)
    add(Sig("x", 8, 8, "I", True), 8, "XOR8", 1, fmts[0], False)  # signed
    add(Sig("x", 8, 8, "I", False, "2", "0"), 8, "XOR8", 1, fmts[0], False)
    add(Sig("x", 8, 8, "I", False, "0.5", "0"), 8, "XOR8", 1, fmts[0], False)
    add(Sig("x", 8, 8, "I"), 8, "XOR8", 1, "Checksum %s %d", False)
    add(Sig("x", 8, 8, "I"), 8, "XOR8", 1, "<Checksum %s:%d>", False)
    for cs in (False, True):
        defs = ["DRV_USE_DIAG_MONITORS", "DRV_AUTO_CSM"] + (["DRV_USE_CANSTRUCT"] if cs else [])
        g, live, d = _drv_mon(ctx, msgs, defs, tail=tail, methods=meth, hashf=True, extra_c=HASHC, canstruct=cs)
        o = (ctypes.c_uint32*5)(); dd = (ctypes.c_uint8*64)()
        for i, m in enumerate(live):
            gd = good[i]
            for t in range(5):
                ret = rng.choice([0, 0xFF, 1, rng.randrange(256), rng.randrange(1 << 32)])
                vals = [rng.randrange(1 << s.length) for s in m.sigs]
                d.lib.h_set(ctypes.c_uint32(ret)); d.set(i, vals); out = d.pack(i, [rng.randrange(256)]*64)[4]; d.lib.h_get(o, dd); ctx.count()
                z = [0]*m.dlc
                for s, v in zip(m.sigs, vals):
                    if not (gd and s is gd[2]): s.encode(z, v)
                if gd is None:
                    if o[0]: raise Fail("signal that must not be a checksum is treated as one", config=defs, **describe(m))
                    if out[:m.dlc] != z: raise Fail("payload changed by checksum code", config=defs, **describe(m))
                    continue
                mnum = dict(meth)[gd[0]]
                info = dict(config=defs, comment=tail[i], got=out[:m.dlc], hash_args=list(o), hash_data=list(dd)[:m.dlc], ret=ret, **describe(m))
                if list(o) != [1, m.dlc, m.mid, mnum, gd[1]]: raise Fail("hash called with (calls, dlc, id, method, option) = %s, want %s" % (list(o), [1, m.dlc, m.mid, mnum, gd[1]]), **info)
                if list(dd)[:m.dlc] != z: raise Fail("hash computed over %s instead of the payload with checksum bits zero %s" % (list(dd)[:m.dlc], z), **info)
                w = list(z); gd[2].encode(w, ret & ((1 << gd[2].length)-1))
                if out[:m.dlc] != w: raise Fail("checksum %#x placed as %s, want %s" % (ret & 0xFF, out[:m.dlc], w), **info)
                # receive
                rb = [rng.randrange(256) for _ in range(m.dlc)]
                ck = gd[2].decode(rb); hv = rng.choice([ck, ck, (ck + 1) & 0xFF, rng.randrange(256)])
                d.lib.h_set(ctypes.c_uint32(hv | (rng.randrange(1 << 24) << 8))); d.unpack(i, rb); d.lib.h_get(o, dd); ctx.count()
                if list(o) != [1, m.dlc, m.mid, mnum, gd[1]] or list(dd)[:m.dlc] != rb: raise Fail("Unpack computes the hash with %s over %s" % (list(o), list(dd)[:m.dlc]), **info)
                if d.mon(i)[3] != int(hv != ck): raise Fail("csm_error is %d for received %d and computed %d" % (d.mon(i)[3], ck, hv), **info)
        g.clean()
    ctx.sample({"tail": tail[:3]})
    # off: no hash call, field packed as is
    g, live, d = _drv_mon(ctx, msgs, ["DRV_USE_DIAG_MONITORS"], tail=tail, methods=meth, hashf=True, extra_c=HASHC)
    for i, m in enumerate(live):
        vals = [rng.randrange(1 << s.length) for s in m.sigs]; d.lib.h_set(ctypes.c_uint32(7)); d.set(i, vals); out = d.pack(i, [3]*64)[4]; d.lib.h_get(o, dd); ctx.count()
        z = [0]*m.dlc
        for s, v in zip(m.sigs, vals): s.encode(z, v)
        if o[0] or out[:m.dlc] != z: raise Fail("checksum handled although AUTO_CSM is off", **describe(m))
    g.clean()

NAMEH = r'''
#include "helpers/formatter.h"
#include "options-parser.h"
#include <iostream>
#include <fstream>
#include <sstream>
static std::string unhex(const std::string& h){ std::string r; for(size_t i=0;i+1<h.size();i+=2) r+=(char)std::stoi(h.substr(i,2),nullptr,16); return r; }
int main(int c, char** v){ std::ifstream f(v[1]); std::string l; while(std::getline(f,l)){ auto s=unhex(l); auto r=make_c_name(s); for(unsigned char ch: r) printf("%02x",ch); printf("\n"); } }
'''
def b16(ctx):
    rng = ctx.rng; ins = [b"", b" ", b"9", b"9a", b"a9", b"_", b"a b", b" a", b"__x", b"1 2", b"-a-b", b"\x80\xffz", b"Zz_09", b"@[`{/:", b"a\tb", b"\x00a", b"0x10", b"A" * 200]
    ins += [bytes([c]) for c in range(256)] + [b"a" + bytes([c]) for c in range(256)]
    ins += [bytes(rng.choice(b"abzAZ09_ -.\xc3\xbc@[`{/:") for _ in range(rng.randint(0, 12))) for _ in range(4000 if ctx.deep else 1500)]
    out = feed(ctx, "nameh", NAMEH, [x.hex() for x in ins])
    if out is None: ins = []; out = [""]
    for s, o in zip(ins, out):
        ctx.count(); w = c_name(s.decode("utf-8", "surrogateescape")); 
        if o != w.encode("latin1").hex(): raise Fail("name made of %r is %r, want %r" % (s, bytes.fromhex(o) if re.fullmatch("[0-9a-f]*", o) else o, w), input=s.hex())
    if len(out) < len(ins): raise Fail("name helper crashed", output="\n".join(out[-10:]))
    # through the tool: driver name and value table macros
    for nm in ("Ab_1", "my drv", "9x", "a-b", "x.y"):
        w = c_name(nm); g = Gen(Dbc([Msg(1, "Mx", 8, [Sig("sx", 0, 8)])], tail=['VAL_ 1 sx 0 "%s" 1 "z" ;' % nm]).text(), nm, expect_ok=True)
        if not os.path.exists(g.path("lib", w.lower() + ".h")): raise Fail("driver name %r does not become %r" % (nm, w), name=nm)
        if w and not re.search(r"#define sx_Mx_%s \(0\)" % w, g.read("lib", w.lower() + ".h")): raise Fail("value name %r does not become %r" % (nm, w), name=nm)
        ctx.count(); g.clean()
    ctx.sample({"inputs": [x.hex() for x in ins[:5]]})

DBLH = r'''
#include "helpers/formatter.h"
#include <iostream>
#include <fstream>
#include <clocale>
#include <locale>
struct P : std::numpunct<char> { char do_decimal_point() const { return ','; } char do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\3"; } };
int main(int c, char** v){ if (c > 2) std::locale::global(std::locale(std::locale::classic(), new P)); std::ifstream f(v[1]); f.imbue(std::locale::classic()); std::string l; while(std::getline(f,l)) printf("%s\n", prt_double(strtod(l.c_str(),0), 9).c_str()); }
'''
def b17(ctx):
    from decimal import Decimal, getcontext
    getcontext().prec = 500
    rng = ctx.rng
    vals = [0.0, 1.0, -1.0, 0.1, 0.5, 1e-9, 9e-10, -1e-9, 0.0625, 123.456, 1e15, 1e16, 2.0**53, 1e22, 1e300, -1e22, 0.999999999, 0.9999999999, 0.99999999999, 1.5, 100.0, 1000000.0, 0.01, 1e-3, 20.4699999999, 5e-324, -0.0, 10.0, 1e5, 0.100000001, 7e-9, 1234567.000000001, 0.123456789]
    vals += [rng.uniform(-10, 10) for _ in range(300)] + [rng.uniform(-1, 1) * 10**rng.randint(-9, 20) for _ in range(500)] + [round(rng.uniform(-1000, 1000), rng.randint(0, 9)) for _ in range(500)] + [float(rng.randint(-10**6, 10**6)) for _ in range(100)]
    for arg in ([], ["loc"]):
        out = feed(ctx, "dblh", DBLH, [repr(float(x)) for x in vals], arg) or []
        for v, o in zip(vals, out):
            ctx.count(); info = dict(value=repr(v), printed=o, locale=bool(arg))
            if not re.fullmatch(r"-?\d+\.\d+", o): raise Fail("%r is printed as %r" % (v, o), **info)
            fr = o.split(".")[1]
            if len(fr) > 9 or (fr.endswith("0") and fr != "0"): raise Fail("%r is printed as %r (superfluous digits)" % (v, o), **info)
            if abs(Decimal(o) - Decimal(v)) > Decimal("1e-9"): raise Fail("%r is printed as %r (off by more than 1e-9)" % (v, o), **info)
    msgs = [Msg(0x10+i, "F%d" % i, 8, [Sig("f%d" % i, 0, 8, "I", False, f, o)]) for i, (f, o) in enumerate([("0.1", "0"), ("1e-3", "-40"), ("0.123456789", "1e5"), ("2.5", "0.000000001"), ("1.0", "7"), ("1E+2", "-0.5"), ("0.0625", "100")])]
    g = Gen(Dbc(msgs).text()); h = g.hdr()
    for m in msgs:
        s = m.sigs[0]; f, o = Decimal(s.factor), Decimal(s.offset)
        cf = macro(h, "DRV_%s_CovFactor" % s.field); ctx.count()
        if cf is None or abs(Decimal(cf) - f) > Decimal("1e-9"): raise Fail("factor literal %s for %s" % (cf, s.line()), **describe(m))
        for mac, ops in (("fromS", r"\(\(\(x\) \* \((-?[\d.]+)\)\) \+ \((-?[\d.]+)\)\)"), ("toS", r"\(\(\(x\) - \((-?[\d.]+)\)\) / \((-?[\d.]+)\)\)")):
            line = re.search(r"^#define DRV_%s_%s\(x\) (.*)$" % (s.field, mac), h, re.M)
            nums = [Decimal(x) for x in re.findall(r"(?<![\w.])-?\d+\.\d+", line.group(1))] if line else []
            w = [f, o] if mac == "fromS" else [o, f]
            if len(nums) != 2 or any(abs(a - b) > Decimal("1e-9") for a, b in zip(nums, w)):
                if sorted(nums) != sorted(w): raise Fail("literals of %s: %s" % (mac, line and line.group(0)), **describe(m))
    g.clean(); ctx.sample({"values": [repr(x) for x in vals[:5]]})

OPTH = r'''
#include "options-parser.h"
#include <iostream>
#include <fstream>
#include <vector>
#include <string>
#include <cstring>
int main(int c, char** v){ std::ifstream f(v[1]); std::string l; while(std::getline(f,l)){ std::vector<std::string> a; std::string cur; for(char ch: l){ if(ch=='\x1f'){a.push_back(cur);cur.clear();} else cur+=ch;} 
 std::vector<char*> p; for(auto& s:a) p.push_back(strdup(s.c_str())); 
 char** av=(char**)malloc(sizeof(char*)*p.size()); for(size_t i=0;i<p.size();i++) av[i]=p[i];
 OptionsParser o; auto r=o.GetOptions((int)p.size(), av);
 printf("%d|%s|%d|%s|%d|%s|%d%d%d%d%d%d%d%d\n", r.dbc.second, r.dbc.second?r.dbc.first.c_str():"", r.outdir.second, r.outdir.second?r.outdir.first.c_str():"", r.drvname.second, r.drvname.second?r.drvname.first.c_str():"", r.is_rewrite, r.is_driver_dir, r.add_gen_date, r.is_nodeutils, r.is_noconfig, r.is_nocanmon, r.is_nofmon, r.is_help); free(av);} }
'''
def opt_oracle(args):
    st = {"dbc": None, "out": None, "drvname": None}; fl = dict(rw=0, driverdir=0, gendate=0, nodeutils=0, noconfig=0, noinc=0, nofmon=0, help=0)
    i = 0
    while i < len(args):
        a = args[i]
        if a.startswith("-"):
            val = ""
            if i + 1 < len(args) and not args[i+1].startswith("-"): val = args[i+1]; i += 1
            k = a[1:]
            if k in ("dbc", "out"): st[k] = val
            elif k == "drvname": st[k] = c_name(val) or None if True else None
            elif k in fl: fl[k] = 1
        i += 1
    return "%d|%s|%d|%s|%d|%s|%d%d%d%d%d%d%d%d" % (st["dbc"] is not None, st["dbc"] or "", st["out"] is not None, st["out"] or "", st["drvname"] is not None, st["drvname"] or "", *fl.values())

def b18(ctx):
    rng = ctx.rng; cases = []
    flags = ["-rw", "-nodeutils", "-help", "-noinc", "-noconfig", "-nofmon", "-driverdir", "-gendate"]
    vals = [("-dbc", "a.dbc"), ("-out", "dir"), ("-drvname", "Drv_1")]
    for f in flags:
        for pos in range(4):
            a = [x for p in vals for x in p]; a.insert(pos*2, f); cases.append(["app"] + a)
        cases.append(["app", f])
    for p in itertools.permutations(vals): cases.append(["app"] + [x for q in p for x in q])
    cases += [["app"], [], ["app", "-dbc"], ["app", "-dbc", "-out"], ["app", "-drvname", "9"], ["app", "-drvname", "---"], ["app", "-drvname", ""], ["app", "-rwx"], ["app", "rw"], ["app", "--help"], ["app", "-h"], ["app", "-"], ["app", "", "-rw"], ["app", "-RW"], ["app", "-dbc", "x", "y"], ["app", "-dbc", "", "z"], ["app", "-drvname", "a b"],
              ["app", "-out", "one", "-out", "two"], ["app", "-drvname", "ok", "-drvname", "é"], ["app", "-rw", "-rw"], ["app", "-rw", "stray", "-nofmon"], ["app", "-nodeutil"], ["app", "-nodeutilss"], ["app", "-noconfi"]]
    pool = flags + ["-dbc", "-out", "-drvname", "val", "p/q.dbc", "-x", "", "a-b", "9z", "-dbcx", "-"]
    for _ in range(6000 if ctx.deep else 2500): cases.append(["app"] + [rng.choice(pool) for _ in range(rng.randint(0, 9))])
    out = feed(ctx, "opth", OPTH, ["".join(x + "\x1f" for x in c) for c in cases])
    if out is None: cases = []; out = [""]
    for c, o in zip(cases, out):
        ctx.count(); w = opt_oracle(c)
        # a later unusable -drvname leaves the name unusable: only usability and the last usable state are compared
        if o != w: raise Fail("arguments %r are read as %s, want %s" % (c, o, w), args=c)
    if len(out) < len(cases): raise Fail("option parser crashed", args=cases[max(0, len(out)-1)], output="\n".join(out[-10:]))
    # generation happens only with the three mandatory options and without -help
    text = Dbc([Msg(1, "Mx", 8, [Sig("sx", 0, 8)])]).text()
    from .build import build_tool
    d = os.path.join(scratch(), "o18"); os.makedirs(d, exist_ok=True); dbc = os.path.join(d, "a.dbc"); open(dbc, "w").write(text)
    full = [["-dbc", dbc], ["-out", "O"], ["-drvname", "drv"]]
    for k in range(8):
        for hlp in (0, 1):
            args = [x for b, p in enumerate(full) if k >> b & 1 for x in p]; o = os.path.join(d, "out%d%d" % (k, hlp)); os.makedirs(o)
            args = [o if x == "O" else x for x in args] + (["-help"] if hlp else []) + ["-rw"]
            if hlp: rng.shuffle
            r = run([build_tool()] + args, cwd=o, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")); ctx.count()
            made = sum(len(f) for _, _, f in os.walk(o)); want = k == 7 and not hlp
            if (made > 0) != want or r.returncode != 0: raise Fail("arguments %s: %d files generated, exit %d" % (args, made, r.returncode), args=args, output=r.stdout[-1500:])
    ctx.sample({"args": cases[5]})

def tree(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f); out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out

def b19(ctx):
    rng = ctx.rng
    text = Dbc([Msg(0x11, "Mx", 8, [Sig("sx", 0, 8, recs=["B"])], "A")]).text()
    def want(drv, opts):
        low = drv.lower(); w = {"lib/%s.h" % low, "lib/%s.c" % low, "lib/%s-fmon.h" % low, "usr/%s-fmon.c" % low, "conf/%s-config.h" % low, "conf/dbccodeconf.h", "inc/canmonitorutil.h"}
        if "-nofmon" in opts: w.discard("usr/%s-fmon.c" % low)
        if "-noconfig" in opts: w -= {"conf/%s-config.h" % low, "conf/dbccodeconf.h"}
        if "-noinc" in opts: w.discard("inc/canmonitorutil.h")
        if "-nodeutils" in opts: w |= {"butl/%s_%s-binutil.%s" % (n, low, e) for n in "ab" for e in "ch"}
        else: w |= {"butl/%s-binutil.%s" % (low, e) for e in "ch"}
        return w
    combos = []
    for drv in ("drv", "MyDrv_X"):
        for sub in itertools.product(*[([], [o]) for o in ("-nofmon", "-noconfig", "-noinc", "-nodeutils", "-driverdir")]):
            combos.append((drv, [x for s in sub for x in s]))
    if not ctx.deep: combos = rng.sample(combos, 26)
    for drv, opts in combos:
        # -rw : directly below
        g = Gen(text, drv, ["-rw"] + opts); pre = drv + "/" if "-driverdir" in opts else ""
        got = set(tree(g.out)); w = {pre + x for x in want(drv, opts)}; ctx.count()
        if got != w: raise Fail("with -rw %s files %s differ from documented set" % (" ".join(opts), sorted(got ^ w)), options=opts, drv=drv)
        first = tree(g.out)
        Gen(text, drv, ["-rw"] + opts, out=g.out)
        if tree(g.out) != first: raise Fail("regeneration with -rw changes the files", options=opts)
        # without -rw : numbered, earlier generations untouched
        base = g.out + "2"; os.makedirs(base); seen = {}
        trail = rng.choice(["", "/"])
        for k in range(3):
            t2 = text.replace("Mx", "Mx%d" % k)
            g2 = Gen(t2, drv, opts, out=base + trail); now = tree(base); ctx.count()
            new = {x: v for x, v in now.items() if x not in seen}
            for x, v in seen.items():
                if now.get(x) != v: raise Fail("generation %d without -rw changed the earlier file %s" % (k, x), options=opts, drv=drv)
            w = {"%s%03d/%s" % (pre, k, x) for x in want(drv, opts)}
            if set(new) != w: raise Fail("generation %d without -rw wrote %s, want %s" % (k, sorted(new), sorted(w)), options=opts, drv=drv)
            seen = now
        # occupied names (a gap, a file)
        base3 = g.out + "3"; os.makedirs(os.path.join(base3, "000")); open(os.path.join(base3, "001"), "w").write("x"); os.makedirs(os.path.join(base3, "003"))
        open(os.path.join(base3, "000", "keep.txt"), "w").write("k")
        Gen(text, drv, [o for o in opts if o != "-driverdir"], out=base3); now = set(tree(base3))
        w = {"000/keep.txt", "001"} | {"002/" + x for x in want(drv, opts)}; ctx.count()
        if now != w: raise Fail("with 000, file 001 and 003 present the files are %s" % sorted(now ^ w), options=opts, drv=drv)
        g.clean()
    for taken in (10, 100, 255, 256, 999):
        g = Gen(text, "drv", ["-rw"]); base = g.out + "4"; os.makedirs(base)
        for k in range(taken): os.mkdir(os.path.join(base, "%03d" % k))
        Gen(text, "drv", [], out=base); now = set(tree(base)); w = {"%03d/%s" % (taken, x) for x in want("drv", [])}; ctx.count()
        if now != w: raise Fail("with the directories 000 to %03d present the files are %s" % (taken - 1, sorted(now ^ w)), options=[])
        g.clean()
    # content below the selected directory does not depend on the way it is selected, every file carries the drv name
    ctx.sample({"options": combos[0]})

def strip_comments(src):
    """independent C comment removal incl. line splicing"""
    src = re.sub(r"\\[ \t\v\f\r]*\n", "", src)
    out = []; i = 0; n = len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i); i = n if j < 0 else j
        elif src.startswith("/*", i):
            j = src.find("*/", i+2); i = n if j < 0 else j+2; out.append(" ")
        elif c in "\"'":
            j = i+1
            while j < n and src[j] != c and src[j] != "\n": j += 2 if src[j] == "\\" else 1
            out.append(src[i:j+1]); i = j+1
        else: out.append(c); i += 1
    return "".join(out)

def norm(src):
    return [l for l in (re.sub(r"\s+", " ", x).strip() for x in strip_comments(src).split("\n")) if l]

EVIL = ["end\\", "two\\\\", "a\\\nb", "x\\ ", "\\", "*/ int evil;", "/* open", "// nested", "#define X 1", "text\n#define EVIL 1", "text\n#endif", "a\nint evil;", "quote ' one", "%s%n%d", "??/", "} ; {", "ends; \\", "multi\nline\\\nthree\\\n four", "é ü \\", "\\n", "a\\\t", "\\\\\\", "tab\there", "#error x", "int evil; //", "a\n\nb", "a\n \\\nb",
        "<b>", "$(x)", "a\\b", "line\nends\\"]
def b20(ctx):
    rng = ctx.rng
    def build(cm, cs, unit, vtxt):
        msgs = [Msg(0x21, "Ma", 8, [Sig("sa", 0, 8, unit=unit), Sig("sb", 8, 8, "I", True, "0.5", "0", unit=unit), Sig("sc", 16, 4, unit=unit)]), Msg(0x22, "Mb", 8, [Sig("sd", 0, 8, unit=unit)])]
        tail = []
        if cm is not None: tail += ['CM_ BO_ 33 "%s";' % cm, 'CM_ BO_ 34 "%s";' % cm]
        if cs is not None: tail += ['CM_ SG_ 33 sa "%s";' % cs, 'CM_ SG_ 33 sc "%s";' % cs, 'CM_ SG_ 34 sd "%s";' % cs, 'CM_ SG_ 33 sb "%s";' % cs]
        if vtxt is not None: tail += ['VAL_ 33 sa 0 "zero" 1 "one" ;']
        return Dbc(msgs, tail=tail).text()
    base = Gen(build(None, None, "", None)); b = {k: norm(v.decode("utf-8", "surrogateescape")) for k, v in tree(base.out).items()}
    cases = [(t, t, "") for t in EVIL]
    cases += [(None, t, "") for t in EVIL[:6]] + [(t, None, "") for t in EVIL[:6]]
    units = [u for u in EVIL if "\n" not in u and '"' not in u]
    cases += [(None, None, u) for u in units] + [(None, "x", u) for u in units[:4]]
    for _ in range(60 if ctx.deep else 15):
        mk = lambda: "".join(rng.choice(["\\", "\n", "/", "*", "#", "a", " ", ";", "'", "{", "}", "<", "é", "?", "\t", "int x;", "//", "\\\n"]) for _ in range(rng.randint(1, 12)))
        cases.append((mk(), mk(), mk().replace("\n", "")))
    for cm, cs, u in cases:
        bad = lambda t: t is not None and any(re.match(r"\s*(BO_ |BO_TX_BU_|CM_|VAL_ |BA_ |VERSION|SG_)", l) or re.search(r"\sSG_", l) for l in t.split("\n")[1:])
        if bad(cm) or bad(cs) or " : " in u: continue
        g = Gen(build(cm, cs, u, None)); ctx.count()
        for k, v in tree(g.out).items():
            nv = norm(v.decode("utf-8", "surrogateescape"))
            if nv != b.get(k):
                diff = [x for x in nv if x not in b.get(k, [])][:5] + ["missing: " + x for x in b.get(k, []) if x not in nv][:5]
                raise Fail("text (message comment %r, signal comment %r, unit %r) changes the code of %s: %s" % (cm, cs, u, k, diff), dbc=g.textstr())
        # the compiler agrees
        g.write_conf()
        if ctx.rng.random() < (.5 if ctx.deep else .25):
            for cc in ("gcc", "clang"):
                rc, o = g.try_compile([g.path("lib", "drv.c")], cc=cc)[0]
                if rc: raise Fail("text (%r, %r, unit %r) breaks compilation with %s" % (cm, cs, u, cc), dbc=g.textstr(), compiler=o[:1500])
        g.clean()
    # value descriptions
    for t in [x for x in EVIL if "\n" not in x]:
        msgs = [Msg(0x21, "Ma", 8, [Sig("sa", 0, 8)])]
        ref = Gen(Dbc(msgs, tail=['VAL_ 33 sa 0 "%s" 5 "z9" ;' % c_name(t)]).text()) if c_name(t) else None
        g = Gen(Dbc(msgs, tail=['VAL_ 33 sa 0 "%s" 5 "z9" ;' % t]).text()); ctx.count()
        if ref:
            for k, v in tree(ref.out).items():
                if norm(v.decode()) != norm(tree(g.out)[k].decode("utf-8", "surrogateescape")): raise Fail("value description %r changes the code of %s" % (t, k), dbc=g.textstr())
        g.clean()
    ctx.sample({"texts": EVIL[:4]})

def b21(ctx):
    rng = ctx.rng
    vers = [None, "1.2", "0.0", "10.20", "255.1", "1.0", "12 3", "4294967295.7", "3-9"]
    gens = []
    for v in vers if ctx.deep else vers[:6] + vers[-2:]:
        g = Gen(Dbc([Msg(1, "Mx", 8, [Sig("sx", 0, 8, recs=["B"])], "A")], version=v).text(), "drv", ("-rw", "-nodeutils") if rng.random() < .5 else ("-rw",)); gens.append((v, g)); h = g.hdr(); ctx.count()
        n = [int(x) for x in re.findall(r"\d+", v)] if v else [0, 0]
        if (mint(h, "VER_DRV_MAJ"), mint(h, "VER_DRV_MIN")) != tuple(n): raise Fail("VERSION %r gives %s.%s" % (v, mint(h, "VER_DRV_MAJ"), mint(h, "VER_DRV_MIN")), dbc=g.textstr())
        g.write_conf()
    for extra in ("version \"5.6\"", "Version \"5.6\"", "VERSION 5.6", "VERSION \"abc\"", "VERSION \"\"", "VERSIONS \"5.6\"", "XVERSION \"5.6\""):
        g = Gen(extra + "\n" + Dbc([Msg(1, "Mx", 8, [Sig("sx", 0, 8)])]).text()); h = g.hdr(); ctx.count()
        w = (5, 6) if re.match(r'(?i)version\s*"?5\.6', extra) else (0, 0)
        if (mint(h, "VER_DRV_MAJ"), mint(h, "VER_DRV_MIN")) != w: raise Fail("line %r gives version %s.%s" % (extra, mint(h, "VER_DRV_MAJ"), mint(h, "VER_DRV_MIN")), dbc=g.textstr())
        g.clean()
    num = lambda v: tuple(int(x) for x in re.findall(r"\d+", v)) if v else (0, 0)
    for (va, ga), (vb, gb) in itertools.product(gens, gens):
        if not ctx.deep and rng.random() < .35 and va != vb and not (num(va)[0] == num(vb)[0] or num(va)[1] == num(vb)[1]): continue
        # source of A against header of B
        srcs = [ga.path("lib", "drv.c")] + [ga.path("butl", f) for f in os.listdir(ga.path("butl")) if f.endswith(".c")]
        for s in srcs:
            import shutil
            mix = os.path.join(scratch(), "mix"); shutil.rmtree(mix, ignore_errors=True); os.makedirs(mix)
            shutil.copy(s, mix); shutil.copy(gb.path("lib", "drv.h"), mix); shutil.copy(ga.path("lib", "drv-fmon.h"), mix); shutil.copy(gb.path("conf", "drv-config.h"), mix); shutil.copy(gb.path("conf", "dbccodeconf.h"), mix)
            for f in os.listdir(ga.path("butl")):
                if f.endswith(".h"): shutil.copy(ga.path("butl", f), mix)
            r = run(["gcc", "-w", "-fsyntax-only", "-I" + mix, os.path.join(mix, os.path.basename(s))]); ctx.count()
            if (r.returncode == 0) != (num(va) == num(vb)):
                raise Fail("%s of version %s %s with the header of version %s" % (os.path.basename(s), va, "compiles" if r.returncode == 0 else "does not compile", vb), compiler=r.stdout[:800])
    ctx.sample({"versions": vers})

FM = """
typedef struct {void* mon; uint32_t id; uint32_t fid; uint32_t dlc_error, frame_cnt, last_cycle; } fm_t; fm_t FMLOG[64]; int FMN;
static void fmlog(FrameMonitor_t* m, uint32_t id, uint32_t fid){ if (FMN<64){ FMLOG[FMN].mon=m; FMLOG[FMN].id=id; FMLOG[FMN].fid=fid; FMLOG[FMN].dlc_error=m->dlc_error; FMLOG[FMN].frame_cnt=m->frame_cnt; FMLOG[FMN].last_cycle=m->last_cycle; } FMN++; }
uint32_t verif_tick; void settick(uint32_t t){ verif_tick=t; FMN=0; }
int fmn(void){ return FMN; } void fmget(uint32_t* o, void** p){ *p=FMLOG[0].mon; o[0]=FMLOG[0].id; o[1]=FMLOG[0].fid; o[2]=FMLOG[0].dlc_error; o[3]=FMLOG[0].frame_cnt; o[4]=FMLOG[0].last_cycle; }
"""
def b22(ctx):
    rng = ctx.rng
    for mono in (False, True):
        for drvn, xdefs in (("drv", []), ("Mon_X", ["_AUTO_ROLL", "_AUTO_CSM"])) if not ctx.deep else [(a, b) for a in ("drv", "Mon_X") for b in ([], ["_AUTO_ROLL"], ["_AUTO_CSM"], ["_AUTO_ROLL", "_AUTO_CSM", "_USE_SIGFLOAT"], ["_USE_BITS_SIGNAL"])]:
            msgs = [Msg(0x30+i*5, "V%d" % i, rng.choice([1, 2, 7, 8, 12, 64]), [Sig("v%d" % i, rng.randrange(4), rng.randint(1, 4), "I", rng.random() < .4)], ext=rng.random() < .4) for i in range(9)]
            # messages with a counter, with a checksum, with both, with a scaled signal
            tail = []
            for i in range(8):
                m = Msg(0x3000 + i, "W%d" % i, 8, [Sig("wc%d" % i, 0, 4), Sig("wk%d" % i, 8, 8), Sig("wd%d" % i, 16, 12, "I", True)], ext=True)
                if i & 4: m.sigs.append(Sig("we%d" % i, 32, 8, "M" if i & 1 else "I", False, "0.5" if i & 2 else "3", "-1"))
                if i & 1: tail.append('CM_ SG_ %d wc%d "<RollingCounter>";' % (m.dbcid, i))
                if i & 2: tail.append('CM_ SG_ %d wk%d "<Checksum:CRC8X:7>";' % (m.dbcid, i))
                tail += ['CM_ BO_ %d "frame comment";' % m.dbcid] * (i & 1)
                msgs.append(m)
            msgs.append(Msg(0x3FF, "EmptyMsg", 8, []))
            g = Gen(Dbc(msgs, tail=tail).text(), drvn); live = [m for m in msgs if m.sigs]; U, low = drvn.upper(), drvn.lower()
            fields = [[s.field for s in m.sigs] for m in live]
            code = harness(g, live, fields, mon=True) + '#include "%s-fmon.h"\n' % low + FM
            if mono: code += "void _FMon_MONO_%s(FrameMonitor_t* m, uint32_t id){ fmlog(m, id, id); }\n" % low
            else:
                for m in msgs: code += "void _FMon_%s_%s(FrameMonitor_t* m, uint32_t id){ fmlog(m, id, %du); }\n" % (m.name, low, m.mid)
            code += "uint32_t verif_hash(const uint8_t* d, uint32_t dlc, uint32_t id, uint32_t method, uint32_t op){ return d[dlc-1] + id; }\n"
            defs = [U + "_USE_DIAG_MONITORS", "VERIF_TICK", "VERIF_HASH"] + ([U + "_USE_MONO_FMON"] if mono else []) + [U + x for x in xdefs]
            d = Drv(g.compile(code, defs, methods=[("CRC8X", 5)]), live, fields)
            cnt = [0]*len(live)
            for i, m in enumerate(live): getattr(d.lib, "fill_%d" % i)(0); getattr(d.lib, "monp_%d" % i).restype = ctypes.c_void_p
            o = (ctypes.c_uint32*5)(); p = ctypes.c_void_p()
            for step in range(300 if ctx.deep else 120):
                i = rng.randrange(len(live)); m = live[i]; dl = rng.choice([m.dlc, m.dlc-1, m.dlc+1, 0, 255, 8, rng.randrange(256)]) & 255; t = rng.randrange(1 << 32)
                d.lib.settick(ctypes.c_uint32(t)); d.unpack(i, [rng.randrange(256) for _ in range(m.dlc)], dl); cnt[i] += 1; ctx.count()
                d.lib.fmget(o, ctypes.byref(p)); mon = d.mon(i)
                info = dict(defs=defs, dlc_arg=dl, **describe(m))
                if d.lib.fmn() != 1: raise Fail("FMon called %d times" % d.lib.fmn(), **info)
                if p.value != getattr(d.lib, "monp_%d" % i)(): raise Fail("FMon called with another message's monitor", **info)
                if list(o) != [m.mid, m.mid, int(dl < m.dlc), cnt[i], t]: raise Fail("FMon of %s sees (id, function, dlc_error, frame_cnt, tick) = %s, want %s" % (m.name, list(o), [m.mid, m.mid, int(dl < m.dlc), cnt[i], t]), **info)
                if (mon[0], mon[1], mon[4]) != (t, cnt[i], int(dl < m.dlc)): raise Fail("monitor holds (tick, count, dlc_error) = %s" % ((mon[0], mon[1], mon[4]),), **info)
            # default definitions link
            g.write_conf()
            so = os.path.join(g.dir, "full.so")
            r = run(["gcc", "-w", "-shared", "-fPIC", "-Wl,-z,defs"] + g.incs() + ["-D" + x for x in defs if x not in ("VERIF_TICK", "VERIF_HASH") and "AUTO_CSM" not in x] + [g.path("lib", low + ".c"), g.path("usr", low + "-fmon.c"), "-o", so]); ctx.count()
            if r.returncode: raise Fail("driver with the default monitor functions does not link", defs=defs, compiler=r.stdout[:1500])
            r = run(["gcc", "-Werror=implicit-function-declaration", "-fsyntax-only"] + g.incs() + ["-D" + x for x in defs if x not in ("VERIF_TICK", "VERIF_HASH") and "AUTO_CSM" not in x] + [g.path("lib", low + ".c")])
            if r.returncode: raise Fail("FMon function used without declaration", defs=defs, compiler=r.stdout[:1500])
            # every message's function is declared and defined, also for frames without signals
            use = '#include "%s-fmon.h"\nvoid use(FrameMonitor_t* m){ %s }' % (low, " ".join("FMon_%s_%s(m, 1u);" % (m.name, low) for m in msgs))
            open(os.path.join(g.dir, "use.c"), "w").write(use)
            r = run(["gcc", "-Werror=implicit-function-declaration", "-w", "-shared", "-fPIC", "-Wl,-z,defs"] + g.incs() + ["-D" + x for x in defs if x not in ("VERIF_TICK", "VERIF_HASH") and "AUTO_CSM" not in x] + [os.path.join(g.dir, "use.c"), g.path("usr", low + "-fmon.c"), "-o", so])
            if r.returncode: raise Fail("an FMon function is not declared or has no default definition", defs=defs, compiler=r.stdout[:1500])
            g.clean()
    ctx.sample({"note": "9 messages, random dlc/tick sequences"})

BOUNDED = {k[1:].upper() if False else "C" + k[1:]: v for k, v in list(globals().items()) if re.fullmatch(r"b\d\d", k)}
