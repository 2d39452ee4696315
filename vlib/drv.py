"""Runs the real generator on DBC text, compiles the generated C and drives it through ctypes."""
import os, ctypes, itertools, re, shutil
from .build import build_tool, run, scratch

_cnt = itertools.count()
SEEN = set()      # distinct inputs given to the real code in this run
CONF = """#pragma once
#include <stdint.h>
typedef double sigfloat_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;
typedef %s ubitext_t;
typedef %s bitext_t;
#ifdef VERIF_TICK
extern uint32_t verif_tick; 
#define GetSystemTick() (verif_tick)
#endif
#ifdef VERIF_HASH
extern uint32_t verif_hash(const uint8_t* d, uint32_t dlc, uint32_t id, uint32_t method, uint32_t op);
#define GetFrameHash(a,b,c,d,e) verif_hash(a,b,c,d,e)
%s
#endif
"""

class Fail(Exception):
    """The real tool or the generated code misbehaved: a failing input."""
    def __init__(s, msg, **data):
        Exception.__init__(s, msg); s.msg = msg; s.data = data

class Gen:
    def __init__(g, text, drv="drv", opts=("-rw",), asan=True, expect_ok=True, dbcname="in.dbc", out=None):
        SEEN.add(hash((text, drv, tuple(opts))))
        g.dir = os.path.join(scratch(), "g%d" % next(_cnt)); os.makedirs(g.dir)
        g.text = text; g.drv = drv
        g.dbc = os.path.join(g.dir, dbcname)
        open(g.dbc, "wb").write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        g.out = out or os.path.join(g.dir, "out"); os.makedirs(g.out, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
        g.res = run([build_tool(asan), "-dbc", g.dbc, "-out", g.out, "-drvname", drv] + list(opts), env=env, timeout=300)
        if expect_ok and g.res.returncode != 0:
            raise Fail("coderdbc ended with status %d" % g.res.returncode, dbc=g.textstr(), output=g.res.stdout[-2500:])
    def textstr(g):
        return g.text if isinstance(g.text, str) else g.text.decode("latin1")
    def path(g, *p): return os.path.join(g.out, *p)
    def read(g, *p):
        try: return open(g.path(*p), encoding="utf-8", errors="surrogateescape", newline="").read()
        except FileNotFoundError: raise Fail("generator wrote no %s" % "/".join(p), dbc=g.textstr())
    @property
    def low(g): return g.drv.lower()
    @property
    def UP(g): return g.drv.upper()
    def hdr(g): return g.read("lib", g.low + ".h")
    def src(g): return g.read("lib", g.low + ".c")
    def clean(g): shutil.rmtree(g.dir, ignore_errors=True)

    def write_conf(g, bitext=64, methods=()):
        os.makedirs(g.path("conf"), exist_ok=True)
        open(g.path("conf", "dbccodeconf.h"), "w").write(CONF % ("uint%d_t" % bitext, "int%d_t" % bitext,
            "".join("#define %s (%uU)\n" % m for m in methods)))
    def incs(g):
        return ["-I" + g.path(x) for x in ("conf", "lib", "inc", "butl")]
    def compile(g, harness, defs=(), bitext=64, methods=(), extra=(), name=None, cc="gcc", opt="-O0", write_conf=True, expect_ok=True, csrcs=True):
        """compile generated driver + harness C text into a shared object; returns ctypes lib"""
        if write_conf: g.write_conf(bitext, methods)
        n = next(_cnt)
        h = os.path.join(g.dir, "h%d.c" % n); open(h, "w").write(harness)
        so = os.path.join(g.dir, "h%d.so" % n)
        srcs = [h]
        if csrcs: srcs.append(g.path("lib", g.low + ".c"))
        cmd = [cc, "-std=gnu11", opt, "-w", "-shared", "-fPIC", "-fwrapv"] + g.incs() + ["-D" + d for d in defs] + srcs + list(extra) + ["-o", so]
        r = run(cmd, timeout=300)
        if r.returncode != 0:
            if not expect_ok: return None
            raise Fail("the generated driver does not compile (or lacks an expected declaration)", dbc=g.textstr()[:20000], defs=list(defs), compiler=r.stdout[:2500])
        return ctypes.CDLL(so)
    def try_compile(g, srcs, defs=(), extra_inc=(), cc="gcc", std="gnu11"):
        n = next(_cnt)
        o = os.path.join(g.dir, "t%d.o" % n)
        outs = []
        for s in srcs:
            r = run([cc, "-std=" + std, "-w", "-c"] + g.incs() + ["-I" + x for x in extra_inc] + ["-D" + d for d in defs] + [s, "-o", o])
            outs.append((r.returncode, r.stdout))
        return outs

def harness(g, msgs, fields, canstruct=False, mon=False, sizes=False):
    """C harness: per message i -> unpack_i(d,dlc,out64*), set_i(in64*), pack_i(d,len*,ide*) ...
    fields: list per message of field names."""
    U = g.UP; D = g.drv
    L = ['#include <string.h>', '#include "%s.h"' % g.low]
    for i, (m, fl) in enumerate(zip(msgs, fields)):
        T = m.name
        L.append("static %s_t M%d;" % (T, i))
        L.append("uint32_t unpack_%d(const uint8_t* d, uint8_t dlc, int64_t* out){ uint32_t r = Unpack_%s_%s(&M%d, d, dlc); %s return r; }" % (
            i, T, D, i, " ".join("out[%d]=(int64_t)M%d.%s;" % (k, i, f) for k, f in enumerate(fl))))
        L.append("void get_%d(int64_t* out){ %s }" % (i, " ".join("out[%d]=(int64_t)M%d.%s;" % (k, i, f) for k, f in enumerate(fl))))
        L.append("void set_%d(const int64_t* in){ memset(&M%d, 0, sizeof M%d); %s }" % (i, i, i, " ".join("M%d.%s=in[%d];" % (i, f, k) for k, f in enumerate(fl))))
        L.append("void fill_%d(int c){ memset(&M%d, c, sizeof M%d); }" % (i, i, i))
        if canstruct:
            L.append("uint32_t pack_%d(uint8_t* d, uint8_t* len, uint8_t* ide, uint32_t* mid){ __CoderDbcCanFrame_t__ f; memset(&f, 0xA5, sizeof f); memcpy(f.Data, d, 64); uint32_t r = Pack_%s_%s(&M%d, &f); memcpy(d, f.Data, 64); *len=f.DLC; *ide=f.IDE; *mid=f.MsgId; return r; }" % (i, T, D, i))
        else:
            L.append("uint32_t pack_%d(uint8_t* d, uint8_t* len, uint8_t* ide, uint32_t* mid){ *len=0xA5; *ide=0xA5; uint32_t r = Pack_%s_%s(&M%d, d, len, ide); *mid=r; return r; }" % (i, T, D, i))
        if sizes: L.append("void size_%d(int* out){ %s }" % (i, " ".join("out[%d]=(int)sizeof(M%d.%s)*(((__typeof__(M%d.%s))-1)<0?-1:1);" % (k, i, f, i, f) for k, f in enumerate(fl))))
        if mon:
            L.append("void mon_%d(uint32_t* o){ o[0]=M%d.mon1.last_cycle; o[1]=M%d.mon1.frame_cnt; o[2]=M%d.mon1.roll_error; o[3]=M%d.mon1.csm_error; o[4]=M%d.mon1.dlc_error; }" % ((i,)*6))
            L.append("void* monp_%d(void){ return &M%d.mon1; }" % (i, i))
    return "\n".join(L) + "\n"

class Drv:
    """ctypes wrapper"""
    def __init__(s, lib, msgs, fields):
        s.lib=lib; s.msgs=msgs; s.fields=fields
    def unpack(s, i, data, dlc=None):
        m = s.msgs[i]; n = len(s.fields[i]); out = (ctypes.c_int64 * max(n,1))()
        buf = (ctypes.c_uint8 * 64)(*(list(data) + [0]*(64-len(data))))
        f = getattr(s.lib, "unpack_%d" % i); f.restype = ctypes.c_uint32
        r = f(buf, ctypes.c_uint8(m.dlc if dlc is None else dlc), out)
        return r, list(out[:n])
    def set(s, i, vals):
        n = len(vals); a = (ctypes.c_int64 * max(n,1))(*[ctypes.c_int64(v & (2**64-1)).value for v in vals])
        getattr(s.lib, "set_%d" % i)(a)
    def get(s, i):
        n = len(s.fields[i]); out = (ctypes.c_int64 * max(n,1))(); getattr(s.lib, "get_%d" % i)(out); return list(out[:n])
    def pack(s, i, init):
        buf = (ctypes.c_uint8 * 64)(*init)
        ln, ide, mid = ctypes.c_uint8(), ctypes.c_uint8(), ctypes.c_uint32()
        f = getattr(s.lib, "pack_%d" % i); f.restype = ctypes.c_uint32
        r = f(buf, ctypes.byref(ln), ctypes.byref(ide), ctypes.byref(mid))
        return r, ln.value, ide.value, mid.value, list(buf)
    def sizes(s, i):
        n = len(s.fields[i]); out = (ctypes.c_int * max(n,1))(); getattr(s.lib, "size_%d" % i)(out); return list(out[:n])
    def mon(s, i):
        out = (ctypes.c_uint32 * 5)(); getattr(s.lib, "mon_%d" % i)(out); return list(out)

def u2s(v, bits, signed):
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits-1) else v
