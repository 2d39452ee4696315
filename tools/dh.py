"""demonstration helper: runs the built generator of the current directory (/repo) on DBC text in a scratch directory"""
import os, subprocess, tempfile, shutil, sys, atexit
TOOL = os.path.join(os.getcwd(), "_build", "coderdbc")
TMP = tempfile.mkdtemp(prefix="demo_"); atexit.register(shutil.rmtree, TMP, True)
CONF = """#pragma once
#include <stdint.h>
typedef double sigfloat_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;
typedef uint64_t ubitext_t;
typedef int64_t bitext_t;
"""
def gen(text, drv="drv", opts=("-rw",), out=None):
    out = out or os.path.join(TMP, "out%d" % len(os.listdir(TMP))); os.makedirs(out, exist_ok=True)
    dbc = os.path.join(TMP, "in.dbc"); open(dbc, "w").write(text)
    r = subprocess.run([TOOL, "-dbc", dbc, "-out", out, "-drvname", drv] + list(opts), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if r.returncode: fail("generator ended with %d" % r.returncode)
    return out
def fail(msg): print("DEMO FAILS:", msg); sys.exit(1)
def compile(out, code, defs=(), files=(), drv="drv", conf=CONF):
    """compiles code with the generated driver; (ok, path or compiler output)"""
    c = os.path.join(out, "demo_main.c"); open(c, "w").write(code)
    if conf: os.makedirs(out + "/conf", exist_ok=True); open(out + "/conf/dbccodeconf.h", "w").write(conf)
    exe = os.path.join(out, "demo_exe")
    cmd = ["gcc", "-w", "-std=gnu11"] + ["-I%s/%s" % (out, d) for d in ("lib", "conf", "inc", "butl")] + ["-D" + d for d in defs] + [c, "%s/lib/%s.c" % (out, drv.lower())] + [os.path.join(out, f) for f in files] + ["-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return (True, exe) if r.returncode == 0 else (False, r.stdout.decode(errors="replace"))
def run(out, code, **kw):
    ok, exe = compile(out, code, **kw)
    if not ok: fail("generated code does not compile: " + exe[:1500])
    r = subprocess.run([exe], stdout=subprocess.PIPE, timeout=30); 
    if r.returncode: fail("demo program ended with %d" % r.returncode)
    return r.stdout.decode().split()
def read(out, *p): return open(os.path.join(out, *p)).read()
