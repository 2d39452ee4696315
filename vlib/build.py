"""Builds the real tool from /repo's current sources (never from a copy kept in /verif)."""
import os, subprocess, hashlib, tempfile, shutil, atexit, concurrent.futures as cf, glob

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None

class BuildError(Exception):
    pass

def scratch():
    """Private scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="cvc_")
        pid = os.getpid()
        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

def src_files():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        if "/tests" in root:
            continue
        for f in files:
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)

def all_files():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".cpp", ".h", ".hpp")):
                out.append(os.path.join(root, f))
    return sorted(out)

def src_hash():
    h = hashlib.sha256()
    for f in all_files():
        h.update(f.encode()); h.update(b"\0")
        h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:24]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build_tool(asan=True):
    """Compile every non-test source of /repo/src into scratch; returns the path of coderdbc."""
    d = os.path.join(scratch(), "tool_asan" if asan else "tool")
    exe = os.path.join(d, "coderdbc")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    flags = ["-std=c++17", "-O0", "-w", "-I" + os.path.join(REPO, "src")]
    if asan:
        flags += ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-g1"]
    def one(i_f):
        i, f = i_f
        o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(f)))
        r = run(["g++"] + flags + ["-c", f, "-o", o])
        if r.returncode != 0:
            raise BuildError("cannot compile %s:\n%s" % (f, r.stdout[-3000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(src_files())))
    r = run(["g++"] + (["-fsanitize=address"] if asan else []) + objs + ["-o", exe])
    if r.returncode != 0:
        raise BuildError("cannot link coderdbc:\n" + r.stdout[-3000:])
    return exe

def build_unit(name, code, asan=True):
    """Compile a C++ harness together with the real parser/codegen sources (all but maincli.cpp)."""
    build_tool(asan)
    d = os.path.join(scratch(), "tool_asan" if asan else "tool")
    objs = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o") and "maincli" not in f]
    src = os.path.join(scratch(), name + ".cpp")
    open(src, "w").write(code)
    exe = os.path.join(scratch(), name)
    flags = ["-std=c++17", "-O0", "-w", "-I" + os.path.join(REPO, "src"), "-fno-access-control"]
    if asan:
        flags += ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-g1"]
    r = run(["g++"] + flags + [src] + sorted(objs) + ["-o", exe])
    if r.returncode != 0:
        raise BuildError("cannot build harness %s:\n%s" % (name, r.stdout[-3000:]))
    return exe
