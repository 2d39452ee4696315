#!/usr/bin/env python3-vt
"""builds /verif/seeded/<id> from tools/seeds.py and confirms each: applies, builds, stable tests pass, demo 0 unchanged / nonzero patched"""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
want = sys.argv[1:]
base = tempfile.mkdtemp(prefix="seed_")
def build(d):
    return sh("cmake -S src -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DINSTALL_GTEST=OFF && ninja -C _build", cwd=d)
try:
    for s in SEEDS:
        if want and s["id"] not in want: continue
        d = os.path.join(HERE, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        r = os.path.join(base, s["id"]); sh("git clone -q /repo %s" % r)
        # unchanged build once
        b = build(r)
        if b.returncode: print(b.stdout[-2000:]); sys.exit(1)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write('import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom dh import *\n' + s["demo"].strip("\n") + "\n")
        shutil.copy(os.path.join(HERE, "tools", "dh.py"), d + "/dh.py")
        r0 = sh("bash %s/demo.sh" % d, cwd=r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, "src", f); t = open(p).read()
            if t.count(old) != 1: print(s["id"], "edit matches", t.count(old), "times"); break
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=r).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = build(r); ok = b.returncode == 0
        t = sh("ctest --test-dir _build 2>&1 | tail -12", cwd=r).stdout
        r1 = sh("bash %s/demo.sh" % d, cwd=r)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        good = ok and r0.returncode == 0 and r1.returncode != 0 and "100% tests passed" in t
        print(s["id"], "OK" if good else "BAD build=%s demo0=%d demo1=%d %s" % (ok, r0.returncode, r1.returncode, t[-400:]), "" if good else r0.stdout[-500:] + r1.stdout[-500:] + (b.stdout[-1500:] if not ok else ""))
        shutil.rmtree(r)
finally: shutil.rmtree(base, ignore_errors=True)
