#!/usr/bin/env python3-vt
"""tools/mut.py FILE: mutants for the proof units; FILE holds lines of python tuples (unit substring, file under src, old, new[, expected status])
runs the units on a copy of the sources with each single change and prints their status"""
import sys, os, ast, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = ast.literal_eval("[" + open(sys.argv[1]).read() + "]"); sel = sys.argv[2:]
def one(m):
    unit, f, old, new = m[:4]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", d + "/src"); p = d + "/src/" + f; t = open(p).read()
        if t.count(old) < 1: return m, "NO MATCH"
        k = m[5] if len(m) > 5 else 0; parts = t.split(old)
        if len(parts) > 2 and len(m) <= 5: return m, "MATCHES %d" % (len(parts) - 1)
        t = old.join(parts[:k+1]) + new + old.join(parts[k+1:]); open(p, "w").write(t)
        c = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-I" + d + "/src", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode: return m, "DOES NOT COMPILE " + c.stdout[:300]
        r = subprocess.run(["timeout", "600", "python3-vt", "-m", "cppvc.prove", "ALL", unit], cwd=H, env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return m, r.stdout
    finally: shutil.rmtree(d)
if sel: muts = [m for i, m in enumerate(muts) if str(i) in sel]
with ThreadPoolExecutor(3) as ex:
    for i, (m, o) in enumerate(ex.map(one, muts)):
        print("== %d" % i, m[0], "|", m[2][:70].replace("\n", "\\n"), "->", m[3][:70].replace("\n", "\\n"))
        for l in o.split("\n")[:8]: 
            if not l.startswith("wall"): print("   ", l[:330])
