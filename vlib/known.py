"""Probes of the recorded findings (known_findings.txt): each returns True while the defect still shows."""
from .dbc import Sig, Msg, Dbc
from .drv import Gen, Fail
import os, re
PROBES = {}
def probe(k):
    def d(f): PROBES[k] = f; return f
    return d

@probe("D25")
def d25(c):
    t = ('VERSION ""\nBU_: A\nBO_ 256 One: 8 A\n SG_ Speed : 0|16@1+ (2,0) [0|0] "" A\n\nBO_ 257 Two: 8 A\n SG_ Speed : 0|16@1+ (5,0) [0|0] "" A\n')
    h = Gen(t, "drv").hdr()
    return len(re.findall(r"#define DRV_Speed_ro_toS", h)) == 1 and "CovFactor (5)" not in h

@probe("MLKEY")
def mlkey(c):
    t = ('VERSION ""\nBU_: A\nBO_ 256 One: 8 A\n SG_ Speed : 0|16@1+ (1,0) [0|0] "" A\n\nCM_ BO_ 256 "first line\nBO_ 300 Ghost: 8 A\nlast line";\n')
    return "Ghost_CANID" in Gen(t, "drv").hdr()


@probe("NODECASE")
def nodecase(c):
    t = ('VERSION ""\nBU_: ECU ecu\nBO_ 256 One: 8 ECU\n SG_ A : 0|16@1+ (1,0) [0|0] "" Other\n\nBO_ 257 Two: 8 ecu\n SG_ B : 0|16@1+ (1,0) [0|0] "" Other\n')
    g = Gen(t, "drv", ("-rw", "-nodeutils"))
    return sum(1 for f in os.listdir(g.path("butl")) if f.startswith("ecu_drv") and f.endswith(".h")) == 1
