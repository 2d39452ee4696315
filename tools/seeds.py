HDR = 'VERSION ""\nBU_: A B\n'
SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("c01-moto-high-bytes", "C01",
  [("codegen/c-sigprinter.cpp", "(bn - 1) : (bn + 1);", "(bn - 1) : ((bn + 1) & 31);")],
  "a Motorola signal crossing from payload byte 31 to 32 (CAN FD message)", "the signal is decoded from byte 0 instead of byte 32",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 256 Big: 64 A\n SG_ Wide : 255|16@0+ (1,0) [0|0] "" A\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ uint8_t d[64]={0}; Big_t m={0}; d[31]=0x12; d[32]=0x34; Unpack_Big_drv(&m,d,64); printf("%x\n",(unsigned)m.Wide); return 0; }""")
if r != ["1234"]: fail("decoded %s instead of 1234" % r)
''')

seed("c02-short-expr", "C02",
  [("codegen/c-main-generator.cpp", "if (sgs->to_bytes[i].size() < 2)", "if (sgs->to_bytes[i].size() < 18)")],
  "a byte whose only content is one signal with a one-letter name, aligned at the least significant bit", "Pack drops that byte",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 256 Msg: 2 A\n SG_ x : 8|8@1+ (1,0) [0|0] "" A\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ uint8_t d[8]={0},l,i; Msg_t m={0}; m.x=0xA5; Pack_Msg_drv(&m,d,&l,&i); printf("%x\n",d[1]); return 0; }""")
if r != ["a5"]: fail("packed %s" % r)
''')

seed("c08-lowhalf", "C08",
  [("codegen/c-util-generator.cpp", "if (lowhalf > 1)", "if (lowhalf > 2)")],
  "a subtree of four or five receive messages", "the second message of the lower half is not routed any more",
r'''
o = gen('VERSION ""\nBU_: A\n' + "".join('BO_ %d M%d: 8 A\n SG_ s%d : 0|8@1+ (1,0) [0|0] "" A\n\n' % (100+i, i, i) for i in range(4)))
r = run(o, r"""
#include <stdio.h>
#include "drv-binutil.h"
int main(void){ uint8_t d[8]={7}; static drv_rx_t m; for(int i=0;i<4;i++) printf("%u\n", (unsigned)drv_Receive(&m,d,100+i,8)); return 0; }""", files=["butl/drv-binutil.c"])
if r != ["100","101","102","103"]: fail("routing %s" % r)
''')

seed("c08-upper-bound", "C08",
  [("codegen/c-util-generator.cpp", "(_id >= 0x%XU) && (_id < 0x%XU)", "(_id >= 0x%XU) && (_id <= 0x%XU)")],
  "four or more receive messages and the ID at a branch boundary", "the boundary message is searched in the wrong half and not unpacked",
r'''
o = gen('VERSION ""\nBU_: A\n' + "".join('BO_ %d M%d: 8 A\n SG_ s%d : 0|8@1+ (1,0) [0|0] "" A\n\n' % (100+i, i, i) for i in range(4)))
r = run(o, r"""
#include <stdio.h>
#include "drv-binutil.h"
int main(void){ uint8_t d[8]={7}; static drv_rx_t m; for(int i=0;i<4;i++) printf("%u\n", (unsigned)drv_Receive(&m,d,100+i,8)); return 0; }""", files=["butl/drv-binutil.c"])
if r != ["100","101","102","103"]: fail("routing %s" % r)
''')

seed("c09-id-cut", "C09",
  [("codegen/c-util-generator.cpp", """    v = std::find_if(groups.Rx.begin(), groups.Rx.end(), [&](const uint32_t& msgid)
    {
      return msgid == m->MsgID;""", """    v = std::find_if(groups.Rx.begin(), groups.Rx.end(), [&](const uint32_t& msgid)
    {
      return (msgid & 0xFFFFU) == (m->MsgID & 0xFFFFU);""")],
  "-nodeutils and two extended messages whose IDs share the low 16 bits, received by different nodes", "a node's rx struct also holds the other node's message",
r'''
o = gen('VERSION ""\nBU_: A B C\nBO_ %d Ma: 8 A\n SG_ sa : 0|8@1+ (1,0) [0|0] "" B\n\nBO_ %d Mb: 8 A\n SG_ sb : 0|8@1+ (1,0) [0|0] "" C\n' % (0x80011234, 0x80021234), opts=("-rw", "-nodeutils"))
h = read(o, "butl", "b_drv-binutil.h")
if "Ma_t Ma;" not in h or "Mb_t Mb;" in h: fail("node B maps the wrong messages")
''')

seed("c10-bit29", "C10",
  [("parser/dbclineparser.cpp", "msg->IsExt = ((uint8_t)(msg->MsgID >> 29) & 0x04) == 0x04 ? 1 : 0;", "msg->IsExt = (msg->MsgID > 0x80000000U) ? 1 : 0;")],
  "the extended frame with ID 0 (0x80000000 in the file)", "IDE of that message is 0",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 2147483648 Zero: 8 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n')
if "#define Zero_IDE (1U)" not in read(o, "lib", "drv.h"): fail("IDE is not 1")
''')

seed("c11-exp-plus", "C11",
  [("parser/dbclineparser.cpp", 'kRegSigReceivers = "[^A-Za-z0-9_.+-]+";', 'kRegSigReceivers = "[^A-Za-z0-9_.-]+";')],
  "a factor or offset written with an explicit plus sign in its exponent (1E+3)", "the numbers behind it shift by one place",
r"""
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (1E+2,0) [0|0] "" A\n')
h = read(o, "lib", "drv.h")
if "#define drv_s_ro_CovFactor (100.0)".replace("drv", "DRV") not in h: fail("wrong factor")
""")

seed("c13-max-dlc", "C13",
  [("parser/dbcscanner.cpp", "        for (size_t i = 0; i < tx_nodes.size(); i++)\n        {\n          if (std::find(msg->TranS", "        dblist.maxDlcValue = msg->DLC;\n\n        for (size_t i = 0; i < tx_nodes.size(); i++)\n        {\n          if (std::find(msg->TranS")],
  "a BO_TX_BU_ line for a message that is not the longest one", "the max DLC macro is the DLC of the message named last in a BO_TX_BU_ line",
r'''
o = gen('VERSION ""\nBU_: A B\nBO_ 1 M: 64 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n\nBO_ 2 N: 2 A\n SG_ t : 0|8@1+ (1,0) [0|0] "" A\n\nBO_TX_BU_ 2 : A,B;\n')
if "#define DRV_MAX_DLC_VALUE 64U" not in read(o, "lib", "drv.h"): fail("wrong max DLC")
''')

seed("c15-moto-boundary", "C15",
  [("parser/dbcscanner.cpp", "(sig.StartBit - sig.LengthBit + 1) / 8)", "(sig.StartBit - sig.LengthBit) / 8)")],
  "a Motorola checksum signal that ends at bit 0 of its byte", "the marked signal is not treated as checksum",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ crc : 15|8@0+ (1,0) [0|0] "" A\n\nCM_ SG_ 1 crc "<Checksum:XOR8:3>";\n')
if "GetFrameHash(_d, M_DLC, M_CANID, XOR8, 3)" not in read(o, "lib", "drv.c"): fail("checksum lost")
''')

seed("c16-first-char", "C16",
  [("helpers/formatter.cpp", "(ret.length() > 0 && is_nonfirst_valid(s[i]))", "(i > 0 && is_nonfirst_valid(s[i]))")],
  "a text whose first character is dropped and whose next one is a digit", "the derived name starts with a digit",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n\n', drv="-9ab") if False else gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n\n', drv=".9ab")
import os
if not os.path.exists(o + "/lib/ab.h"): fail("driver name is not 'ab': %s" % os.listdir(o + "/lib"))
''')

seed("c18-prefix", "C18",
  [("options-parser.cpp", 'temppairs[i].first.compare("-rw") == 0', 'temppairs[i].first.compare(0, 3, "-rw") == 0')],
  "an unknown option that starts with -rw", "it is taken as -rw",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n', opts=("-rwx",))
import os
if not os.path.exists(o + "/000/lib/drv.h"): fail("unknown option changed the output place")
''')

seed("c21-or-and", "C21",
  [("codegen/c-util-generator.cpp", 'tof.Append("#if (%s != (%uU)) || (%s != (%uU))",', 'tof.Append("#if (%s != (%uU)) && (%s != (%uU))",')],
  "a binutil source of a DBC version where only one of both numbers differs from the driver header's", "the mix compiles",
r'''
t = 'VERSION "%d.%d"\n\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n'
a = gen(t % (1, 2)); b = gen(t % (1, 3))
import shutil
shutil.copy(b + "/butl/drv-binutil.c", a + "/butl/drv-binutil.c")
ok, _ = compile(a, "int main(void){return 0;}", files=["butl/drv-binutil.c"])
if ok: fail("mixed versions compile")
''')

seed("c22-expt-order", "C22",
  [("codegen/c-main-generator.cpp", '  fwriter.Append("  _m->mon1.frame_cnt++;");\n', '  fwriter.Append(sgs->msg.CsmSig != nullptr && sgs->msg.RollSig != nullptr ? "  ++_m->mon1.frame_cnt; _m->mon1.frame_cnt = _m->mon1.frame_cnt + 1u;" : "  _m->mon1.frame_cnt++;");\n')],
  "a message with both a rolling counter and a checksum signal", "the frame counter is advanced by two",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ rc : 0|4@1+ (1,0) [0|0] "" A\n SG_ cs : 8|8@1+ (1,0) [0|0] "" A\n\nCM_ SG_ 1 rc "<RollingCounter>";\nCM_ SG_ 1 cs "<Checksum:X:1>";\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ uint8_t d[8]={7}; static M_t m; Unpack_M_drv(&m,d,8); printf("%u\n",(unsigned)m.mon1.frame_cnt); return 0; }""", defs=["DRV_USE_DIAG_MONITORS"], files=["usr/drv-fmon.c"])
if r != ["1"]: fail("frame counter %s after one frame" % r)
''')

seed("c03-signed-bytes", "C03",
  [("codegen/c-main-generator.cpp", "    if (sgs->msg.Signals[num].Signed)\n", "    // whole bytes get their sign from the cast\n    if (sgs->msg.Signals[num].Signed && (sgs->msg.Signals[num].LengthBit % 8 != 0))\n")],
  "a signed signal of 24, 40, 48 or 56 bits with a negative value", "the value comes back as a positive number",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 3|24@1- (1,0) [0|0] "" A\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ uint8_t d[8],l,i; M_t m={0}, n={0}; m.s=-5; Pack_M_drv(&m,d,&l,&i); Unpack_M_drv(&n,d,8); printf("%d\n",(int)n.s); return 0; }""")
if r != ["-5"]: fail("came back as %s" % r)
''')

seed("c04-tail-wrap", "C04",
  [("codegen/c-sigprinter.cpp", "    if (slen > 0)\n    {\n      bn = ShiftByte(sig, bn);\n\n      if (to_bytes.size() <= bn)", "    if (slen > 0)\n    {\n      bn = ShiftByte(sig, bn) % to_bytes.size();\n\n      if (to_bytes.size() <= bn)")],
  "an unaligned Motorola signal whose last, partial byte lies behind the payload", "the driver compiles and reads the missing bits from byte 0",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 2 A\n SG_ s : 11|6@0+ (1,0) [0|0] "" A\n')
ok, _ = compile(o, "int main(void){return 0;}")
if ok: fail("a signal outside of its message compiles")
''')

seed("c05-signed-limit", "C05",
  [("parser/dbclineparser.cpp", "      if (max_abs <= __maxsignedvals[i])", "      if (max_abs < __maxsignedvals[i])")],
  "a signed signal of exactly 8, 16 or 32 bits", "its field is one size too wide",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|16@1- (1,0) [0|0] "" A\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ M_t m={0}; printf("%d\n",(int)sizeof m.s); return 0; }""")
if r != ["2"]: fail("field of %s bytes" % r)
''')

seed("c06-addon", "C06",
  [("parser/dbclineparser.cpp", "if (max_v <= __maxsignedvals[i] + addon)", "if (max_v <= __maxsignedvals[i] + 1)")],
  "a physical range with negative values whose largest value is exactly 128, 32768 or 2147483648", "the physical field can not hold the largest value",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1- (1,1) [0|0] "" A\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ uint8_t d[8]={127}; M_t m={0}; Unpack_M_drv(&m,d,8); printf("%d\n",(int)m.s_phys); return 0; }""", defs=["DRV_USE_SIGFLOAT"])
if r != ["128"]: fail("physical value %s" % r)
''')

seed("c07-minus-one", "C07",
  [("codegen/c-sigprinter.cpp", '    else if (sig->Factor == 1)\n    {\n      // only offset\n      retstr += StrPrint("(%s + (%d)) )\\n"', '    else if (sig->Factor * sig->Factor == 1)\n    {\n      // only offset\n      retstr += StrPrint("(%s + (%d)) )\\n"')],
  "an integer factor of -1 together with an offset", "the physical value ignores the sign of the factor",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (-1,100) [0|0] "" A\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ uint8_t d[8]={30}; M_t m={0}; Unpack_M_drv(&m,d,8); printf("%d\n",(int)m.s_phys); return 0; }""", defs=["DRV_USE_SIGFLOAT"])
if r != ["70"]: fail("physical value %s" % r)
''')

seed("c12-target-kept", "C12",
  [("parser/dbclineparser.cpp", '        comm->Text = "";\n        comm->ca_target = CommentTarget::Signal;\n', '        comm->Text = "";\n')],
  "a VAL_ line that follows a message comment", "the value table becomes the comment of the message and the signal has none",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n\nCM_ BO_ 1 "text";\nVAL_ 1 s 1 "on" 0 "off" ;\n')
h = read(o, "lib", "drv.h")
if "#define s_M_on (1)" not in h or "// text" not in h: fail("value table or comment lost")
''')

seed("c14-ahead", "C14",
  [("codegen/c-main-generator.cpp", '"  _m->mon1.roll_error = (_m->%s != _m->%s_expt);"', '"  _m->mon1.roll_error = (_m->%s < _m->%s_expt);"')],
  "automatic rolling and a received counter that is ahead of the expected one (a lost frame)", "the roll error is not set",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ rc : 0|4@1+ (1,0) [0|0] "" A\n\nCM_ SG_ 1 rc "<RollingCounter>";\n')
r = run(o, r"""
#include <stdio.h>
#include "drv.h"
int main(void){ uint8_t d[8]={3}; static M_t m; Unpack_M_drv(&m,d,8); d[0]=6; Unpack_M_drv(&m,d,8); printf("%u\n",(unsigned)m.mon1.roll_error); return 0; }""", defs=["DRV_USE_DIAG_MONITORS", "DRV_AUTO_ROLL"], files=["usr/drv-fmon.c"])
if r != ["1"]: fail("no roll error after a lost frame")
''')

seed("c17-large", "C17",
  [("helpers/formatter.cpp", "strstrm << std::fixed << std::setprecision(10) << value;", "strstrm << (value < 1e12 ? std::fixed : std::scientific) << std::setprecision(10) << value;")],
  "a decimal scaled signal with an offset above 10^12", "the offset is written with an exponent that is cut off",
r'''
o = gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (0.5,2000000000000) [0|0] "" A\n')
h = read(o, "lib", "drv.h")
if "- (2000000000000.0)" not in h: fail("wrong offset")
''')

seed("c19-hundred", "C19",
  [("codegen/fs-creator.cpp", "dirnum < 1000", "dirnum < 100")],
  "output without -rw into a folder that already has the directories 000 to 099", "nothing is generated",
r'''
import os
o = os.path.join(TMP, "many"); os.makedirs(o)
for i in range(100): os.mkdir(os.path.join(o, "%03d" % i))
gen('VERSION ""\nBU_: A\nBO_ 1 M: 8 A\n SG_ s : 0|8@1+ (1,0) [0|0] "" A\n', opts=(), out=o)
if not os.path.exists(os.path.join(o, "100", "lib", "drv.h")): fail("directory 100 was not used")
''')
