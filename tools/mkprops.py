#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SIGP = "src/codegen/c-sigprinter.cpp"; MAIN = "src/codegen/c-main-generator.cpp"; UTIL = "src/codegen/c-util-generator.cpp"
TREE = "src/codegen/conditional-tree.cpp"; LINE = "src/parser/dbclineparser.cpp"; SCAN = "src/parser/dbcscanner.cpp"
FMT = "src/helpers/formatter.cpp"; OPT = "src/options-parser.cpp"; FS = "src/codegen/fs-creator.cpp"; APP = "src/app.cpp"
FW = "src/codegen/filewriter.cpp"; MON = "src/codegen/mon-generator.cpp"; CFG = "src/codegen/config-generator.cpp"

p("C01", "Unpack decodes every signal to exactly its raw value",
  "For every message and every signal of 1 to 64 bits that lies inside the message's payload (Intel or Motorola order, any start bit, payloads of 1 to 64 bytes), the generated Unpack function stores in the signal's field the value of exactly that signal's bits in DBC bit order, zero-extended for an unsigned signal and sign-extended for a signed one, whatever the other payload bits are. For signed signals this is under the documented condition that the user's bitext_t/ubitext_t hold the widest signed signal (64-bit types always do).",
  ["inputs", "programs"], "every signal layout (order x start bit x length x DLC x signedness), every payload",
  "No test generates code at all: the suite covers line parsing, options and sign extension of a hand-copied helper. A layout space of thousands of (order, start, length, DLC) combinations times all payloads cannot be sampled meaningfully.",
  [SIGP, MAIN, "src/types/message.h"],
  [("CSigPrinter::PrintSignalExpr", SIGP), ("CSigPrinter::BuildCConvertExprs", SIGP), ("CiMainGenerator::WriteUnpackBody, extend_func_body", MAIN)],
  ["lib/<drv>.c: Unpack_<msg>_<drv>"])
p("C02", "Pack writes exactly each signal's own bits and the frame attributes",
  "For every message whose signals lie inside its payload, the generated Pack function, in both its array and its frame-struct form, sets each payload bit to the OR of the bits of the signal values placed there (each signal contributing its low length bits at its own position and nothing elsewhere) and to 0 where no signal lies, writes no byte at or past the message's DLC, and reports exactly the message's ID, DLC and IDE flag.",
  ["inputs", "programs"], "every set of signal layouts inside the payload, every value of every field, both call forms",
  "No test generates or runs packing code.",
  [SIGP, MAIN], [("CSigPrinter::PrintSignalExpr / AppendToByteLine", SIGP), ("CSigPrinter::BuildCConvertExprs", SIGP), ("CiMainGenerator::WritePackStructBody/WritePackArrayBody/PrintPackCommonText", MAIN)],
  ["lib/<drv>.c: Pack_<msg>_<drv>"])
p("C03", "Packing and then unpacking returns the same raw signal values",
  "For every message whose signals lie inside its payload and do not overlap, and for every assignment of in-range raw values to its fields, unpacking the bytes produced by the generated Pack yields the same raw values in every field.",
  ["inputs", "programs"], "every non-overlapping layout and every assignment of raw values",
  "No test runs the generated code; the property relates two independently generated expressions over the whole layout space.",
  [SIGP, MAIN], [("to_signals / to_bytes expression pairs built by CSigPrinter", SIGP), ("Unpack/Pack bodies", MAIN)],
  ["Pack_<msg>_<drv> followed by Unpack_<msg>_<drv>"])
p("C04", "A signal that does not fit its message never yields working code",
  "When any bit of a signal (of 1 to 64 bits, start bit below 2^31) lies outside its message's payload, the generator terminates normally without touching memory outside its own buffers, and the driver source it writes for that message does not compile (it carries the 'Dlc of this message must be greater' error text) instead of silently decoding or encoding other bits.",
  ["inputs"], "every signal layout (either order, any 31-bit start bit, every length 1..64) against every DLC",
  "No test feeds an ill-fitting signal; out-of-range accesses depend on the exact combination of order, start bit, length and DLC.",
  [SIGP], [("range guards in CSigPrinter::PrintSignalExpr", SIGP)], ["lib/<drv>.c", "exit status of coderdbc"])
p("C05", "Raw fields use the narrowest integer type that holds the signal",
  "Every signal of 1 to 64 bits gets, as type of its raw struct field, the narrowest of the 8/16/32/64-bit integer types that can represent all of its raw values, signed exactly when the DBC declares the signal signed.",
  ["inputs"], "every length 1..64 and both signednesses, whatever factor and offset",
  "The unit tests check a handful of (length, sign, factor, offset) rows.",
  [LINE, MAIN, FMT], [("DbcLineParser::GetSigType", LINE), ("PrintType", FMT), ("WriteSigStructField", MAIN)], ["struct fields in lib/<drv>.h"])
p("C06", "Integer physical fields can represent every physical value",
  "For every signal of up to 32 bits with integer factor (non-zero) and integer offset, both of magnitude up to 2^31-1 and not both trivial, the integer type chosen for its physical field can represent raw*factor+offset for every raw value of the signal, and it is a signed type whenever some physical value is negative.",
  ["inputs"], "every length, signedness, integer factor and integer offset",
  "The unit tests check a few rows of (length, sign, factor, offset); wrong narrowing shows only at particular extremes.",
  [LINE, MAIN], [("DbcLineParser::GetSigType", LINE), ("WriteSigStructField", MAIN)], ["<sig>_phys fields in lib/<drv>.h"])
p("C07", "Generated physical conversions implement factor and offset exactly",
  "For every integer-scaled signal (integer factor and offset of magnitude up to 2^31-1, up to 32 bits), the generated conversions give physical = raw*factor+offset exactly for every raw value, and converting back gives the same raw value. For decimal-scaled signals the generated macros apply the DBC factor and offset in the same formula, with the inverse formula for the way back.",
  ["inputs", "programs"], "every length, signedness, factor, offset and raw value",
  "No test generates the conversion macros; C integer promotion and overflow make errors visible only for particular widths and extremes.",
  [SIGP, MAIN, LINE], [("CSigPrinter::PrintPhysicalToRaw", SIGP), ("WriteUnpackBody / PrintPackCommonText phys sections", MAIN)], ["<DRV>_<sig>_fromS / _toS in lib/<drv>.h", "USE_SIGFLOAT sections of lib/<drv>.c"])
p("C08", "Receive routes each frame to exactly its own Unpack function",
  "For any number of receive-mapped messages with distinct IDs, the generated <drv>_Receive, given any 32-bit ID, calls exactly the Unpack function of the message with that ID on that message's own struct member with the given data and length and returns its result, and when no mapped message has that ID it calls nothing and returns 0.",
  ["inputs", "programs"], "every set of distinct message IDs of every size, every received ID",
  "No test generates the dispatcher; its binary-search shape depends on the number and order of messages.",
  [UTIL, TREE], [("CiUtilGenerator::FillTreeLevel", UTIL), ("ConditionalTree::WriteCode", TREE), ("CiUtilGenerator::PrintSource", UTIL)], ["butl/<drv>-binutil.c: <drv>_Receive"])
p("C09", "Each node's util driver maps exactly that node's RX and TX messages",
  "With -nodeutils, a util driver is produced for every node name that appears as sender or receiver of a message (the placeholder Vector__XXX counting as a name), its rx struct holds exactly the non-empty messages having that node among the receivers of one of their signals and its tx struct exactly the non-empty messages having that node as transmitter (on the message line or in BO_TX_BU_), each once. Without -nodeutils, one util driver maps every non-empty message as rx and none as tx.",
  ["inputs"], "every DBC: all assignments of transmitters and receivers to messages and nodes",
  "No test runs the application or the util generator.",
  [APP, UTIL, SCAN, LINE], [("CoderApp::GenerateCode node grouping", APP), ("CiUtilGenerator::Generate", UTIL), ("DbcScanner::AddMessage / ParseMessageInfo", SCAN), ("ParseMultiTrans", LINE)], ["butl/<node>_<drv>-binutil.h"])
p("C10", "Message lines yield the right name, ID, frame type, DLC and sender",
  "For every well-formed 'BO_ id name: dlc sender' line, the driver defines for that message exactly the given name, the low 29 bits of the id as CANID, IDE 1 if and only if bit 31 of the id is set, and the given DLC, and records the sender. A line whose dlc is 0 or above 64, or whose id has one of the bits 29/30 set, produces no message.",
  ["inputs"], "every 32-bit id, every dlc, every identifier as name and sender",
  "The unit tests parse a few literal lines.",
  [LINE, SCAN, MAIN], [("DbcLineParser::ParseMessageLine, clear_msgid", LINE), ("DbcScanner::ParseMessageInfo", SCAN), ("Gen_MainHeader", MAIN)], ["<msg>_CANID/_IDE/_DLC macros"])
p("C11", "Signal lines are read field for field",
  "For every well-formed signal line, name, multiplex mark, start bit, length, byte order, sign, factor, offset, unit and all receivers are taken over unchanged. The signal is treated as plain when factor is 1 and offset is 0 without decimal notation, as decimal-scaled when factor or offset is written with a decimal point or exponent, and as integer-scaled otherwise, and only non-plain signals get the _ro/_phys field pair.",
  ["inputs"], "every well-formed SG_ line",
  "The unit tests parse a few literal lines.",
  [LINE], [("DbcLineParser::ParseSignalLine", LINE), ("resplit, trim", LINE)], ["DbcLineParser::ParseSignalLine", "struct fields in lib/<drv>.h"])
p("C12", "Comments, cycle times and value tables attach only to their target",
  "A message comment, signal comment, cycle-time attribute or value table is applied to the message with exactly that id (its low 29 bits) and, where a signal is named, to exactly the signal of that name in it, with its text (apart from white space at line ends) and its values (32-bit integers) unchanged. When no such message or signal exists, nothing in the driver is changed by it.",
  ["inputs"], "every DBC: all message sets, all targets present or absent",
  "Tests parse single CM_/BA_/VAL_ lines and never look at how results are attached to messages.",
  [SCAN, LINE], [("find_message", SCAN), ("DbcScanner::ParseOtherInfo", SCAN), ("ParseCommentLine/ParseAttributeLine/ParseValTableLine", LINE)], ["lib/<drv>.h comments, _CYC macros, value macros"])
p("C13", "Every payload byte of every message is initialised before packing",
  "The generated default <DRV>_MAX_DLC_VALUE equals the largest DLC of all messages in the DBC, wherever in the file that message stands, so that with default configuration every generated Pack sets all DLC payload bytes of its message before placing signals, for any previous buffer content.",
  ["inputs", "programs"], "every sequence of messages and DLCs, every previous buffer content",
  "No test computes or uses the maximum DLC.",
  [SCAN, MAIN], [("DbcScanner::ParseMessageInfo maxDlcValue", SCAN), ("Gen_MainHeader MAX_DLC / VALIDATE_DLC", MAIN), ("PrintPackCommonText initialisation loop", MAIN)],
  ["<DRV>_MAX_DLC_VALUE", "Pack_<msg>_<drv>"], [("maxDlcValue", "largest DLC seen so far", SCAN)])
p("C14", "Rolling counters count and are checked modulo their own width",
  "For an unsigned unscaled signal of any width 1 to 64 bits marked <RollingCounter>, with automatic rolling enabled, each Pack first advances the counter by one modulo 2^width and transmits it, and each Unpack sets the roll error flag exactly when the received counter differs from the expected one and then expects received+1 modulo 2^width. Without the marker or with the option off no counter field is touched.",
  ["inputs", "histories", "configurations"], "every width, every counter value, every sequence of pack/unpack calls",
  "No test generates or runs rolling counter code.",
  [MAIN, SCAN], [("marker detection in ParseOtherInfo", SCAN), ("WriteUnpackBody / PrintPackCommonText rolling sections", MAIN)], ["AUTO_ROLL sections of lib/<drv>.c"])
p("C15", "Checksum signals are detected, computed, placed and compared correctly",
  "A comment containing <Checksum:METHOD:OPTION> (not preceded by another '<') on an unsigned plain signal that lies within one byte makes that signal the message's checksum; with automatic checksums enabled, Pack computes GetFrameHash with that METHOD and OPTION, the message's DLC and ID over the payload with the checksum bits zero, and puts the result in exactly the checksum bits, and Unpack sets the checksum error flag exactly when the received checksum field differs from the computed hash. Signals that cross a byte boundary, are signed or are scaled are not treated as checksums.",
  ["inputs", "configurations"], "every checksum signal layout, payload, method text and option",
  "No test covers the marker or the generated checksum code.",
  [SCAN, SIGP, MAIN], [("checksum marker in ParseOtherInfo", SCAN), ("CsmToByteExpr/CsmByteNum in BuildCConvertExprs", SIGP), ("AUTO_CSM sections", MAIN)], ["AUTO_CSM sections of lib/<drv>.c"])
p("C16", "Names derived from free text are valid C identifiers",
  "For every input text, the name derived for a value-table entry or the driver consists only of letters, digits and underscores and does not start with a digit, keeps every character that is already legal in order, turns spaces into underscores and drops everything else; an already valid identifier is unchanged.",
  ["inputs"], "every byte string",
  "The unit tests check a few literal strings.",
  [FMT, LINE, OPT], [("make_c_name", FMT)], ["value macros in lib/<drv>.h", "driver name"])
p("C17", "Decimal factors and offsets are printed to nine decimals",
  "For every finite value the decimal literal written into generated code is that value in plain positional notation with '.' as decimal point whatever the locale, correct to within 1e-9, without exponent and without superfluous trailing zeros but always with a decimal part.",
  ["inputs"], "every finite double",
  "Tests print a few values.",
  [FMT], [("prt_double", FMT)], ["_CovFactor/_toS/_fromS macros in lib/<drv>.h"])
p("C18", "Command line options are recognised in any order",
  "For every argument vector, -dbc, -out and -drvname take the following argument that does not start with '-' as their value, the flags -rw, -nodeutils, -help, -noinc, -noconfig, -nofmon, -driverdir and -gendate set exactly their own option whatever their position, unknown options and stray values change nothing, and code is generated only when -dbc, -out and a usable -drvname are given and -help is not.",
  ["inputs"], "every argument vector",
  "The unit tests try a few literal argument vectors.",
  [OPT, APP], [("OptionsParser::GetOptions", OPT), ("CoderApp::AreParamsValid", APP)], ["OptionsParser::GetOptions", "files produced"])
p("C19", "Output goes to the selected place under the documented names",
  "With -rw all files are written directly below the output directory (below its driver-name subdirectory with -driverdir), without -rw below the first free three-digit subdirectory 000, 001, ... so that files of earlier generations are left untouched. The file set and names are lib/<drv>.h/.c/-fmon.h, usr/<drv>-fmon.c, conf/<drv>-config.h and dbccodeconf.h, inc/canmonitorutil.h and butl/*-binutil.h/.c in lower case, where -nofmon, -noconfig and -noinc suppress exactly their own files.",
  ["inputs", "histories", "configurations"], "every driver name, output path, option combination and previous directory content",
  "No test runs generation.",
  [FS, APP, MAIN, FW], [("FsCreator::Configure / PrepareDirectory", FS), ("CoderApp::GenerateCode", APP), ("CiMainGenerator::Generate", MAIN), ("FileWriter::Flush", FW)], ["directory tree below -out"])
p("C20", "DBC free text stays inside comments of the generated code",
  "Whatever characters (other than a bare carriage return) a comment, unit or value description contains, its text appears in the generated sources only inside comments, line by line, so that the declarations and code around it are the same as if the text were absent.",
  ["inputs"], "every comment, unit and value description text",
  "No test generates code from comments.",
  [MAIN, LINE, SCAN], [("CommentText/ValueText/Unit emission in Gen_MainHeader and WriteSigStructField", MAIN)], ["lib/<drv>.h"])
p("C21", "Generated files carry the DBC version and refuse to mix",
  "The VERSION line's two numbers (0 and 0 when absent) are the values of the generated VER_<DRV>_MAJ and VER_<DRV>_MIN macros, and every generated source that checks them compiles exactly when the included driver header carries the same two numbers.",
  ["inputs"], "every version line, every pair of versions",
  "No test parses a version or generates code.",
  [SCAN, MAIN, UTIL, MON], [("ParseVersionLine / FindVersion", SCAN), ("version macros and #if/#error gates", MAIN), ("PrintSource gate", UTIL)], ["lib/<drv>.h, lib/<drv>.c, butl/*-binutil.c"])
p("C22", "Diagnostic monitor bookkeeping is done on every unpack",
  "With diagnostic monitors enabled, every Unpack call sets the message's dlc_error exactly when the given length is below the message's DLC, stores the current tick, increments the frame counter by one, and calls that message's FMon function exactly once, after the flags are set, with the message's own monitor and CANID. Every FMon function used is declared and has a default definition, in both the per-message and the MONO configuration.",
  ["inputs", "histories", "configurations"], "every message, every length argument, every call sequence, both FMon configurations",
  "No test generates monitor code.",
  [MAIN, MON], [("WriteUnpackBody monitor section", MAIN), ("MonGenerator::FillHeader / FillSource", MON)], ["USE_DIAG_MONITORS sections of lib/<drv>.c", "<drv>-fmon.h/.c"])
p("C23", "Decimal-scaled physical values survive the way to raw and back",
  "For every decimal-scaled signal, converting a raw value to its physical value and back yields the same raw value.",
  ["inputs"], "every factor, offset, length and raw value, for every sigfloat_t the user chooses",
  "Depends on floating-point rounding for every factor/offset pair.",
  [SIGP], [("CSigPrinter::PrintPhysicalToRaw decimal branch", SIGP)], ["<DRV>_<sig>_toS/_fromS"])
p("C24", "Arbitrary input bytes never crash or hang the generator",
  "For every byte sequence given as DBC file, generation terminates with exit status 0 without memory errors.",
  ["inputs"], "every byte sequence",
  "Tests only use well-formed lines.",
  [LINE, SCAN], [("std::regex based line splitting", LINE)], ["exit status of coderdbc"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
