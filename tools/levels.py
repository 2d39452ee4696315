#!/usr/bin/env python3-vt
"""writes tools/levels.json: level, technique and note per property (the notes name what is trusted beyond the proved contracts)"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification: contracts and loop invariants on the real C++ functions, obligations generated from clang's AST of the current source by cppvc and discharged by z3; bounded runs of the real tool stand in for what is not proved"
BASE = "Every obligation of the named functions is discharged for all inputs and iterations; a function changed out of the verifier's reach is decided by the bounded runs only and reported so in the evidence. Trusted: cppvc itself, clang's AST, z3, the models of the C++ library it lists, the standard C meaning of the printed code. "
N = {
 "C01": "PrintSignalExpr, BuildCConvertExprs, LoadMessage(s), WriteUnpackBody, Gen_MainSource (sign extension), ParseSignalLine.",
 "C02": "PrintSignalExpr, BuildCConvertExprs, WritePackStructBody, WritePackArrayBody, PrintPackCommonText, Gen_MainHeader (attribute macros).",
 "C03": "the same contracts as C01 and C02: both directions are proved against one bit-exact meaning of a signal, from which the round trip of non-overlapping signals follows.",
 "C04": "PrintSignalExpr (error text exactly when a bit lies outside, all index accesses inside), WriteUnpackBody, BuildCConvertExprs.",
 "C05": "GetSigType (all lengths 1..64), PrintType, WriteSigStructField.",
 "C06": "GetSigType for |factor|, |offset| <= 2^31-1.",
 "C07": "PrintPhysicalToRaw, the pack/unpack bodies and Gen_MainHeader. One finding is listed (D25: the macros are keyed by signal name only). The decimal formula is proved as text, not its floating-point result.",
 "C08": "FillTreeLevel (induction over the ID range), ConditionalTree::WriteCode (induction over the tree), Generate, PrintSource.",
 "C09": "GenerateCode, CiUtilGenerator::Generate/PrintHeader/PrintSource, AddMessage, ParseMultiTrans. std::sort by its contract. One finding is listed (NODECASE).",
 "C10": "IsMessageLine, ParseMessageLine, ParseMultiTrans, ParseMessageInfo, Gen_MainHeader. Regular expressions as modelled in rx.py (validated against std::regex by tools/rxcheck.py).",
 "C11": "IsSignalLine, ParseSignalLine, ParseMessageInfo. atof and std::regex are trusted; the regex model is validated by tools/rxcheck.py.",
 "C12": "ParseCommentLine, ParseAttributeLine, ParseValTableLine, ParseOtherInfo, find_message and the printing functions. One finding is listed (MLKEY).",
 "C13": "AddMessage, ParseMessageInfo, Gen_MainHeader, the pack bodies' initial loop.",
 "C14": "WriteUnpackBody, both pack bodies (every width 1..64), ParseOtherInfo.",
 "C15": "ParseOtherInfo, BuildCConvertExprs, both pack bodies, WriteUnpackBody. GetFrameHash is the user's function.",
 "C16": "make_c_name (induction over the text).",
 "C17": "prt_double; trusted: a classic-locale fixed stream of precision P prints a finite double correct to half a unit of the last digit.",
 "C18": "main, OptionsParser::GetOptions (inductive over every argument vector), CoderApp::Run.",
 "C19": "FsCreator::Configure and PrepareDirectory, CiMainGenerator::Generate, GenerateCode, CombinePath. The file system's answers are arbitrary but one per name.",
 "C20": "Gen_MainHeader, WriteSigStructField, GetCommentText, Configure: the text is split off as comments and the rest is compared. One finding is listed (MLKEY); trigraphs and bare carriage returns are outside.",
 "C21": "FindVersion, TrimDbcText, Gen_MainHeader, Gen_MainSource, CiUtilGenerator::PrintSource, CiMainGenerator::Generate.",
 "C22": "WriteUnpackBody, Gen_FMonHeader/FillHeader, Gen_FMonSource/FillSource, Gen_CanMonUtil.",
}
json.dump({k: {"level": "proof", "technique": TECH, "note": BASE + "Functions: " + v} for k, v in N.items()}, open(os.path.join(H, "levels.json"), "w"), indent=1)
