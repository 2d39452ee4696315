From 5fdd2721781b431e0e0f08443271106203efd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 01/24] fix: widen shifted bytes of signals crossing bit 32
 before the shift

A chunk shifted by 25..31 bits was still shifted in 32 bit arithmetic, so the
top bits of 33..39 bit wide signals were lost in the Unpack functions.
---
 src/codegen/c-sigprinter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..01b5786 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -232,8 +232,9 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
+    if (slen + bbc > 32)
     {
+      // the shifted part does not fit into 32 bits
       t64 = "(uint64_t)";
     }
 
@@ -273,8 +274,9 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
+        if (slen + 8 > 32)
         {
+          // the shifted part does not fit into 32 bits
           t64 = "(uint64_t)";
         }
 
-- 
2.43.0


From 946b23e66dc02f223e9fa75fde615908deced435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 02/24] fix: build the sign bit of __ext_sig__ in ubitext_t

1u << (bits - 1u) is undefined for signals wider than 32 bits even when
ubitext_t is a 64 bit type.
---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..d92716f 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = ((ubitext_t) 1u) << (bits - 1u);\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From a58d41d2a648b6d27bb9bdabbecc0658c97d7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 03/24] fix: detect every signal that does not fit into its
 message

The bound check was off by one and missing for the last partial byte, so a
Motorola signal running past the DLC wrote outside of to_bytes. The start bit was
also truncated to 16 bits and clamped to 511, which moved ill-fitting signals
onto other bits instead of reporting them.
---
 src/codegen/c-sigprinter.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 01b5786..fc10c85 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -188,13 +188,8 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return "Error in DBC file !!!! Dlc of this message must be greater.";
   }
 
-  uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
-    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
-
-  if (startb > CONF_LIMIT_HIGHEST_BIT_POSITION)
-  {
-    startb = CONF_LIMIT_HIGHEST_BIT_POSITION;
-  }
+  uint32_t startb = (sig->Order == BitLayout::kIntel) ?
+    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit);
 
   uint32_t bn = (startb / 8);
 
@@ -252,7 +247,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
+      if (to_bytes.size() <= bn)
       {
         // DLC from message doesn't fit to signal layout
         // make code uncomplilable
@@ -292,6 +287,14 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     {
       bn = ShiftByte(sig, bn);
 
+      if (to_bytes.size() <= bn)
+      {
+        // DLC from message doesn't fit to signal layout
+        // make code uncomplilable
+        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
+        return to_bytes[0];
+      }
+
       snprintf(workbuff, WBUFF_LEN, " | ((_d[%d] >> %dU) & (%s))", bn, 8 - slen, msk[slen].c_str());
       tosigexpr += workbuff;
 
-- 
2.43.0


From 81efe349cbcff1771a38a190ad320838430c378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 04/24] fix: support checksum signals placed behind byte 7

The expression of the checksum signal was always built for an 8 byte frame.
---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index fc10c85..9923a45 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -159,11 +159,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From 78f510d686f3655fa532de56445b3c68ffb0c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 05/24] fix: rolling counter mask for counters of 31 bits and
 wider

(1 << LengthBit) - 1 overflows int, a 32 bit counter got the mask 0.
---
 src/codegen/c-main-generator.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index d92716f..90d9676 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,12 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+// returns the mask which covers all the bits of a signal with given width
+static unsigned long long GetWidthMask(uint8_t bits)
+{
+  return (bits < 64u) ? ((1ull << bits) - 1ull) : (~0ull);
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -739,8 +745,8 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
-    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), GetWidthMask(sgs->msg.RollSig->LengthBit));
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -804,8 +810,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   if (sgs->msg.RollSig != nullptr)
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
-    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), GetWidthMask(sgs->msg.RollSig->LengthBit));
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
-- 
2.43.0


From b1b111c70fe17368c85b3c9f52018b5ffef7f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 06/24] fix: find_message returned the last message for unknown
 IDs

Comments, attributes, value tables and transmitters of an unknown message were
attached to the last message of the list.
---
 src/parser/dbcscanner.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..c26a479 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -10,25 +10,16 @@
 
 MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID)
 {
-  MessageDescriptor_t* ret = nullptr;
-
-  if (msgs.size() == 0)
-  {
-    return ret;
-  }
-
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    ret = msgs[i];
-
-    if (ret->MsgID == ID)
+    if (msgs[i]->MsgID == ID)
     {
       // Frame found
-      break;
+      return msgs[i];
     }
   }
 
-  return ret;
+  return nullptr;
 }
 
 DbcScanner::DbcScanner()
-- 
2.43.0


From 009fdcb6705a6dad3e6e4bfa7a219cfa862a8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 07/24] fix: take the last message into account for the max DLC
 value

The maximum was only updated when the next message line was found, so a longer last
message (or the only one) was packed into a partly uninitialised buffer.
---
 src/parser/dbcscanner.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index c26a479..a8b1f62 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -34,6 +34,7 @@ DbcScanner::~DbcScanner()
 int32_t DbcScanner::TrimDbcText(istream& readstrm)
 {
   dblist.msgs.clear();
+  dblist.maxDlcValue = 0u;
   dblist.ver.hi = dblist.ver.low = 0;
 
   readstrm.clear();
@@ -71,12 +72,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -302,6 +297,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
       }
     }
 
+    // check DLC value for being max
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     // save pointer on message
     dblist.msgs.push_back(message);
   }
-- 
2.43.0


From 96d7702fbdeb16a1b06db55ffb6fea47c4744e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 08/24] fix: crash on long rolling counter names

The name of the <counter>_expt field was not taken into account for the padding of
the struct fields, the padding length underflowed and std::length_error was thrown.
---
 src/codegen/c-main-generator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 90d9676..5932449 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -229,6 +229,12 @@ void CiMainGenerator::Gen_MainHeader()
       }
     }
 
+    if (m.RollSig != nullptr)
+    {
+      // expected value of the rolling counter has longer name
+      max_sig_name_len = std::max(max_sig_name_len, m.RollSig->Name.size() + 5);
+    }
+
     fwriter.Append();
     fwriter.Append("typedef struct");
     fwriter.Append("{");
-- 
2.43.0


From bb1f7da2c7c5e884746b730ba1e9ce1936ae4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 09/24] fix: check the DLC range before it is cut to 8 bits

A DLC of 264 was accepted as 8.
---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..65f6fd8 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -135,13 +135,15 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
 
-  msg->DLC = atoi(items[4].c_str());
+  auto dlc = atoi(items[4].c_str());
 
-  if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if ((msg->MsgID & 0x60000000) != 0 || dlc <= 0 || dlc > static_cast<int>(CONF_LIMIT_MAX_DLC))
   {
     return false;
   }
 
+  msg->DLC = static_cast<uint8_t>(dlc);
+
   msg->IsExt = ((uint8_t)(msg->MsgID >> 29) & 0x04) == 0x04 ? 1 : 0;
 
   msg->MsgID = clear_msgid(msg->MsgID);
-- 
2.43.0


From 8dfd4d0d6acd8b9420b56397ff10ab8c0245893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 10/24] fix: comment text ending with a backslash swallowed the
 next code line

---
 src/codegen/c-main-generator.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 5932449..4a4ba7f 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,15 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+// prepares multiline text for printing inside the '//' comments
+static std::string GetCommentText(const std::string& text, const std::string& prefix)
+{
+  // backslash at the end of the line would splice the next code line to the comment
+  auto ret = std::regex_replace(text, std::regex("\\\\(?=\\s*(\n|$))"), "\\.");
+  // start each line with the comment prefix
+  return std::regex_replace(ret, std::regex("\n"), "\n" + prefix);
+}
+
 // returns the mask which covers all the bits of a signal with given width
 static unsigned long long GetWidthMask(uint8_t bits)
 {
@@ -161,7 +170,7 @@ void CiMainGenerator::Gen_MainHeader()
     if (m.CommentText.size() > 0)
     {
       // replace all '\n' on "\n //" for c code comment text
-      fwriter.Append("// " + std::regex_replace(m.CommentText, std::regex("\n"), "\n// "));
+      fwriter.Append("// " + GetCommentText(m.CommentText, "// "));
     }
 
     fwriter.Append("// def @%s CAN Message (%-4d %#x)", m.Name.c_str(), m.MsgID, m.MsgID);
@@ -571,12 +580,12 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 {
   if (sig.CommentText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.CommentText, std::regex("\n"), "\n  // "));
+    fwriter.Append("  // " + GetCommentText(sig.CommentText, "  // "));
   }
 
   if (sig.ValueText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.ValueText, std::regex("\n"), "\n  // "));
+    fwriter.Append("  // " + GetCommentText(sig.ValueText, "  // "));
   }
 
   if (sig.Multiplex == MultiplexType::kMulValue)
-- 
2.43.0


From 77e978262dc4da02d5c54ce7f1e136edcd65b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 11/24] fix: str_trim removed trailing non ASCII characters

---
 src/helpers/formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..51ca7b5 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -87,7 +87,7 @@ std::string str_trim(std::string s)
 
   while (passed < s.size())
   {
-    if (s[s.size() - passed - 1] > ' ')
+    if (static_cast<unsigned char>(s[s.size() - passed - 1]) > ' ')
     {
       break;
     }
-- 
2.43.0


From 02eab02d5e76c214e5694af918dfdcf8951d0ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 12/24] fix: wrong length of the checksum marker text

Text behind the marker was parsed as a part of the checksum option when the marker
is not at the very beginning of the comment.
---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index a8b1f62..25ef950 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -196,7 +196,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From 20d95dd175ee3451553e297951df4c9bc01cb486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 13/24] fix: value tables of scaled signals were lost

Scaled signals are stored under their _ro name, which was only considered for
comments.
---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 25ef950..6757a8b 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -240,7 +240,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 38860bd8c1d8eaa2e509b8b3e90b783a61005fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 14/24] fix: transmitters of the message with ID 0 were ignored

---
 src/parser/dbclineparser.cpp | 7 ++-----
 src/parser/dbcscanner.cpp    | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 65f6fd8..3693d6c 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -161,12 +161,9 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
   {
     ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
 
-    if (ret != 0)
+    for (size_t i = 2; i < chunks.size(); i++)
     {
-      for (size_t i = 2; i < chunks.size(); i++)
-      {
-        outnodes.push_back(chunks[i]);
-      }
+      outnodes.push_back(chunks[i]);
     }
   }
 
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 6757a8b..684ee8d 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -113,7 +113,7 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
     uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
 
-    if (msgid != 0)
+    if (!tx_nodes.empty())
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From 15e4a0a12af57ec16461d23258b8f6fa6c5851b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 15/24] fix: transmitter with one letter name was ignored

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 3693d6c..e6ed99b 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -126,7 +126,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (!txname.empty())
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From 352c6462590fcb628d65826c50e6fbb526751e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 16/24] fix: multi line comments with a line ending with ';'
 were lost

---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index e6ed99b..63a15e8 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <algorithm>
 #include <clocale>
 #include <regex>
 #include <math.h>
@@ -445,8 +446,9 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       commentline += '\n' + line;
     }
 
-    // check if the current line last
-    if (commentline.size() > 0 && line.back() == ';')
+    // check if the current line last (semicolon inside of the quoted text does not finish the comment)
+    if (commentline.size() > 0 && line.back() == ';'
+      && std::count(commentline.begin(), commentline.end(), '"') != 1)
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
-- 
2.43.0


From 8fed3726d1df5fa500118dd0f255dcd33a6f1785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 17/24] fix: too narrow physical type for signals with negative
 factor

---
 src/parser/dbclineparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 63a15e8..6a96bf6 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -384,6 +384,12 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
     max_abs = max_abs * i_factor + i_offset;
     min_abs = min_abs * i_factor + i_offset;
 
+    if (max_abs < min_abs)
+    {
+      // negative factor turns the range over
+      std::swap(max_abs, min_abs);
+    }
+
     if (sig->Signed || max_abs < 0 || min_abs < 0)
     {
       // phys value must be signed
-- 
2.43.0


From 87168d12f076eaa1e216b07882ad691440457308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 18/24] fix: integer physical conversions overflowed 32 bit
 arithmetic

The _toS and _fromS macros of integer scaled signals were calculated in the promoted
type of the argument, so for example a 32 bit raw value with a negative offset or a
16 bit value with a big factor was converted to a wrong physical value.
---
 src/codegen/c-sigprinter.cpp | 47 +++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 9923a45..2a658aa 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -16,6 +16,38 @@ static inline int32_t ShiftByte(const SignalDescriptor_t* sig, int32_t bn)
   return (sig->Order == BitLayout::kIntel) ? (bn - 1) : (bn + 1);
 }
 
+// returns true when conversion of an integer scaled signal can not be done safely
+// by plain 'int' arithmetic (some of the values don't fit to the 32-bit integer)
+static bool NeedWideConversion(const SignalDescriptor_t* sig)
+{
+  if (sig->IsDoubleSig || sig->LengthBit == 0 || sig->LengthBit > 32)
+  {
+    // floating point conversion or the types of the signal are already wide
+    return false;
+  }
+
+  if (sig->TypeRo == SigType::u32 || sig->TypePhys == SigType::u32)
+  {
+    // unsigned arithmetic is not applicable for negative factor and offset
+    return true;
+  }
+
+  const int64_t factor = (int64_t)sig->Factor;
+  const int64_t offset = (int64_t)sig->Offset;
+  const int64_t rawmin = sig->Signed ? -(1ll << (sig->LengthBit - 1)) : 0;
+  const int64_t rawmax = sig->Signed ? (1ll << (sig->LengthBit - 1)) - 1 : (1ll << sig->LengthBit) - 1;
+
+  for (const auto scaled : { rawmin * factor, rawmax * factor })
+  {
+    if (scaled < INT32_MIN || scaled > INT32_MAX || scaled + offset < INT32_MIN || scaled + offset > INT32_MAX)
+    {
+      return true;
+    }
+  }
+
+  return false;
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -58,6 +90,9 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   const std::string prtFactor = prt_double(sig->Factor, 9);
   const std::string prtOffset = prt_double(sig->Offset, 9);
 
+  // argument of the integer conversion, it has to be wide enough for all the intermediate values
+  const char* const arg = NeedWideConversion(sig) ? "(int64_t)(x)" : "(x)";
+
   retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
 
   if (sig->IsDoubleSig)
@@ -81,17 +116,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s / (%d)) )\n", arg, (int32_t)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s - (%d)) )\n", arg, (int32_t)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%d)) / (%d)) )\n", (int32_t)sig->Offset, (int32_t)sig->Factor);
+      retstr += StrPrint("((%s - (%d)) / (%d)) )\n", arg, (int32_t)sig->Offset, (int32_t)sig->Factor);
     }
   }
 
@@ -106,17 +141,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s * (%d)) )\n", arg, (int32_t)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s + (%d)) )\n", arg, (int32_t)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%d)) + (%d)) )\n", (int32_t)sig->Factor, (int32_t)sig->Offset);
+      retstr += StrPrint("((%s * (%d)) + (%d)) )\n", arg, (int32_t)sig->Factor, (int32_t)sig->Offset);
     }
   }
 
-- 
2.43.0


From f93d74315d05a46f582710a6284fce90d5f2fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 19/24] fix: crash on missing output directory without -rw

The output directory with driver name (-driverdir) does not exist for the first run,
so creating of the numbered directory inside of it failed with an exception.
---
 src/codegen/fs-creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..9b458cd 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -128,7 +128,7 @@ bool FsCreator::PrepareDirectory(bool rw)
 
       if (stat(work_dir_path.c_str(), &info) != 0)
       {
-        if (std::filesystem::create_directory(work_dir_path))
+        if (std::filesystem::create_directories(work_dir_path))
         {
           ret = true;
           break;
-- 
2.43.0


From 3e0516bb68ed8b157adb46dc8b9491a8573cc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 20/24] fix: without -rw the files were written outside of the
 numbered directory

The next free numbered directory was created but the files were still placed to the
base directory, so the previous generation was overwritten.
---
 src/codegen/fs-creator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 9b458cd..f46ae7b 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -150,6 +150,13 @@ bool FsCreator::PrepareDirectory(bool rw)
     }
   }
 
+  if (ret && !rw)
+  {
+    // all the files have to be placed in the selected directory
+    Configure(FS.gen.DrvName_orig, work_dir_path, FS.gen.start_common_info, FS.gen.start_driver_info,
+      FS.gen.hiver, FS.gen.lowver);
+  }
+
   std::filesystem::create_directory(FS.file.libdir);
   std::filesystem::create_directory(FS.file.usrdir);
   std::filesystem::create_directory(FS.file.incdir);
-- 
2.43.0


From 0f5cf78716cdcd1561e61868d3491caad71636e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 21/24] fix: crash when a file has the name of the numbered
 directory

---
 src/codegen/fs-creator.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index f46ae7b..5a7a779 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -141,11 +141,8 @@ bool FsCreator::PrepareDirectory(bool rw)
       }
       else
       {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
+        // the name is occupied by a file, try next num
+        continue;
       }
     }
   }
-- 
2.43.0


From abbb0e4faa48deea984dd8788cc47c38e45cd578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 22/24] fix: lines longer than 10000 characters were cut

---
 src/codegen/filewriter.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index ba27e10..b4fb6bf 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -1,24 +1,28 @@
 #include <iostream>
 #include <fstream>
+#include <vector>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <assert.h>
 #include "filewriter.h"
 
-template<size_t N = 10000>
-std::string __print_loc__(const char* format, va_list args)
+static std::string __print_loc__(const char* format, va_list args)
 {
-  char work_buff[N] = {0};
-  auto ret = vsnprintf(work_buff, N, format, args);
+  // get the full length of the line at first, any line has to be printed completely
+  va_list measure;
+  va_copy(measure, args);
+  auto len = vsnprintf(nullptr, 0, format, measure);
+  va_end(measure);
 
-  if (ret >= N)
+  if (len <= 0)
   {
-    std::cout << "Attention (!) the line has been shortened : " << std::endl;
-    std::cout << work_buff << std::endl;
+    return "";
   }
 
-  // make string from local array
-  return work_buff;
+  std::vector<char> work_buff(static_cast<size_t>(len) + 1u);
+  vsnprintf(work_buff.data(), work_buff.size(), format, args);
+
+  return std::string(work_buff.data(), static_cast<size_t>(len));
 }
 
 void FileWriter::Flush()
-- 
2.43.0


From df63f81a5d177073863a6f7e78824274ce04fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 23/24] fix: comments and value tables were applied to a signal
 with suffix '_ro' in name

---
 src/parser/dbcscanner.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 684ee8d..3c68d38 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -22,6 +22,12 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return nullptr;
 }
 
+// checks if the signal has the given name in DBC file ('_ro' is added to the names of scaled signals)
+static bool IsSignalNamed(const SignalDescriptor_t& sig, const std::string& name)
+{
+  return sig.Name == (sig.IsSimpleSig ? name : (name + "_ro"));
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -173,7 +179,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (IsSignalNamed(msg->Signals[i], cmmnt.SigName))
             {
               SignalDescriptor_t& sig = msg->Signals[i];
               // signal has been found, update commnet text
@@ -240,7 +246,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (IsSignalNamed(msg->Signals[i], cmmnt.SigName))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 4311994698b76420ff5d78a13f58e814c4a23d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 24/24] fix: signals with ' : ' in the unit text were dropped

---
 src/parser/dbclineparser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 6a96bf6..48d2907 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -181,21 +181,21 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
-  // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  // split line in two parts by the first delimiter (next ones may belong to the unit text)
+  std::smatch delim;
 
-  if (halfs.size() < 2)
+  if (!std::regex_search(line, delim, std::regex(kRegSigSplit1)))
   {
     return false;
   }
 
   // split tail
-  auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
+  auto tailpart = resplit(delim.suffix().str(), kregSigSplit2, -1);
 
   // split middle part on dedicated values
   auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
 
-  halfs = resplit(halfs[0], kRegValTable, 0);
+  auto halfs = resplit(delim.prefix().str(), kRegValTable, 0);
 
   if (halfs.size() >= 2)
   {
-- 
2.43.0

