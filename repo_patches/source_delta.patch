From 80f11c5314cad8a77ab4581ecf768cbf16ef7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 01/42] fix: the maximum DLC constant takes the last message
 into account

maxDlcValue was only updated when a following BO_ line was found, so the
last message (or the one before a BO_TX_BU_ line) never counted.
---
 src/parser/dbcscanner.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..7d2fe05 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -80,12 +80,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -311,6 +305,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
       }
     }
 
+    // check DLC value for being max among all the added messages
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     // save pointer on message
     dblist.msgs.push_back(message);
   }
-- 
2.43.0


From 7ef1aecab009b76015d2410ec2977aba6279c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 02/42] fix: Unpack no longer loses high bits of signals wider
 than 32 bits

The 64-bit cast was only emitted for shifts above 31, but a byte shifted
by 25..31 bits overflows a 32-bit int as well: its upper bits got lost or
its sign was extended over the higher bytes.
---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..0e72a31 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -232,7 +232,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
+    if ((slen + bbc) > 32)
     {
       t64 = "(uint64_t)";
     }
@@ -273,7 +273,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
+        if ((slen + 8) > 32)
         {
           t64 = "(uint64_t)";
         }
-- 
2.43.0


From dffbffbaa716a1c660f244cee7843c2bfaf82722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 03/42] fix: sign extension works for signals wider than 32
 bits

The sign mask was computed in 32 bits even when the user selects a 64-bit
ubitext_t, as the generated comment asks him to.
---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..c668d52 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = ((ubitext_t) 1u << (bits - 1u));\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From 2183ed7428d15d37100d3124cbc914c1d03c4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 04/42] fix: annotations of unknown messages do not land on the
 last message

find_message returned the last message of the list when no message had the
requested identifier.
---
 src/parser/dbcscanner.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 7d2fe05..de90fd3 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -10,25 +10,16 @@
 
 MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID)
 {
-  MessageDescriptor_t* ret = nullptr;
-
-  if (msgs.size() == 0)
-  {
-    return ret;
-  }
-
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    ret = msgs[i];
-
-    if (ret->MsgID == ID)
+    if (msgs[i]->MsgID == ID)
     {
       // Frame found
-      break;
+      return msgs[i];
     }
   }
 
-  return ret;
+  return nullptr;
 }
 
 DbcScanner::DbcScanner()
-- 
2.43.0


From d3740be308d850068affab5bf0859f6c86452d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 05/42] fix: a signal beyond the frame never crashes or gets
 moved into the frame

Motorola signals running over the end of the frame were only detected by
an off-by-one check inside the byte loop (and not at all for a partial last
byte), so to_bytes was accessed out of bounds. Start bits above 511 were
clamped, which silently placed such signals in byte 63 of a 64-byte frame.
---
 src/codegen/c-sigprinter.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 0e72a31..d6da207 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -188,17 +188,22 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return "Error in DBC file !!!! Dlc of this message must be greater.";
   }
 
-  uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
-    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
+  uint64_t startb = ((sig->Order == BitLayout::kIntel) ?
+    ((uint64_t)sig->StartBit + sig->LengthBit - 1) : (sig->StartBit));
 
-  if (startb > CONF_LIMIT_HIGHEST_BIT_POSITION)
+  // the highest byte of the frame which the signal occupies
+  uint64_t lastbn = (startb / 8);
+
+  if (sig->Order != BitLayout::kIntel)
   {
-    startb = CONF_LIMIT_HIGHEST_BIT_POSITION;
+    // count of bits which go to the bytes after the start one
+    int32_t tail = (int32_t)sig->LengthBit - (int32_t)(startb % 8 + 1);
+    lastbn += (tail > 0) ? ((tail + 7) / 8) : 0;
   }
 
-  uint32_t bn = (startb / 8);
+  uint32_t bn = (uint32_t)(startb / 8);
 
-  if (to_bytes.size() <= bn)
+  if (to_bytes.size() <= lastbn)
   {
     // DLC from message doesn't fit to signal layout
     // make code uncomplilable
@@ -251,14 +256,6 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
-      {
-        // DLC from message doesn't fit to signal layout
-        // make code uncomplilable
-        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
-        return to_bytes[0];
-      }
-
       tosigexpr += " | ";
 
       if (slen == 0)
-- 
2.43.0


From c78787eec84250c74921b53fef691c3b5d5a883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 06/42] fix: automatic checksum works in the bytes 8..63 of CAN
 FD frames

The byte expression of the checksum signal was searched in 8 bytes only; a
checksum in a later byte got the error text as its expression (and an
uninitialized byte number).
---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index d6da207..ea8a9d5 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -159,11 +159,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From 1b6ea35b1b61c78f5f7760135c85238c1ca61671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 07/42] fix: checksum marker is recognized at any place of a
 signal comment

The length of the marker substring was computed as if the marker stood at
the comment begin, and only the first '<' of the comment was considered, so
text before or after the marker made it unrecognized (or, with a further
':', part of the option).
---
 src/parser/dbcscanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index de90fd3..a2b552b 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -187,7 +187,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
               extern std::vector<std::string> resplit(const std::string & s, const std::string & rgx_str, int32_t submatch);
 
-              size_t openpos = cmmnt.Text.find('<');
+              size_t openpos = cmmnt.Text.find("<Checksum:");
 
               if (openpos != std::string::npos)
               {
@@ -195,7 +195,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From 3920807258893ffcd9788f6bb12a836307bd414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 08/42] fix: no crash on rolling counter signals with long
 names

The '_expt' field with its bit-field width may be longer than the width of
the aligned column; the negative pad length made std::string throw.
---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index c668d52..e2a7a7b 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -589,7 +589,7 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 
   std::string pad = " ";
 
-  dtype += pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  dtype += pad.insert(0, (padwidth + 16 > dtype.size()) ? (padwidth + 16 - dtype.size()) : 0, ' ');
 
   fwriter.AppendText(dtype);
 
-- 
2.43.0


From 5ad4250d9457b8694530c734688e7516c6cea764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 09/42] fix: value tables are applied to scaled signals too

Scaled signals carry the '_ro' suffix; comments already take it into
account, value tables did not.
---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index a2b552b..e3f1ebb 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -239,7 +239,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 0d5bd7176629e5300976737b24cb66c9e61c5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 10/42] fix: messages with a DLC above 255 are rejected like
 all too long ones

The DLC was truncated to 8 bits before it was checked.
---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..e881b7f 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -135,13 +135,15 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
 
-  msg->DLC = atoi(items[4].c_str());
+  const int32_t dlc = atoi(items[4].c_str());
 
-  if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if ((msg->MsgID & 0x60000000) != 0 || dlc <= 0 || dlc > (int32_t)CONF_LIMIT_MAX_DLC)
   {
     return false;
   }
 
+  msg->DLC = static_cast<uint8_t>(dlc);
+
   msg->IsExt = ((uint8_t)(msg->MsgID >> 29) & 0x04) == 0x04 ? 1 : 0;
 
   msg->MsgID = clear_msgid(msg->MsgID);
-- 
2.43.0


From 8d9f0126a927adaf0e8c7ab063e912b94ee4d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 11/42] fix: transmitter nodes with single-character names are
 not ignored

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index e881b7f..b0df561 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -126,7 +126,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (txname.size() > 0)
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From 06d56d7c37c05c0ee4dda0cc6eb3774dd77fbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 12/42] fix: rolling counters of 32 and more bits count modulo
 their width

The mask was computed with a 32-bit int shift.
---
 src/codegen/c-main-generator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index e2a7a7b..cbf997c 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -739,8 +739,8 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
-    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), ~0ULL >> (64 - sgs->msg.RollSig->LengthBit));
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -804,8 +804,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   if (sgs->msg.RollSig != nullptr)
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
-    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), ~0ULL >> (64 - sgs->msg.RollSig->LengthBit));
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
-- 
2.43.0


From a45d86d2cf82b50ba8f89ee6e5c6d2217fced4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 13/42] fix: text of a file which can't be written doesn't leak
 into the next one

Flush relied on the output file draining the buffer, which doesn't happen
when the file can't be opened.
---
 src/codegen/filewriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index ba27e10..5642ac8 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -24,6 +24,7 @@ std::string __print_loc__(const char* format, va_list args)
 void FileWriter::Flush()
 {
   strm.clear();
+  strm.str("");
 }
 
 void FileWriter::Flush(const std::string& fpath)
-- 
2.43.0


From bd2f198f9f56499e596d0608be987dc3a983dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 14/42] fix: -dbc and -out without a value are treated as
 missing parameters

An empty output path made the generator write to /lib, /usr, /inc, ... or
/000 of the root directory.
---
 src/options-parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options-parser.cpp b/src/options-parser.cpp
index ee77391..a5511b2 100644
--- a/src/options-parser.cpp
+++ b/src/options-parser.cpp
@@ -37,12 +37,12 @@ OptionsParser::GenOptions OptionsParser::GetOptions(int argc, char** argv)
     if (temppairs[i].first.compare("-dbc") == 0)
     {
       retpairs.dbc.first = temppairs[i].second;
-      retpairs.dbc.second = true;
+      retpairs.dbc.second = !temppairs[i].second.empty();
     }
     else if (temppairs[i].first.compare("-out") == 0)
     {
       retpairs.outdir.first = temppairs[i].second;
-      retpairs.outdir.second = true;
+      retpairs.outdir.second = !temppairs[i].second.empty();
     }
     else if (temppairs[i].first.compare("-drvname") == 0)
     {
-- 
2.43.0


From 46338a73f63357c807fc21d49276e97d65462059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 15/42] fix: without -rw the output goes to the fresh numbered
 directory

The directory 000, 001, ... was created, but all the files were written to
the output directory itself, so each run overwrote the previous output.
---
 src/codegen/fs-creator.cpp | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..8dc2e14 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -121,35 +121,30 @@ bool FsCreator::PrepareDirectory(bool rw)
   {
     std::string separator = basepath.back() == '/' ? "" : "/";
 
+    std::error_code err;
+
     for (int32_t dirnum = 0; dirnum < 1000; dirnum++)
     {
       snprintf(_tmpb, kTmpLen, "%03d", dirnum);
       work_dir_path = basepath + separator + _tmpb;
 
-      if (stat(work_dir_path.c_str(), &info) != 0)
-      {
-        if (std::filesystem::create_directory(work_dir_path))
-        {
-          ret = true;
-          break;
-        }
-      }
-      else if (info.st_mode & S_IFDIR)
-      {
-        // directory exists, try next num
-        continue;
-      }
-      else
+      // anything what exists under this name makes the number occupied
+      if (std::filesystem::create_directory(work_dir_path, err))
       {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
+        // all the output has to be placed in the new directory
+        Configure(FS.gen.DrvName_orig, work_dir_path, FS.gen.start_common_info,
+          FS.gen.start_driver_info, FS.gen.hiver, FS.gen.lowver);
+        ret = true;
+        break;
       }
     }
   }
 
+  if (!ret)
+  {
+    return false;
+  }
+
   std::filesystem::create_directory(FS.file.libdir);
   std::filesystem::create_directory(FS.file.usrdir);
   std::filesystem::create_directory(FS.file.incdir);
-- 
2.43.0


From 0572454cceb573124696c51f5844977b029b3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 16/42] fix: -driverdir without -rw doesn't abort when the
 driver directory is missing

---
 src/codegen/fs-creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 8dc2e14..fa9148e 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -123,6 +123,9 @@ bool FsCreator::PrepareDirectory(bool rw)
 
     std::error_code err;
 
+    // the output directory may be not created yet (e.g. driver directory)
+    std::filesystem::create_directories(basepath, err);
+
     for (int32_t dirnum = 0; dirnum < 1000; dirnum++)
     {
       snprintf(_tmpb, kTmpLen, "%03d", dirnum);
-- 
2.43.0


From 0cc31b07a0bd0b0ce95f38b0487017de68b178bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 17/42] fix: -rw doesn't abort when the parent of the output
 directory is missing

With -driverdir the output directory itself is such a parent; without -rw
it gets created already.
---
 src/codegen/fs-creator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index fa9148e..9664c09 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -111,7 +111,7 @@ bool FsCreator::PrepareDirectory(bool rw)
     // for this case check only if directory exists
     if (stat(work_dir_path.c_str(), &info) != 0)
     {
-      if (!std::filesystem::create_directory(work_dir_path))
+      if (!std::filesystem::create_directories(work_dir_path))
       {
         ret = false;
       }
-- 
2.43.0


From c3a94cae13181d26e404d21b593bb53b69091b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 18/42] fix: the text of multi-line comments is not taken for
 definitions

A text line which ended with ';' closed the comment too early (and lost
it), a text line which began with CM_ dropped it, and text lines which
looked like a message, signal, version, value table, attribute or
transmitters line were executed as such.
---
 src/parser/dbclineparser.cpp |  7 +++++--
 src/parser/dbcscanner.cpp    | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index b0df561..e83af4d 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <clocale>
+#include <algorithm>
 #include <regex>
 #include <math.h>
 #include <limits.h>
@@ -437,7 +438,8 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
 
   if (line.size() > 0)
   {
-    if (line.find("CM_") == 0)
+    // odd count of quotes means that the comment text is not closed yet
+    if ((std::count(commentline.begin(), commentline.end(), '"') % 2 == 0) && line.find("CM_") == 0)
     {
       commentline.clear();
       commentline = line;
@@ -449,7 +451,8 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
     }
 
     // check if the current line last
-    if (commentline.size() > 0 && line.back() == ';')
+    if (commentline.size() > 0 && line.back() == ';' &&
+      (std::count(commentline.begin(), commentline.end(), '"') % 2 == 0))
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index e3f1ebb..b6c2dcf 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -22,6 +22,22 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return nullptr;
 }
 
+/// @brief Checks if the line is a continuation of the comment text opened on one of the previous lines
+/// @param line The input line
+/// @param opened State of the comment text (opened or not), must be kept between lines
+/// @return true if line begins inside the comment text
+static bool is_comment_text(const std::string& line, bool& opened)
+{
+  const bool ret = opened;
+
+  if ((opened || line.find("CM_") == 0) && (std::count(line.begin(), line.end(), '"') % 2 != 0))
+  {
+    opened = !opened;
+  }
+
+  return ret;
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -62,10 +78,18 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
   MessageDescriptor_t* pMsg = nullptr;
 
+  bool comment_opened = false;
+
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
 
+    if (is_comment_text(sline, comment_opened))
+    {
+      // nothing is defined inside the comment text
+      continue;
+    }
+
     FindVersion(sline);
 
     // New message line has been found
@@ -151,10 +175,14 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
   AttributeDescriptor_t attr;
 
+  bool comment_opened = false;
+
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
 
+    const bool comment_text = is_comment_text(sline, comment_opened);
+
     if (lparser.ParseCommentLine(&cmmnt, sline))
     {
       // update message comment field
@@ -222,6 +250,12 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
       }
     }
 
+    if (comment_text)
+    {
+      // no other annotations are inside the comment text
+      continue;
+    }
+
     if (lparser.ParseValTableLine(&cmmnt, sline, vals))
     {
       // update message comment field
-- 
2.43.0


From 549a2371fb06ca8d6114fde19435b50b5a09a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 19/42] fix: no crash on lines which look like a version with
 huge numbers

std::stoul throws out_of_range, for unknown lines as well as for VERSION.
---
 src/parser/dbcscanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index b6c2dcf..8572b19 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -381,8 +381,8 @@ static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t
     {
       // 1 for the whole match and 3 for the capture groups
       str = matches[1].str();
-      num1 = std::stoul(matches[2].str());
-      num2 = std::stoul(matches[3].str());
+      num1 = static_cast<uint32_t>(strtoul(matches[2].str().c_str(), nullptr, 10));
+      num2 = static_cast<uint32_t>(strtoul(matches[3].str().c_str(), nullptr, 10));
       // successfully matched all three parts
       return true;
     }
-- 
2.43.0


From ce292abc6ae936f2902e5afb7133803cdb1dc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 20/42] fix: long generated lines are not cut

Lines above 10000 characters (bytes shared by some hundreds of multiplexed
signals) were shortened, which made the driver uncompilable.
---
 src/codegen/filewriter.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index 5642ac8..9948298 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -3,22 +3,27 @@
 #include <stdarg.h>
 #include <stdlib.h>
 #include <assert.h>
+#include <vector>
 #include "filewriter.h"
 
-template<size_t N = 10000>
-std::string __print_loc__(const char* format, va_list args)
+static std::string __print_loc__(const char* format, va_list args)
 {
-  char work_buff[N] = {0};
-  auto ret = vsnprintf(work_buff, N, format, args);
+  va_list sizeargs;
+  va_copy(sizeargs, args);
+  // get the length of the line
+  auto len = vsnprintf(nullptr, 0, format, sizeargs);
+  va_end(sizeargs);
 
-  if (ret >= N)
+  if (len <= 0)
   {
-    std::cout << "Attention (!) the line has been shortened : " << std::endl;
-    std::cout << work_buff << std::endl;
+    return "";
   }
 
+  std::vector<char> work_buff(static_cast<size_t>(len) + 1u);
+  vsnprintf(work_buff.data(), work_buff.size(), format, args);
+
   // make string from local array
-  return work_buff;
+  return work_buff.data();
 }
 
 void FileWriter::Flush()
-- 
2.43.0


From dc0e14cb4d043f4bde146b9e4a5a085ac1a6f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 21/42] fix: a backslash at the end of a DBC comment doesn't
 swallow generated code

The '//' comment went on over the next line of the header: a #define or a
struct field.
---
 src/codegen/c-main-generator.cpp | 33 ++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index cbf997c..6d9e8e2 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,35 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+/// @brief Prepares text to be printed as '//' comment, each line gets @prefix
+static std::string PrintCommentText(const std::string& text, const std::string& prefix)
+{
+  std::string ret = prefix;
+  std::string line;
+
+  for (size_t i = 0; i <= text.size(); i++)
+  {
+    if (i < text.size() && text[i] != '\n')
+    {
+      line += text[i];
+      continue;
+    }
+
+    auto last = line.find_last_not_of(" \t\v\f\r");
+
+    if (last != std::string::npos && line[last] == '\\')
+    {
+      // backslash at the end would make the next code line a part of the comment
+      line += '.';
+    }
+
+    ret += line + ((i < text.size()) ? ("\n" + prefix) : "");
+    line.clear();
+  }
+
+  return ret;
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -155,7 +184,7 @@ void CiMainGenerator::Gen_MainHeader()
     if (m.CommentText.size() > 0)
     {
       // replace all '\n' on "\n //" for c code comment text
-      fwriter.Append("// " + std::regex_replace(m.CommentText, std::regex("\n"), "\n// "));
+      fwriter.Append(PrintCommentText(m.CommentText, "// "));
     }
 
     fwriter.Append("// def @%s CAN Message (%-4d %#x)", m.Name.c_str(), m.MsgID, m.MsgID);
@@ -559,7 +588,7 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 {
   if (sig.CommentText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.CommentText, std::regex("\n"), "\n  // "));
+    fwriter.Append(PrintCommentText(sig.CommentText, "  // "));
   }
 
   if (sig.ValueText.size() > 0)
-- 
2.43.0


From d24840757d4c15378401ec139556ffc1c3e95402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 22/42] fix: same named signals with different scaling get
 their own conversions

The conversion macros are named after the signal only, and only the first
signal of a name got them printed: same named signals of other messages
were scaled with a foreign factor and offset.
---
 src/codegen/c-main-generator.cpp | 23 ++++++++++++++++-------
 src/types/message.h              |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 6d9e8e2..16bb423 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -6,7 +6,7 @@
 #include <stdarg.h>
 #include <filesystem>
 #include <algorithm>
-#include <set>
+#include <map>
 #include <regex>
 #include "helpers/formatter.h"
 #include "mon-generator.h"
@@ -111,7 +111,7 @@ void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
 void CiMainGenerator::Gen_MainHeader()
 {
-  std::set<std::string> passed_sigs;
+  std::map<std::string, std::string> passed_sigs;
   fwriter.AppendText(fdesc->gen.start_common_info);
   fwriter.AppendText(fdesc->gen.start_driver_info);
   fwriter.Append("#pragma once");
@@ -212,11 +212,20 @@ void CiMainGenerator::Gen_MainHeader()
 
       if (!s.IsSimpleSig)
       {
+        s.ConvPrefix = fdesc->gen.DRVNAME;
+        auto convtext = sigprt.PrintPhysicalToRaw(&s, s.ConvPrefix);
+
         if (passed_sigs.find(s.Name) == passed_sigs.end())
         {
           // print signal macroses only it was not printed before
-          fwriter.Append(sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME));
-          passed_sigs.insert(s.Name);
+          fwriter.Append(convtext);
+          passed_sigs[s.Name] = convtext;
+        }
+        else if (passed_sigs[s.Name] != convtext)
+        {
+          // signal with the same name but another conversion gets its own macroses
+          s.ConvPrefix += "_" + m.Name;
+          fwriter.Append(sigprt.PrintPhysicalToRaw(&s, s.ConvPrefix));
         }
       }
 
@@ -735,14 +744,14 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
       {
         // for double signals (sigfloat_t) type cast
         fwriter.Append("  _m->%s = (sigfloat_t)(%s_%s_fromS(_m->%s));",
-          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(), sname, sname);
+          sgs->msg.Signals[num].NameFloat.c_str(), sgs->msg.Signals[num].ConvPrefix.c_str(), sname, sname);
       }
       else
       {
         fwriter.Append("  _m->%s = (%s) %s_%s_fromS(_m->%s);",
           sgs->msg.Signals[num].NameFloat.c_str(),
           PrintType((int)sgs->msg.Signals[num].TypePhys).c_str(),
-          fdesc->gen.DRVNAME.c_str(), sname, sname);
+          sgs->msg.Signals[num].ConvPrefix.c_str(), sname, sname);
       }
 
       fwriter.Append("#endif // %s", fdesc->gen.usesigfloat_def.c_str());
@@ -862,7 +871,7 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
         fwriter.Append("  _m->%s = (%s) %s_%s_toS(_m->%s);",
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
-          fdesc->gen.DRVNAME.c_str(),
+          sgs->msg.Signals[n].ConvPrefix.c_str(),
           sgs->msg.Signals[n].Name.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
       }
     }
diff --git a/src/types/message.h b/src/types/message.h
index 275b9fc..6da0027 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -39,6 +39,8 @@ typedef struct
   std::string Name;
   // Signal float name
   std::string NameFloat;
+  // Prefix of the names of conversion macros (toS / fromS)
+  std::string ConvPrefix;
   // Unit
   std::string Unit;
 
-- 
2.43.0


From b25bb1c17328d11a199faef50a9ffb5ad803c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 23/42] fix: the type of integer physical fields holds all the
 physical values

For signals whose physical range is mirrored (negative factor) or reaches
exactly one above a signed maximum the type was one size too small, and the
range of 54..64-bit signals was computed with rounded doubles.
---
 src/parser/dbclineparser.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index e83af4d..4fe5eca 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -343,14 +343,14 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
   if (sig->Signed)
   {
     addon = 1;
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit - 1) - 1));
+    max_abs = static_cast<int64_t>((1ULL << (sig->LengthBit - 1)) - 1ULL);
     min_abs = (max_abs + 1) * -1;
 
     for (size_t i = 0; i < 4; i++)
     {
       sig->TypeRo = (SigType)(i);
 
-      if (max_abs <= __maxsignedvals[i])
+      if ((uint64_t)max_abs <= __maxsignedvals[i])
       {
         break;
       }
@@ -358,14 +358,14 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
   }
   else
   {
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit) - 1));
+    max_abs = static_cast<int64_t>(~0ULL >> (64 - sig->LengthBit));
     min_abs = 0;
 
     for (size_t i = 0; i < 4; i++)
     {
       sig->TypeRo = (SigType)(i + 4);
 
-      if (max_abs <= __maxunsigvalues[i])
+      if ((uint64_t)max_abs <= __maxunsigvalues[i])
       {
         break;
       }
@@ -390,21 +390,14 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
     if (sig->Signed || max_abs < 0 || min_abs < 0)
     {
       // phys value must be signed
-      uint64_t max_v = std::abs(max_abs);
-      uint64_t addon = 0;
-
-      if ((max_v + 1) < std::abs(min_abs))
-      {
-        // low part is main
-        addon = 1;
-        max_v = std::abs(min_abs);
-      }
+      const int64_t low = std::min(max_abs, min_abs);
+      const int64_t high = std::max(max_abs, min_abs);
 
       for (size_t i = 0; i < 4; i++)
       {
         sig->TypePhys = (SigType)(i);
 
-        if (max_v <= __maxsignedvals[i] + addon)
+        if (high <= (int64_t)__maxsignedvals[i] && low >= -(int64_t)__maxsignedvals[i] - 1)
         {
           break;
         }
-- 
2.43.0


From 68fb8d36678241f3100f2c08ab0e332b7a38a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 24/42] fix: integer conversions don't overflow and keep the
 sign of wide signals

'x * factor + offset' was computed in the promoted type of the field, which
is a 32-bit one for fields up to 32 bits (overflow, or unsigned wrap with
negative factors and offsets), and factors and offsets beyond 32 bits were
cut when printed.
---
 src/codegen/c-sigprinter.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index ea8a9d5..97c515e 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -58,6 +58,15 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   const std::string prtFactor = prt_double(sig->Factor, 9);
   const std::string prtOffset = prt_double(sig->Offset, 9);
 
+  const int64_t intFactor = (int64_t)sig->Factor;
+  const int64_t intOffset = (int64_t)sig->Offset;
+
+  // integer operations with 32-bit and wider types may overflow (or
+  // lose the sign) when they are performed in the types of operands
+  const bool wide = !sig->IsDoubleSig &&
+    ((((uint8_t)sig->TypeRo) % 4 >= 2) || (((uint8_t)sig->TypePhys) % 4 >= 2));
+  const std::string x = wide ? "(int64_t)(x)" : "(x)";
+
   retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
 
   if (sig->IsDoubleSig)
@@ -66,7 +75,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->Name.c_str(), (int32_t)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->Name.c_str(), (long long)intFactor);
   }
 
   retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
@@ -81,17 +90,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s / (%lld)) )\n", x.c_str(), (long long)intFactor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s - (%lld)) )\n", x.c_str(), (long long)intOffset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%d)) / (%d)) )\n", (int32_t)sig->Offset, (int32_t)sig->Factor);
+      retstr += StrPrint("((%s - (%lld)) / (%lld)) )\n", x.c_str(), (long long)intOffset, (long long)intFactor);
     }
   }
 
@@ -106,17 +115,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s * (%lld)) )\n", x.c_str(), (long long)intFactor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s + (%lld)) )\n", x.c_str(), (long long)intOffset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%d)) + (%d)) )\n", (int32_t)sig->Factor, (int32_t)sig->Offset);
+      retstr += StrPrint("((%s * (%lld)) + (%lld)) )\n", x.c_str(), (long long)intFactor, (long long)intOffset);
     }
   }
 
-- 
2.43.0


From 68625aaa1fc014379b2b01c6328287eba6a87088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 25/42] fix: the initial byte value doesn't get mixed into
 signals

Signals were ORed to the initial byte value, so with a value other than 0
every signal got the set bits of it.
---
 src/codegen/c-main-generator.cpp | 11 ++++++++++-
 src/codegen/c-sigprinter.cpp     | 20 ++++++++++++++++++++
 src/codegen/c-sigprinter.h       |  1 +
 src/types/c-expr.h               |  4 ++++
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 16bb423..c2b24c7 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -887,7 +887,16 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
       continue;
     }
 
-    fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    if (sgs->byte_masks[i] != 0xFF)
+    {
+      // keep initial value only in the bits which are not used by signals
+      fwriter.Append("  %s[%d] &= (uint8_t) 0x%02XU;", arrtxt.c_str(), i, (uint8_t)~sgs->byte_masks[i]);
+      fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    }
+    else
+    {
+      fwriter.Append("  %s[%d] = (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    }
   }
 
   fwriter.Append("");
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 97c515e..6bf35ae 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -145,8 +145,12 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
   // and during all signals processing, for each byte to_byte expression
   // must be collected
 
+  msgprinter->byte_masks.assign(msgprinter->msg.DLC, 0);
+
   for (size_t i = 0; i < msgprinter->msg.Signals.size(); i++)
   {
+    AddByteMasks(&msgprinter->msg.Signals[i], msgprinter->byte_masks);
+
     // there are two main goal of this code:
     // 1 - to generate bytes to signal C-expression, (_d - name of array).
     // For each signal one or more bytes can be referenced. It's generated
@@ -186,6 +190,22 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
   return ret;
 }
 
+void CSigPrinter::AddByteMasks(const SignalDescriptor_t* sig, std::vector<uint8_t>& masks)
+{
+  uint32_t bit = sig->StartBit;
+
+  for (uint32_t i = 0; i < sig->LengthBit; i++)
+  {
+    if ((bit / 8) < masks.size())
+    {
+      masks[bit / 8] |= (uint8_t)(1u << (bit % 8));
+    }
+
+    // Motorola signals go from start bit down to the next byte's highest bit
+    bit = (sig->Order == BitLayout::kIntel) ? (bit + 1) : ((bit % 8 != 0) ? (bit - 1) : (bit + 15));
+  }
+}
+
 std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vector<std::string>& to_bytes)
 {
   // value for collecting expression (to_signal)
diff --git a/src/codegen/c-sigprinter.h b/src/codegen/c-sigprinter.h
index 7f19b8b..2b88755 100644
--- a/src/codegen/c-sigprinter.h
+++ b/src/codegen/c-sigprinter.h
@@ -18,6 +18,7 @@ class CSigPrinter {
  private:
   int32_t BuildCConvertExprs(CiExpr_t* msg);
 
+  void AddByteMasks(const SignalDescriptor_t* sig, std::vector<uint8_t>& masks);
   std::string PrintSignalExpr(const SignalDescriptor_t* sig, std::vector<std::string>& to_bytes);
 
   void AppendToByteLine(std::string& expr, std::string str);
diff --git a/src/types/c-expr.h b/src/types/c-expr.h
index 996cca8..6366824 100644
--- a/src/types/c-expr.h
+++ b/src/types/c-expr.h
@@ -18,4 +18,8 @@ typedef struct
   // frame fields to data bytes
   std::vector<std::string> to_bytes;
 
+  // this field contains for each data byte the mask of
+  // the bits which belong to at least one of signals
+  std::vector<uint8_t> byte_masks;
+
 } CiExpr_t;
\ No newline at end of file
-- 
2.43.0


From 83f103406f911a0cb1eb31c0fae2ef4b86e135f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 26/42] fix: messages aren't lost or misread because of the
 spacing of their line

The message line was split at each single separator, so that only exactly
'BO_ <id> <name>: <dlc> <node>' was understood; a space before the colon
or a second space made the message (or its transmitter) disappear.
---
 src/parser/dbclineparser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 4fe5eca..a45f6cc 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -12,7 +12,7 @@
 constexpr double MIN_FAC_OFF = 0.000000001;
 
 // Message line definitions
-static const std::string regMessage = "[^A-Za-z0-9_.-]";
+static const std::string regMessage = "[^A-Za-z0-9_.-]+";
 static const std::string MessageLineStart = "BO_ ";
 
 // Signal line definitions
@@ -120,12 +120,12 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
   // Parse DBC message line
   auto items = resplit(line, regMessage, -1);
 
-  if (items.size() < 5)
+  if (items.size() < 4)
   {
     return false;
   }
 
-  std::string txname = (items.size() >= 6) ? (items[5]) : ("");
+  std::string txname = (items.size() >= 5) ? (items[4]) : ("");
 
   if (txname.size() > 0)
   {
@@ -136,7 +136,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
 
-  const int32_t dlc = atoi(items[4].c_str());
+  const int32_t dlc = atoi(items[3].c_str());
 
   if ((msg->MsgID & 0x60000000) != 0 || dlc <= 0 || dlc > (int32_t)CONF_LIMIT_MAX_DLC)
   {
-- 
2.43.0


From aa9c05dc7dc1cb65b3bf9ebe77e90b3063652c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 27/42] fix: signals aren't lost because of the colons of their
 line

The line was split at each ' : ', which doesn't match a colon without
spaces around, and cuts the units which contain a ' : '.
---
 src/parser/dbclineparser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index a45f6cc..c778be7 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -18,7 +18,6 @@ static const std::string MessageLineStart = "BO_ ";
 // Signal line definitions
 static const std::string kRegSigReceivers = "[^A-Za-z0-9_.+-]+";
 static const std::string kRegSigSplit0 = "[^\\w]+";
-static const std::string kRegSigSplit1 = "(\\s+:\\s+)";
 static const std::string kregSigSplit2 = "(\")";
 
 // This reg splits line to parts delimited by (")
@@ -185,13 +184,15 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
   // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  const auto colon = line.find(':');
 
-  if (halfs.size() < 2)
+  if (colon == std::string::npos)
   {
     return false;
   }
 
+  std::vector<std::string> halfs = { line.substr(0, colon), line.substr(colon + 1) };
+
   // split tail
   auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
 
-- 
2.43.0


From f267ef513b409e7dbfef687a7756289deee58a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 28/42] fix: annotations of a signal do not land on its
 neighbour named with _ro

---
 src/parser/dbcscanner.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 8572b19..ebd80d7 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -22,6 +22,15 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return nullptr;
 }
 
+/// @brief Checks if the signal has the name in DBC file (scaled signals are renamed)
+/// @param sig The signal
+/// @param name The name as it is in DBC file
+/// @return true if the name belongs to the signal
+static bool is_signal_named(const SignalDescriptor_t& sig, const std::string& name)
+{
+  return sig.Name == (sig.IsSimpleSig ? name : name + "_ro");
+}
+
 /// @brief Checks if the line is a continuation of the comment text opened on one of the previous lines
 /// @param line The input line
 /// @param opened State of the comment text (opened or not), must be kept between lines
@@ -200,7 +209,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (is_signal_named(msg->Signals[i], cmmnt.SigName))
             {
               SignalDescriptor_t& sig = msg->Signals[i];
               // signal has been found, update commnet text
@@ -273,7 +282,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (is_signal_named(msg->Signals[i], cmmnt.SigName))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 7f2ad94ec724d78703d7e444dfc04c20d881bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 29/42] fix: physical type is wide enough for inverted unsigned
 signals

---
 src/parser/dbclineparser.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index c778be7..6f9a99f 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -388,12 +388,13 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
     max_abs = max_abs * i_factor + i_offset;
     min_abs = min_abs * i_factor + i_offset;
 
-    if (sig->Signed || max_abs < 0 || min_abs < 0)
+    // negative factor swaps the limits
+    const int64_t low = std::min(max_abs, min_abs);
+    const int64_t high = std::max(max_abs, min_abs);
+
+    if (sig->Signed || low < 0)
     {
       // phys value must be signed
-      const int64_t low = std::min(max_abs, min_abs);
-      const int64_t high = std::max(max_abs, min_abs);
-
       for (size_t i = 0; i < 4; i++)
       {
         sig->TypePhys = (SigType)(i);
@@ -409,7 +410,7 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
       // phys value must be unsigned
       for (uint8_t i = 0; i < 4; i++)
       {
-        if ((uint64_t)max_abs <= __maxunsigvalues[i])
+        if ((uint64_t)high <= __maxunsigvalues[i])
         {
           sig->TypePhys = (SigType)(i + 4);
           break;
-- 
2.43.0


From 55cb4638e29952b969d1117e5f9b0f508cf0a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 30/42] fix: signal definitions are not searched inside other
 lines

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 6f9a99f..11b01bf 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -176,7 +176,7 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
 bool DbcLineParser::IsSignalLine(const std::string& line)
 {
-  const std::regex sigMatch("\\s+SG_");
+  const std::regex sigMatch("^\\s+SG_");
   bool ret = std::regex_search(line, sigMatch);
   return ret;
 }
-- 
2.43.0


From e04a2a96f868bdf253025929f2b6f4d715bdd454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 31/42] fix: value table constants keep values above 32 bits
 signed range

---
 src/codegen/c-main-generator.cpp | 4 ++--
 src/parser/dbclineparser.cpp     | 2 +-
 src/types/comment.h              | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index c2b24c7..74a05ca 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -251,9 +251,9 @@ void CiMainGenerator::Gen_MainHeader()
           // For this case only one of same named values will be available as macro
           fwriter.Append("#ifndef %s", defname.c_str());
 
-          fwriter.Append("#define %s_%s_%s (%d)",
+          fwriter.Append("#define %s_%s_%s (%lld)",
             s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
-            s.ValDefs.vpairs[i].second);
+            (long long)s.ValDefs.vpairs[i].second);
 
           fwriter.Append("#endif");
           fwriter.Append();
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 11b01bf..582c8df 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -582,7 +582,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
           comm->Text += items[valpair + 1] + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
-          vtab.vpairs.push_back({valdef, (uint32_t)atoll((items[valpair + 0]).c_str())});
+          vtab.vpairs.push_back({valdef, (int64_t)atoll((items[valpair + 0]).c_str())});
         }
 
         if (comm->Text.size() > 0)
diff --git a/src/types/comment.h b/src/types/comment.h
index 4af34fe..0d3cf12 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -40,6 +40,6 @@ struct ValTable_t
   std::string SigName;
 
   /// @brief Value table names and values pairs
-  std::vector<std::pair<std::string, uint32_t>> vpairs{};
+  std::vector<std::pair<std::string, int64_t>> vpairs{};
 
 };
-- 
2.43.0


From d5f0b164f96615ae88af997b79f1022f95b1df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 32/42] fix: huge start bits and lengths of signals never wrap
 into the frame

---
 src/codegen/c-sigprinter.cpp | 4 ++--
 src/parser/dbclineparser.cpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 6bf35ae..6293e58 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -232,9 +232,9 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
   uint32_t bn = (uint32_t)(startb / 8);
 
-  if (to_bytes.size() <= lastbn)
+  if (to_bytes.size() <= lastbn || sig->LengthBit > 64)
   {
-    // DLC from message doesn't fit to signal layout
+    // DLC from message doesn't fit to signal layout (or the signal doesn't fit to any type)
     // make code uncomplilable
     to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
     return to_bytes[0];
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 582c8df..c1a8c1f 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -231,8 +231,9 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   }
   else
   {
-    sig->StartBit = atoi(valpart[0].c_str());
-    sig->LengthBit = atoi(valpart[1].c_str());
+    // too big values must not wrap around (such signals never fit to the frame)
+    sig->StartBit = (uint32_t)std::min<unsigned long long>(strtoull(valpart[0].c_str(), nullptr, 10), UINT32_MAX);
+    sig->LengthBit = (uint8_t)std::min<unsigned long long>(strtoull(valpart[1].c_str(), nullptr, 10), UINT8_MAX);
 
     // get info about factor or offset double nature
     sig->IsDoubleSig = false;
-- 
2.43.0


From 6ad808cd1745da1ef9ed00738e221121b75a924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 33/42] fix: a directory is not accepted as dbc file

---
 src/app.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app.cpp b/src/app.cpp
index 4810d9b..b36211a 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -86,7 +86,7 @@ void CoderApp::GenerateCode()
   std::cout << "gen path : " << Params.outdir.first << std::endl;
   std::cout << "drv name : " << Params.drvname.first << std::endl;
 
-  if (std::filesystem::exists(Params.dbc.first) == false)
+  if (std::filesystem::exists(Params.dbc.first) == false || std::filesystem::is_directory(Params.dbc.first))
   {
     std::cout << "DBC file is not exists!" << std::endl;
     return;
-- 
2.43.0


From ce107ec6aa71b4d532e3dbbbff4558d22b52a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 34/42] fix: message identifiers which don't fit to 32 bits are
 rejected

---
 src/parser/dbclineparser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index c1a8c1f..bd51318 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -100,6 +100,14 @@ static uint32_t clear_msgid(uint32_t messageid)
   return messageid & 0x1FFFFFFFU;
 }
 
+/// @brief Reads the identifier of the message as it is in DBC file (with the flags in high bits)
+/// @return Value of identifier, UINT32_MAX (belongs to no message) if it doesn't fit to 32 bits
+static uint32_t read_msgid(const std::string& text)
+{
+  const long long id = atoll(text.c_str());
+  return (id < 0 || id > (long long)UINT32_MAX) ? UINT32_MAX : static_cast<uint32_t>(id);
+}
+
 DbcLineParser::DbcLineParser()
 {
 }
@@ -133,7 +141,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->Name = items[2];
 
-  msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
+  msg->MsgID = read_msgid(items[1]);
 
   const int32_t dlc = atoi(items[3].c_str());
 
-- 
2.43.0


From 833dba8d5fd0d99e8758715822157e2f6258e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 35/42] fix: annotations and nodes of standard and extended
 messages are not mixed up

---
 src/app.cpp                      |  6 +++---
 src/codegen/c-util-generator.cpp |  6 +++---
 src/parser/dbclineparser.cpp     | 11 ++++-------
 src/parser/dbcscanner.cpp        |  4 +++-
 src/types/message.h              |  7 +++++++
 5 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index b36211a..8bdc602 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -215,7 +215,7 @@ void CoderApp::GenerateCode()
         if (found)
         {
           // Message is in Tx array of current node
-          groups.Tx.push_back(m->MsgID);
+          groups.Tx.push_back(GetDbcId(*m));
         }
 
         found = (std::find(m->RecS.begin(), m->RecS.end(), nodes[node]) != m->RecS.end());
@@ -223,7 +223,7 @@ void CoderApp::GenerateCode()
         if (found)
         {
           // Message is in Rx array of current node
-          groups.Rx.push_back(m->MsgID);
+          groups.Rx.push_back(GetDbcId(*m));
         }
       }
 
@@ -239,7 +239,7 @@ void CoderApp::GenerateCode()
 
     for (size_t i = 0; i < scanner.dblist.msgs.size(); i++)
     {
-      groups.Rx.push_back(scanner.dblist.msgs[i]->MsgID);
+      groups.Rx.push_back(GetDbcId(*scanner.dblist.msgs[i]));
     }
 
     if (ret)
diff --git a/src/codegen/c-util-generator.cpp b/src/codegen/c-util-generator.cpp
index 9db35ab..c55f459 100644
--- a/src/codegen/c-util-generator.cpp
+++ b/src/codegen/c-util-generator.cpp
@@ -46,7 +46,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     auto v = std::find_if(groups.Both.begin(), groups.Both.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == GetDbcId(*m);
     });
 
     if (v != std::end(groups.Both))
@@ -59,7 +59,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     v = std::find_if(groups.Rx.begin(), groups.Rx.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == GetDbcId(*m);
     });
 
     if (v != std::end(groups.Rx))
@@ -69,7 +69,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     v = std::find_if(groups.Tx.begin(), groups.Tx.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == GetDbcId(*m);
     });
 
     if (v != std::end(groups.Tx))
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index bd51318..d44283a 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -167,7 +167,7 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
   {
-    ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
+    ret = read_msgid(chunks[1]);
 
     if (ret != 0)
     {
@@ -474,10 +474,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           // 1 CM_ marker
           // 2 target (message or signal)
           // 3 msg id
-          uint32_t id = static_cast<uint32_t>(atoll(meta[2].c_str()));
-
-          // clear message id from high 3 bits
-          cm->MsgId = clear_msgid(id);
+          cm->MsgId = read_msgid(meta[2]);
 
           if (meta[1] == "SG_" && meta.size() == 4)
           {
@@ -537,7 +534,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
         attr->Type = AttributeType::CycleTime;
-        attr->MsgId = clear_msgid(static_cast<uint32_t>(atoll(items[3].c_str())));
+        attr->MsgId = read_msgid(items[3]);
         // read value of ms of cycle time for the current message
         attr->Value = atoi(items[4].c_str());
         ret = true;
@@ -576,7 +573,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
-        comm->MsgId = (clear_msgid(static_cast<uint32_t>(atoll(items[1].c_str()))));
+        comm->MsgId = read_msgid(items[1]);
         comm->SigName = items[2];
         comm->Text = "";
         comm->ca_target = CommentTarget::Signal;
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index ebd80d7..78caaa0 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -8,11 +8,13 @@
 #include <iostream>
 #include "../helpers/formatter.h"
 
+/// @brief Searches the message by its identifier as it is in DBC file
+/// (standard and extended messages may have the same CAN identifier)
 MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID)
 {
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    if (msgs[i]->MsgID == ID)
+    if (GetDbcId(*msgs[i]) == ID)
     {
       // Frame found
       return msgs[i];
diff --git a/src/types/message.h b/src/types/message.h
index 6da0027..b7ab237 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -151,8 +151,15 @@ typedef struct
 
 } MessageDescriptor_t;
 
+/// @brief Returns the identifier as it is in DBC file (with the mark of extended frame)
+inline uint32_t GetDbcId(const MessageDescriptor_t& msg)
+{
+  return msg.MsgID | (msg.IsExt ? 0x80000000U : 0U);
+}
+
 typedef struct
 {
+  // identifiers as they are in DBC file
   std::vector<uint32_t> Rx;
 
   std::vector<uint32_t> Tx;
-- 
2.43.0


From 47afb1fca5db99962b1aaea1c6c3212153410358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 36/42] fix: additional transmitters of the message with zero
 identifier are not ignored

---
 src/parser/dbclineparser.cpp | 17 ++++++++---------
 src/parser/dbclineparser.h   |  5 +++--
 src/parser/dbcscanner.cpp    |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d44283a..64ffb78 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -159,22 +159,21 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
   return true;
 }
 
-uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std::string& line)
+bool DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std::string& line, uint32_t& msgid)
 {
-  uint32_t ret = 0;
+  bool ret = false;
 
   auto chunks = resplit(line, kTransmittersList, -1);
 
-  if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
+  if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_" && isdigit((unsigned char)chunks[1][0]))
   {
-    ret = read_msgid(chunks[1]);
+    // zero is the identifier as any other one
+    msgid = read_msgid(chunks[1]);
+    ret = true;
 
-    if (ret != 0)
+    for (size_t i = 2; i < chunks.size(); i++)
     {
-      for (size_t i = 2; i < chunks.size(); i++)
-      {
-        outnodes.push_back(chunks[i]);
-      }
+      outnodes.push_back(chunks[i]);
     }
   }
 
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index 9b0c025..e1bf4bf 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -74,9 +74,10 @@ class DbcLineParser {
    * multiple TX nodes
    * @param outnodes vector to load names of TX nodes
    * @param str line to parse from DBC file
-   * @retval MsgId if parsed successfully or zero
+   * @param msgid identifier of the frame as it is in DBC file
+   * @retval true if parsed successfully
    */
-  uint32_t ParseMultiTrans(std::vector<std::string>& outnodes, std::string& str);
+  bool ParseMultiTrans(std::vector<std::string>& outnodes, std::string& str, uint32_t& msgid);
 
  private:
   // defines the type for the message struct member
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 78caaa0..b981013 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -145,9 +145,9 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     std::vector<std::string> tx_nodes;
     tx_nodes.clear();
 
-    uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
+    uint32_t msgid = 0;
 
-    if (msgid != 0)
+    if (lparser.ParseMultiTrans(tx_nodes, sline, msgid))
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From bb2e64032b5f2cefcd267510100d3920fa319fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 37/42] fix: no crash on long lines

std::regex is recursive and runs out of stack when a line has a run of some tens of kilobytes
---
 src/parser/dbclineparser.cpp | 154 ++++++++++++++++++++++++-----------
 src/parser/dbcscanner.cpp    |  51 ++++++++----
 2 files changed, 138 insertions(+), 67 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 64ffb78..64cfd40 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,7 +1,7 @@
 #include <stdlib.h>
 #include <clocale>
 #include <algorithm>
-#include <regex>
+#include <functional>
 #include <math.h>
 #include <limits.h>
 #include "helpers/formatter.h"
@@ -12,29 +12,17 @@
 constexpr double MIN_FAC_OFF = 0.000000001;
 
 // Message line definitions
-static const std::string regMessage = "[^A-Za-z0-9_.-]+";
+static const std::string kMessageChars = "_.-";
 static const std::string MessageLineStart = "BO_ ";
 
 // Signal line definitions
-static const std::string kRegSigReceivers = "[^A-Za-z0-9_.+-]+";
-static const std::string kRegSigSplit0 = "[^\\w]+";
-static const std::string kregSigSplit2 = "(\")";
+static const std::string kSigReceiversChars = "_.+-";
 
-// This reg splits line to parts delimited by (")
-static const std::string kRegCommMain = "\"";
-static const std::string kRegCommMeta = "[ ]+";
+// Attribute line definitions
+static const std::string kAttrChars = "_.";
 
-// This reg splits line to parts (for attributes)
-static const std::string kRegAttrMain = "[^A-Za-z0-9_\\.]+";
-static const std::string kTransmittersList = "[^a-zA-Z_0-9]+";
-
-// Regex template to split string by spaces BUT NOT what inside quotes OR apostrophes
-// [^\s"']+|"([^"]*)"|'([^']*)'
-
-// Reges template to split string by spaces BUT NOT what inside quotes
-// [^\s"]+|"([^"]*)"
-
-static const std::string kRegValTable = "[^\\s\"]+|\"([^\"]*)\"";
+// Transmitters line definitions
+static const std::string kTransmittersChars = "_";
 
 static uint64_t __maxunsigvalues[] =
 {
@@ -52,27 +40,90 @@ static uint64_t __maxsignedvals[] =
   LLONG_MAX
 };
 
-//* @param __submatch
-// - -1 each enumerated subexpression does NOT
-// match the regular expression (aka field
-// splitting)
-// - 0 the entire string matching the
-// subexpression is returned for each match
-// within the text.
-// - >0 enumerates only the indicated
-// subexpression from a match within the text.
-std::vector<std::string> resplit(const std::string& s, const std::string& rgx_str, int32_t submatch)
+/// @brief Splits the string to the parts between the delimiters. An empty part after the last
+/// delimiter is skipped. (std::regex can't be used: its recursion runs out of stack on long lines)
+/// @param s The string to split
+/// @param runs true if neighbour delimiters work as a single one
+/// @param isdelim Checks if the character is a delimiter
+static std::vector<std::string> split(const std::string& s, bool runs, const std::function<bool(char)>& isdelim)
+{
+  std::vector<std::string> elems;
+  size_t start = 0;
+
+  for (size_t i = 0; i < s.size(); i++)
+  {
+    if (isdelim(s[i]))
+    {
+      elems.push_back(s.substr(start, i - start));
+
+      while (runs && (i + 1 < s.size()) && isdelim(s[i + 1]))
+      {
+        i++;
+      }
+
+      start = i + 1;
+    }
+  }
+
+  if (start < s.size() || elems.empty())
+  {
+    elems.push_back(s.substr(start));
+  }
+
+  return elems;
+}
+
+std::vector<std::string> split_by_char(const std::string& s, char delim)
+{
+  return split(s, false, [delim](char c) { return c == delim; });
+}
+
+/// @brief Splits the string by all the characters which are neither latin letters, nor digits, nor @others
+static std::vector<std::string> split_by_words(const std::string& s, const std::string& others)
+{
+  return split(s, true, [&others](char c)
+  {
+    const bool alnum = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9');
+    return !alnum && others.find(c) == std::string::npos;
+  });
+}
+
+static bool is_space(char c)
+{
+  return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+/// @brief Splits the string by spaces BUT NOT what inside quotes
+static std::vector<std::string> split_quoted(const std::string& s)
 {
   std::vector<std::string> elems;
-  std::regex rgx(rgx_str);
-  std::sregex_token_iterator iter(s.begin(), s.end(), rgx, submatch);
-  std::sregex_token_iterator end;
+  size_t i = 0;
 
-  while (iter != end)
+  while (i < s.size())
   {
-    //std::cout << "S43:" << *iter << std::endl;
-    elems.push_back(*iter);
-    ++iter;
+    size_t end = i + 1;
+
+    if (s[i] == '"')
+    {
+      const auto close = s.find('"', end);
+
+      if (close != std::string::npos)
+      {
+        end = close + 1;
+        elems.push_back(s.substr(i, end - i));
+      }
+    }
+    else if (!is_space(s[i]))
+    {
+      while (end < s.size() && s[end] != '"' && !is_space(s[end]))
+      {
+        end++;
+      }
+
+      elems.push_back(s.substr(i, end - i));
+    }
+
+    i = end;
   }
 
   return elems;
@@ -125,7 +176,7 @@ bool DbcLineParser::IsMessageLine(const std::string& line)
 bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string& line)
 {
   // Parse DBC message line
-  auto items = resplit(line, regMessage, -1);
+  auto items = split_by_words(line, kMessageChars);
 
   if (items.size() < 4)
   {
@@ -163,7 +214,7 @@ bool DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std::str
 {
   bool ret = false;
 
-  auto chunks = resplit(line, kTransmittersList, -1);
+  auto chunks = split_by_words(line, kTransmittersChars);
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_" && isdigit((unsigned char)chunks[1][0]))
   {
@@ -183,9 +234,14 @@ bool DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std::str
 
 bool DbcLineParser::IsSignalLine(const std::string& line)
 {
-  const std::regex sigMatch("^\\s+SG_");
-  bool ret = std::regex_search(line, sigMatch);
-  return ret;
+  size_t pos = 0;
+
+  while (pos < line.size() && is_space(line[pos]))
+  {
+    pos++;
+  }
+
+  return pos != 0 && line.compare(pos, 3, "SG_") == 0;
 }
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
@@ -201,12 +257,12 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   std::vector<std::string> halfs = { line.substr(0, colon), line.substr(colon + 1) };
 
   // split tail
-  auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
+  auto tailpart = split_by_char(halfs[1], '"');
 
   // split middle part on dedicated values
-  auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
+  auto valpart = split_by_words(trim(tailpart[0]), kSigReceiversChars);
 
-  halfs = resplit(halfs[0], kRegValTable, 0);
+  halfs = split_quoted(halfs[0]);
 
   if (halfs.size() >= 2)
   {
@@ -318,7 +374,7 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
     // part 2 is the measure unit
     sig->Unit = tailpart[1];
     // part 3 is the list of RX modules
-    auto recs = resplit(trim(tailpart[2]), kRegSigReceivers, -1);
+    auto recs = split_by_words(trim(tailpart[2]), kSigReceiversChars);
 
     for (size_t i = 0; i < recs.size(); i++)
     {
@@ -461,12 +517,12 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       cm->ca_target = CommentTarget::Undefined;
 
       // comment line must have 3 part: meta, text, semicolon
-      auto items = resplit(commentline, kRegCommMain, -1);
+      auto items = split_by_char(commentline, '"');
 
       if (items.size() == 3)
       {
         // part 1 (meta) contains service fields
-        auto meta = resplit(items[0], kRegCommMeta, -1);
+        auto meta = split(items[0], true, [](char c) { return c == ' '; });
 
         if (meta.size() >= 3)
         {
@@ -528,7 +584,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     {
       attr->Type = AttributeType::Undefined;
       // raw line is ready
-      auto items = resplit(attribline, kRegAttrMain, -1);
+      auto items = split_by_words(attribline, kAttrChars);
 
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
@@ -568,7 +624,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
       // split all items by spaces and inside quotes.
       // after this step proper value items will have count >= 5
       // last item will be ';' and number of items will be even
-      auto items = resplit(valueline, kRegValTable, 0);
+      auto items = split_quoted(valueline);
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index b981013..d6010ea 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -1,7 +1,6 @@
 #include "dbcscanner.h"
 #include <algorithm>
 #include <math.h>
-#include <regex>
 #include <cstring>
 #include <cctype>
 #include <sstream>
@@ -224,7 +223,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
                 msg->RollSig = &msg->Signals[i];
               }
 
-              extern std::vector<std::string> resplit(const std::string & s, const std::string & rgx_str, int32_t submatch);
+              extern std::vector<std::string> split_by_char(const std::string& s, char delim);
 
               size_t openpos = cmmnt.Text.find("<Checksum:");
 
@@ -236,7 +235,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
                 {
                   auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
-                  auto meta = resplit(substr, "(\\:)", -1);
+                  auto meta = split_by_char(substr, ':');
 
                   if (meta.size() == 3 && meta[0] == "Checksum")
                   {
@@ -382,25 +381,41 @@ void DbcScanner::SetDefualtMessage(MessageDescriptor_t* message)
 /// @return The number of successfully matched parts (0 if the pattern did not match).
 static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t& num1, uint32_t& num2)
 {
-  std::regex pattern("([a-zA-Z]+)\\s*\"?(\\d+)\\D+(\\d+)\"?");
-  std::smatch matches;
+  const auto isalph = [](char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); };
+  const auto isdig = [](char c) { return c >= '0' && c <= '9'; };
+  const auto isspc = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
+  const auto first = line.begin();
+  const auto last = line.end();
 
-  // try to match the regex pattern to the input line
-  if (std::regex_match(line, matches, pattern))
+  // the line looks like: {letters}{spaces}"{digits}{any but digits}{digits}"
+  const auto strend = std::find_if_not(first, last, isalph);
+  auto num1pos = std::find_if_not(strend, last, isspc);
+
+  if (num1pos != last && *num1pos == '"')
   {
-    if (matches.size() == 4)
-    {
-      // 1 for the whole match and 3 for the capture groups
-      str = matches[1].str();
-      num1 = static_cast<uint32_t>(strtoul(matches[2].str().c_str(), nullptr, 10));
-      num2 = static_cast<uint32_t>(strtoul(matches[3].str().c_str(), nullptr, 10));
-      // successfully matched all three parts
-      return true;
-    }
+    ++num1pos;
+  }
+
+  const auto num1end = std::find_if_not(num1pos, last, isdig);
+  const auto num2pos = std::find_if(num1end, last, isdig);
+  auto num2end = std::find_if_not(num2pos, last, isdig);
+
+  if (strend == first || num1pos == num1end || num1end == num2pos || num2pos == num2end)
+  {
+    return false;
+  }
+
+  str = std::string(first, strend);
+  num1 = static_cast<uint32_t>(strtoul(std::string(num1pos, num1end).c_str(), nullptr, 10));
+  num2 = static_cast<uint32_t>(strtoul(std::string(num2pos, num2end).c_str(), nullptr, 10));
+
+  if (num2end != last && *num2end == '"')
+  {
+    ++num2end;
   }
 
-  // pattern did not match or some parts were not matched
-  return false;
+  // nothing but the closing quote is after the numbers
+  return num2end == last;
 }
 
 void DbcScanner::FindVersion(const std::string& line)
-- 
2.43.0


From 0ade8b731894fe07811700ccd44b5ec1ef1537e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 38/42] fix: physical field type of signals whose physical
 range exceeds 64 bits

---
 src/parser/dbclineparser.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 64cfd40..4acb425 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -448,9 +448,24 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
     int64_t i_offset = (int64_t)sig->Offset;
     int64_t i_factor = (int64_t)sig->Factor;
 
-    // get max and min values with applied factor and offset (physical values)
-    max_abs = max_abs * i_factor + i_offset;
-    min_abs = min_abs * i_factor + i_offset;
+    // estimate physical values first, the exact ones may not fit to 64 bits
+    const double max_est = (sig->Signed ? (double)max_abs : (double)(uint64_t)max_abs) * sig->Factor;
+    const double min_est = (double)min_abs * sig->Factor;
+    const double low_est = std::min(max_est, min_est) + sig->Offset;
+
+    if (std::max({ std::fabs(max_est), std::fabs(min_est),
+      std::fabs(max_est + sig->Offset), std::fabs(min_est + sig->Offset) }) > 9.0e18)
+    {
+      // only the widest type is suitable
+      max_abs = INT64_MAX;
+      min_abs = (low_est < 0) ? INT64_MIN : 0;
+    }
+    else
+    {
+      // get max and min values with applied factor and offset (physical values)
+      max_abs = max_abs * i_factor + i_offset;
+      min_abs = min_abs * i_factor + i_offset;
+    }
 
     // negative factor swaps the limits
     const int64_t low = std::min(max_abs, min_abs);
-- 
2.43.0


From 13a99bfac5e14b85c604e75d5add62412488b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 39/42] fix: offset and factor of wide integer scalings in the
 struct comments

---
 src/codegen/c-main-generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 74a05ca..8998bc9 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -664,14 +664,14 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 27;
-      infocmnt += StrPrint(" Offset= %d", (int)sig.Offset);
+      infocmnt += StrPrint(" Offset= %lld", (long long)sig.Offset);
     }
 
     if (sig.Factor != 1)
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 24;
-      infocmnt += StrPrint(" Factor= %d", (int)sig.Factor);
+      infocmnt += StrPrint(" Factor= %lld", (long long)sig.Factor);
     }
   }
 
-- 
2.43.0


From d0666e48ce4fa3dc708ea441fca3126a66840bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 40/42] fix: numbers out of range are not converted or shifted
 in an undefined way

Signal lengths of 0 and more than 64 bits, huge or not finite factors and offsets
led to undefined shifts and conversions inside of the generator
---
 src/codegen/c-main-generator.cpp | 15 +++++++++++----
 src/codegen/c-sigprinter.cpp     |  4 ++--
 src/helpers/formatter.cpp        | 18 ++++++++++++++++++
 src/helpers/formatter.h          |  8 ++++++++
 src/parser/dbclineparser.cpp     | 17 +++++++++--------
 5 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 8998bc9..067b808 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,13 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+/// @brief Mask of the counter signal's width
+static unsigned long long roll_mask(const SignalDescriptor_t& sig)
+{
+  // signals with wrong length never fit to the frame, the mask is not important for them
+  return (sig.LengthBit >= 1 && sig.LengthBit <= 64) ? ~0ULL >> (64 - sig.LengthBit) : ~0ULL;
+}
+
 /// @brief Prepares text to be printed as '//' comment, each line gets @prefix
 static std::string PrintCommentText(const std::string& text, const std::string& prefix)
 {
@@ -664,14 +671,14 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 27;
-      infocmnt += StrPrint(" Offset= %lld", (long long)sig.Offset);
+      infocmnt += StrPrint(" Offset= %lld", (long long)to_int64(sig.Offset));
     }
 
     if (sig.Factor != 1)
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 24;
-      infocmnt += StrPrint(" Factor= %lld", (long long)sig.Factor);
+      infocmnt += StrPrint(" Factor= %lld", (long long)to_int64(sig.Factor));
     }
   }
 
@@ -778,7 +785,7 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
     fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), ~0ULL >> (64 - sgs->msg.RollSig->LengthBit));
+      sgs->msg.RollSig->Name.c_str(), roll_mask(*sgs->msg.RollSig));
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -843,7 +850,7 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), ~0ULL >> (64 - sgs->msg.RollSig->LengthBit));
+      sgs->msg.RollSig->Name.c_str(), roll_mask(*sgs->msg.RollSig));
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 6293e58..d1d5ddf 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -58,8 +58,8 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   const std::string prtFactor = prt_double(sig->Factor, 9);
   const std::string prtOffset = prt_double(sig->Offset, 9);
 
-  const int64_t intFactor = (int64_t)sig->Factor;
-  const int64_t intOffset = (int64_t)sig->Offset;
+  const int64_t intFactor = to_int64(sig->Factor);
+  const int64_t intOffset = to_int64(sig->Offset);
 
   // integer operations with 32-bit and wider types may overflow (or
   // lose the sign) when they are performed in the types of operands
diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..a3044f0 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -147,6 +147,24 @@ std::string make_c_name(const std::string& s)
   return ret;
 }
 
+int64_t to_int64(double value)
+{
+  // 2^63 is the first value which is out of the range
+  const double limit = 9223372036854775808.0;
+
+  if (value >= limit)
+  {
+    return INT64_MAX;
+  }
+
+  if (value < -limit)
+  {
+    return INT64_MIN;
+  }
+
+  return (value != value) ? 0 : (int64_t)value;
+}
+
 std::string prt_double(double value, size_t precision, bool usedot)
 {
   std::stringstream strstrm;
diff --git a/src/helpers/formatter.h b/src/helpers/formatter.h
index 163373f..80bfa8a 100644
--- a/src/helpers/formatter.h
+++ b/src/helpers/formatter.h
@@ -24,6 +24,14 @@ std::string str_trim(std::string s);
 /// @return string object fixed formatted value
 std::string prt_double(double value, size_t precision, bool usedot = true);
 
+/**
+ * @brief Converts floating value to integer, values out of range are saturated
+ *
+ * @param value value to convert
+ * @return int64_t nearest representable value in direction to zero (0 if the value is not a number)
+ */
+int64_t to_int64(double value);
+
 /**
  * @brief Makes input string valid C-identifier
  *
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 4acb425..3122040 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -396,8 +396,6 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
   uint8_t is_unsigned = 0;
 
-  int64_t roffset = (int64_t)(sig->Offset / sig->Factor);
-
   uint64_t max_v = 0;
 
   // 1 step is to detect type of _ro
@@ -405,10 +403,13 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
   int64_t addon = 0;
 
+  // signals with wrong length never fit to the frame, the type is not important for them
+  const uint8_t width = (sig->LengthBit >= 1 && sig->LengthBit <= 64) ? sig->LengthBit : 64;
+
   if (sig->Signed)
   {
     addon = 1;
-    max_abs = static_cast<int64_t>((1ULL << (sig->LengthBit - 1)) - 1ULL);
+    max_abs = static_cast<int64_t>((1ULL << (width - 1)) - 1ULL);
     min_abs = (max_abs + 1) * -1;
 
     for (size_t i = 0; i < 4; i++)
@@ -423,7 +424,7 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
   }
   else
   {
-    max_abs = static_cast<int64_t>(~0ULL >> (64 - sig->LengthBit));
+    max_abs = static_cast<int64_t>(~0ULL >> (64 - width));
     min_abs = 0;
 
     for (size_t i = 0; i < 4; i++)
@@ -445,16 +446,16 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
   else if (sig->IsDoubleSig == false)
   {
-    int64_t i_offset = (int64_t)sig->Offset;
-    int64_t i_factor = (int64_t)sig->Factor;
+    int64_t i_offset = to_int64(sig->Offset);
+    int64_t i_factor = to_int64(sig->Factor);
 
     // estimate physical values first, the exact ones may not fit to 64 bits
     const double max_est = (sig->Signed ? (double)max_abs : (double)(uint64_t)max_abs) * sig->Factor;
     const double min_est = (double)min_abs * sig->Factor;
     const double low_est = std::min(max_est, min_est) + sig->Offset;
 
-    if (std::max({ std::fabs(max_est), std::fabs(min_est),
-      std::fabs(max_est + sig->Offset), std::fabs(min_est + sig->Offset) }) > 9.0e18)
+    if (!(std::max({ std::fabs(max_est), std::fabs(min_est),
+      std::fabs(max_est + sig->Offset), std::fabs(min_est + sig->Offset) }) <= 9.0e18))
     {
       // only the widest type is suitable
       max_abs = INT64_MAX;
-- 
2.43.0


From f123a31d1e11d78075a86d0bae9d957970e6845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 41/42] fix: comment text ending with the trigraph of backslash
 does not hide the next line

---
 src/codegen/c-main-generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 067b808..fbd8d69 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -54,9 +54,9 @@ static std::string PrintCommentText(const std::string& text, const std::string&
 
     auto last = line.find_last_not_of(" \t\v\f\r");
 
-    if (last != std::string::npos && line[last] == '\\')
+    if (last != std::string::npos && (line[last] == '\\' || (last >= 2 && line.compare(last - 2, 3, "?\?/") == 0)))
     {
-      // backslash at the end would make the next code line a part of the comment
+      // backslash (or its trigraph) at the end would make the next code line a part of the comment
       line += '.';
     }
 
-- 
2.43.0


From 4084aac294d545af43367fc88e36d284f63df559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 42/42] fix: text which is not a number is not the identifier
 of message 0

---
 src/parser/dbclineparser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 3122040..4cdf7bd 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -152,9 +152,14 @@ static uint32_t clear_msgid(uint32_t messageid)
 }
 
 /// @brief Reads the identifier of the message as it is in DBC file (with the flags in high bits)
-/// @return Value of identifier, UINT32_MAX (belongs to no message) if it doesn't fit to 32 bits
+/// @return Value of identifier, UINT32_MAX (belongs to no message) if it isn't a number or doesn't fit to 32 bits
 static uint32_t read_msgid(const std::string& text)
 {
+  if (text.empty() || !isdigit((unsigned char)text[0]))
+  {
+    return UINT32_MAX;
+  }
+
   const long long id = atoll(text.c_str());
   return (id < 0 || id > (long long)UINT32_MAX) ? UINT32_MAX : static_cast<uint32_t>(id);
 }
-- 
2.43.0

