From 102952b0a71310de30742d3247a1492809412767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 01/52] fix: do not look up symbol lengths beyond the longest
 declared symbol

A math token longer than every declared symbol made parseStatements() read
past the end of symbolLenExists[].
---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 12c4043..e7da64e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1093,7 +1093,7 @@ void parseStatements(void) {
           for (; symbolLen > 0; symbolLen = 0) {
 
             // symbolLenExists means a symbol of this length was declared
-            if (!symbolLenExists[symbolLen]) continue;
+            if (symbolLen > maxSymbolLen || !symbolLenExists[symbolLen]) continue;
             wrkStrPtr[symbolLen] = 0; // Define end of trial token to look up
             g_mathKeyPtr = (void *)bsearch(wrkStrPtr, g_mathKey, (size_t)g_mathTokens,
                 sizeof(long), mathSrchCmp);
-- 
2.43.0


From 936523342d77323deb4554813b92da893e1cc447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 02/52] fix: do not read before the start of an empty source
 line in errorMessage()

An unterminated comment or include at the end of a file gives an error whose
source line is empty.
---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index e6c8579..4071988 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -997,7 +997,7 @@ void errorMessage(vstring line, long lineNum, long column, long tokenLength,
 
   // Add a newline to line1 if there is none
   if (line) {
-    if (line[strlen(line) - 1] != '\n') {
+    if (!line[0] || line[strlen(line) - 1] != '\n') {
       let(&line1, line);
     } else {
       bug(1509);
-- 
2.43.0


From 8250e4b518b339ba4add16d1345ebcc7c4efd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 03/52] fix: check variables of hypotheses that no assertion
 depends on

Two active $f statements for one variable, or a $e variable without an
active $f, were reported only if a later $a or $p had the hypothesis as a
mandatory one.  Check each $f and $e where it is declared.
---
 src/mmpars.c | 145 +++++++++++++++++++++++----------------------------
 1 file changed, 66 insertions(+), 79 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index e7da64e..564fc1e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1414,6 +1414,43 @@ void parseStatements(void) {
           activeVarStack[g_MathToken[nmbrTmpPtr[i]].tmp].tmpFlag = 0;
         }
 
+        // Each variable of a $e must have an active $f, and the variable of a
+        // $f must not have another one.  This is checked here since no $a or
+        // $p that has the hypothesis as a mandatory one need follow.
+        for (i = 0; i < reqVars; i++) {
+          tokenNum = nmbrTmpPtr[i];
+          for (j = 0; j < activeFHypStackPtr; j++) {
+            n = activeFHypStack[j].statemNum;
+            // This was already verified earlier; but if there was an error,
+            // don't cause memory violation by going out of bounds.
+            if (g_Statement[n].mathStringLen != 2) continue;
+            if ((g_Statement[n].mathString)[1] == tokenNum) break;
+          }
+          if (type == e_ && j == activeFHypStackPtr) {
+            sourceError(g_Statement[stmt].mathSectionPtr, // fbPtr
+                0, // tokenLen
+                stmt, // stmt
+                cat(
+                "The variable \"", g_MathToken[tokenNum].tokenName,
+                "\" does not appear in an active \"$f\" statement.", NULL));
+          }
+          if (type == f_ && g_Statement[stmt].mathStringLen == 2
+              && j < activeFHypStackPtr) {
+            assignStmtFileAndLineNum(n);
+            sourceError(g_Statement[stmt].mathSectionPtr, // fbPtr
+                0, // tokenLen
+                stmt, // stmt
+                cat(
+                "The variable \"", g_MathToken[tokenNum].tokenName,
+                "\" already appears in the earlier active \"$f\" statement \"",
+                g_Statement[n].labelName, "\" on line ",
+                str((double)(g_Statement[n].lineNum)),
+                " in file \"",
+                g_Statement[n].fileName,
+                "\".", NULL));
+          }
+        }
+
         if (type == e_) {
           activeEHypStack[activeEHypStackPtr].varList = nmbrTmpPtr;
           activeEHypStackPtr++;
@@ -1731,91 +1768,41 @@ void parseStatements(void) {
       }
     }
 
-    // Ensure the current Metamath spec is met:  "There may
-    // not be be two active $f statements containing the same variable.  Each
-    // variable in a $e, $a, or $p statement must exist in an active $f
-    // statement."  (Metamath book, p. 94).
+    // Ensure the current Metamath spec is met:  "Each variable in a $e, $a,
+    // or $p statement must exist in an active $f statement."  (Metamath book,
+    // p. 94).  ($e is checked above, together with "There may not be be two
+    // active $f statements containing the same variable".)
     // This section of code is stand-alone and may be removed without side
     // effects (other than less stringent error checking).
-    // ??? To do (maybe):  This might be better placed in-line with the scan
-    // above, for faster speed and to get the pointer to the token for the
-    // error message, but it would require a careful code analysis above.
     if (type == a_ || type == p_) {
-      // Scan each hypothesis (and the statement itself in last pass)
       reqHyps = nmbrLen(g_Statement[stmt].reqHypList);
-      for (i = 0; i <= reqHyps; i++) {
-        if (i < reqHyps) {
-          m = (g_Statement[stmt].reqHypList)[i];
-        } else {
-          m = stmt;
-        }
-        if (g_Statement[m].type != f_) { // Check $e,$a,$p
-          // This block implements: "Each variable in a $e, $a, or $p
-          // statement must exist in an active $f statement" (Metamath
-          // book p. 94).
-          nmbrTmpPtr = g_Statement[m].mathString;
-          // Scan all the vars in the $e (i<reqHyps) or $a/$p (i=reqHyps)
-          for (j = 0; j < g_Statement[m].mathStringLen; j++) {
-            tokenNum = nmbrTmpPtr[j];
-            // Ignore constants
-            if (g_MathToken[tokenNum].tokenType == (char)con_) continue;
-            p = 0; // Initialize flag that we found a $f with the variable
-            // Scan all the mandatory $f's before this $e,$a,$p
-            for (k = 0; k < i; k++) {
-              n = (g_Statement[stmt].reqHypList)[k];
-              if (g_Statement[n].type != f_) continue; // Only check $f
-               // This was already verified earlier; but if there was an
-               // error, don't cause memory violation by going out of bounds.
-              if (g_Statement[n].mathStringLen != 2) continue;
-              if ((g_Statement[n].mathString)[1] == tokenNum) {
-                p = 1; // Set flag that we found a $f with the variable
-                break;
-              }
-            } // next k ($f hyp scan)
-            if (!p) {
-              sourceError(g_Statement[m].mathSectionPtr, // fbPtr
-                  0, // tokenLen
-                  m, // stmt
-                  cat(
-                  "The variable \"", g_MathToken[tokenNum].tokenName,
-                  "\" does not appear in an active \"$f\" statement.", NULL));
-            }
-          } // next j (variable scan)
-        } else { // g_Statement[m].type == f_
-          // This block implements: "There may not be be two active $f
-          // statements containing the same variable" (Metamath book p. 94).
-          // Check for duplicate vars in active $f's
-
+      nmbrTmpPtr = g_Statement[stmt].mathString;
+      for (j = 0; j < g_Statement[stmt].mathStringLen; j++) {
+        tokenNum = nmbrTmpPtr[j];
+        // Ignore constants
+        if (g_MathToken[tokenNum].tokenType == (char)con_) continue;
+        p = 0; // Initialize flag that we found a $f with the variable
+        // Scan all the mandatory $f's before this $a,$p
+        for (k = 0; k < reqHyps; k++) {
+          n = (g_Statement[stmt].reqHypList)[k];
+          if (g_Statement[n].type != f_) continue; // Only check $f
           // This was already verified earlier; but if there was an error, don't
           // cause memory violation by going out of bounds.
-          if (g_Statement[m].mathStringLen != 2) continue;
-          tokenNum = (g_Statement[m].mathString)[1];
-          // Scan all the mandatory $f's before this $f
-          for (k = 0; k < i; k++) {
-            n = (g_Statement[stmt].reqHypList)[k];
-            if (g_Statement[n].type != f_) continue; // Only check $f
-            // This was already verified earlier; but if there was an error, don't
-            // cause memory violation by going out of bounds.
-            if (g_Statement[n].mathStringLen != 2) continue;
-            if ((g_Statement[n].mathString)[1] == tokenNum) {
-              // We found 2 $f's with the same variable
-              assignStmtFileAndLineNum(n);
-              sourceError(g_Statement[m].mathSectionPtr, // fbPtr
-                  0, // tokenLen
-                  m, // stmt
-                  cat(
-                  "The variable \"", g_MathToken[tokenNum].tokenName,
-                "\" already appears in the earlier active \"$f\" statement \"",
-                  g_Statement[n].labelName, "\" on line ",
-                  str((double)(g_Statement[n].lineNum)),
-                  " in file \"",
-                  g_Statement[n].fileName,
-                  "\".", NULL));
-              break; // Optional: suppresses add'l error msgs for this stmt
-            }
-          } // next k ($f hyp scan)
-        } // if not $f else is $f
-      } // next i ($e hyp scan of this statement, or its $a/$p)
+          if (g_Statement[n].mathStringLen != 2) continue;
+          if ((g_Statement[n].mathString)[1] == tokenNum) {
+            p = 1; // Set flag that we found a $f with the variable
+            break;
+          }
+        } // next k ($f hyp scan)
+        if (!p) {
+          sourceError(g_Statement[stmt].mathSectionPtr, // fbPtr
+              0, // tokenLen
+              stmt, // stmt
+              cat(
+              "The variable \"", g_MathToken[tokenNum].tokenName,
+              "\" does not appear in an active \"$f\" statement.", NULL));
+        }
+      } // next j (variable scan)
     } // if stmt is $a or $p
   } // Next stmt
 
-- 
2.43.0


From b94928d05b0758edc9b7712f03b6fed98569364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 04/52] fix: WRITE SOURCE / FORMAT and / REWRAP dropped
 comments that share a line with a label

Everything between the last line end and the label (or the description
comment) was cut off, so that a comment starting on an earlier line lost its
end and hid the following statements.
---
 src/mmpars.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 564fc1e..efaff7c 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4051,8 +4051,11 @@ vstring outputStatement(long stmt, flag reformatFlag) {
           pos = 1;
         }
 
-        // If there is no '\n', insert it (unless first line in file)
-        if (pos == 0 && stmt > 1) {
+        // If there is no '\n', insert it (unless first line in file); also
+        // insert it after any other comment on this line
+        if ((pos == 0 && stmt > 1)
+            || strlen(edit(right(labelSection, pos + 1), 2 /* discard spaces */))
+                != 0) {
           let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
               "\n", NULL));
           pos = (long)strlen(labelSection) + 1;
@@ -4144,8 +4147,11 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         pos = rinstr(labelSection, g_Statement[stmt].labelName);
         let(&labelSection, left(labelSection, pos - 1));
         pos = rinstr(labelSection, "\n");
-        // If there is none, insert it (unless first line in file)
-        if (pos == 0 && stmt > 1) {
+        // If there is none, insert it (unless first line in file); also
+        // insert it after any comment on this line
+        if ((pos == 0 && stmt > 1)
+            || strlen(edit(right(labelSection, pos + 1), 2 /* discard spaces */))
+                != 0) {
           let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
               "\n", NULL));
           pos = (long)strlen(labelSection) + 1;
-- 
2.43.0


From 3049fbf4e0128078103e73c773a58e2b6f4cb1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 05/52] fix: WRITE SOURCE / FORMAT and / REWRAP garbled a label
 followed by a comment

The text from the last newline to the comment was dropped and the label
written again after it; a label mentioned in such a comment cut the comment.
---
 src/mmpars.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index efaff7c..9bf0fef 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3870,6 +3870,7 @@ vstring outputStatement(long stmt, flag reformatFlag) {
   vstring_def(str1);
   long length;
   flag nowrapHtml;
+  flag commentAfterLabel;
 
   // Re-initialize static variables for a second 'write source'
   if (stmt == 1) {
@@ -3935,6 +3936,12 @@ vstring outputStatement(long stmt, flag reformatFlag) {
           right(labelSection, pos + 1), NULL));
     }
 
+    // A label section that ends with a comment (i.e. has a comment between
+    // the label and the keyword) is left as it is.
+    slen = (long)strlen(labelSection);
+    while (slen > 0 && strchr(" \n\f", labelSection[slen - 1])) slen--;
+    commentAfterLabel = slen > 1 && !strncmp(labelSection + slen - 2, "$)", 2);
+
     switch (g_Statement[stmt].type) {
       case lb_: // ${
       case rb_: // $}
@@ -4025,6 +4032,7 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         break; // End of ${, $}, $v, $c, $d cases
       case a_: // $a
       case p_: // $p
+        if (commentAfterLabel) break;
         // Get last $(
         commentStart = rinstr(labelSection,  "$(");
         // Get last $)
@@ -4144,6 +4152,7 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         break; // End of $a, $p cases
       case e_: // $e
       case f_: // $f
+        if (commentAfterLabel) break;
         pos = rinstr(labelSection, g_Statement[stmt].labelName);
         let(&labelSection, left(labelSection, pos - 1));
         pos = rinstr(labelSection, "\n");
-- 
2.43.0


From dec32401ca03f9ab35b128cf1d64021ba1276236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 06/52] fix: a file that includes the main file stopped with
 bug check 1765

A reference to a file that is already included, itself among them, is ignored
according to the Metamath language.
---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 9bf0fef..83872db 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5772,7 +5772,8 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
       // This file has already been included. Change Begin and $[ $] to
       // Skip. alreadyInclBy is the index of the previous g_IncludeCall that
       // included it.
-      if (!(alreadyInclBy > 0)) bug(1765);
+      // (It is 0 if the file to be included is the main file.)
+      if (!(alreadyInclBy >= 0)) bug(1765);
       switch (cmdType) {
         case 'B':
           // Save the included source temporarily
-- 
2.43.0


From 8794e26c46cacec056f63940fcd38d88319d29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 07/52] fix: expand includes between $( Begin $[ .. and $( End
 $[ ..

The expansion was computed but thrown away, and the search for further
includes went on beyond the end of the buffer.
---
 src/mmpars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 83872db..c595850 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5633,8 +5633,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // newInclSize = oldInclSize; // Includes new prefix and suffix
           newInclSize = (long)strlen(inclPrefix) + inclSize +
                 (long)strlen(inclSuffix); // Includes new prefix and suffix
-          // It is already a Begin comment, so leave it alone
-          // *size = *size;
+          // It is already a Begin comment, so leave it alone, but put in any
+          // includes expanded inside of it
+          let(&newFileBuf, cat(left(newFileBuf, cmdPos1 - 1),
+              inclPrefix, inclSource, inclSuffix,
+              right(newFileBuf, endPos2), NULL));
+          *size = *size - oldInclSize + newInclSize;
           // Adjust starting position for next inclusion search
           // -1 since startOffset is 0-based but cmdPos2 is 1-based
           startOffset = cmdPos1 + newInclSize - 1;
-- 
2.43.0


From 7acc4b3b27df93ca9093fc8cf148822c7983aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 08/52] fix: $( End $[ a $] $) must not end $( Begin $[ ab $]
 $)

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index c595850..ed5be3e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4954,7 +4954,8 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
           let(&(*fileName), left(fbPtr, j));
         } else {
           // It's an End command
-          if (strncmp(*fileName, fbPtr, (size_t)j)) {
+          if ((long)strlen(*fileName) != j
+              || strncmp(*fileName, fbPtr, (size_t)j)) {
             // But the file name didn't match, so it's not a matching End.
             // Find end of comment and continue.
             goto GET_PASSED_END_OF_COMMENT;
-- 
2.43.0


From c5ca6b49e61c0c384ea327265561e13e1448eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 09/52] fix: line numbers of errors after an inclusion

A newline right after an inclusion was not counted at the next one, and
counted twice after a skipped (repeated) inclusion.
---
 src/mmpars.c | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index ed5be3e..c1c7699 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5613,13 +5613,14 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum - 1;
+          // (its source starts with the whitespace after Begin)
+          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum
+              - countLines(newFileBuf + cmdPos2 - 2, 1);
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 - 1) + 1;
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              + cmdPos2 - 1, endPos2 - cmdPos2);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           // Call recursively to expand any includes in the included source.
@@ -5675,12 +5676,11 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // Get the parent line number up to the inclusion.
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum.
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 - 1);
+              + cmdPos1 - 1, cmdPos2 - cmdPos1);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5739,13 +5739,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1, // start at (cmdPos1+1)th character
-              cmdPos2 - cmdPos1 - 1);
+              + cmdPos1 - 1, cmdPos2 - cmdPos1);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5805,12 +5804,11 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 /* - 1 */);
+              + cmdPos2 - 1, endPos2 - cmdPos2);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5835,12 +5833,11 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
+              + cmdPos1 - 1, cmdPos2 - cmdPos1);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5865,13 +5862,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              + cmdPos1 - 1, cmdPos2 - cmdPos1);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           let(&inclSource, ""); // Final source to be stored - none
-- 
2.43.0


From 463fa328ceafbb0f09a414bdb3aacd52f978af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 10/52] fix: explicit proof with missing target labels wrote
 outside the source

When a proof has fewer "target =" labels than steps, the error is reported,
but the rearrangement of hypotheses then used the missing targets.
---
 src/mmpars.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index c1c7699..7b2a8a9 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2492,6 +2492,8 @@ char parseProof(long statemNum)
           hypStepNum = g_WrkProof.RPNStack[m]; // Step number of hypothesis k
 
           // Temporarily zap the token's end with a null for string comparisons
+          // A step without a target label matches nothing (error was reported)
+          if (targetNmbr[hypStepNum] == 0) continue;
           fbPtr = targetPntr[hypStepNum];
           zapSave = fbPtr[targetNmbr[hypStepNum]];
           fbPtr[targetNmbr[hypStepNum]] = 0; // Zap source
-- 
2.43.0


From cd4a23edd159ab1feb746675d1ab2db8a85aa39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 11/52] fix: stray colons in a normal proof read before the
 step arrays

"x : : y" and "x = : y" made the number of steps negative, and duplicate
local labels of the first step looked at the step before it.
---
 src/mmpars.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 7b2a8a9..ca391f9 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2085,6 +2085,23 @@ char parseProof(long statemNum)
     }
     if (fbPtr[0] == '=') continue; // Skip the = token
 
+    if (fbPtr[0] == ':' && tok > 0) {
+      fbPtr = g_WrkProof.tokenSrcPtrPntr[tok - 1];
+      if (fbPtr[0] == ':' || fbPtr[0] == '=') {
+        // There is no label before the colon; report it and skip the colon
+        if (!g_WrkProof.errorCount) {
+          sourceError(g_WrkProof.tokenSrcPtrPntr[tok], 1, statemNum, cat(
+              "The colon at proof step ",
+              str((double)(g_WrkProof.numSteps + 1)),
+              " must be preceded by a local label.", NULL));
+        }
+        if (returnFlag < 2) returnFlag = 2;
+        g_WrkProof.errorCount++;
+        continue;
+      }
+      fbPtr = g_WrkProof.tokenSrcPtrPntr[tok];
+    }
+
     // Save pointer to source file vs. step for error messages
     g_WrkProof.stepSrcPtrNmbr[g_WrkProof.numSteps] =
         g_WrkProof.tokenSrcPtrNmbr[tok]; // Token length
@@ -2255,9 +2272,13 @@ char parseProof(long statemNum)
           k = m; // Larger step number
         }
         // Find the token - back up a step then move forward to loc label
-        fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
-        fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
-        fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        if (k == 0) {
+          fbPtr = g_WrkProof.tokenSrcPtrPntr[0]; // No previous step
+        } else {
+          fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
+          fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
+          fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        }
         if (!g_WrkProof.errorCount) {
           sourceError(fbPtr,
               proofTokenLen(fbPtr), statemNum,
-- 
2.43.0


From 384ecda946537a25fb599b215ff2d7c27c864375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 12/52] fix: DELETE STEP looked at the step before checking its
 range

---
 src/metamath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 4850a68..f90e876 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5585,15 +5585,15 @@ void command(int argc, char *argv[]) {
       } else {
         s = nmbrLen(g_ProofInProgress.proof);
       }
-      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
-        print2("?Step %ld is unknown and cannot be deleted.\n", s);
-        continue;
-      }
       m = nmbrLen(g_ProofInProgress.proof); // Original proof length
       if (s > m || s < 1) {
         print2("?The step must be in the range from 1 to %ld.\n", m);
         continue;
       }
+      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
+        print2("?Step %ld is unknown and cannot be deleted.\n", s);
+        continue;
+      }
 
       deleteSubProof(s - 1);
       n = nmbrLen(g_ProofInProgress.proof); // New proof length
-- 
2.43.0


From d4aa406bd7158e3c643707c0642a6c89c63c77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 13/52] fix: LET STEP with an empty math string read before the
 string

unify() looks at the first and last symbols of both strings.
---
 src/metamath.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index f90e876..bcf04e6 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4385,6 +4385,11 @@ void command(int argc, char *argv[]) {
             0); // ALL not allowed
         if (s == -1) continue; // Error; message was provided already
 
+        if (!nmbrLen(nmbrTmp)) {
+          print2("?The math symbol string must not be empty.\n");
+          continue;
+        }
+
         // Check to see if the statement selected is allowed
         if (!checkMStringMatch(nmbrTmp, s - 1)) {
           printLongLine(cat("?Step ", str((double)s), " cannot be unified with \"",
-- 
2.43.0


From 8032bb486ad06dce83ee7256718e7fa5e98cd88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 14/52] fix: SEARCH did not match zero tokens with $* at the
 start or end

"SEARCH * 'p $*'" missed the statements ending with p.
---
 src/metamath.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index bcf04e6..da456e9 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5798,7 +5798,8 @@ void command(int argc, char *argv[]) {
             str3[p + s] = str1[p];
           }
         }
-        let(&str1, left(str3, q + s));
+        // Surround with spaces, so that $* at the start or end is recognized
+        let(&str1, cat(" ", left(str3, q + s), " ", NULL));
 
         // Find single-character-match wildcard argument "$?"
         // (or "?" for convenience).  Use ASCII 3 for the exactly-1-char
@@ -5851,7 +5852,7 @@ void command(int argc, char *argv[]) {
         }
 
         // Add wildcards to beginning and end to match middle of any string
-        let(&str1, cat(chr(2), " ", str1, " ", chr(2), NULL));
+        let(&str1, cat(chr(2), str1, chr(2), NULL));
       } // End no COMMENTS switch
 
       for (i = 1; i <= g_statements; i++) {
-- 
2.43.0


From 1a58b716a7b3de63a65b0dc75d83e8b52f7d590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 15/52] fix: TOOLS: do not read before the start of a short
 file name

---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index da456e9..26217bb 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1350,7 +1350,8 @@ void command(int argc, char *argv[]) {
           rewind(list1_fp);
         }
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)(strlen(list2_fname)) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
@@ -1701,7 +1702,8 @@ void command(int argc, char *argv[]) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)strlen(list2_fname) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
-- 
2.43.0


From 0295bbf989f219ed9db3b0648ad235dd24b31b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 16/52] fix: TOOLS SUBSTITUTE: do not lose blank lines when the
 string to replace contains \n

---
 src/metamath.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 26217bb..7c80298 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -913,6 +913,7 @@ void command(int argc, char *argv[]) {
   flag cmdMode, changedFlag, outMsgFlag;
   double sum;
   vstring_def(bufferedLine);
+  flag bufferedLineFlag = 0; // bufferedLine is to be processed next
   vstring_def(tagStartMatch);  // For TAG command
   long tagStartCount = 0;      // For TAG command
   vstring_def(tagEndMatch);    // For TAG command
@@ -1429,10 +1430,12 @@ void command(int argc, char *argv[]) {
             outMsgFlag = 1;
         } // End switch
         free_vstring(bufferedLine);
+        bufferedLineFlag = 0;
   
         // while (linput(list1_fp, NULL, &str1)) {
         while (1) {
-          if (bufferedLine[0]) {
+          if (bufferedLineFlag) {
+            bufferedLineFlag = 0;
             // Get input from buffered line (from rejected \n replacement)
             let(&str1, bufferedLine);
             free_vstring(bufferedLine);
@@ -1500,6 +1503,7 @@ void command(int argc, char *argv[]) {
                     let(&str2, cat(str1, "\\n", bufferedLine, NULL));
                     free_vstring(bufferedLine);
                   } else {
+                    bufferedLineFlag = 1; // The line may be empty
                     k = 0; // No match - leave bufferedLine for next pass
                   }
                 } else { // EOF reached
-- 
2.43.0


From 59cf8f8cd9ed19ffc055f91b40c027ce908c0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 17/52] fix: TOOLS SUBSTITUTE and COUNT: end when the string is
 empty

---
 src/metamath.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 7c80298..617482e 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1530,6 +1530,7 @@ void command(int argc, char *argv[]) {
                   p1 = p1 + (long)strlen(newstr) - 1;
                   // p1 = p1 - (long)strlen(g_fullArg[2]) + (long)strlen(newstr); // bad
                   if (q != -1) break;
+                  if (!((vstring)(g_fullArg[2]))[0]) break; // It's always found
                 }
               }
               if (strcmp(str1, str2)) changedLines++;
@@ -1933,6 +1934,7 @@ void command(int argc, char *argv[]) {
               p = instr(p + 1, str1, g_fullArg[2]);
               if (!p) break;
               p2++;
+              if (!((vstring)(g_fullArg[2]))[0]) break; // It's always found
             }
           }
           sum = sum + val(str1);
-- 
2.43.0


From d5d9c2040afa88becac4b36ca6b30f8243fb8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 18/52] fix: TOOLS NUMBER: refuse an increment that never
 reaches the last number

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 617482e..e6d3e84 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1883,6 +1883,10 @@ void command(int argc, char *argv[]) {
       }
 
       if (cmdMatches("NUMBER")) {
+        if ((long)val(g_fullArg[4]) <= 0) {
+          print2("?The increment must be greater than 0.\n");
+          continue;
+        }
         list1_fp = fSafeOpen(g_fullArg[1], "w", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         j = (long)strlen(str(val(g_fullArg[2])));
-- 
2.43.0


From 83b0073d403c623a272644474adb0bf54a440df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 19/52] fix: edit(): keep inside the buffer when tabbing and
 untabbing

---
 src/mmvstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index c0d6836..1e69fc2 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,7 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 7; // Allow for max possible length
+  if (untab_flag || tab_flag) i = i * 8; // Allow for max possible length
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
@@ -560,7 +560,7 @@ temp_vstring edit(const char *sin, long control) {
       for (j = i; j < i + 8 - ((m - 1) & 7); j++) {
         sout[j - 1] = ' ';
       }
-      k = k + 8 - ((m - 1) & 7);
+      k = k + 8 - ((m - 1) & 7) - 1; // The tab itself is replaced
     }
   }
 
@@ -594,7 +594,7 @@ temp_vstring edit(const char *sin, long control) {
       // error message returns.
       m = i - 2;
 
-      while (sout[j - 1] == ' ' && j > i - 8) j--;
+      while (j > i - 8 && sout[j - 1] == ' ') j--;
       if (j <= m) {
         sout[j] = '\t';
         j = i;
-- 
2.43.0


From 9ce9256af556c1355faf7a2ea97ea8138727eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 20/52] fix: edit(): do not reduce spaces inside quotes when
 asked to leave quotes alone

---
 src/mmvstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 1e69fc2..4b40636 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -503,8 +503,11 @@ temp_vstring edit(const char *sin, long control) {
   // Reduce multiple space/tab to a single space
   if (reduce_flag) {
     i = j = last_char_is_blank = 0;
+    processing_inside_quote = 0;
     while (i <= k - 1) {
-      if (!isblank_(sout[i])) {
+      if (quote_flag && ((sout[i] == '"') || (sout[i] == '\'')))
+        processing_inside_quote = ~ processing_inside_quote;
+      if (processing_inside_quote || !isblank_(sout[i])) {
         sout[j++] = sout[i++];
         last_char_is_blank = 0;
       } else {
-- 
2.43.0


From 7d5f1e718d2a08b620ed35d04c0523bd31d87bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 21/52] fix: end of input at the 'Press <return> for more'
 prompt made the program loop forever

---
 src/mminou.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 4071988..bebcb8e 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -244,6 +244,11 @@ flag print2(const char* fmt, ...) {
 #endif
       }
       c = (char)(getchar());
+      if (feof(stdin)) {
+        // End of input: nobody will answer, so scroll to the end
+        localScrollMode = 0;
+        break;
+      }
       if (c == '\n') {
         if (backBufferPos == pntrLen(backBuffer)) {
           // Normal output
@@ -297,7 +302,7 @@ flag print2(const char* fmt, ...) {
 #endif
         continue;
       }
-      while (c != '\n') c = (char)(getchar());
+      while (c != '\n' && !feof(stdin)) c = (char)(getchar());
     } // While 1
 
     if (backFromCmdInput)
-- 
2.43.0


From cb65cfb9576cce3074d341f752ff8d4e0b4c44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 22/52] fix: end of input at the question whether to exit
 without saving made the program loop forever on a narrow screen

---
 src/mminou.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index bebcb8e..f7edaa2 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -882,6 +882,8 @@ vstring cmdInput1(const char *ask) {
   // In case ask is temporarily allocated (i.e in case it will
   // become deallocated at next let().
   let(&ask1, ask);
+  // A question "Do you want to...", not a prompt for a command
+  flag question = !strncmp(ask1, "Do", 2);
   // Look for lines too long
   while ((signed)(strlen(ask1)) > g_screenWidth) {
     p = g_screenWidth - 1;
@@ -910,7 +912,7 @@ vstring cmdInput1(const char *ask) {
       if (!commandLn) {
         commandLn = ""; // Init vstring (was NULL)
         // Allow ^D to exit
-        if (strcmp(left(ask1, 2), "Do")) {
+        if (!question) {
           // ^Z or ^D found at MM>, MM-PA>, or TOOLS> prompt
           let(&commandLn, "EXIT");
         } else {
-- 
2.43.0


From 0bd3f9e529f4df120f3d3937a8878852a2272fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 23/52] fix: a command line starting with a null character
 wrote before its buffer

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index f7edaa2..bed52b5 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -803,7 +803,7 @@ vstring cmdInput(FILE *stream, const char *ask) {
       }
     }
 
-    if (g[1]) {
+    if (i > 1) {
       i--;
       if (g[i] != '\n') {
         printf("***BUG #1519\n");
-- 
2.43.0


From 967a1ec720963432f8f4d59b2887de96db73c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 24/52] fix: prompts on screens narrower than 11 columns read
 before the prompt text

---
 src/mminou.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index bed52b5..3ee9947 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -895,8 +895,8 @@ vstring cmdInput1(const char *ask) {
   // Allow 10 characters for answer
   if ((signed)(strlen(ask1)) > g_screenWidth - 10) {
     p = g_screenWidth - 11;
-    while (ask1[p] != ' ' && p > 0) p--;
-    if (p) { // (Give up if no spaces)
+    while (p > 0 && ask1[p] != ' ') p--;
+    if (p > 0) { // (Give up if no spaces)
       print2("%s\n", left(ask1, p));
       let(&ask1, right(ask1, p + 1));
     }
-- 
2.43.0


From 7658230738628f72a0fa61d2ede8f68c3eb4f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 25/52] fix: compressing a proof that uses a label longer than
 the line looped forever

---
 src/mmdata.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 8583bd7..ba6a920 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -2192,6 +2192,8 @@ temp_vstring compressProof(const nmbrString *proof, long statemNum,
       // far in the future.  Here we will just put the labels in the order
       // that will cause it to wrap at the desired place.
       explWidth = g_screenWidth - indentation - explOffset + 1;
+      // There may be no space left at all, e.g. when the indentation is wide.
+      if (explWidth < 0) explWidth = 0;
 
       // Fill in the label list output line with labels that fit best.
       // The knapsack01() call below is always given the entire set of
@@ -2208,6 +2210,16 @@ temp_vstring compressProof(const nmbrString *proof, long statemNum,
       // i.e. explWidth=1).
       if (j < 0) bug(1383);
 
+      // When no label fits even on a new line, put one on the line anyway.
+      if (explOffset == 0 && !instr(1, explIncluded, "y")) {
+        for (j = 0; j < explLabels; j++) {
+          if (explComprLen[j] == i && explUsedFlag[j] == 'n') {
+            explIncluded[j] = 'y';
+            break;
+          }
+        }
+      }
+
       // Accumulate the labels selected by knapsack01() into the output list,
       // in the same order as they appeared in the original explicit label list.
       explUnassignedCount = 0;
-- 
2.43.0


From fe8fcdc660ad350846571259f631461175951826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:15 +0000
Subject: [PATCH 26/52] fix: SAVE PROOF aborted with a program bug at screen
 widths below 5

---
 src/metamath.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index e6d3e84..d2a462d 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6025,7 +6025,9 @@ void command(int argc, char *argv[]) {
       s = (long)val(g_fullArg[2]); // Screen width value
 
       // TODO: figure out why s=2 crashes program!
-      if (s < 3) s = 3; // Less than 3 may cause a segmentation fault
+      // Less than 3 may cause a segmentation fault, and less than 5 leaves
+      // no room for the indented "$." that ends a proof (SAVE PROOF).
+      if (s < 5) s = 5;
       i = g_screenWidth;
       g_screenWidth = s;
       print2("Screen width has been changed from %ld to %ld.\n",
-- 
2.43.0


From 502e6987a99373f7092ddf1530d1761cebf8d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:41 +0000
Subject: [PATCH 27/52] fix: end of input at a question of MATCH or UNIFY /
 INTERACTIVE made the program loop forever

---
 src/mmpfas.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 14f0b0b..1960240 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -172,6 +172,12 @@ void interactiveMatch(long step, long maxEssential)
       tmpStr2 = cmdInput1(tmpStr3);
       free_vstring(tmpStr3);
 
+      if (!strcmp(tmpStr2, "EXIT")
+          && !instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL), " EXIT ")) {
+        // End of input (see cmdInput1()); bypass to prevent infinite loop
+        free_vstring(tmpStr2);
+      }
+
       if (tmpStr2[0] == 0) {
         free_vstring(tmpStr1);
         free_vstring(tmpStr4);
@@ -2666,6 +2672,11 @@ char interactiveUnify(const nmbrString *schemeA, const nmbrString *schemeB,
             goto returnPoint;
           }
         }
+        if (!strcmp(tmpStr, "EXIT")) {
+          // End of input (see cmdInput1()); quit to prevent infinite loop
+          returnValue = 3;
+          goto returnPoint;
+        }
         free_vstring(tmpStr);
       }
     } // Next unifNum
-- 
2.43.0


From 7a93d5d2a0b2de4f9891cc0025e636eecced32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 28/52] fix: two labels as the answer to the question of MATCH
 aborted with a program bug

---
 src/mmpfas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 1960240..85aa2cc 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -188,7 +188,8 @@ void interactiveMatch(long step, long maxEssential)
         free_nmbrString(timeoutList);
         return;
       }
-      if (!instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
+      if (instr(1, tmpStr2, " ") // More than one label
+          || !instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
            cat(" ", tmpStr2, " ", NULL))) {
         print2("\"%s\" is not one of the choices.  Try again.\n", tmpStr2);
       } else {
-- 
2.43.0


From 3e1a7a5fb85ab8d274769cb05df9b0daa49641a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 29/52] fix: MATCH read past the list of matches when a
 statement with a unification timeout was selected

---
 src/mmpfas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 85aa2cc..2ed6d00 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -217,7 +217,7 @@ void interactiveMatch(long step, long maxEssential)
   } // End if matchCount == 1
 
   // Add to statement to the proof
-  assignStatement(matchList[matchListPos], step);
+  assignStatement(stmt, step);
   g_proofChangedFlag = 1; // Flag for 'undo' stack
 
   free_vstring(tmpStr1);
-- 
2.43.0


From 04743f90c6304ec3705b748bd88a79caeaa0c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 30/52] fix: a comment ending in **/ in the typesetting
 definitions is terminated

---
 src/mmwtex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 484acf0..abf66e4 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -849,7 +849,7 @@ long texDefWhiteSpaceLen(char *ptr)
             return i + (long)strlen(&ptr[i]); // Unterminated comment - goto EOF
           }
           if (ptr1[1] == '/') break;
-          i = ptr1 - ptr;
+          i = ptr1 - ptr - 1; // Continue with the character after the "*"
         }
         i = ptr1 - ptr + 2;
         continue;
-- 
2.43.0


From afbcc4dd8c0c285e7cbe6489380701d00ff2c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 31/52] fix: italics that begin a description and a subscript
 that ends it

---
 src/mmwtex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index abf66e4..d8098a7 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1989,8 +1989,10 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
 
       // Opening "_" must be <whitespace>_<alphanum> for <I> tag
       if (pos1 > 1) {
-        // Check for not whitespace and not opening punctuation
+        // Check for not whitespace and not opening punctuation (and not the
+        // end of a tag, such as that put before the description)
         if (!isspace((unsigned char)(cmt[pos1 - 2]))
+            && cmtMasked[pos1 - 2] != '>'
             && strchr(OPENING_PUNCTUATION, cmt[pos1 - 2]) == NULL) {
           // Check for not whitespace and not closing punctuation
           if (!isspace((unsigned char)(cmt[pos1]))
@@ -2007,6 +2009,9 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
               if (!cmt[pos2]) break; // End of string
               // Look for whitespace or closing punctuation
               if (isspace((unsigned char)(cmt[pos2]))
+                  // If the subscript ends the comment, "</TD>" with no space
+                  // was appended before this section.
+                  || cmtMasked[pos2] == '<'
                   || strchr(OPENING_PUNCTUATION, cmt[pos2]) != NULL
                   || strchr(CLOSING_PUNCTUATION, cmt[pos2]) != NULL) break;
               pos2++; // Move forward through subscript
-- 
2.43.0


From dcd461910226582ad41b7f9b360c574c8ea54708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 32/52] fix: [[ is unescaped after a bracket that is not closed

---
 src/mmwtex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index d8098a7..bd7e4bd 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2133,7 +2133,7 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
 
       // Only look at non-math part of comment
       pos2 = instr(pos1 + 1, cmtMasked, "]");
-      if (!pos2) break;
+      if (!pos2) continue; // There may still be a "[[" to unescape
 
       // Get bibTag from cmtMasked as extra precaution
       let(&bibTag, seg(cmtMasked, pos1, pos2));
-- 
2.43.0


From 7373b01fc8bf1d7f845878d619eecc207656e277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 33/52] fix: WRITE SOURCE / EXTRACT: separate the header
 comment from the first statement

When the first extracted statement has no white space before it the
result was not a valid database.  Also use only the first comment of the
first line for the header.
---
 src/mmcmds.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4844624..0bcf361 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4191,8 +4191,12 @@ void writeExtractedSource(
     // Prevent "Extracted from:" accumulation if sent through /EXTRACT again
     let(&buf, right(buf, j + 1));
   }
+  // Only keep the comment that starts on the first line, since another one
+  // after it may not end on that line.
+  p1 = instr(1, buf, "$)");
+  if (p1 != 0) let(&buf, left(buf, p1 + 1));
   fprintf(fp, "$( Extracted from: %s", buf);
-  if (instr(1, buf, "$)") == 0) fprintf(fp, " $)");
+  if (p1 == 0) fprintf(fp, " $)");
   fprintf(fp,
       "\n$( Created %s %s using \"READ '%s'\" then\n",
       date(), time_(), g_input_fn);
@@ -4253,6 +4257,11 @@ void writeExtractedSource(
 
       fixUndefinedLabels(extractNeeded, &buf);
 
+      // The comment above must be separated from the first statement.
+      if (extractedStmts == 0
+          && (buf[0] == 0 || strchr(" \t\r\f\n", buf[0]) == NULL)) {
+        fprintf(fp, "\n");
+      }
       fprintf(fp, "%s", buf);
       // Text below last statement isn't (currently) used - do we need it?
       if (stmt == g_statements + 1) bug(272);
-- 
2.43.0


From e11c64d6e26424236a8b48a652d9996a01e59f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:54 +0000
Subject: [PATCH 34/52] fix: WRITE SOURCE / EXTRACT: do not change the escape
 ~~ in descriptions

---
 src/mmcmds.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 0bcf361..85e7357 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4395,10 +4395,9 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
   while (1) {
     p1 = instr(p1 + 1, *buf, "~");
     if (p1 == 0) break;
-    if (p1 - 2 >= 0) { // Prevent out-of-bounds access
-      if ((*buf)[p1 - 2] == '~') {
-        continue; // it is a ~~ escape; don't process
-      }
+    if ((*buf)[p1] == '~') {
+      p1++;
+      continue; // it is a ~~ escape; don't process
     }
     while (1) {
       // Get beyond any whitespace between ~ and label
-- 
2.43.0


From 49f032d925b61fe1300009952db3602528647188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:57 +0000
Subject: [PATCH 35/52] fix: VERIFY MARKUP after WRITE SOURCE / REWRAP or SAVE
 NEW_PROOF

It took the source to be one buffer although commands may have replaced
sections of it, and stopped with an internal bug or read other memory.
---
 src/mmcmds.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 85e7357..17e2ff5 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4942,14 +4942,11 @@ void verifyMarkup(vstring labelMatch,
     // TODO - handle $[...$]
     // g_includeCalls is always nonzero now - but check
     // anyway; line numbers may be off if there are >1 files.
-    str1 = g_Statement[1].labelSectionPtr; // Start of input file
-    str2 = g_Statement[g_statements + 1].labelSectionPtr
-       // g_statements + 1 is dummy statement to hold text after last statement
-       + g_Statement[g_statements + 1].labelSectionLen; // End of input file
-    if (str2[0] != 0) bug(258); // Should be end of (giant) string
-    if (str2[-1] != '\n') bug(259); // End of last line
-    flen = str2 - str1; // Length of input file
-    str2 = ""; // Restore pointer for use as vstring
+    // Sections of the source may have been replaced by other commands, so
+    // they need not be in one buffer
+    str1 = writeSourceToBuffer();
+    flen = (long)strlen(str1); // Length of input file
+    if (flen == 0 || str1[flen - 1] != '\n') bug(259); // End of last line
     lnum = 0; // Line number
     lstart = 0; // Line start
     for (p1 = 0; p1 < flen; p1++) {
@@ -4999,6 +4996,7 @@ void verifyMarkup(vstring labelMatch,
         errFound = 1;
       }
     } // next p1
+    free(str1);
     str1 = ""; // Restore pointer for use as vstring
   } // end of line length check - if (g_statements >= 1...
 
-- 
2.43.0


From d5f97c558df94361af75d4ec89922372087744ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:57 +0000
Subject: [PATCH 36/52] fix: section headings after SAVE NEW_PROOF or WRITE
 SOURCE / REWRAP

getSectionHeadings() subtracted pointers into different buffers when the
label section of a statement with local hypotheses had been replaced.
---
 src/mmwtex.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index bd7e4bd..719914c 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -4421,12 +4421,17 @@ flag getSectionHeadings(long stmt,
     pos3 = stmt;
   }
   if (pos3 == 0 || pos3 > stmt) bug(2241);
-  pos4 = (g_Statement[stmt].labelSectionPtr
-        - g_Statement[pos3].labelSectionPtr)
-        + g_Statement[stmt].labelSectionLen; // Length of the header area
+  // The label sections need not be in the same buffer, since any of them may
+  // have been replaced by SAVE NEW_PROOF or WRITE SOURCE / REWRAP.
+  pos4 = 0; // Length of the header area
+  for (pos = pos3; pos <= stmt; pos++) pos4 += g_Statement[pos].labelSectionLen;
   let(&labelStr, space(pos4));
-  memcpy(labelStr, g_Statement[pos3].labelSectionPtr,
-      (size_t)(pos4));
+  pos4 = 0;
+  for (pos = pos3; pos <= stmt; pos++) {
+    memcpy(labelStr + pos4, g_Statement[pos].labelSectionPtr,
+        (size_t)(g_Statement[pos].labelSectionLen));
+    pos4 += g_Statement[pos].labelSectionLen;
+  }
 
   pos = 0;
   pos2 = 0;
-- 
2.43.0


From 6118f3b184c9f296f956882193c51057729c48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:57 +0000
Subject: [PATCH 37/52] fix: indentation of a saved proof when the label
 section was replaced

getSourceIndentation() compared pointers into different buffers.
---
 src/mmdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index ba6a920..8937451 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -2999,9 +2999,11 @@ long getSourceIndentation(long statemNum) {
   long indentation = 0;
 
   fbPtr = g_Statement[statemNum].mathSectionPtr;
-  if (fbPtr[0] == 0) return 0;
+  if (fbPtr[0] == 0 || fbPtr[0] == '\n') return 0;
   startLabel = g_Statement[statemNum].labelSectionPtr;
   if (startLabel[0] == 0) return 0;
+  // The label section need not be in the same buffer as the math section
+  fbPtr = startLabel + g_Statement[statemNum].labelSectionLen - 1;
   while (1) { // Go back to first line feed prior to the label
     if (fbPtr <= startLabel) break;
     if (fbPtr[0] == '\n') break;
-- 
2.43.0


From 57f25b8124157331e63d2ce5bfdffb7c236e7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:57 +0000
Subject: [PATCH 38/52] fix: PROVE forgets that another proof was saved before

After SAVE PROOF, EXIT warned about unsaved changes to a proof that had not
been changed.
---
 src/metamath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metamath.c b/src/metamath.c
index d2a462d..15e79d9 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4137,6 +4137,7 @@ void command(int argc, char *argv[]) {
       }
 
       processUndoStack(NULL, PUS_INIT, "", 0); // Optional?
+      proofSavedFlag = 0; // A SAVE PROOF before doesn't matter
       // Put the initial proof into the UNDO stack; we don't need
       // the info string since it won't be undone.
       processUndoStack(&g_ProofInProgress, PUS_PUSH, "", 0);
-- 
2.43.0


From a41e53a766f84cf923deaec9cafeda351977ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:00 +0000
Subject: [PATCH 39/52] fix: look up the wff token of the current database

SHOW STATEMENT / HTML kept the index of the token from the first
database of the session; after ERASE and READ of another database it
used a different symbol or read beyond the symbols.
---
 src/mmcmds.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 17e2ff5..174e2e6 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -73,9 +73,9 @@ void typeStatement(long showStmt,
 
   // For syntax breakdown of definitions in HTML page
   long zapStatement1stToken;
-  // Array index of the hard-coded token "wff" - static so we only
-  // have to look it up once - set to -2 if not found.
-  static long wffToken = -1;
+  // Array index of the hard-coded token "wff" - it depends on the database,
+  // so it is looked up each time - set to -2 if not found.
+  long wffToken = -1;
   subType = 0; // Assign to prevent compiler warnings - not theoretically necessary
 
   if (!showStmt) bug(225); // Must be 1 or greater
@@ -1971,9 +1971,9 @@ void typeProof(long statemNum,
       // list in the HTML pages, parse the wffs comprising the hypotheses
       // and the statement, and add their syntax to the hints list.
 
-      // Array index of the hard-coded token "wff" - static so we only have
-      // to look it up once - set to -2 if not found.
-      static long wffToken = -1;
+      // Array index of the hard-coded token "wff" - it depends on the database,
+      // so it is looked up each time - set to -2 if not found.
+      long wffToken = -1;
       // Look up the token "wff" (hard-coded) if we haven't found it before
       if (wffToken == -1) { // First time
         // In case it's not found because the user's source used a convention
-- 
2.43.0


From 0ae8103d19297417eb62a5d7bbbd800b814da866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:48 +0000
Subject: [PATCH 40/52] fix: SHOW USAGE finds labels after a comment in a
 compressed proof

---
 src/mmcmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 174e2e6..b6c0070 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3605,6 +3605,8 @@ vstring traceUsage(long statemNum,
         fbPtr2 = fbPtr;
         while (fbPtr2[0] != ')') {
           fbPtr2++;
+          // Skip comments, which may contain ')'
+          fbPtr2 = fbPtr2 + whiteSpaceLen(fbPtr2);
           if (fbPtr2[0] == 0) bug(217); // Didn't find closing ')'
         }
       } else {
-- 
2.43.0


From 5f2965716815c93892465d3392c3f01f6054e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:51 +0000
Subject: [PATCH 41/52] fix: no read before the comment when a date entry does
 not end in ".)"

---
 src/mmdata.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 8937451..4266859 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3504,7 +3504,7 @@ vstring getContrib(long stmtNum, char mode) {
         NULL), "    ", " ");
   }
 
-  if (cStart != 0 && description[cMid - 2] != ',') {
+  if (cStart != 0 && (cMid < 2 || description[cMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between contributor and date",
@@ -3513,7 +3513,7 @@ vstring getContrib(long stmtNum, char mode) {
         str((double)stmtNum), ", label \"", g_Statement[stmtNum].labelName, "\".",
         NULL), "    ", " ");
   }
-  if (rStart != 0 && description[rMid - 2] != ',') {
+  if (rStart != 0 && (rMid < 2 || description[rMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between reviser and date",
@@ -3522,7 +3522,7 @@ vstring getContrib(long stmtNum, char mode) {
         str((double)stmtNum), ", label \"", g_Statement[stmtNum].labelName, "\".",
         NULL), "    ", " ");
   }
-  if (sStart != 0 && description[sMid - 2] != ',') {
+  if (sStart != 0 && (sMid < 2 || description[sMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between proof shortener and date",
-- 
2.43.0


From 1d365d7af2d5a8721f83bbf7efae845b52ff0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:02 +0000
Subject: [PATCH 42/52] fix: VERIFY MARKUP reports dates whose day or month
 does not exist

---
 src/mmdata.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 4266859..d51b733 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3240,6 +3240,7 @@ vstring getContrib(long stmtNum, char mode) {
   long stmt, p, dd, mmm, yyyy;
   flag errorCheckFlag = 0;
   flag err = 0;
+  flag f;
   vstring_def(returnStr); // Return value
 #define CONTRIB_MATCH " (Contributed by "
 #define REVISE_MATCH " (Revised by "
@@ -3612,9 +3613,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (contribDate[0] != 0) {
-    parseDate(contribDate, &dd, &mmm, &yyyy);
+    f = parseDate(contribDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(contribDate, tmpDate0)) {
+    if (f == 1 || strcmp(contribDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3629,9 +3630,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (reviseDate[0] != 0) {
-    parseDate(reviseDate, &dd, &mmm, &yyyy);
+    f = parseDate(reviseDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(reviseDate, tmpDate0)) {
+    if (f == 1 || strcmp(reviseDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3646,9 +3647,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (shortenDate[0] != 0) {
-    parseDate(shortenDate, &dd, &mmm, &yyyy);
+    f = parseDate(shortenDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(shortenDate, tmpDate0)) {
+    if (f == 1 || strcmp(shortenDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3763,7 +3764,12 @@ flag parseDate(vstring dateStr, long *dd, long *mmm, long *yyyy) {
   j = instr(1, dateStr, "-");
   *dd = (long)val(left(dateStr, j - 1)); // Day
 #define MONTHS "JanFebMarAprMayJunJulAugSepOctNovDec"
-  *mmm = ((instr(1, MONTHS, mid(dateStr, j + 1, 3)) - 1) / 3) + 1; // 1 = Jan
+  *mmm = instr(1, MONTHS, mid(dateStr, j + 1, 3)) + 2; // 3 = Jan, 6 = Feb...
+  if (*mmm % 3 == 0 && instr(j + 1, dateStr, "-") == j + 4) {
+    *mmm = *mmm / 3; // 1 = Jan
+  } else {
+    *mmm = 0; // Not a month
+  }
   j = instr(j + 1, dateStr, "-");
   *yyyy = (long)val(right(dateStr, j + 1));
   if (*yyyy < 100) { // 2-digit year (obsolete)
-- 
2.43.0


From 03c2235505885704fb64afdf1b42a964b348ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:38 +0000
Subject: [PATCH 43/52] fix: date entries and discouragement tags may be broken
 across unindented lines

---
 src/mmdata.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index d51b733..9fc25e6 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3112,6 +3112,7 @@ flag getMarkupFlag(long statemNum, flag mode) {
   static vstring_def(proofFlags); // Y if proof discouragement, else N
   static vstring_def(usageFlags); // Y if usage discouragement, else N
   vstring_def(str1);
+  vstring p;
 
   if (mode == RESET) { // Deallocate // Should be called by ERASE command
     free_vstring(commentSearchedFlags);
@@ -3151,7 +3152,10 @@ flag getMarkupFlag(long statemNum, flag mode) {
         bug(1393);
       }
       str1 = getDescription(statemNum); // str1 must be deallocated here
-      // Strip linefeeds and reduce spaces
+      // Convert linefeeds to spaces and reduce spaces
+      for (p = str1; *p != 0; p++) {
+        if (*p == '\n') *p = ' ';
+      }
       let(&str1, edit(str1, 4 + 8 + 16 + 128));
       if (instr(1, str1, g_proofDiscouragedMarkup)) {
         proofFlags[statemNum] = 'Y';
@@ -3338,6 +3342,10 @@ vstring getContrib(long stmtNum, char mode) {
 
     free_vstring(description);
     description = getDescription(stmtNum);
+    // Convert linefeeds to spaces
+    for (p = 0; description[p] != 0; p++) {
+      if (description[p] == '\n') description[p] = ' ';
+    }
     let(&description, edit(description,
         4 // ctrl 
         + 8 // leading 
-- 
2.43.0


From 571ac1bdca91fd5f41b875efaedd5302781d2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:24 +0000
Subject: [PATCH 44/52] fix: VERIFY MARKUP does not say "No errors" after
 warning about a math symbol in a comment

---
 src/mmwtex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 719914c..8bd4394 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1014,6 +1014,9 @@ temp_vstring asciiToTt_temp(vstring s) {
   return makeTempAlloc(asciiToTt(s));
 }
 
+// Set by tokenToTex() when it warns about a token without a definition
+static flag undefTokenWarned = 0;
+
 // Convert ascii token to LaTeX equivalent.
 // The "$" math delimiter is not placed around the returned arg. here
 // *** Note: The caller must deallocate the returned string.
@@ -1035,6 +1038,7 @@ vstring tokenToTex(vstring mtoken, long statemNum /* for error msgs */)
     let(&tex, ((struct texDef_struct *)texDefsPtr)->texEquiv);
   } else {
     // If it wasn't found, give user a warning...
+    undefTokenWarned = 1;
     saveOutputToString = g_outputToString;
     g_outputToString = 0;
     // It is possible for statemNum to be 0 when
@@ -2622,7 +2626,9 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
           }
 
           free_vstring(tmpStr);
+          undefTokenWarned = 0;
           tmpStr = asciiMathToTex(modeSection, g_showStatement);
+          if (undefTokenWarned) returnVal = 1; // Error/warning printed
           if (!g_htmlFlag) {
             if (displayMode) {
               // It the user's responsibility to establish equation environment
-- 
2.43.0


From 983127e67258197451832ee93c414fa3b54f3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:42 +0000
Subject: [PATCH 45/52] fix: a long run of digits in a compressed proof
 overflowed the label number

---
 src/mmpars.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index ca391f9..a101b19 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -6,6 +6,7 @@
 
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <ctype.h>
 #include "mmvstr.h"
 #include "mmdata.h"
@@ -3198,6 +3199,9 @@ char parseCompressedProof(long statemNum)
               chrWeight[(long)(fbPtr[0])] + 1;
           if (bggyAlgo) labelMapIndex--; // Adjust for buggy algorithm
         }
+        // No label list is this long, so it is an error anyway; don't let the
+        // next digit or letter overflow.
+        if (labelMapIndex > LONG_MAX / 100) labelMapIndex = LONG_MAX / 100;
         break;
 
       case 2: // "Colon" (i.e. Z)
-- 
2.43.0


From 5cf6d9fb3fa035272528e4f86f26804f969a2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:04 +0000
Subject: [PATCH 46/52] fix: the Proof Assistant crashed after a label
 'mathbox' without mathbox headings

---
 src/metamath.c | 38 ++++++++++++++++----------------------
 src/mmpfas.c   | 14 ++++++--------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 15e79d9..6f989de 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4511,14 +4511,12 @@ void command(int argc, char *argv[]) {
 
       // See if it's in another mathbox; if so, let user know
       assignMathboxInfo();
-      if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-        if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-          printLongLine(cat("\"", g_Statement[k].labelName,
-                "\" is in the mathbox for ",
-                g_mathboxUser[getMathboxNum(k) - 1], ".",
-                NULL),
-              "", " ");
-        }
+      if (inDiffMathboxes(k, g_proveStatement)) {
+        printLongLine(cat("\"", g_Statement[k].labelName,
+              "\" is in the mathbox for ",
+              g_mathboxUser[getMathboxNum(k) - 1], ".",
+              NULL),
+            "", " ");
       }
 
       // Automatically display new unknown steps
@@ -4721,10 +4719,9 @@ void command(int argc, char *argv[]) {
 
       mathboxFlag = (switchPos("INCLUDE_MATHBOXES") != 0);
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      i = getMathboxNum(g_proveStatement);
+      if (i > 0) {
         // We're in a mathbox
-        i = getMathboxNum(g_proveStatement);
-        if (i <= 0) bug(1130);
         thisMathboxStartStmt = g_mathboxStart[i - 1];
       } else {
         thisMathboxStartStmt = g_mathboxStmt;
@@ -5084,10 +5081,9 @@ void command(int argc, char *argv[]) {
       // "/ INCLUDE_MATHBOXES" is omitted.
 
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      i = getMathboxNum(g_proveStatement);
+      if (i > 0) {
         // We're in a mathbox
-        i = getMathboxNum(g_proveStatement);
-        if (i <= 0) bug(1130);
         thisMathboxStartStmt = g_mathboxStart[i - 1];
       } else {
         thisMathboxStartStmt = g_mathboxStmt;
@@ -5458,14 +5454,12 @@ void command(int argc, char *argv[]) {
 
             // See if it's in another mathbox; if so, let user know
             assignMathboxInfo();
-            if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-              if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-                printLongLine(cat("\"", g_Statement[k].labelName,
-                      "\" is in the mathbox for ",
-                      g_mathboxUser[getMathboxNum(k) - 1], ".",
-                      NULL),
-                    "  ", " ");
-              }
+            if (inDiffMathboxes(k, g_proveStatement)) {
+              printLongLine(cat("\"", g_Statement[k].labelName,
+                    "\" is in the mathbox for ",
+                    g_mathboxUser[getMathboxNum(k) - 1], ".",
+                    NULL),
+                  "  ", " ");
             }
 
             prntStatus = 2; // Found one
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 2ed6d00..4854f72 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -1877,14 +1877,12 @@ nmbrString *proveFloating(const nmbrString *mString, long statemNum, long maxEDe
       if (mathboxFlag != 0) { // Skip unless /INCLUDE_MATHBOXES was specified
         // See if it's in another mathbox; if so, let user know
         assignMathboxInfo();
-        if (stmt > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-          if (stmt < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-            printLongLine(cat("Used \"", g_Statement[stmt].labelName,
-                  "\" from the mathbox for ",
-                  g_mathboxUser[getMathboxNum(stmt) - 1], ".",
-                  NULL),
-                "  ", " ");
-          }
+        if (inDiffMathboxes(stmt, g_proveStatement)) {
+          printLongLine(cat("Used \"", g_Statement[stmt].labelName,
+                "\" from the mathbox for ",
+                g_mathboxUser[getMathboxNum(stmt) - 1], ".",
+                NULL),
+              "  ", " ");
         }
       }
 
-- 
2.43.0


From 36137ec774a130c59d1b8efae3cbc8d1e62a8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:33 +0000
Subject: [PATCH 47/52] fix: a mathbox heading that ends on its line was a bug
 check

---
 src/mmwtex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 8bd4394..fb3f240 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5633,7 +5633,7 @@ void assignMathboxInfo(void) {
 #define MB_TAG "Mathbox for "
 long getMathboxLoc(nmbrString **mathboxStart, nmbrString **mathboxEnd,
     pntrString **mathboxUser) {
-  long m, p, q, tagLen, stmt;
+  long m, p, q, i, tagLen, stmt;
   long mathboxes = 0;
   vstring_def(comment);
   vstring_def(user);
@@ -5660,8 +5660,10 @@ long getMathboxLoc(nmbrString **mathboxStart, nmbrString **mathboxEnd,
     // Found a mathbox; assign user and start statement
     mathboxes++;
     q = instr(p, comment, "\n");
+    i = instr(p, comment, "$)");
+    if (q == 0 || i < q) q = i; // The comment ends on the same line
     if (q == 0) bug(2350); // No end of line
-    let(&user, seg(comment, p + tagLen, q - 1));
+    let(&user, edit(seg(comment, p + tagLen, q - 1), 128 /* trailing space */));
     pntrLet(&(*mathboxUser), pntrAddElement(*mathboxUser));
     (*mathboxUser)[mathboxes - 1] = "";
     let((vstring *)(&((*mathboxUser)[mathboxes - 1])), user);
-- 
2.43.0


From dbb6d92c60240fca5bb7db0a28f5bccf874e4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:33 +0000
Subject: [PATCH 48/52] fix: a line starting with a null character was read
 outside of the buffer

---
 src/mmvstr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 4b40636..bbc8f3c 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -277,7 +277,9 @@ int linput(FILE *stream, const char* ask, vstring *target) {
   if (stream == NULL) stream = stdin;
   while (!eol_found && fgets(f, sizeof(f), stream))
   {
-    size_t endpos = strlen(f) - 1;
+    size_t endpos = strlen(f);
+    // The line may start with a null character, with nothing before it
+    if (endpos > 0) endpos--;
     eol_found = (f[endpos] == '\n');
     // If the last line in the file has no newline, eol_found will be 0 here.
     // The fgets() above will return 0 and prevent another loop iteration.
-- 
2.43.0


From 2566e55755d855b724df9e34b6442c9135f1721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 49/52] fix: WRITE BIBLIOGRAPHY: keep pages that are long or no
 numbers

---
 src/mmwtex.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index fb3f240..68bda70 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5248,19 +5248,20 @@ flag writeBibliography(vstring bibFile,
         } // if (k == 0)
       } // next j
 
-      // Put spaces before page #s (up to 4 digits) for sorting
+      // Put spaces before page #s (if less than 4 characters) for sorting
       j = 0;
       while (1) {
         j = instr(j + 1, str1, " p. "); // Heuristic - match " p. "
         if (!j) break;
         if (j) {
           for (k = j + 4; k <= (signed)(strlen(str1)) + 1; k++) {
-            if (!isdigit((unsigned char)(str1[k - 1]))) {
+            // The page may be a Roman numeral
+            if (!isalnum((unsigned char)(str1[k - 1]))) {
               let(&str1, cat(left(str1, j + 2),
                   space(4 - (k - (j + 4))), right(str1, j + 3), NULL));
               // Add ### after page number as marker
-              let(&str1, cat(left(str1, j + 7), "###", right(str1, j + 8),
-                  NULL));
+              m = (k < j + 8) ? j + 7 : k - 1; // End of page number
+              let(&str1, cat(left(str1, m), "###", right(str1, m + 1), NULL));
               break;
             }
           }
-- 
2.43.0


From 8fe82a7118ee88d57dd93879e3af1853a90b0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 50/52] fix: WRITE BIBLIOGRAPHY: list Subsection as such

---
 src/mmwtex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 68bda70..d3f445c 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5347,7 +5347,10 @@ flag writeBibliography(vstring bibFile,
               || !strcmp(mid(str2, k, (long)strlen("SCHEME")), "SCHEME")
               || !strcmp(mid(str2, k, (long)strlen("SCOLIA")), "SCOLIA")
               || !strcmp(mid(str2, k, (long)strlen("SCOLION")), "SCOLION")
-              || !strcmp(mid(str2, k, (long)strlen("SECTION")), "SECTION")
+              || (!strcmp(mid(str2, k, (long)strlen("SECTION")), "SECTION")
+                  // "Subsection" will be found 3 characters earlier
+                  && !(k > 3 && !strcmp(mid(str2, k - 3,
+                      (long)strlen("SUBSECTION")), "SUBSECTION")))
               || !strcmp(mid(str2, k, (long)strlen("STATEMENT")), "STATEMENT")
               || !strcmp(mid(str2, k, (long)strlen("SUBSECTION")), "SUBSECTION")
               || !strcmp(mid(str2, k, (long)strlen("TABLE")), "TABLE")
-- 
2.43.0


From 870ab3cae36af90c19906f3b2cf282dd853304cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 51/52] fix: ignore smaller headings before a larger one

---
 src/mmwtex.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index d3f445c..27eaa5c 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -4392,6 +4392,7 @@ flag getSectionHeadings(long stmt,
   // for table of contents
   vstring_def(labelStr);
   long pos, pos1, pos2, pos3, pos4;
+  long hdrPos = 0; // Start of last larger header
   flag errorFound = 0;
   flag saveOutputToString;
 
@@ -4463,6 +4464,7 @@ flag getSectionHeadings(long stmt,
   }
   if (pos2) { // Extract "huge" header
     pos1 = pos2; // Save "$(" position
+    hdrPos = pos2; // Smaller headers before this will be ignored
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of #### line
     pos2 = instr(pos + 1, labelStr, "\n"); // Find end of title line
 
@@ -4501,8 +4503,9 @@ flag getSectionHeadings(long stmt,
       let(&(*hugeHdrComment), seg(labelStr, pos3 + 1, pos4 + 1));
     }
   }
-  // pos = 0; // Leave pos alone so that we start with "huge" header pos,
+  // Start with last larger header pos,
   // to ignore any earlier "tiny" or "small" or "big" header.
+  pos = hdrPos;
   pos2 = 0;
   while (1) { // Find last "big" header, if any
     pos1 = pos;
@@ -4515,6 +4518,7 @@ flag getSectionHeadings(long stmt,
   }
   if (pos2) { // Extract "big" header
     pos1 = pos2; // Save "$(" position
+    hdrPos = pos2; // Smaller headers before this will be ignored
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of #*#* line
     pos2 = instr(pos + 1, labelStr, "\n"); // Find end of title line
 
@@ -4553,8 +4557,9 @@ flag getSectionHeadings(long stmt,
       let(&(*bigHdrComment), seg(labelStr, pos3 + 1, pos4 + 1));
     }
   }
-  // pos = 0; // Leave pos alone so that we start with "big" header pos,
+  // Start with last larger header pos,
   // to ignore any earlier "tiny" or "small" header
+  pos = hdrPos;
   pos2 = 0;
   while (1) { // Find last "small" header, if any
     pos1 = pos;
@@ -4567,6 +4572,7 @@ flag getSectionHeadings(long stmt,
   }
   if (pos2) { // Extract "small" header
     pos1 = pos2; // Save "$(" position
+    hdrPos = pos2; // Smaller headers before this will be ignored
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of =-=- line
     pos2 = instr(pos + 1, labelStr, "\n"); // Find end of title line
 
@@ -4606,8 +4612,9 @@ flag getSectionHeadings(long stmt,
     }
   }
 
-  // pos = 0; // Leave pos alone so that we start with "small" header pos,
+  // Start with last larger header pos,
   // to ignore any earlier "tiny" header.
+  pos = hdrPos;
   pos2 = 0;
   while (1) { // Find last "tiny" header, if any
     pos1 = pos;
-- 
2.43.0


From 19e6f85dccaf55113e8624b046b6dd6a69ee119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:43 +0000
Subject: [PATCH 52/52] fix: WRITE THEOREM_LIST: refuse a number of theorems
 per page below 1

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 6f989de..4c100b4 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2153,6 +2153,10 @@ void command(int argc, char *argv[]) {
       } else {
         theoremsPerPage = THEOREMS_PER_PAGE; // Use the default value
       }
+      if (theoremsPerPage < 1) {
+        print2("?The number of theorems per page must be at least 1.\n");
+        continue;
+      }
       showLemmas = (switchPos("SHOW_LEMMAS") != 0);
       noVersioning = (switchPos("NO_VERSIONING") != 0);
 
-- 
2.43.0

