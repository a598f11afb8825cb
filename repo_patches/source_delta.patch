From 8cdeb1021ba1fab17b26c914d1e7e13667bb3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:25 +0000
Subject: [PATCH 01/27] fix: toLower must leave U+00D7 MULTIPLICATION SIGN
 alone

---
 source/bits10/char_to_lower.cxx | 7 ++++---
 source/bits11/char_to_lower.cxx | 7 ++++---
 source/bits12/char_to_lower.cxx | 7 ++++---
 source/bits13/char_to_lower.cxx | 7 ++++---
 source/bits14/char_to_lower.cxx | 7 ++++---
 source/bits15/char_to_lower.cxx | 7 ++++---
 source/bits16/char_to_lower.cxx | 7 ++++---
 source/bits7/char_to_lower.cxx  | 7 ++++---
 source/bits8/char_to_lower.cxx  | 7 ++++---
 source/bits9/char_to_lower.cxx  | 7 ++++---
 10 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index bc5e614..224ce8d 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index bc5e614..224ce8d 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 68a1ef1..2e4d2ee 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 9a582fa..e8c8269 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 050b5c3..4098389 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 050b5c3..4098389 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 7d6ad65..8ce65d7 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index b1b6a32..236493c 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index d411f80..ad49b9f 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 5efc45b..6c20aec 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -50,12 +50,13 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
+// (0xD7 is the multiplication sign, it has no lower case)
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
-- 
2.43.0


From a8beabba29bec8e8ccc479339326c0da43088823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:25 +0000
Subject: [PATCH 02/27] fix: toLower must leave the lower-case letters
 U+1E96..U+1E9D alone

---
 source/bits10/char_to_lower.cxx | 2 +-
 source/bits11/char_to_lower.cxx | 2 +-
 source/bits12/char_to_lower.cxx | 2 +-
 source/bits13/char_to_lower.cxx | 2 +-
 source/bits14/char_to_lower.cxx | 2 +-
 source/bits15/char_to_lower.cxx | 2 +-
 source/bits16/char_to_lower.cxx | 2 +-
 source/bits7/char_to_lower.cxx  | 2 +-
 source/bits8/char_to_lower.cxx  | 2 +-
 source/bits9/char_to_lower.cxx  | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index 224ce8d..4342900 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 224ce8d..4342900 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 2e4d2ee..0175ab4 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index e8c8269..e8512b7 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 4098389..ea08345 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 4098389..ea08345 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 8ce65d7..fc47c6a 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -284,7 +284,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index 236493c..1e894f9 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -265,7 +265,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index ad49b9f..4e6472e 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 6c20aec..7539f60 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -277,7 +277,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
-- 
2.43.0


From ed20cc8fa52f91fc25a776f8f7704fe2b6d42bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 03/27] fix: toLower misses Georgian Mtavruli and Medefaidrin
 (Unicode 11 on)

---
 source/bits11/char_to_lower.cxx | 12 ++++++++++++
 source/bits12/char_to_lower.cxx | 12 ++++++++++++
 source/bits13/char_to_lower.cxx | 12 ++++++++++++
 source/bits14/char_to_lower.cxx | 12 ++++++++++++
 source/bits15/char_to_lower.cxx | 12 ++++++++++++
 source/bits16/char_to_lower.cxx |  9 +++++++++
 6 files changed, 69 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 4342900..c1b9f27 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -272,6 +272,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -539,6 +547,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 0175ab4..7adaace 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -272,6 +272,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -544,6 +552,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index e8512b7..d02fd34 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -272,6 +272,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -547,6 +555,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index ea08345..07085a1 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -272,6 +272,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -551,6 +559,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index ea08345..07085a1 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -272,6 +272,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -551,6 +559,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index fc47c6a..d14663a 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -277,6 +277,11 @@ char16_t toLower1000(char16_t c)
         {
             return 0x1C8A;
         }
+        else if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
         break;
 
     case 0x1E:
@@ -570,6 +575,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
-- 
2.43.0


From 3e7a934a271b97eca1b39044e0028515a6ef80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:13 +0000
Subject: [PATCH 04/27] fix: toLower must leave the unassigned gaps in Vithkuqi
 alone (Unicode 16)

---
 source/bits16/char_to_lower.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index d14663a..3a5fa38 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -560,7 +560,8 @@ char32_t toLower(char32_t c)
         }
         else if (c >= 0x10570 && c <= 0x10595)
         {
-            return c + 0x27;
+            // Vithkuqi, around its unassigned gaps
+            return (c == 0x1057B || c == 0x1058B || c == 0x10593) ? c : c + 0x27;
         }
         else if (c >= 0X10C80 && c <= 0x10CB2)
         {
-- 
2.43.0


From f91f43028362289b8f7b046078a6a37f2629f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:46 +0000
Subject: [PATCH 05/27] fix: code points beyond U+10FFFF do not fit in UTF-16

---
 source/string_internal.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..a673904 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -68,9 +68,9 @@ enum RangeTypeFlags : int {
 
     k7BitFlags  = kAsciiFlag | kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3f
     k16BitFlags =              kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3e
-    k21BitFlags =              kUtf8Flag |             kUtf16Flag | kUcs4Flag,                  // 0x1a
+    k21BitFlags =              kUtf8Flag |                          kUcs4Flag,                  // 0x12
 
-    k21BitUnicodeFlags = k21BitFlags | kUnicodeFlag,                             // 0x3a,
+    k21BitUnicodeFlags = k21BitFlags | kUtf16Flag | kUnicodeFlag,                // 0x3a,
     k31BitFlags =              kUtf8Flag |                          kUcs4Flag,   // 0x12
     k32BitFlags =                                                   kUcs4Flag    // 0x10
 };
@@ -173,7 +173,8 @@ RangeTypeFlags getCharEncodableRangeFlags(C c)
     }
     else if (c < 0x200000)
     {
-        return static_cast<RangeTypeFlags>(k21BitFlags | getUnicodeEncodableRangeFlag(c));
+        // beyond 0x10ffff, neither Unicode nor UTF-16 can represent it
+        return getUnicodeEncodableRangeFlag(c) == kUnicodeFlag ? k21BitUnicodeFlags : k21BitFlags;
     }
     else
     {
-- 
2.43.0


From d5c9c53c68ed48e28014ded788ff61f8924173c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 06/27] fix: isUtf16 must apply its predicate to code points,
 not surrogates

---
 source/string.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..83523ab 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -378,7 +378,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
         {
             return false;
         }
-        auto c = *p;
+        char32_t c = *p;
         RangeTypeFlags charFlag;
         /* Never hit, 2nd half UTF16 is invalid range
         if (isSecondHalfUtf16(c))
@@ -393,8 +393,9 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
                 return false;
             }
             // Could make this function call but it is unnecessary
-            // charFlag = getCharEncodableRangeFlags(rawDecodeUtf16(c, c1));
+            // charFlag = getCharEncodableRangeFlags(c);
             charFlag = k21BitUnicodeFlags;
+            c = rawDecodeUtf16(static_cast<char16_t>(c), c1);
         }
         else
         {
-- 
2.43.0


From 3847738993c689ace263a90e80e96618c9bb1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:01 +0000
Subject: [PATCH 07/27] fix: toUtf8 must reject an unpaired low surrogate in
 UTF-16

---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 83523ab..3b6429d 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -504,6 +504,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From 641d31c5eef366fc71e1132bfa412769eca3ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:08 +0000
Subject: [PATCH 08/27] fix: unicodeLength of nothing but an incomplete
 sequence is 0, not UINT_MAX

---
 source/string.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 3b6429d..f2f88f6 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -809,7 +809,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0) ? (r - 1) : 0;
+            return (*p == 0 && r != 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -882,7 +882,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         auto c1 = p[1];
         if (isFirstHalf && c1 == 0)
         {
-            return r - 1;
+            return (r != 0) ? (r - 1) : 0;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 7c866e9936054e9899540244537e2514b6f31f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 09/27] fix: unicodeLength of a null UTF-16 or UCS-4 pointer is
 0, as for UTF-8

---
 source/string.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index f2f88f6..eeb322d 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -851,6 +851,11 @@ unsigned int unicodeLength(const utf16String& src)
 
 unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
@@ -930,6 +935,11 @@ unsigned int unicodeLength(const ucs4String& src)
 
 unsigned int unicodeLength(const char32_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
-- 
2.43.0


From 46e0fc7d938ae2f444c82a276d166bb09d94491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:22 +0000
Subject: [PATCH 10/27] fix: unicodeLength must not read past the end of
 length-terminated UTF-16

---
 source/string.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/string.cxx b/source/string.cxx
index eeb322d..3993ee0 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -884,7 +884,9 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        // (only look if there should be one: a length-terminated source may
+        // end right here)
+        auto c1 = isFirstHalf ? p[1] : c;
         if (isFirstHalf && c1 == 0)
         {
             return (r != 0) ? (r - 1) : 0;
-- 
2.43.0


From dcbf764e21590f52c7897c266ddd016a661658fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 11/27] fix: do not read past the end of length-terminated
 UTF-8

---
 source/string.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 3993ee0..0cacabe 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -181,8 +181,9 @@ inline bool isFirstHalfUtf16AsUtf8
 // Utility function to decide if a to-be-decoded character must be teh second
 // half of a UTF-16 character in two UTF-8 values.
 //
-// Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+// Note: Call only if p points to 3-character sequence start AND there is
+//       at least one more byte available in the character stream (the third
+//       byte is not needed, nor read, to decide this)
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isSecondHalfUtf16
 
@@ -194,7 +195,7 @@ inline bool isSecondHalfUtf16AsUtf8
     return isSecondHalfUtf16(rawDecodeUtf8(
                 static_cast<unsigned char>(p[0]),
                 static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+                static_cast<unsigned char>(0x80)));
 }
 
 //=========================================================================
-- 
2.43.0


From bc0466e374db06f7a3ef7ce7b43d19ec7c12dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:18 +0000
Subject: [PATCH 12/27] fix: unicodeLength of length-terminated UTF-8 must
 reject stray lead bytes

---
 source/string.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 0cacabe..a905d8c 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -774,8 +774,13 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         // sequence, quit, now
         if (lengthTerminated)
         {
-            // result will always be positive, p is never nullptr
-            unsigned int seqStarts = sequenceSizeCharStarts(p);
+            // negative for bytes that cannot start a sequence, p is never nullptr
+            int seqSize = sequenceSizeCharStarts(p);
+            if (seqSize < 0)
+            {
+                return 0;
+            }
+            unsigned int seqStarts = seqSize;
             // "3" long sequences might be UTF-16 parts
             if (seqStarts == 3)
             {
-- 
2.43.0


From 57ab2e258171f9c904ad1841e6805724407b409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:25 +0000
Subject: [PATCH 13/27] fix: a broken sequence at the end of length-terminated
 UTF-8 is not a partial one

---
 source/string.cxx | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index a905d8c..0737393 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -198,6 +198,30 @@ inline bool isSecondHalfUtf16AsUtf8
                 static_cast<unsigned char>(0x80)));
 }
 
+//=========================================================================
+// Utility function to check the left-over bytes at the end of a length-
+// terminated string of bytes, when there are too few of them to complete the
+// sequence they start.
+//
+// Returns true if they are the beginning of a UTF-8 sequence, as far as they
+// go; false if any of them breaks it.
+
+bool isPartialUtf8
+(
+    const char*     p,          // I - points to current, non-null character
+    unsigned int    lengthLeft  // I - how many bytes there are (5 at most)
+)
+{
+    char tail[6] = { 0 };
+    for (unsigned int i = 0; i < lengthLeft && i < 5; ++i)
+    {
+        tail[i] = p[i];
+    }
+    const char* q = tail;
+    decodeUtf8(q);
+    return q != nullptr;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -266,7 +290,7 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return isPartialUtf8(p, lengthLeft);
             }
         }
 
@@ -798,7 +822,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return isPartialUtf8(p, lengthLeft) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
-- 
2.43.0


From d86ffcf2e843e623670b3af567dc7f91aa109f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:09 +0000
Subject: [PATCH 14/27] fix: join must not lose a NUL delimiter

---
 interface/string_splitjoin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interface/string_splitjoin.hxx b/interface/string_splitjoin.hxx
index 6121fe5..b9cfbcb 100644
--- a/interface/string_splitjoin.hxx
+++ b/interface/string_splitjoin.hxx
@@ -126,15 +126,13 @@ std::basic_string<C> join(const std::vector< std::basic_string<C> >& src, C deli
     }
     else
     {
-        C delimStr[2] = {0};
-        delimStr[0] = delim;
         return_type r;
         bool first = true;
         for (auto s : src)
         {
             if (!first)
             {
-                r.append(delimStr);
+                r.push_back(delim);
             }
             first = false;
             r.append(s);
-- 
2.43.0


From fdfa37161b810ca0acb18edcb1c03f74d27d8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 15/27] fix: contradictory predicate conditions must never be
 satisfied

---
 source/encoding_check_predicate.cxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/encoding_check_predicate.cxx b/source/encoding_check_predicate.cxx
index 1200c8b..48e68c1 100644
--- a/source/encoding_check_predicate.cxx
+++ b/source/encoding_check_predicate.cxx
@@ -55,6 +55,9 @@ namespace {
 EncodingTypeFlags encodingTypeToEncodingFlag[kFirstInvalidEncoding] =
     { kNoneFlag, kIsAssignedFlag, kIsPrivateFlag, kIsControlFlag, kIsWhiteSpaceFlag };
 
+// A flag no character ever has: once a predicate asks for it, nothing passes.
+const uint32_t kImpossibleFlag = 0x80000000;
+
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -89,6 +92,11 @@ EncodingCheckPredicate EncodingCheckPredicate::andIf
 )
 {
     EncodingCheckPredicate other(toCheckFor);
+    if ((m_mask & other.m_mask & ~m_value) != 0)
+    {
+        // already checking for its absence, it can't be present, too
+        other.m_value = other.m_mask = kImpossibleFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
@@ -103,6 +111,11 @@ EncodingCheckPredicate EncodingCheckPredicate::andIfNot
 )
 {
     EncodingCheckPredicate other(toCheckFor, false);
+    if ((other.m_mask & m_value) != 0)
+    {
+        // already checking for its presence, it can't be absent, too
+        other.m_value = other.m_mask = kImpossibleFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
-- 
2.43.0


From a8350cb83ba3bb0005f0d0375b55b7543186ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:24 +0000
Subject: [PATCH 16/27] fix: trimWhiteSpace must trim U+1680 OGHAM SPACE MARK

---
 interface/string_trim.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 9965047..6b8672f 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -87,7 +87,7 @@ inline void trimAscii7WhiteSpace(std::string& victim)
 inline void trimWhiteSpace(ucs4String& victim)
 {
     trim(victim, std::u32string(
-            U"\U00000009\U0000000a\U0000000d \U000000a0\U00002000\U00002001\U00002002\U00002003"
+            U"\U00000009\U0000000a\U0000000d \U000000a0\U00001680\U00002000\U00002001\U00002002\U00002003"
             U"\U00002004\U00002005\U00002006\U00002007\U00002008\U00002009\U0000200a\U0000202f"
             U"\U0000205f\U00003000"));
 }
@@ -95,7 +95,7 @@ inline void trimWhiteSpace(ucs4String& victim)
 inline void trimWhiteSpace(utf16String& victim)
 {
     trim(victim, std::u16string(
-            u"\u0009\u000a\u000d \u00a0\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
+            u"\u0009\u000a\u000d \u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
             u"\u2009\u200a\u202f\u205f\u3000"));
 }
 
-- 
2.43.0


From 5828803f9632fd80634ef7059ce340c093face2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 17/27] fix: trimWhiteSpace must not lose UTF-8 text that has
 no UTF-16 form

---
 interface/string_trim.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 6b8672f..3161ef5 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -101,9 +101,9 @@ inline void trimWhiteSpace(utf16String& victim)
 
 inline void trimWhiteSpace(utf8String& victim)
 {
-    auto v16 = toUtf16(victim);
-    trimWhiteSpace(v16);
-    victim = toUtf8(v16);
+    auto v32 = toUcs4(victim);
+    trimWhiteSpace(v32);
+    victim = toUtf8(v32);
 }
 
 }
-- 
2.43.0


From c1be11c9745de2ac17734f7856532f183e4fea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:34 +0000
Subject: [PATCH 18/27] fix: converting a null wide pointer gives an empty
 string, not an exception

---
 interface/string.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b3dc096..ca6a304 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -665,7 +665,7 @@ inline utf8String toUtf8(const std::wstring& src)
 inline utf16String toUtf16(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUtf16(redirect))
+    if (redirect && isUtf16(redirect))
     {
         return utf16String(redirect);
     }
@@ -681,7 +681,7 @@ inline utf16String toUtf16(const std::wstring& src)
 inline ucs2String toUcs2(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUcs2(redirect))
+    if (redirect && isUcs2(redirect))
     {
         return ucs2String(redirect);
     }
@@ -711,7 +711,7 @@ inline std::wstring toWstring(const utf8String& src)
 
 inline std::wstring toWstring(const char16_t* src)
 {
-    if (isUtf16(src))
+    if (src && isUtf16(src))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
@@ -958,7 +958,7 @@ inline ucs2String toUcs2(const std::wstring& src)
 
 inline ucs4String toUcs4(const wchar_t* src)
 {
-    if (isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
+    if (src && isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
     {
         return ucs4String(reinterpret_cast<const char32_t*>(src));
     }
@@ -997,7 +997,7 @@ inline std::wstring toWstring(const ucs2String& src)
 
 inline std::wstring toWstring(const char32_t* src)
 {
-    if (isUcs4(src, kUtf16))
+    if (src && isUcs4(src, kUtf16))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From aca151740f77567c8d84ed94d3ad3041859410bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:52 +0000
Subject: [PATCH 19/27] fix: report the Unicode version correctly during static
 initialization

---
 source/bits10/char_is_unicode.cxx | 2 +-
 source/bits11/char_is_unicode.cxx | 2 +-
 source/bits12/char_is_unicode.cxx | 2 +-
 source/bits13/char_is_unicode.cxx | 2 +-
 source/bits14/char_is_unicode.cxx | 2 +-
 source/bits15/char_is_unicode.cxx | 2 +-
 source/bits16/char_is_unicode.cxx | 2 +-
 source/bits7/char_is_unicode.cxx  | 2 +-
 source/bits8/char_is_unicode.cxx  | 2 +-
 source/bits9/char_is_unicode.cxx  | 2 +-
 source/string_internal.hxx        | 4 +++-
 11 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/source/bits10/char_is_unicode.cxx b/source/bits10/char_is_unicode.cxx
index 0725933..7449c4d 100644
--- a/source/bits10/char_is_unicode.cxx
+++ b/source/bits10/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "10.0.0";
+const char* const supportedUnicodeVersion = "10.0.0";
 
 namespace
 {
diff --git a/source/bits11/char_is_unicode.cxx b/source/bits11/char_is_unicode.cxx
index a17178f..34cc6e3 100644
--- a/source/bits11/char_is_unicode.cxx
+++ b/source/bits11/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "11.0.0";
+const char* const supportedUnicodeVersion = "11.0.0";
 
 namespace
 {
diff --git a/source/bits12/char_is_unicode.cxx b/source/bits12/char_is_unicode.cxx
index d50de0a..1091f92 100644
--- a/source/bits12/char_is_unicode.cxx
+++ b/source/bits12/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "12.0.0";
+const char* const supportedUnicodeVersion = "12.0.0";
 
 namespace
 {
diff --git a/source/bits13/char_is_unicode.cxx b/source/bits13/char_is_unicode.cxx
index 6824dac..90ae042 100644
--- a/source/bits13/char_is_unicode.cxx
+++ b/source/bits13/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "13.0.0";
+const char* const supportedUnicodeVersion = "13.0.0";
 
 namespace
 {
diff --git a/source/bits14/char_is_unicode.cxx b/source/bits14/char_is_unicode.cxx
index 1520b5a..5e8c7f2 100644
--- a/source/bits14/char_is_unicode.cxx
+++ b/source/bits14/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "14.0.0";
+const char* const supportedUnicodeVersion = "14.0.0";
 
 namespace
 {
diff --git a/source/bits15/char_is_unicode.cxx b/source/bits15/char_is_unicode.cxx
index 00c01b3..da77287 100644
--- a/source/bits15/char_is_unicode.cxx
+++ b/source/bits15/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "15.0.0";
+const char* const supportedUnicodeVersion = "15.0.0";
 
 namespace
 {
diff --git a/source/bits16/char_is_unicode.cxx b/source/bits16/char_is_unicode.cxx
index 175ab79..251b379 100644
--- a/source/bits16/char_is_unicode.cxx
+++ b/source/bits16/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "16.0.0";
+const char* const supportedUnicodeVersion = "16.0.0";
 
 namespace
 {
diff --git a/source/bits7/char_is_unicode.cxx b/source/bits7/char_is_unicode.cxx
index 3f6a0b2..79f1943 100644
--- a/source/bits7/char_is_unicode.cxx
+++ b/source/bits7/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "7.0.0";
+const char* const supportedUnicodeVersion = "7.0.0";
 
 namespace
 {
diff --git a/source/bits8/char_is_unicode.cxx b/source/bits8/char_is_unicode.cxx
index c9dd870..e9637c1 100644
--- a/source/bits8/char_is_unicode.cxx
+++ b/source/bits8/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "8.0.0";
+const char* const supportedUnicodeVersion = "8.0.0";
 
 namespace
 {
diff --git a/source/bits9/char_is_unicode.cxx b/source/bits9/char_is_unicode.cxx
index f5f6f3d..3de6348 100644
--- a/source/bits9/char_is_unicode.cxx
+++ b/source/bits9/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "9.0.0";
+const char* const supportedUnicodeVersion = "9.0.0";
 
 namespace
 {
diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index a673904..a3c7075 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -108,7 +108,9 @@ private:
 //=========================================================================
 // Get current implementation's supported Unicode version string.
 
-extern const utf8String supportedUnicodeVersion;
+// (constant-initialized, so it's right even before main() is reached)
+
+extern const char* const supportedUnicodeVersion;
 
 //=========================================================================
 // Returns true if the character is in the selected Unicode 8 standard, false
-- 
2.43.0


From 1c90f99a1c6545314f27c369c9ac41472c5ec176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:00 +0000
Subject: [PATCH 20/27] fix: narrow toTstring of a string object recursed
 forever (WIN32)

---
 interface/string.hxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index ca6a304..78f514c 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -760,11 +760,6 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 #if defined(_MBCS)
 
-inline std::string toTstring(const utf8String& test)
-{
-    return toTstring(test.c_str());
-}
-
 inline std::string toTstring(const char* test)
 {
     if (isUtf8(test, kAscii))
@@ -777,7 +772,7 @@ inline std::string toTstring(const char* test)
     }
 }
 
-inline std::string toTstring(const utf16String& test)
+inline std::string toTstring(const utf8String& test)
 {
     return toTstring(test.c_str());
 }
@@ -801,7 +796,7 @@ inline std::string toTstring(const char16_t* test)
     }
 }
 
-inline std::string toTstring(const ucs4String& test)
+inline std::string toTstring(const utf16String& test)
 {
     return toTstring(test.c_str());
 }
@@ -818,6 +813,11 @@ inline std::string toTstring(const char32_t* test)
     }
 }
 
+inline std::string toTstring(const ucs4String& test)
+{
+    return toTstring(test.c_str());
+}
+
 #elif defined(_UNICODE)
 
 inline std::wstring toTstring(const utf8String& test)
-- 
2.43.0


From 3ccfdc22d8ec1b379c8c748cf944924dec8b6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:00 +0000
Subject: [PATCH 21/27] fix: narrow isTstring must accept only what toTstring
 can convert (WIN32)

---
 interface/string.hxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 78f514c..631ce17 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -573,19 +573,21 @@ inline bool isUcs4(const std::string& test) { return isUcs4(test.c_str()); }
 
 #if defined(_MBCS)
 
+// narrow TCHAR strings are ASCII, see toTstring, below
+
 inline bool isTstring(const utf8String& test)
 {
-    return isUtf8(test, kUtf16);
+    return isUtf8(test, kAscii);
 }
 
 inline bool isTstring(const char* test)
 {
-    return isUtf8(test, kUtf16);
+    return isUtf8(test, kAscii);
 }
 
 inline bool isTstring(const utf16String& test)
 {
-    return isUtf16(test);
+    return isUtf16(test, kAscii);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -597,17 +599,17 @@ inline bool isTstring(const ucs2String& test)
 
 inline bool isTstring(const char16_t* test)
 {
-    return isUtf16(test);
+    return isUtf16(test, kAscii);
 }
 
 inline bool isTstring(const ucs4String& test)
 {
-    return isUcs4(test, kUtf16);
+    return isUcs4(test, kAscii);
 }
 
 inline bool isTstring(const char32_t* test)
 {
-    return isUcs4(test, kUtf16);
+    return isUcs4(test, kAscii);
 }
 
 #elif defined(_UNICODE)
-- 
2.43.0


From 00ef24a816cfc2c505bafd6c3b02258f9b1d115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:00 +0000
Subject: [PATCH 22/27] fix: wide toTstring must reject invalid UTF-16, as
 toWstring does (WIN32)

---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 631ce17..42c8aa5 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -834,7 +834,7 @@ inline std::wstring toTstring(const char* test)
 
 inline std::wstring toTstring(const utf16String& test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test.c_str()));
+    return toWstring(test);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -846,7 +846,7 @@ inline std::wstring toTstring(const ucs2String& test)
 
 inline std::wstring toTstring(const char16_t* test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test));
+    return toWstring(test);
 }
 
 inline std::wstring toTstring(const ucs4String& test)
-- 
2.43.0


From b8df1c0a9b8f9c1e7841aff7a4402db3f5bf364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:00 +0000
Subject: [PATCH 23/27] fix: narrow conversions of a null pointer give an empty
 string (WIN32)

---
 interface/string.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 42c8aa5..4c34af0 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -748,7 +748,7 @@ inline std::wstring toWstring(const ucs4String& src)
 
 inline utf8String toUtf8(const char* src)
 {
-  if (isUtf8(src))
+  if (src && isUtf8(src))
   {
     return utf8String(src);
   }
@@ -764,7 +764,7 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 inline std::string toTstring(const char* test)
 {
-    if (isUtf8(test, kAscii))
+    if (test && isUtf8(test, kAscii))
     {
         return std::string(test);
     }
@@ -788,7 +788,7 @@ inline std::string toTstring(const ucs2String& test)
 
 inline std::string toTstring(const char16_t* test)
 {
-    if (isUtf16(test, kAscii))
+    if (test && isUtf16(test, kAscii))
     {
         return std::string(toUtf8(test).c_str());
     }
@@ -805,7 +805,7 @@ inline std::string toTstring(const utf16String& test)
 
 inline std::string toTstring(const char32_t* test)
 {
-    if (isUcs4(test, kAscii))
+    if (test && isUcs4(test, kAscii))
     {
         return std::string(toUtf8(test).c_str());
     }
-- 
2.43.0


From e4fcbb6447f82718f19214344d0c8c162a149ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 24/27] fix: mkUnicodeTestData never ended if the last line had
 no end-of-line

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index afadd52..196f35d 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -60,6 +60,18 @@
 using namespace std;
 using namespace ansak;
 
+///////////////////////////////////////////////////////////////////////////
+// nextLine -- get the next line, an empty one if there isn't one (at the end
+// of a file with no final end-of-line, getline leaves the last line in place)
+
+void nextLine(istream& inStream, string& oneLine)
+{
+    if (!getline(inStream, oneLine))
+    {
+        oneLine.clear();
+    }
+}
+
 ///////////////////////////////////////////////////////////////////////////
 // process -- once the two files have been determined and opened/created,
 // convert the one format to the other
@@ -70,7 +82,7 @@ void process(filebuf& inbuf, filebuf& outbuf)
     ostream outStream(&outbuf);
 
     string oneLine;
-    getline(inStream, oneLine);
+    nextLine(inStream, oneLine);
     auto fields = split(oneLine, ';');
     if (!fields.empty())
     {
@@ -82,13 +94,13 @@ void process(filebuf& inbuf, filebuf& outbuf)
             auto privateN = fields[1].find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
             {
-                getline(inStream, oneLine);
+                nextLine(inStream, oneLine);
                 fields = split(oneLine, ';');
                 continue;
             }
 
             outStream << " 0x" << fields[0] << ',';
-            getline(inStream, oneLine);
+            nextLine(inStream, oneLine);
             fields = split(oneLine, ';');
             ++nCount;
             if (oneLine.size() != 0 && nCount % 10 == 0)
-- 
2.43.0


From 5ee03c1cfc88d8baa725b9af61e0d5e959123223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:47 +0000
Subject: [PATCH 25/27] fix: mkUnicodeTestData must not index past a line with
 no delimiter

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index 196f35d..cf39818 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -53,6 +53,7 @@
 
 #include <fstream>
 
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "string_splitjoin.hxx"
@@ -90,6 +91,10 @@ void process(filebuf& inbuf, filebuf& outbuf)
         int nCount = 0;
         while (oneLine.size() > 10)
         {
+            if (fields.size() < 2)
+            {
+                throw runtime_error("not ;-delimited Unicode data");
+            }
             auto surrogateN = fields[1].find("Surrogate");
             auto privateN = fields[1].find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
-- 
2.43.0


From 0ced0bcbae1bd58c31d35b57897912c5105f29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 26/27] fix: mkUnicodeTestData must report files it cannot
 open, read or write

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index cf39818..07449de 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -117,7 +117,10 @@ void process(filebuf& inbuf, filebuf& outbuf)
         outStream << " 0xFFFFFFFF };" << endl;
     }
 
-    outbuf.close();
+    if (inStream.bad() || !outStream || outbuf.close() == nullptr)
+    {
+        throw runtime_error("the Unicode data could not be read or written");
+    }
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -148,11 +151,17 @@ int main(int argc, char* argv[])
     try
     {
         filebuf inBuf;
-        inBuf.open(argv[1], std::ios::in);
+        if (inBuf.open(argv[1], std::ios::in) == nullptr)
+        {
+            throw runtime_error("could not be opened");
+        }
         opened1 = true;
 
         filebuf outBuf;
-        outBuf.open(argv[2], std::ios::out | std::ios::trunc);
+        if (outBuf.open(argv[2], std::ios::out | std::ios::trunc) == nullptr)
+        {
+            throw runtime_error("could not be opened");
+        }
         opened2 = true;
 
         process(inBuf, outBuf);
-- 
2.43.0


From 5b2ff9788e204a8a95d9fa0b97b105717d8ab4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:58 +0000
Subject: [PATCH 27/27] fix: trim took quadratic time in the number of leading
 blanks

---
 interface/string_trim.hxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 3161ef5..52c681d 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -57,10 +57,13 @@ void trim(std::basic_string<C>& victim)
     {
         victim.erase(victim.size() - 1);
     }
-    while (!victim.empty() && victim[0] == static_cast<C>(' '))
+    // erase all of the leading ones at once, each erase moves the rest
+    typename std::basic_string<C>::size_type leading = 0;
+    while (leading < victim.size() && victim[leading] == static_cast<C>(' '))
     {
-        victim.erase(0, 1);
+        ++leading;
     }
+    victim.erase(0, leading);
 }
 
 template<typename C>
@@ -73,10 +76,14 @@ void trim(std::basic_string<C>& victim, const std::basic_string<C>& spaces)
     {
         victim.erase(victim.size() - 1);
     }
-    while (!victim.empty() && spaces.find_first_of(victim[0]) != std::basic_string<C>::npos)
+    // erase all of the leading ones at once, each erase moves the rest
+    typename std::basic_string<C>::size_type leading = 0;
+    while (leading < victim.size() &&
+           spaces.find_first_of(victim[leading]) != std::basic_string<C>::npos)
     {
-        victim.erase(0, 1);
+        ++leading;
     }
+    victim.erase(0, leading);
 }
 
 inline void trimAscii7WhiteSpace(std::string& victim)
-- 
2.43.0

