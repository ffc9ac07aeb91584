From a059c6a12cbf96bcf784d028509f98b861e113d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:31 +0000
Subject: [PATCH 01/46] fix: toLower leaves U+00D7 MULTIPLICATION SIGN alone

It has no lower case; it was turned into U+00F7 DIVISION SIGN.
---
 source/bits10/char_to_lower.cxx | 6 +++---
 source/bits11/char_to_lower.cxx | 6 +++---
 source/bits12/char_to_lower.cxx | 6 +++---
 source/bits13/char_to_lower.cxx | 6 +++---
 source/bits14/char_to_lower.cxx | 6 +++---
 source/bits15/char_to_lower.cxx | 6 +++---
 source/bits16/char_to_lower.cxx | 6 +++---
 source/bits7/char_to_lower.cxx  | 6 +++---
 source/bits8/char_to_lower.cxx  | 6 +++---
 source/bits9/char_to_lower.cxx  | 6 +++---
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 68a1ef1..b7ce5e8 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 9a582fa..00bdb73 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 7d6ad65..a2f8374 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index b1b6a32..32add43 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index d411f80..a24268d 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 5efc45b..67f3ba3 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
-- 
2.43.0


From a52eef0926984fea95fceeb5b3b56074b7a201e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:31 +0000
Subject: [PATCH 02/46] fix: toLower leaves lower case U+1E96..U+1E9D alone

They are not upper/lower pairs; U+1E96, U+1E98, U+1E9A and U+1E9C were
turned into the letter that follows them.
---
 source/bits10/char_to_lower.cxx | 2 +-
 source/bits11/char_to_lower.cxx | 2 +-
 source/bits12/char_to_lower.cxx | 2 +-
 source/bits13/char_to_lower.cxx | 2 +-
 source/bits14/char_to_lower.cxx | 2 +-
 source/bits15/char_to_lower.cxx | 2 +-
 source/bits16/char_to_lower.cxx | 2 +-
 source/bits7/char_to_lower.cxx  | 2 +-
 source/bits8/char_to_lower.cxx  | 2 +-
 source/bits9/char_to_lower.cxx  | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index 1719cd2..695857c 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 1719cd2..695857c 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index b7ce5e8..2007beb 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 00bdb73..20b53b3 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 8c97017..18112e1 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 8c97017..18112e1 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index a2f8374..2b4a0a5 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -283,7 +283,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index 32add43..e735e3d 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -264,7 +264,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index a24268d..f56bbac 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 67f3ba3..112d955 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9F)
         {
             return c | 1;
         }
-- 
2.43.0


From 7c559ccbdd3dd5d63c884a587cdf91cf9649b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:31 +0000
Subject: [PATCH 03/46] fix: lower-case Georgian Mtavruli from Unicode 11 on

---
 source/bits11/char_to_lower.cxx | 7 +++++++
 source/bits12/char_to_lower.cxx | 7 +++++++
 source/bits13/char_to_lower.cxx | 7 +++++++
 source/bits14/char_to_lower.cxx | 7 +++++++
 source/bits15/char_to_lower.cxx | 7 +++++++
 source/bits16/char_to_lower.cxx | 4 ++++
 6 files changed, 39 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 695857c..41940b5 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -271,6 +271,13 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 2007beb..f90dc22 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -271,6 +271,13 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 20b53b3..6613cfb 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -271,6 +271,13 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 18112e1..f36cb61 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -271,6 +271,13 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 18112e1..f36cb61 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -271,6 +271,13 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 2b4a0a5..ff7d75b 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -276,6 +276,10 @@ char16_t toLower1000(char16_t c)
         {
             return 0x1C8A;
         }
+        else if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
         break;
 
     case 0x1E:
-- 
2.43.0


From f3617866ae14347c90507f99b01583479eba7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:31 +0000
Subject: [PATCH 04/46] fix: lower-case Medefaidrin from Unicode 11 on

---
 source/bits11/char_to_lower.cxx | 4 ++++
 source/bits12/char_to_lower.cxx | 4 ++++
 source/bits13/char_to_lower.cxx | 4 ++++
 source/bits14/char_to_lower.cxx | 4 ++++
 source/bits15/char_to_lower.cxx | 4 ++++
 source/bits16/char_to_lower.cxx | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 41940b5..20a03de 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -545,6 +545,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index f90dc22..780016b 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -550,6 +550,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 6613cfb..798b731 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -553,6 +553,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index f36cb61..012d50b 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -557,6 +557,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index f36cb61..012d50b 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -557,6 +557,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index ff7d75b..bcee902 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -573,6 +573,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
-- 
2.43.0


From 8366b64826b01a861e09dfec34c36f0582f242d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:31 +0000
Subject: [PATCH 05/46] fix: toLower leaves the unassigned code points among
 the Vithkuqi capitals alone

---
 source/bits16/char_to_lower.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index bcee902..87acedd 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -556,7 +556,8 @@ char32_t toLower(char32_t c)
         {
             return c + 0x28;
         }
-        else if (c >= 0x10570 && c <= 0x10595)
+        else if (c >= 0x10570 && c <= 0x10595 &&
+                 c != 0x1057B && c != 0x1058B && c != 0x10593)
         {
             return c + 0x27;
         }
-- 
2.43.0


From 0a03d4a9adb931cbf7ea42bb6934aac496a921e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 06/46] fix: isUtf16 applies its predicate to the decoded code
 point

For a surrogate pair, it was given the first half of the pair, so that
every assigned character outside the BMP was taken as unassigned.
---
 source/string.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..57b3742 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -378,7 +378,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
         {
             return false;
         }
-        auto c = *p;
+        char32_t c = *p;
         RangeTypeFlags charFlag;
         /* Never hit, 2nd half UTF16 is invalid range
         if (isSecondHalfUtf16(c))
@@ -392,8 +392,9 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
             {
                 return false;
             }
+            c = rawDecodeUtf16(static_cast<char16_t>(c), c1);
             // Could make this function call but it is unnecessary
-            // charFlag = getCharEncodableRangeFlags(rawDecodeUtf16(c, c1));
+            // charFlag = getCharEncodableRangeFlags(c);
             charFlag = k21BitUnicodeFlags;
         }
         else
-- 
2.43.0


From 7fceac3824889b289b1bc163727d8246d513e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 07/46] fix: toUtf8 from UTF-16 refuses an orphaned second half

It was encoded, by itself, which isUtf8 takes as broken.
---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 57b3742..6bc440f 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -504,6 +504,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From c292ac995ee1a20f380ce0df98c6cb975874e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:08 +0000
Subject: [PATCH 08/46] fix: unicodeLength of nothing but an incomplete escape
 is 0

It was r - 1 for r == 0, 4294967295.
---
 source/string.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 6bc440f..9a914ba 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -809,7 +809,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         if (c == 0)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0) ? (r - 1) : 0;
+            return (*p == 0 && r > 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -882,7 +882,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         auto c1 = p[1];
         if (isFirstHalf && c1 == 0)
         {
-            return r - 1;
+            return (r > 0) ? (r - 1) : 0;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 4aa747b4adc1b508f0fd641a00f6f245d04a1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:15 +0000
Subject: [PATCH 09/46] fix: unicodeLength of a null UTF-16 or UCS-4 pointer is
 0

As it is for UTF-8; they dereferenced it.
---
 source/string.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 9a914ba..47cc9bf 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -851,6 +851,11 @@ unsigned int unicodeLength(const utf16String& src)
 
 unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
 {
+    if (!src || !*src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
@@ -930,6 +935,11 @@ unsigned int unicodeLength(const ucs4String& src)
 
 unsigned int unicodeLength(const char32_t* src, unsigned int testLength)
 {
+    if (!src || !*src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
-- 
2.43.0


From 858901c5d27c6939b38368be28353800b0f20b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:22 +0000
Subject: [PATCH 10/46] fix: unicodeLength of length-terminated UTF-16 stays in
 its buffer

It read one char16_t beyond the last one it was given.
---
 source/string.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/string.cxx b/source/string.cxx
index 47cc9bf..794190d 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -884,7 +884,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
             return (r > 0) ? (r - 1) : 0;
-- 
2.43.0


From 8295fc2af0039e86342a0ebe3921461e85865064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:29 +0000
Subject: [PATCH 11/46] fix: length-terminated UTF-8 scans stay in their buffer

With two bytes left of a three-byte escape, the third was read to tell
what half of a UTF-16 pair it was; that does not depend on it.
---
 source/string.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 794190d..4c267bc 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -162,7 +162,7 @@ int sequenceSizeCharStarts
 // character in two UTF-8 values.
 //
 // Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+//       at least one more byte available in the character stream
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isFirstHalfUtf16
 
@@ -171,10 +171,10 @@ inline bool isFirstHalfUtf16AsUtf8
     const char*         p       // I - points to current non-null character
 )
 {
+    // no bit of the third byte matters
     return isFirstHalfUtf16(rawDecodeUtf8(
                 static_cast<unsigned char>(p[0]),
-                static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+                static_cast<unsigned char>(p[1]), 0));
 }
 
 //=========================================================================
@@ -182,7 +182,7 @@ inline bool isFirstHalfUtf16AsUtf8
 // half of a UTF-16 character in two UTF-8 values.
 //
 // Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+//       at least one more byte available in the character stream
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isSecondHalfUtf16
 
@@ -191,10 +191,10 @@ inline bool isSecondHalfUtf16AsUtf8
     const char*         p       // I/O - points to current non-null character
 )
 {
+    // no bit of the third byte matters
     return isSecondHalfUtf16(rawDecodeUtf8(
                 static_cast<unsigned char>(p[0]),
-                static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+                static_cast<unsigned char>(p[1]), 0));
 }
 
 //=========================================================================
-- 
2.43.0


From 8012b2081823135a46235357cc7cf86d9cce5ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 12/46] fix: length-terminated UTF-8 scans notice a broken last
 escape

Its bytes were not looked at when there were too few of them, so isUtf8
accepted and unicodeLength counted up to "\xe0 " or, for the latter, an
"\xff". Null-terminated scans refuse them.
---
 source/string.cxx | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 4c267bc..e5cdbcc 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -197,6 +197,28 @@ inline bool isSecondHalfUtf16AsUtf8
                 static_cast<unsigned char>(p[1]), 0));
 }
 
+//=========================================================================
+// Utility function to decide if the last bytes of a length-terminated string,
+// too few for the sequence they start, might have been completed.
+//
+// Returns true if they might have been, false if they are broken already.
+
+bool isIncompleteUtf8
+(
+    const char*         p,          // I - points to current non-null character
+    unsigned int        lengthLeft  // I - how many bytes there are
+)
+{
+    char tail[7] = { 0 };
+    for (unsigned int i = 0; i < lengthLeft && i < 6; ++i)
+    {
+        tail[i] = p[i];
+    }
+    const char* pTail = tail;
+    decodeUtf8(pTail);
+    return pTail != nullptr;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -265,7 +287,7 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return isIncompleteUtf8(p, lengthLeft);
             }
         }
 
@@ -792,7 +814,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return isIncompleteUtf8(p, lengthLeft) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
-- 
2.43.0


From e44e42a3bb7a5333f6e3e4adddb5742ded87d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:22 +0000
Subject: [PATCH 13/46] fix: code points from 0x110000 up do not fit UTF-16

isUtf8 and isUcs4 said 0x110000..0x1fffff did, when toUtf16 could not
encode them.
---
 source/string_internal.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..ba50e4f 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -68,9 +68,9 @@ enum RangeTypeFlags : int {
 
     k7BitFlags  = kAsciiFlag | kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3f
     k16BitFlags =              kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3e
-    k21BitFlags =              kUtf8Flag |             kUtf16Flag | kUcs4Flag,                  // 0x1a
+    k21BitFlags =              kUtf8Flag |                          kUcs4Flag,                  // 0x12
 
-    k21BitUnicodeFlags = k21BitFlags | kUnicodeFlag,                             // 0x3a,
+    k21BitUnicodeFlags = k21BitFlags | kUtf16Flag | kUnicodeFlag,                // 0x3a,
     k31BitFlags =              kUtf8Flag |                          kUcs4Flag,   // 0x12
     k32BitFlags =                                                   kUcs4Flag    // 0x10
 };
@@ -173,7 +173,7 @@ RangeTypeFlags getCharEncodableRangeFlags(C c)
     }
     else if (c < 0x200000)
     {
-        return static_cast<RangeTypeFlags>(k21BitFlags | getUnicodeEncodableRangeFlag(c));
+        return (getUnicodeEncodableRangeFlag(c) != 0) ? k21BitUnicodeFlags : k21BitFlags;
     }
     else
     {
-- 
2.43.0


From baaac12e8468090497f7b45eb33adf1f97f0e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:34 +0000
Subject: [PATCH 14/46] fix: join with a NUL delimiter

It was appended as an empty null-terminated string, so that join did not
undo split.
---
 interface/string_splitjoin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interface/string_splitjoin.hxx b/interface/string_splitjoin.hxx
index 6121fe5..b9cfbcb 100644
--- a/interface/string_splitjoin.hxx
+++ b/interface/string_splitjoin.hxx
@@ -126,15 +126,13 @@ std::basic_string<C> join(const std::vector< std::basic_string<C> >& src, C deli
     }
     else
     {
-        C delimStr[2] = {0};
-        delimStr[0] = delim;
         return_type r;
         bool first = true;
         for (auto s : src)
         {
             if (!first)
             {
-                r.append(delimStr);
+                r.push_back(delim);
             }
             first = false;
             r.append(s);
-- 
2.43.0


From c340ed3eac577c5cc3f5afc73e274eb2d4bfa573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:41 +0000
Subject: [PATCH 15/46] fix: a predicate narrowed by the opposite of what it
 checks is never true

validIf(x).andIfNot(x) was the same as validIf(x), and validIfNot(x).andIf(x)
also checked for x.
---
 source/encoding_check_predicate.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/encoding_check_predicate.cxx b/source/encoding_check_predicate.cxx
index 1200c8b..6e5efb0 100644
--- a/source/encoding_check_predicate.cxx
+++ b/source/encoding_check_predicate.cxx
@@ -55,6 +55,9 @@ namespace {
 EncodingTypeFlags encodingTypeToEncodingFlag[kFirstInvalidEncoding] =
     { kNoneFlag, kIsAssignedFlag, kIsPrivateFlag, kIsControlFlag, kIsWhiteSpaceFlag };
 
+// in m_value but never in m_mask, so that no character is valid
+const uint32_t kContradictionFlag = 0x80000000;
+
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -89,6 +92,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIf
 )
 {
     EncodingCheckPredicate other(toCheckFor);
+    if (((m_value ^ other.m_value) & m_mask & other.m_mask) != 0)
+    {
+        m_value |= kContradictionFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
@@ -103,6 +110,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIfNot
 )
 {
     EncodingCheckPredicate other(toCheckFor, false);
+    if (((m_value ^ other.m_value) & m_mask & other.m_mask) != 0)
+    {
+        m_value |= kContradictionFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
-- 
2.43.0


From 7f4d6fc21f75894c0bc0a79c897a0d6d100632f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 16/46] fix: wchar_t and TCHAR conversions of a null pointer
 give empty strings

As the others do; isXxxx is true for it, and it was handed to
basic_string's constructor.
---
 interface/string.hxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b3dc096..8244a20 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -665,7 +665,7 @@ inline utf8String toUtf8(const std::wstring& src)
 inline utf16String toUtf16(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUtf16(redirect))
+    if (src && isUtf16(redirect))
     {
         return utf16String(redirect);
     }
@@ -681,7 +681,7 @@ inline utf16String toUtf16(const std::wstring& src)
 inline ucs2String toUcs2(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUcs2(redirect))
+    if (src && isUcs2(redirect))
     {
         return ucs2String(redirect);
     }
@@ -711,7 +711,7 @@ inline std::wstring toWstring(const utf8String& src)
 
 inline std::wstring toWstring(const char16_t* src)
 {
-    if (isUtf16(src))
+    if (src && isUtf16(src))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
@@ -746,7 +746,7 @@ inline std::wstring toWstring(const ucs4String& src)
 
 inline utf8String toUtf8(const char* src)
 {
-  if (isUtf8(src))
+  if (src && isUtf8(src))
   {
     return utf8String(src);
   }
@@ -767,7 +767,7 @@ inline std::string toTstring(const utf8String& test)
 
 inline std::string toTstring(const char* test)
 {
-    if (isUtf8(test, kAscii))
+    if (test && isUtf8(test, kAscii))
     {
         return std::string(test);
     }
@@ -958,7 +958,7 @@ inline ucs2String toUcs2(const std::wstring& src)
 
 inline ucs4String toUcs4(const wchar_t* src)
 {
-    if (isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
+    if (src && isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
     {
         return ucs4String(reinterpret_cast<const char32_t*>(src));
     }
@@ -997,7 +997,7 @@ inline std::wstring toWstring(const ucs2String& src)
 
 inline std::wstring toWstring(const char32_t* src)
 {
-    if (isUcs4(src, kUtf16))
+    if (src && isUcs4(src, kUtf16))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From 0ff6f382ce8a3a5a0f0b7fdd8d4d438dfcf71ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:26 +0000
Subject: [PATCH 17/46] fix: trimWhiteSpace of UTF-8 keeps code points beyond
 0x10ffff

UTF-16, on the way, cannot hold them, and the string was emptied.
---
 interface/string_trim.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 9965047..74ca41e 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -101,9 +101,9 @@ inline void trimWhiteSpace(utf16String& victim)
 
 inline void trimWhiteSpace(utf8String& victim)
 {
-    auto v16 = toUtf16(victim);
-    trimWhiteSpace(v16);
-    victim = toUtf8(v16);
+    auto v32 = toUcs4(victim);
+    trimWhiteSpace(v32);
+    victim = toUtf8(v32);
 }
 
 }
-- 
2.43.0


From 6ce4a580b9a73ee9128eda3af3ed961a6a221b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:33 +0000
Subject: [PATCH 18/46] fix: trimWhiteSpace trims U+1680 OGHAM SPACE MARK

It is the one space separator of Unicode that was missing.
---
 interface/string_trim.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 74ca41e..3161ef5 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -87,7 +87,7 @@ inline void trimAscii7WhiteSpace(std::string& victim)
 inline void trimWhiteSpace(ucs4String& victim)
 {
     trim(victim, std::u32string(
-            U"\U00000009\U0000000a\U0000000d \U000000a0\U00002000\U00002001\U00002002\U00002003"
+            U"\U00000009\U0000000a\U0000000d \U000000a0\U00001680\U00002000\U00002001\U00002002\U00002003"
             U"\U00002004\U00002005\U00002006\U00002007\U00002008\U00002009\U0000200a\U0000202f"
             U"\U0000205f\U00003000"));
 }
@@ -95,7 +95,7 @@ inline void trimWhiteSpace(ucs4String& victim)
 inline void trimWhiteSpace(utf16String& victim)
 {
     trim(victim, std::u16string(
-            u"\u0009\u000a\u000d \u00a0\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
+            u"\u0009\u000a\u000d \u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
             u"\u2009\u200a\u202f\u205f\u3000"));
 }
 
-- 
2.43.0


From 9f442c096609ac92af91729da0702887de8e11be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:38 +0000
Subject: [PATCH 19/46] fix: toUtf8 from kSrcUnicode refuses broken UTF-8

As every other conversion does; it was returned as it was.
---
 source/string_toutf8.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/string_toutf8.cxx b/source/string_toutf8.cxx
index 06e6717..d958260 100644
--- a/source/string_toutf8.cxx
+++ b/source/string_toutf8.cxx
@@ -56,7 +56,7 @@ utf8String toUtf8(const char* src, SourceEncoding srcType)
     }
     else if (srcType == kSrcUnicode)
     {
-        return string(src);
+        return isUtf8(src) ? string(src) : string();
     }
     else if (srcType == kSrcCP1252)
     {
-- 
2.43.0


From 31d4a79e20e090d67372ccee4e34e0aebe3edb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:47 +0000
Subject: [PATCH 20/46] fix: narrow toTstring of a basic_string does not call
 itself for ever

With no overload for pointers declared before it, its call converted the
pointer back to the same basic_string.
---
 interface/string.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interface/string.hxx b/interface/string.hxx
index 8244a20..17115cc 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -760,6 +760,11 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 #if defined(_MBCS)
 
+// the string versions need these in scope, or else they'd call themselves
+inline std::string toTstring(const char* test);
+inline std::string toTstring(const char16_t* test);
+inline std::string toTstring(const char32_t* test);
+
 inline std::string toTstring(const utf8String& test)
 {
     return toTstring(test.c_str());
-- 
2.43.0


From 60a278fe556569357e71a4b21f56e73677bff824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:16 +0000
Subject: [PATCH 21/46] fix: wide toTstring refuses broken UTF-16, and a null
 pointer

As toWstring does; it was returned as it was.
---
 interface/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 17115cc..6ff4eb6 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -837,7 +837,7 @@ inline std::wstring toTstring(const char* test)
 
 inline std::wstring toTstring(const utf16String& test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test.c_str()));
+    return toWstring(test);
 }
 
 /* ucs2String and utf16String are the same type under the hood
@@ -849,7 +849,7 @@ inline std::wstring toTstring(const ucs2String& test)
 
 inline std::wstring toTstring(const char16_t* test)
 {
-    return std::wstring(reinterpret_cast<const wchar_t*>(test));
+    return toWstring(test);
 }
 
 inline std::wstring toTstring(const ucs4String& test)
-- 
2.43.0


From ae97fc1314c5dc48c62f0f89c3566df48d280aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:48 +0000
Subject: [PATCH 22/46] fix: mkUnicodeTestData reports files that it cannot
 open

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index afadd52..6f34d50 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -131,11 +131,17 @@ int main(int argc, char* argv[])
     try
     {
         filebuf inBuf;
-        inBuf.open(argv[1], std::ios::in);
+        if (!inBuf.open(argv[1], std::ios::in))
+        {
+            throw ios_base::failure("infile");
+        }
         opened1 = true;
 
         filebuf outBuf;
-        outBuf.open(argv[2], std::ios::out | std::ios::trunc);
+        if (!outBuf.open(argv[2], std::ios::out | std::ios::trunc))
+        {
+            throw ios_base::failure("outfile");
+        }
         opened2 = true;
 
         process(inBuf, outBuf);
-- 
2.43.0


From 25fcc1477c3b9c0d64d01756b729d39cf7fdc606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:20 +0000
Subject: [PATCH 23/46] fix: mkUnicodeTestData ends at a last line without a
 newline

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index 6f34d50..b40e950 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -76,7 +76,7 @@ void process(filebuf& inbuf, filebuf& outbuf)
     {
         outStream << "char32_t validUnicodeCodePoints[] = {" << endl << "    ";
         int nCount = 0;
-        while (oneLine.size() > 10)
+        while (inStream && oneLine.size() > 10)
         {
             auto surrogateN = fields[1].find("Surrogate");
             auto privateN = fields[1].find("Private");
-- 
2.43.0


From 157014e313915ee6016c1f200b1707d6b11f6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 24/46] fix: configure works when called from another directory

pushd and popd are not there in every /bin/sh: without them, configure
failed after it had written its files to the wrong directory.
---
 configure | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/configure b/configure
index bd3986e..310413f 100755
--- a/configure
+++ b/configure
@@ -45,10 +45,8 @@
 ###########################################################################
 
 verbose=0
-popit=0
 if [ `dirname $0` != . ]; then
-	popit=1
-	pushd `dirname $0` >/dev/null
+	cd `dirname $0`
 fi
 if [ ! -d ./submods/googletest ]; then
     git submodule update --init
@@ -96,9 +94,6 @@ usage() {
 }
 
 _exit() {
-   if [ $popit -ne 0 ]; then
-           popd >/dev/null
-   fi
    exit $1
 }
 
@@ -224,7 +219,3 @@ echo BUILDS_ARCH = $builds_arch >> config.make
 
 mkdir -p build
 find . -name submods -prune -o \( -name '*.[ch]xx' -o -name 'CMakeLists.txt' \) -type f -print | xargs echo SRCS = packaging.cmake > build/deps
-
-if [ $popit -ne 0 ]; then
-	popd >/dev/null
-fi
-- 
2.43.0


From 00692ae1940ff5aaa8339db7553f57d2b2271e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 25/46] fix: make clean without a build directory does not
 delete the sources

---
 Makefile | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Makefile b/Makefile
index c4b3798..94648b0 100644
--- a/Makefile
+++ b/Makefile
@@ -140,8 +140,7 @@ cmake-uninstall:
 
 
 clean:
-	@cd build; \
-	rm -rf *
+	@if test -d build; then cd build && rm -rf *; fi
 
 
 scrub:
-- 
2.43.0


From 6f4349d433f4846af9415d5c4f3fd257b64ae90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 26/46] fix: make after make clean notices edited sources

build/deps is written by configure only; with it, clean removed what
build/all.touch depends on.
---
 Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index 94648b0..6578ada 100644
--- a/Makefile
+++ b/Makefile
@@ -140,7 +140,7 @@ cmake-uninstall:
 
 
 clean:
-	@if test -d build; then cd build && rm -rf *; fi
+	@if test -d build; then cd build && find . ! -name . -prune ! -name deps -exec rm -rf {} + ; fi
 
 
 scrub:
-- 
2.43.0


From 927727fe88c26e7ded7175d3a9c068ab43617003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 27/46] fix: make uninstall removes directories of its prefix
 only, if they are empty

---
 Makefile | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Makefile b/Makefile
index 6578ada..8c2964c 100644
--- a/Makefile
+++ b/Makefile
@@ -85,10 +85,10 @@ install: build/all.touch
 uninstall:
 	$(SUDO) rm $(PREFIX)/include/ansak/string.hxx $(PREFIX)/include/ansak/string_trim.hxx $(PREFIX)/include/ansak/string_splitjoin.hxx
 	$(SUDO) rm $(PREFIX)/lib/libansakString.a
-	if test -d $(PREFIX)/include/ansak; then $(SUDO) rmdir $(PREFIX)/include/ansak; fi
+	if test -d $(PREFIX)/include/ansak; then $(SUDO) rmdir $(PREFIX)/include/ansak 2>/dev/null || true; fi
 	if [ "$(SUDO)" = "" ]; then \
-		if test -d $(PREFIX)/include; then rmdir $$HOME/include; fi ;\
-		if test -d $(PREFIX)/lib; then rmdir $$HOME/lib; fi ;\
+		if test -d $(PREFIX)/include; then rmdir $(PREFIX)/include 2>/dev/null || true; fi ;\
+		if test -d $(PREFIX)/lib; then rmdir $(PREFIX)/lib 2>/dev/null || true; fi ;\
 	fi
 
 
-- 
2.43.0


From 3c5a74ba3794c9395cf7d442110ae758a8cc7aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 28/46] fix: make.py installs the Win32 library as the Win32
 MinSizeRel one

---
 make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.py b/make.py
index 35957db..6737c46 100755
--- a/make.py
+++ b/make.py
@@ -337,7 +337,7 @@ class Maker:
                              paths['lib_win32_relwithdebinfo'])
                 shutil.copy2(os.path.join('build', 'Win32', 'Release', lib),
                              paths['lib_win32_release'])
-                shutil.copy2(os.path.join('build', 'x64', 'MinSizeRel', lib),
+                shutil.copy2(os.path.join('build', 'Win32', 'MinSizeRel', lib),
                              paths['lib_win32_minsizerel'])
 
                 shutil.copy2(os.path.join('build', 'x64', 'Release', lib),
-- 
2.43.0


From 6caaa640899a29b1ddfdd9d0a7020b5e5b9dc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 29/46] fix: make.py clean works where makensis was not found

---
 make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.py b/make.py
index 6737c46..6434c98 100755
--- a/make.py
+++ b/make.py
@@ -494,7 +494,7 @@ class Maker:
                     rm_f(path)
 
         deleteThese([self.win32_dir_, self.x64_dir_,
-                     MakerDirs.nsis_dests()['nsis'], self.package_path_])
+                     os.path.join('build', 'nsis'), self.package_path_])
         deleteThese(MakerDirs.touch_files())
 
         self.step_performed_ = True
-- 
2.43.0


From 17abec3f76715fddd408ab4cc6d0b7a2ceb21b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 30/46] fix: configure.py quotes the compiler's name once only

---
 configure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.py b/configure.py
index 81e5187..40228ca 100755
--- a/configure.py
+++ b/configure.py
@@ -186,7 +186,7 @@ def main(argv=sys.argv):
         raise Exception("Prefix is not an available directory: {}".format(
                         prefix))
     if args.compiler:
-        compiler = repr(args.compiler)
+        compiler = args.compiler
     else:
         compiler = None
 
-- 
2.43.0


From 8d6be824db26c306b82ace73018fc5d11d80949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 31/46] fix: make.py configures first whatever its targets are

without configvars.py, make.py's targets were taken for arguments of
configure.py, which refused them.
---
 configure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure.py b/configure.py
index 40228ca..7765b31 100755
--- a/configure.py
+++ b/configure.py
@@ -171,7 +171,7 @@ def main(argv=sys.argv):
                         help='more detailed progress messages',
                         action='store_true')
 
-    args = parser.parse_args()
+    args = parser.parse_args(argv[1:])
     v = bool(args.verbose)
 
     # get PACKAGE_VERSION for make.py from CMakeLists.txt directive
@@ -226,4 +226,4 @@ if __name__ == '__main__':
         replacement = [sys.argv[0]]
         replacement = replacement + sys.argv[2:]
         sys.argv = replacement
-    main()
+    main(sys.argv)
-- 
2.43.0


From 3e973ded40003d8a57fce3faffadd3f42766d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 32/46] fix: make.py scrub removes configvars.py

rm_f() wanted a directory in the path, so that a file in the current one
was never removed, and the configuration survived a scrub.
---
 make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.py b/make.py
index 6434c98..4052798 100755
--- a/make.py
+++ b/make.py
@@ -158,7 +158,7 @@ def cmake_modules_path():
 
 
 def rm_f(path):
-    if os.path.isdir(os.path.dirname(path)) and os.path.isfile(path):
+    if os.path.isfile(path):
         os.unlink(path)
 
 
-- 
2.43.0


From 74d4b29306fede3aefd03b8cc5f482a72ac7164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:07 +0000
Subject: [PATCH 33/46] fix: find_package(ANSAK) adds the include directory it
 found

It passed the name of the variable, ANSAK_INCLUDE, not its value.
---
 FindANSAK.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FindANSAK.cmake b/FindANSAK.cmake
index d31dd6e..e46f791 100644
--- a/FindANSAK.cmake
+++ b/FindANSAK.cmake
@@ -494,7 +494,7 @@ endif()
 
 message( "Looking for ANSAK components... done" )
 if ( ANSAK_INCLUDE AND NOT ANSAK_ISOLATE )
-    include_directories( ANSAK_INCLUDE )
+    include_directories( "${ANSAK_INCLUDE}" )
 endif()
 if ( ANSAK_DEBUG )
     set( _comp_found "" )
-- 
2.43.0


From 60893fcd3df8a6a87b73cf7c636ebc0e184104b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:07 +0000
Subject: [PATCH 34/46] fix: find_package(ANSAK) looks where the environment
 variable ANSAK_DIR says

The result of that search was put into a misspelled variable.
---
 FindANSAK.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FindANSAK.cmake b/FindANSAK.cmake
index e46f791..486479b 100644
--- a/FindANSAK.cmake
+++ b/FindANSAK.cmake
@@ -245,7 +245,7 @@ if( UNIX OR MINGW OR CYGWIN )
                                                    DOC "ANSAK string library"
                                                    REQUIRED )
     elseif( NOT "$ENV{ANSAK_DIR}" STREQUAL "" )
-        find_library( _loctaor ${_srch_string_lib} HINTS "$ENV{ANSAK_DIR}/lib"
+        find_library( _locator ${_srch_string_lib} HINTS "$ENV{ANSAK_DIR}/lib"
                                                    DOC "ANSAK string library"
                                                    REQUIRED )
     else()
-- 
2.43.0


From 027a389717b13a4910863b0690bedc8256b111e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 35/46] fix: mkUnicodeTestData refuses lines that are not
 ;-delimited

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index b40e950..11cf731 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -52,6 +52,7 @@
 #endif
 
 #include <fstream>
+#include <stdexcept>
 
 #include <string>
 #include <vector>
@@ -78,6 +79,11 @@ void process(filebuf& inbuf, filebuf& outbuf)
         int nCount = 0;
         while (inStream && oneLine.size() > 10)
         {
+            if (fields.size() < 2)
+            {
+                throw runtime_error("infile is not ;-delimited Unicode data");
+            }
+
             auto surrogateN = fields[1].find("Surrogate");
             auto privateN = fields[1].find("Private");
             if (surrogateN != string::npos || privateN != string::npos)
-- 
2.43.0


From 36e4eb5c60c36133d104d5cffc39d0e9ae5e9b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 36/46] fix: mkUnicodeTestData reports reads and writes that
 failed

---
 mkUnicodeTestData/mkUnicodeTestData.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mkUnicodeTestData/mkUnicodeTestData.cxx b/mkUnicodeTestData/mkUnicodeTestData.cxx
index 11cf731..22c7efd 100644
--- a/mkUnicodeTestData/mkUnicodeTestData.cxx
+++ b/mkUnicodeTestData/mkUnicodeTestData.cxx
@@ -106,7 +106,15 @@ void process(filebuf& inbuf, filebuf& outbuf)
         outStream << " 0xFFFFFFFF };" << endl;
     }
 
-    outbuf.close();
+    if (inStream.bad())
+    {
+        throw ios_base::failure("infile");
+    }
+    outStream.flush();
+    if (!outStream || !outbuf.close())
+    {
+        throw ios_base::failure("outfile");
+    }
 }
 
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 09c9f3a14e3e53e7600548a593a26c1baffc77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 37/46] fix: make install and uninstall keep to a prefix with
 spaces in it

---
 Makefile  | 18 +++++++++---------
 configure |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/Makefile b/Makefile
index 8c2964c..587bde7 100644
--- a/Makefile
+++ b/Makefile
@@ -76,19 +76,19 @@ build/test.touch: all config.make $(SRCS)
 
 
 install: build/all.touch
-	$(SUDO) mkdir -p $(PREFIX)/include/ansak
-	$(SUDO) cp interface/*hxx $(PREFIX)/include/ansak
-	$(SUDO) mkdir -p $(PREFIX)/lib
-	$(SUDO) cp $(PRODUCT_DIR)/libansakString.a $(PREFIX)/lib
+	$(SUDO) mkdir -p "$(PREFIX)/include/ansak"
+	$(SUDO) cp interface/*hxx "$(PREFIX)/include/ansak"
+	$(SUDO) mkdir -p "$(PREFIX)/lib"
+	$(SUDO) cp $(PRODUCT_DIR)/libansakString.a "$(PREFIX)/lib"
 
 
 uninstall:
-	$(SUDO) rm $(PREFIX)/include/ansak/string.hxx $(PREFIX)/include/ansak/string_trim.hxx $(PREFIX)/include/ansak/string_splitjoin.hxx
-	$(SUDO) rm $(PREFIX)/lib/libansakString.a
-	if test -d $(PREFIX)/include/ansak; then $(SUDO) rmdir $(PREFIX)/include/ansak 2>/dev/null || true; fi
+	$(SUDO) rm "$(PREFIX)/include/ansak/string.hxx" "$(PREFIX)/include/ansak/string_trim.hxx" "$(PREFIX)/include/ansak/string_splitjoin.hxx"
+	$(SUDO) rm "$(PREFIX)/lib/libansakString.a"
+	if test -d "$(PREFIX)/include/ansak"; then $(SUDO) rmdir "$(PREFIX)/include/ansak" 2>/dev/null || true; fi
 	if [ "$(SUDO)" = "" ]; then \
-		if test -d $(PREFIX)/include; then rmdir $(PREFIX)/include 2>/dev/null || true; fi ;\
-		if test -d $(PREFIX)/lib; then rmdir $(PREFIX)/lib 2>/dev/null || true; fi ;\
+		if test -d "$(PREFIX)/include"; then rmdir "$(PREFIX)/include" 2>/dev/null || true; fi ;\
+		if test -d "$(PREFIX)/lib"; then rmdir "$(PREFIX)/lib" 2>/dev/null || true; fi ;\
 	fi
 
 
diff --git a/configure b/configure
index 310413f..3bb6e70 100755
--- a/configure
+++ b/configure
@@ -171,8 +171,8 @@ fi
 # set sudo=su else to nothing
 sudo=
 if [ $sudoIfPriv -ne 0 ]; then
-	firstpart=`echo $prefix | cut -d/ -f 1`
-	secondpart=`echo $prefix | cut -d/ -f 2`
+	firstpart=`echo "$prefix" | cut -d/ -f 1`
+	secondpart=`echo "$prefix" | cut -d/ -f 2`
 	if [ "$firstpart" = "" ] && [ "$secondpart" != 0 ]; then
 		if [ $apple -eq 1 ] && [ "$secondpart" = "Applications" ]; then
 			sudo=sudo
@@ -208,7 +208,7 @@ if [ $verbose -ne 0 ]; then
     printf "    BUILDS_ARCH = %s\n" $builds_arch
 fi
 echo SUDO = $sudo >> config.make
-echo PREFIX = $prefix >> config.make
+echo "PREFIX = $prefix" >> config.make
 echo CXX = $compiler >> config.make
 echo CONFIG = $config >> config.make
 echo GENERATOR = $generator >> config.make
-- 
2.43.0


From aab0ecde098ed2c4a7d69442205636a0bed41106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 38/46] fix: configure runs in its own directory, also with
 spaces in its path

---
 configure | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/configure b/configure
index 3bb6e70..7d4d2e8 100755
--- a/configure
+++ b/configure
@@ -45,8 +45,8 @@
 ###########################################################################
 
 verbose=0
-if [ `dirname $0` != . ]; then
-	cd `dirname $0`
+if [ "`dirname "$0"`" != . ]; then
+	cd "`dirname "$0"`"
 fi
 if [ ! -d ./submods/googletest ]; then
     git submodule update --init
@@ -83,7 +83,7 @@ defUnicode=16
 
 usage() {
    cwd=`pwd`
-   printf "%s: configure for %s (requires compilers and cmake)\n" $0 `basename $cwd`
+   printf "%s: configure for %s (requires compilers and cmake)\n" "$0" "`basename "$cwd"`"
    printf "    -h, --help:         this message\n"
    printf "    --prefix:           where to install results (default %s)\n" $defPrefix
    printf "    --compiler:         where to install results (default %s)\n" $defCxx
-- 
2.43.0


From b1c0621f8c9b823947f77bc8eead6c49003ff7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 39/46] fix: make cmake-install and cmake-uninstall find a
 CMake with spaces in its path

---
 Makefile | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Makefile b/Makefile
index 587bde7..1e8c156 100644
--- a/Makefile
+++ b/Makefile
@@ -130,13 +130,13 @@ arch: deb
 
 
 cmake-install:
-	@CMAKE_ROOT=`cmake --system-information | grep ^CMAKE_ROOT | awk '{print $$2;}' | tr -d '"'` export CMAKE_ROOT ;\
-	$(SUDO) cp FindANSAK.cmake $$CMAKE_ROOT/Modules
+	@CMAKE_ROOT=`cmake --system-information | sed -n 's/^CMAKE_ROOT "\(.*\)"$$/\1/p'` export CMAKE_ROOT ;\
+	$(SUDO) cp FindANSAK.cmake "$$CMAKE_ROOT/Modules"
 
 
 cmake-uninstall:
-	@CMAKE_ROOT=`cmake --system-information | grep ^CMAKE_ROOT | awk '{print $$2;}' | tr -d '"'` export CMAKE_ROOT ;\
-	$(SUDO) rm -f $$CMAKE_ROOT/Modules/FindANSAK.cmake
+	@CMAKE_ROOT=`cmake --system-information | sed -n 's/^CMAKE_ROOT "\(.*\)"$$/\1/p'` export CMAKE_ROOT ;\
+	$(SUDO) rm -f "$$CMAKE_ROOT/Modules/FindANSAK.cmake"
 
 
 clean:
-- 
2.43.0


From f6e0573173321a5491860fd541b453758b09c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 40/46] fix: make rpm, deb and arch name CPack's generators as
 CPack does

---
 Makefile | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Makefile b/Makefile
index 1e8c156..976a5bc 100644
--- a/Makefile
+++ b/Makefile
@@ -101,7 +101,7 @@ rpm: test
 		echo RPM building requires presence of the 'rpm' tool ;\
 	else \
 		cd build ;\
-		cpack . -G rpm; \
+		cpack . -G RPM; \
 	fi
 
 
@@ -110,7 +110,7 @@ deb: test
 		echo Debian package building requires presence of the 'dpkg-deb' tool ;\
 	else \
 		cd build ;\
-		cpack . -G deb; \
+		cpack . -G DEB; \
 	fi
 
 
@@ -122,7 +122,7 @@ arch: deb
 		echo "Arthur N. Klassen" > arch-pkg-info ;\
 		echo "BSD 2-clause License" >> arch-pkg-info ;\
 		echo  >> arch-pkg-info ;\
-		cpack . -G deb; \
+		cpack . -G DEB; \
 		for pkg in *deb; do \
 			debtap $$pkg < arch-pkg-info;\
 		done ;\
-- 
2.43.0


From cae9fd36cc9bbea38a9bc930904846d164b4108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 41/46] fix: CMake configures on Linux systems without
 lsb_release

---
 packaging.cmake | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packaging.cmake b/packaging.cmake
index 1d23f42..007b221 100644
--- a/packaging.cmake
+++ b/packaging.cmake
@@ -43,9 +43,9 @@ if( CMAKE_SYSTEM_NAME STREQUAL "Linux" )
     execute_process( COMMAND /usr/bin/sh /usr/bin/lsb_release -is
                      OUTPUT_VARIABLE DISTRO
                      OUTPUT_STRIP_TRAILING_WHITESPACE )
-    if( (${DISTRO} STREQUAL "CentOS") OR
-        (${DISTRO} STREQUAL "Fedora" ) OR
-        (${DISTRO} STREQUAL "RedHat")
+    if( ("${DISTRO}" STREQUAL "CentOS") OR
+        ("${DISTRO}" STREQUAL "Fedora" ) OR
+        ("${DISTRO}" STREQUAL "RedHat")
       )
         set( CPACK_GENERATOR TGZ RPM )
 
-- 
2.43.0


From 5d077fb55318bbe4bc9ee4f6466d901541962426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 42/46] fix: make arch converts the package of the configured
 Unicode version only

---
 Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index 976a5bc..af43ea9 100644
--- a/Makefile
+++ b/Makefile
@@ -123,7 +123,7 @@ arch: deb
 		echo "BSD 2-clause License" >> arch-pkg-info ;\
 		echo  >> arch-pkg-info ;\
 		cpack . -G DEB; \
-		for pkg in *deb; do \
+		for pkg in ansakString-u$(UNICODE_VERSION)-*.deb; do \
 			debtap $$pkg < arch-pkg-info;\
 		done ;\
 	fi
-- 
2.43.0


From a43dca7b6f976793b5587a8dfbaa69f12b634f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 43/46] fix: the Debian package depends on libstdc++6, which
 exists

---
 packaging.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packaging.cmake b/packaging.cmake
index 007b221..aa81aab 100644
--- a/packaging.cmake
+++ b/packaging.cmake
@@ -61,7 +61,7 @@ if( CMAKE_SYSTEM_NAME STREQUAL "Linux" )
         set( CPACK_DEBIAN_PACKAGE_DESCRIPTION "A simple C++ Unicode string library (plus a couple of python-like APIs)" )
         set( CPACK_DEBIAN_PACKAGE_SECTION "devel" )
         set( CPACK_DEBIAN_PACKAGE_HOMEPAGE "https://github.com/ANSAKsoftware/ansak-string" )
-        set( CPACK_DEBIAN_PACKAGE_DEPENDS "libc6, libstdc++" )
+        set( CPACK_DEBIAN_PACKAGE_DEPENDS "libc6, libstdc++6" )
     endif()
 
 elseif( WIN32 )
-- 
2.43.0


From abb50a4c33ccfac68ad9880df5550aa192721014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 44/46] fix: make package works with every generator

---
 Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index af43ea9..68bb2fe 100644
--- a/Makefile
+++ b/Makefile
@@ -93,7 +93,7 @@ uninstall:
 
 
 package: test
-	cd build ; make package
+	@cmake --build build $(CONFIG_SELECT) --target package
 
 
 rpm: test
-- 
2.43.0


From 05bdc813fcc106daf9130de26ad94b0b20758154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 45/46] fix: configure does not take headers in the build
 directory for sources

---
 configure | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure b/configure
index 7d4d2e8..ef28b9d 100755
--- a/configure
+++ b/configure
@@ -218,4 +218,4 @@ echo BUILDS_RPM = $builds_rpm >> config.make
 echo BUILDS_ARCH = $builds_arch >> config.make
 
 mkdir -p build
-find . -name submods -prune -o \( -name '*.[ch]xx' -o -name 'CMakeLists.txt' \) -type f -print | xargs echo SRCS = packaging.cmake > build/deps
+find . \( -name submods -o -path ./build \) -prune -o \( -name '*.[ch]xx' -o -name 'CMakeLists.txt' \) -type f -print | xargs echo SRCS = packaging.cmake > build/deps
-- 
2.43.0


From 98b25dbf4213d0afd0760857f171f262c3dd0ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 46/46] fix: the Unicode version is known before main and until
 the end

supportedUnicodeVersion was a std::string made when the program starts: a
static object made before it saw "", one that outlived it a destroyed string.
---
 source/bits10/char_is_unicode.cxx | 2 +-
 source/bits11/char_is_unicode.cxx | 2 +-
 source/bits12/char_is_unicode.cxx | 2 +-
 source/bits13/char_is_unicode.cxx | 2 +-
 source/bits14/char_is_unicode.cxx | 2 +-
 source/bits15/char_is_unicode.cxx | 2 +-
 source/bits16/char_is_unicode.cxx | 2 +-
 source/bits7/char_is_unicode.cxx  | 2 +-
 source/bits8/char_is_unicode.cxx  | 2 +-
 source/bits9/char_is_unicode.cxx  | 2 +-
 source/string_internal.hxx        | 2 +-
 11 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/bits10/char_is_unicode.cxx b/source/bits10/char_is_unicode.cxx
index 0725933..7449c4d 100644
--- a/source/bits10/char_is_unicode.cxx
+++ b/source/bits10/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "10.0.0";
+const char* const supportedUnicodeVersion = "10.0.0";
 
 namespace
 {
diff --git a/source/bits11/char_is_unicode.cxx b/source/bits11/char_is_unicode.cxx
index a17178f..34cc6e3 100644
--- a/source/bits11/char_is_unicode.cxx
+++ b/source/bits11/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "11.0.0";
+const char* const supportedUnicodeVersion = "11.0.0";
 
 namespace
 {
diff --git a/source/bits12/char_is_unicode.cxx b/source/bits12/char_is_unicode.cxx
index d50de0a..1091f92 100644
--- a/source/bits12/char_is_unicode.cxx
+++ b/source/bits12/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "12.0.0";
+const char* const supportedUnicodeVersion = "12.0.0";
 
 namespace
 {
diff --git a/source/bits13/char_is_unicode.cxx b/source/bits13/char_is_unicode.cxx
index 6824dac..90ae042 100644
--- a/source/bits13/char_is_unicode.cxx
+++ b/source/bits13/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "13.0.0";
+const char* const supportedUnicodeVersion = "13.0.0";
 
 namespace
 {
diff --git a/source/bits14/char_is_unicode.cxx b/source/bits14/char_is_unicode.cxx
index 1520b5a..5e8c7f2 100644
--- a/source/bits14/char_is_unicode.cxx
+++ b/source/bits14/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "14.0.0";
+const char* const supportedUnicodeVersion = "14.0.0";
 
 namespace
 {
diff --git a/source/bits15/char_is_unicode.cxx b/source/bits15/char_is_unicode.cxx
index 00c01b3..da77287 100644
--- a/source/bits15/char_is_unicode.cxx
+++ b/source/bits15/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "15.0.0";
+const char* const supportedUnicodeVersion = "15.0.0";
 
 namespace
 {
diff --git a/source/bits16/char_is_unicode.cxx b/source/bits16/char_is_unicode.cxx
index 175ab79..251b379 100644
--- a/source/bits16/char_is_unicode.cxx
+++ b/source/bits16/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "16.0.0";
+const char* const supportedUnicodeVersion = "16.0.0";
 
 namespace
 {
diff --git a/source/bits7/char_is_unicode.cxx b/source/bits7/char_is_unicode.cxx
index 3f6a0b2..79f1943 100644
--- a/source/bits7/char_is_unicode.cxx
+++ b/source/bits7/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "7.0.0";
+const char* const supportedUnicodeVersion = "7.0.0";
 
 namespace
 {
diff --git a/source/bits8/char_is_unicode.cxx b/source/bits8/char_is_unicode.cxx
index c9dd870..e9637c1 100644
--- a/source/bits8/char_is_unicode.cxx
+++ b/source/bits8/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "8.0.0";
+const char* const supportedUnicodeVersion = "8.0.0";
 
 namespace
 {
diff --git a/source/bits9/char_is_unicode.cxx b/source/bits9/char_is_unicode.cxx
index f5f6f3d..3de6348 100644
--- a/source/bits9/char_is_unicode.cxx
+++ b/source/bits9/char_is_unicode.cxx
@@ -49,7 +49,7 @@ namespace ansak {
 
 namespace internal {
 
-const utf8String supportedUnicodeVersion = "9.0.0";
+const char* const supportedUnicodeVersion = "9.0.0";
 
 namespace
 {
diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index ba50e4f..390ce34 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -108,7 +108,7 @@ private:
 //=========================================================================
 // Get current implementation's supported Unicode version string.
 
-extern const utf8String supportedUnicodeVersion;
+extern const char* const supportedUnicodeVersion;
 
 //=========================================================================
 // Returns true if the character is in the selected Unicode 8 standard, false
-- 
2.43.0

