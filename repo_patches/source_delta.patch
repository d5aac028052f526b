From 384822ad57913aabaae722f948a9a7d72d40d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:32 +0000
Subject: [PATCH 1/3] fix: integer multiplication raised Overflow for products
 with both factors 2^31 (~2^31*2^31 = minInt is representable)

---
 src/runtime/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 5c61ffb..2f17c67 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1448,7 +1448,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         if( x < 0 ) { x = -x; isNegative = 1; }
         if( y < 0 ) { y = -y; isNegative = !isNegative; }
         if( y > x ) { tmp = y; y = x; x = tmp; }
-        if( y > MaxChunk ) 
+        if( y > MaxChunk + 1 )
 	  goto raise_overflow;
         if( x <= MaxChunk )
           { accu = Val_long(isNegative?(-(x * y)):(x * y)); }
-- 
2.43.0


From 4762a046664ce31f8ca04b76c70f6db131eb1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:47 +0000
Subject: [PATCH 2/3] fix: ceil, round and trunc at the ends of the int range
 and on NaN

On 64-bit, (double)Max_long is 2^62 and (double)(Min_long-1) is -2^62, so
round returned a wrapped result for 2^62, ceil and trunc raised Overflow for
-2^62 (the least int), and round and trunc of a NaN returned 0.
---
 src/runtime/mosml.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index a84c682..1168881 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -168,7 +168,7 @@ value sml_ceil(value f)              /* ML */
       if( r > ((double) i) ) i += 1;
     }
   else
-    { if( r <= ((double) (Min_long-1)) ) goto raise_ceil;
+    { if( r < ((double) (Min_long-1)) ) goto raise_ceil;
       i = (long) r;
     }
   v = Val_long(i);
@@ -210,6 +210,7 @@ value sml_round(value f)              /* ML */
   if ((r > (double) (Max_long)) || (r < (double)(Min_long))) goto raise_round;
   i = (long) r;
   v = Val_long(i);
+  if( Long_val(v) != i )  goto raise_round;
 #endif
 
   return v;
@@ -224,10 +225,11 @@ value sml_trunc(value f)              /* ML */
   long i;
   value v;
   r = Double_val(f);
-  if ((r >= (double) (Max_long+1)) || (r <= (double)(Min_long-1))) 
+  if ((r >= (double) (Max_long+1)) || (r < (double)(Min_long-1))) 
     goto raise_trunc;
   i = (long) r;
   v = Val_long(i);
+  if( Long_val(v) != i )  goto raise_trunc;
   return v;
 
 raise_trunc:
-- 
2.43.0


From 5f5ccb40434855bcfafeb492b0b00639b83998c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 3/3] fix: Rbset.mapMono raised NonMonotonic for increasing
 functions and accepted decreasing ones (it checked and built from the
 reversed list)

---
 src/mosmllib/Rbset.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Rbset.sml b/src/mosmllib/Rbset.sml
index 4954dc5..775113a 100644
--- a/src/mosmllib/Rbset.sml
+++ b/src/mosmllib/Rbset.sml
@@ -348,7 +348,7 @@ struct
   exception NonMonotonic
 
   fun mapMono (f, compare) s =
-      let val fxs = foldl (fn (x, res) => f x :: res) [] s
+      let val fxs = foldr (fn (x, res) => f x :: res) [] s
 	  fun sorted []         = true
 	    | sorted (y1 :: yr) = 
 	      let fun h x0 []       = true
-- 
2.43.0

