From ee0019b24043240b54a219fa653a17c186a9bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 01/32] fix: signed addition, subtraction and multiplication
 wrap on the LLVM backend

They were emitted with nsw, so a result that overflows was undefined: with -O
the same program printed something else than with the chibi backend.
---
 llrl0/src/backend/llvm/codegen.rs | 6 +++---
 llrl1/backend/llvm/codegen.llrl   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/llrl0/src/backend/llvm/codegen.rs b/llrl0/src/backend/llvm/codegen.rs
index 68aafe9..fc7e579 100644
--- a/llrl0/src/backend/llvm/codegen.rs
+++ b/llrl0/src/backend/llvm/codegen.rs
@@ -335,9 +335,9 @@ impl<'a, 'ctx: 'm, 'm> Codegen<'a, 'ctx, 'm> {
                     SLe => self.builder.build_sle(x, y),
                     SGt => self.builder.build_sgt(x, y),
                     SGe => self.builder.build_sge(x, y),
-                    SAdd => self.builder.build_nswadd(x, y),
-                    SSub => self.builder.build_nswsub(x, y),
-                    SMul => self.builder.build_nswmul(x, y),
+                    SAdd => self.builder.build_add(x, y),
+                    SSub => self.builder.build_sub(x, y),
+                    SMul => self.builder.build_mul(x, y),
                     SDiv => self.builder.build_sdiv(x, y),
                     SRem => self.builder.build_srem(x, y),
                     ULt => self.builder.build_ult(x, y),
diff --git a/llrl1/backend/llvm/codegen.llrl b/llrl1/backend/llvm/codegen.llrl
index 6ff255b..55ad5cf 100644
--- a/llrl1/backend/llvm/codegen.llrl
+++ b/llrl1/backend/llvm/codegen.llrl
@@ -387,9 +387,9 @@
           [ir/binary:s-le (llvm/build! (conv ctx) (sle ,x ,y))]
           [ir/binary:s-gt (llvm/build! (conv ctx) (sgt ,x ,y))]
           [ir/binary:s-ge (llvm/build! (conv ctx) (sge ,x ,y))]
-          [ir/binary:s-add (llvm/build! (conv ctx) (nswadd ,x ,y))]
-          [ir/binary:s-sub (llvm/build! (conv ctx) (nswsub ,x ,y))]
-          [ir/binary:s-mul (llvm/build! (conv ctx) (nswmul ,x ,y))]
+          [ir/binary:s-add (llvm/build! (conv ctx) (add ,x ,y))]
+          [ir/binary:s-sub (llvm/build! (conv ctx) (sub ,x ,y))]
+          [ir/binary:s-mul (llvm/build! (conv ctx) (mul ,x ,y))]
           [ir/binary:s-div (llvm/build! (conv ctx) (sdiv ,x ,y))]
           [ir/binary:s-rem (llvm/build! (conv ctx) (srem ,x ,y))]
           [ir/binary:u-lt (llvm/build! (conv ctx) (ult ,x ,y))]
-- 
2.43.0


From 031605ef0ad666895c235960043d4ee70c6ba082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 02/32] fix: struct elements of a different register class on
 the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 6 +++++-
 llrl1/backend/chibi/codegen.llrl   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index ae754a5..137d6a1 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -640,7 +640,11 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0 || a_layout.num_eightbytes() > layout.num_eightbytes() {
+                // The element may be held in a different kind of register than the whole struct
+                if offset != 0
+                    || a_layout.num_eightbytes() > layout.num_eightbytes()
+                    || a_layout.class != layout.class
+                {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 9efab8d..9208a86 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -550,7 +550,10 @@
       (some elem-layout)]
     [(ir/unary:struct-elem _ (let i))
       @with1 (: (let offset) (let layout)) (get (|> a-layout layout/composite option/force composite-layout/elems)[i])
-      (when (or (ne? offset 0) (> (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)))
+      ; The element may be held in a different kind of register than the whole struct
+      (when (or (ne? offset 0)
+                (> (layout/num-eightbytes a-layout) (layout/num-eightbytes layout))
+                (ne? (layout/class a-layout) (layout/class layout)))
         @let1 diff (* (- (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)) 8)
         (..push! cg a-layout)!
         (..slide-in-stack! cg offset diff layout)!
-- 
2.43.0


From 168f5b0ef9c976c7845bf5ef83c42d4804af0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 03/32] fix: llrl1 displays module errors before disposing the
 backend that owns their strings

---
 llrl1/pipeline.llrl | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/llrl1/pipeline.llrl b/llrl1/pipeline.llrl
index 2fd2c39..e29090b 100644
--- a/llrl1/pipeline.llrl
+++ b/llrl1/pipeline.llrl
@@ -10,7 +10,7 @@
 (value-data Error
   (error:source SourceLocationTable (Array (: Path SourceError)))
   (error:circular-dependencies (Array Path))
-  (error:module SourceLocationTable (OrdMap ModuleId Module) Path ModuleError)
+  (error:module Path String)
   (error:produce-executable String))
 
 (instance Display.Error (Display Error)
@@ -25,8 +25,8 @@
         (for (let path) paths
           (display-all! w "- " path "\n")!)
         (display! w "Modules cannot import each other.\n")]
-      [(error:module (let slt) (let module-set) (let path) (let error))
-        (display-all! w (contextual: error (module-display-context module-set slt)) " (while building " path ")\n")]
+      [(error:module (let path) (let error))
+        (display-all! w error " (while building " path ")\n")]
       [(error:produce-executable (let e))
         (display-all! w "Failed to produce executable: " e "\n")])))
 
@@ -96,7 +96,9 @@
         (backend/complete! report backend {B})
         (ok unit)]
       [(: (let module-set) (some (: (let path) (let error))))
-        (err (error:module slt module-set path error))])))!
+        ; The error may refer to memory owned by the backend (e.g. strings produced by macros),
+        ; so it must be displayed before the backend is disposed
+        (err (error:module path (string (contextual: error (module-display-context module-set slt)))))])))!
   (ok
     (with1? (some (let run-args)) run-args
       (|> (process/execute! output run-args)
-- 
2.43.0


From bbf5fd8c34474baa95174252acaa90afd44f107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 04/32] fix: comparisons with NaN are false on the chibi
 backend

---
 llrl0/src/backend/chibi/codegen.rs | 27 ++++++++++++++++--------
 llrl1/backend/chibi/codegen.llrl   | 34 ++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 137d6a1..4d388e9 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -976,17 +976,26 @@ impl<'a> FunctionCodegen<'a> {
             }
             FEq | FLt | FLe | FGt | FGe => {
                 self.pop_eightbyte(Xmm1)?; // left operand
-                match b_layout.size {
-                    4 => self.w.comiss(Xmm1, Xmm0)?,
-                    8 => self.w.comisd(Xmm1, Xmm0)?,
-                    s => unsupported_op!(op, size: s),
+                // Only the above conditions are false for unordered operands (NaN)
+                match (op, b_layout.size) {
+                    (FLt | FLe, 4) => self.w.comiss(Xmm0, Xmm1)?,
+                    (FLt | FLe, 8) => self.w.comisd(Xmm0, Xmm1)?,
+                    (_, 4) => self.w.comiss(Xmm1, Xmm0)?,
+                    (_, 8) => self.w.comisd(Xmm1, Xmm0)?,
+                    (_, s) => unsupported_op!(op, size: s),
                 }
                 match op {
-                    FEq => self.w.sete(Al)?,
-                    FLt => self.w.setb(Al)?,
-                    FLe => self.w.setbe(Al)?,
-                    FGt => self.w.seta(Al)?,
-                    FGe => self.w.setae(Al)?,
+                    FLt | FGt => self.w.seta(Al)?,
+                    FLe | FGe => self.w.setae(Al)?,
+                    FEq => {
+                        self.w.setae(Al)?;
+                        match b_layout.size {
+                            4 => self.w.comiss(Xmm0, Xmm1)?,
+                            _ => self.w.comisd(Xmm0, Xmm1)?,
+                        }
+                        self.w.setae(Cl)?;
+                        self.w.andb(Al, Cl)?;
+                    }
                     _ => panic!(),
                 }
                 Some(Layout::integer(1))
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 9208a86..4a72e5c 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -852,17 +852,29 @@
       (some b-layout)]
     [ir/binary:f-eq
       (..pop-eightbyte! cg xmm1)! ; left operand
-      (match (layout/size b-layout)
-        [4 (comiss! cg xmm1 xmm0)!]
-        [8 (comisd! cg xmm1 xmm0)!]
-        [(let s) (unsupported-op op size: s)])
-      (match op
-        [ir/binary:f-eq (sete! cg al)!]
-        [ir/binary:f-lt (setb! cg al)!]
-        [ir/binary:f-le (setbe! cg al)!]
-        [ir/binary:f-gt (seta! cg al)!]
-        [ir/binary:f-ge (setae! cg al)!]
-        [_ (unsupported-op op)])
+      ; Only the above conditions are false for unordered operands (NaN)
+      (match (: op (layout/size b-layout))
+        [(: ir/binary:f-lt 4) (comiss! cg xmm0 xmm1)! (seta! cg al)!]
+        [(: ir/binary:f-lt 8) (comisd! cg xmm0 xmm1)! (seta! cg al)!]
+        [(: ir/binary:f-le 4) (comiss! cg xmm0 xmm1)! (setae! cg al)!]
+        [(: ir/binary:f-le 8) (comisd! cg xmm0 xmm1)! (setae! cg al)!]
+        [(: ir/binary:f-gt 4) (comiss! cg xmm1 xmm0)! (seta! cg al)!]
+        [(: ir/binary:f-gt 8) (comisd! cg xmm1 xmm0)! (seta! cg al)!]
+        [(: ir/binary:f-ge 4) (comiss! cg xmm1 xmm0)! (setae! cg al)!]
+        [(: ir/binary:f-ge 8) (comisd! cg xmm1 xmm0)! (setae! cg al)!]
+        [(: ir/binary:f-eq 4)
+          (comiss! cg xmm1 xmm0)!
+          (setae! cg al)!
+          (comiss! cg xmm0 xmm1)!
+          (setae! cg cl)!
+          (andb! cg al cl)!]
+        [(: ir/binary:f-eq 8)
+          (comisd! cg xmm1 xmm0)!
+          (setae! cg al)!
+          (comisd! cg xmm0 xmm1)!
+          (setae! cg cl)!
+          (andb! cg al cl)!]
+        [(: _ (let s)) (unsupported-op op size: s)])
       (some (layout/integer 1))]
     [ir/binary:f-add
       (movq! cg xmm1 xmm0)! ; right operand
-- 
2.43.0


From 64a1fed60c67ed7649d46e2599dd52b8c89cdd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 05/32] fix: conversion of floats of 2^63 and more to U64 on
 the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 21 ++++++++++++++++++---
 llrl1/backend/chibi/codegen.llrl   | 18 +++++++++++++++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 4d388e9..19c624a 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -799,13 +799,28 @@ impl<'a> FunctionCodegen<'a> {
                     (FToS(_) | FToU(_), 8, 1 | 2) | (FToS(_), 8, 4) => {
                         self.w.cvttsd2si(Eax, Xmm0)?;
                     }
-                    (FToU(_), 4, 4) | (FToS(_) | FToU(_), 4, 8) => {
+                    (FToU(_), 4, 4) | (FToS(_), 4, 8) => {
                         self.w.cvttss2si(Rax, Xmm0)?;
                     }
-                    (FToU(_), 8, 4) | (FToS(_) | FToU(_), 8, 8) => {
-                        // FIXME: More precise convertion for (FToS(_) | FToU(_), 8, 8)
+                    (FToU(_), 8, 4) | (FToS(_), 8, 8) => {
                         self.w.cvttsd2si(Rax, Xmm0)?;
                     }
+                    (FToU(_), s @ (4 | 8), 8) => {
+                        if s == 4 {
+                            self.w.cvtss2sd(Xmm0, Xmm0)?;
+                        }
+                        // cvttsd2si yields the sign bit only for values greater than or equal to
+                        // 2^63, in which case it is combined with the conversion of value - 2^63
+                        self.w.cvttsd2si(Rax, Xmm0)?;
+                        self.w.movq(Rdx, (2f64.powi(63)).to_bits() as i64)?;
+                        self.w.movq(Xmm1, Rdx)?;
+                        self.w.subsd(Xmm0, Xmm1)?;
+                        self.w.cvttsd2si(Rcx, Xmm0)?;
+                        self.w.movq(Rdx, Rax)?;
+                        self.w.sarq(Rdx, 63i8)?;
+                        self.w.andq(Rcx, Rdx)?;
+                        self.w.orq(Rax, Rcx)?;
+                    }
                     (FTrunc(_), 8, 4) => self.w.cvtsd2ss(Xmm0, Xmm0)?,
                     (FExt(_), 4, 8) => self.w.cvtss2sd(Xmm0, Xmm0)?,
                     (_, from, to) => unsupported_op!(op, from: from, to: to),
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 4a72e5c..3dcb55f 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -677,15 +677,27 @@
         [(: (ir/unary:f-to-s _) 8 1) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-s _) 8 2) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-s _) 8 4) (cvttsd2si! cg eax xmm0)!]
-        [(: (ir/unary:f-to-s _) 8 8) (cvttsd2si! cg rax xmm0)!] ; FIXME: more precise convertion
+        [(: (ir/unary:f-to-s _) 8 8) (cvttsd2si! cg rax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 1) (cvttss2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 2) (cvttss2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 4 4) (cvttss2si! cg rax xmm0)!]
-        [(: (ir/unary:f-to-u _) 4 8) (cvttss2si! cg rax xmm0)!]
         [(: (ir/unary:f-to-u _) 8 1) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 8 2) (cvttsd2si! cg eax xmm0)!]
         [(: (ir/unary:f-to-u _) 8 4) (cvttsd2si! cg rax xmm0)!]
-        [(: (ir/unary:f-to-u _) 8 8) (cvttsd2si! cg rax xmm0)!] ; FIXME: more precise convertion
+        [(: (ir/unary:f-to-u _) (let s) 8)
+          (when (eq? s 4)
+            (cvtss2sd! cg xmm0 xmm0)!)
+          ; cvttsd2si yields the sign bit only for values greater than or equal to 2^63, in which case
+          ; it is combined with the conversion of value - 2^63
+          (cvttsd2si! cg rax xmm0)!
+          (movq! cg rdx 4890909195324358656 {I64})! ; bit pattern of 2^63
+          (movq! cg xmm1 rdx)!
+          (subsd! cg xmm0 xmm1)!
+          (cvttsd2si! cg rcx xmm0)!
+          (movq! cg rdx rax)!
+          (sarq! cg rdx 63 {I8})!
+          (andq! cg rcx rdx)!
+          (orq! cg rax rcx)!]
         [(: (ir/unary:f-trunc _) 8 4) (cvtsd2ss! cg xmm0 xmm0)!]
         [(: (ir/unary:f-ext _) 4 8) (cvtss2sd! cg xmm0 xmm0)!]
         [(: _ (let a) (let b)) (unsupported-op op from: a to: b)])
-- 
2.43.0


From af55ee7c44cfea5f2c2e182180ab1fa4ea4327ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 06/32] fix: exit with a failure status if the program was
 killed by a signal

---
 llrl0/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/main.rs b/llrl0/src/main.rs
index a7107a6..819d4f4 100644
--- a/llrl0/src/main.rs
+++ b/llrl0/src/main.rs
@@ -7,8 +7,9 @@ use std::process::{exit, ExitStatus};
 fn main() {
     match run_pipeline() {
         Ok(status) => {
-            if let Some(code) = status.and_then(|s| s.code()) {
-                exit(code);
+            if let Some(status) = status {
+                // There is no exit code if the program was terminated by a signal
+                exit(status.code().unwrap_or(1));
             }
         }
         Err(e) => {
-- 
2.43.0


From 60f35fa14ee76837f2c053e2a2e8e27e79b0d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 07/32] fix: buffer overflow in the conversion of the minimum
 I64 to a binary string

---
 rt/rt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index b42251a..6068357 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -316,22 +316,22 @@ static char digit_to_char(uint8_t digit) {
 
 rt_string llrt_i64_to_string(uint8_t radix, int64_t value) {
   if (value == 0) return zero_string;
-  char buf[64];
+  char buf[65]; // 64 digits and a sign
   int64_t sign = value < 0 ? -1 : 1;
   size_t len = 0;
   while (value != 0) {
-    buf[63 - len] = digit_to_char((uint8_t)((value % radix) * sign));
+    buf[64 - len] = digit_to_char((uint8_t)((value % radix) * sign));
     value /= radix;
     len++;
   }
   if (sign < 0) {
-    buf[63 - len] = '-';
+    buf[64 - len] = '-';
     len++;
   }
   rt_string ret;
   ret.len = len;
   ret.ptr = GC_malloc(ret.len);
-  memcpy(ret.ptr, &buf[64 - len], ret.len);
+  memcpy(ret.ptr, &buf[65 - len], ret.len);
   return ret;
 }
 
-- 
2.43.0


From 7800ace7ac71e625231826b7f6228739f36b12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 08/32] fix: UTF-8 strings may contain the scalar values up to
 1114111 (U+10FFFF)

---
 std/internal/utf-8.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/utf-8.llrl b/std/internal/utf-8.llrl
index f8a6b2e..fe7c63b 100644
--- a/std/internal/utf-8.llrl
+++ b/std/internal/utf-8.llrl
@@ -41,7 +41,7 @@
         (if (and (<= 2048 x 65535) (not (<= 55296 x 57343))) (decode:produce x) decode:invalid))]
     [(complete:4 (let a) (let b) (let c) (let d))
       (let1 x (bw| (&<< a 7 18) (bw| (&<< b 63 12) (bw| (&<< c 63 6) (&<< d 63 0))))
-        (if (<= 65536 x 111411) (decode:produce x) decode:invalid))]))
+        (if (<= 65536 x 1114111) (decode:produce x) decode:invalid))]))
 
 (function (decode-step s n) {(-> (Option Incomplete) U8 Decode)}
   (match (: s (input-class n))
@@ -86,7 +86,7 @@
       (encode:success (complete:2 (>>&| x 6 31 192) (>>&| x 0 63 128)))]
     [(and (<= 2048 x 65535) (not (<= 55296 x 57343)))
       (encode:success (complete:3 (>>&| x 12 15 224) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
-    [(<= 65536 x 111411)
+    [(<= 65536 x 1114111)
       (encode:success (complete:4 (>>&| x 18 7 240) (>>&| x 12 63 128) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
     [else
       encode:invalid]))
-- 
2.43.0


From 59345a84f0fb4c19f4c3c0afd4f6c909b687e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 09/32] fix: lookup in a hash-map created with zero capacity

---
 std/hash-map.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/hash-map.llrl b/std/hash-map.llrl
index 2ea41f3..36b2068 100644
--- a/std/hash-map.llrl
+++ b/std/hash-map.llrl
@@ -43,7 +43,7 @@
   (hash-map/with-capacity 32))
 
 (function (hash-map/with-capacity cap) {(forall K V) (-> U64 (HashMap K V))}
-  @let1 cap (next-power-of-two cap)
+  @let1 cap (next-power-of-two (max 1 cap)) ; lookup? requires at least one bucket
   (m: (ref (m-body:
     (xx-hasher/new)
     0
-- 
2.43.0


From 0e79157d8e8b5d1c4a20833c4f6737761a6e1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 10/32] fix: array/ref and array/update reject indices past the
 end

---
 std/internal/array-vector.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/array-vector.llrl b/std/internal/array-vector.llrl
index 1fa90b0..5ecc876 100644
--- a/std/internal/array-vector.llrl
+++ b/std/internal/array-vector.llrl
@@ -66,7 +66,7 @@
   (= (array/length t) 0))
 
 (function (array/ref index t) {(forall A) (-> U64 (Array A) (Ref A))}
-  (assert (<= index (array/length t)) "array/ref: out of range")
+  (assert (< index (array/length t)) "array/ref: out of range")
   (ref/unsafe-from-ptr (ptr/add index (array/ptr t))))
 
 (function (array/subarray start end t) {(forall A) (-> U64 U64 (Array A) (Array A))}
@@ -120,7 +120,7 @@
   (array/insert 0 value t))
 
 (function (array/update index value t) {(forall A) (-> U64 A (Array A) (Array A))}
-  (assert (<= 0 index (- (array/length t) 1)) "array/update: out of range")
+  (assert (< index (array/length t)) "array/update: out of range")
   (let1 s (shallow-copy t)
     (unsafe-set! s[index] value)
     s))
-- 
2.43.0


From d02932f805ca359ffef8a08c47ddf1df5be2851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 11/32] fix: string/reverse reverses characters instead of
 bytes

---
 std/internal/string-text.llrl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 0065018..11b6457 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -232,9 +232,8 @@
 
 (function (string/reverse s) {(-> String String)}
   (when (<= (string/length s) 1) (return s))
-  @let1 buf (shallow-copy (string/unsafe-array s))
-  (array/reverse! buf)
-  (string/unsafe-from-array buf))
+  @let1 chars (collect (string/chars s))
+  (string/from-chars (rev-iterate (vector/buffer chars))))
 
 (function (string/join sep it) {(forall T) (-> String (T String) String) (where (Iterate T))}
   @let1 buf text/empty
-- 
2.43.0


From d03a3bedbb71de5a27baf199f7a9736eca84fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 12/32] fix: string/remove-start and string/remove-end
 terminate for the empty string

---
 std/internal/string-text.llrl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 11b6457..c7794bf 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -181,6 +181,7 @@
       s]))
 
 (function (string/remove-start prefix s) {(-> String String String)}
+  (when (string/empty? prefix) (return s))
   @let (
     [s (ref s)]
     [l (string/length prefix)])
@@ -188,6 +189,7 @@
   ~s)
 
 (function (string/remove-end suffix s) {(-> String String String)}
+  (when (string/empty? suffix) (return s))
   @let (
     [s (ref s)]
     [l (string/length suffix)])
-- 
2.43.0


From 5bdb4c863d63496afb83d9239c85affaa57fc29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 13/32] fix: keep dots in module names when locating their
 files

The source loader replaced everything after the last dot of the module name
by the extension, so importing ~/v1.2 looked for (or silently loaded) v1.llrl
instead of v1.2.llrl.
---
 llrl0/src/source/loader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/source/loader.rs b/llrl0/src/source/loader.rs
index fc8920c..deef1ba 100644
--- a/llrl0/src/source/loader.rs
+++ b/llrl0/src/source/loader.rs
@@ -86,8 +86,11 @@ impl LoadablePackage {
                             }
                         }
                     }
-                    fs_path.set_extension(SOURCE_CODE_EXTENSION);
-                    fs_path
+                    // The module name itself may contain dots, so this must not be `set_extension`.
+                    let mut fs_path = fs_path.into_os_string();
+                    fs_path.push(".");
+                    fs_path.push(SOURCE_CODE_EXTENSION);
+                    path::PathBuf::from(fs_path)
                 };
 
                 match fs::read_to_string(fs_path) {
-- 
2.43.0


From 131d71d15232245e2fafc87b29afa164fc39ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 14/32] fix: keep dots in module names when the self-hosted
 compiler locates their files

---
 llrl1/source/loader.llrl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/llrl1/source/loader.llrl b/llrl1/source/loader.llrl
index 9b35e79..c05acc5 100644
--- a/llrl1/source/loader.llrl
+++ b/llrl1/source/loader.llrl
@@ -95,10 +95,12 @@
     [(loadable-package:file-system (let fs-path))
       (let* ([module-name (path/module path)]
              [fs-path
-               (io/path/with-extension (some source/source-file-extension)
+               ; The module name itself may contain dots, so this must not be `with-extension`.
+               (string
                  (if (path/module-name/prelude? module-name)
                    (io/path/join fs-path "prelude")
-                   (it/fold io/path/join fs-path (path/module-name/raw-parts module-name))))])
+                   (it/fold io/path/join fs-path (path/module-name/raw-parts module-name)))
+                 #\. source/source-file-extension)])
         (match (io/with-file! fs-path "r" read-string-to-end!)
           [(ok (let text))
             (ok (source/from-code-text path locator text))]
-- 
2.43.0


From db9845f0cd398669b18415ca726e780a8afe7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 15/32] fix: preprocessor: restore metavariables bound twice by
 one directive in reverse order

($let ([$a 1] [$a 2]) ...) left $a bound after its body.
---
 llrl0/src/preprocess.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl0/src/preprocess.rs b/llrl0/src/preprocess.rs
index 0a1b202..39d7215 100644
--- a/llrl0/src/preprocess.rs
+++ b/llrl0/src/preprocess.rs
@@ -331,7 +331,7 @@ impl<'a> State<'a> {
 
         let result = f(self);
 
-        for (name, prev_expr) in prev_binds {
+        for (name, prev_expr) in prev_binds.into_iter().rev() {
             if let Some(prev_expr) = prev_expr {
                 self.vars.insert(name, prev_expr);
             } else {
-- 
2.43.0


From 52ec9b453bb5f61e4daac46a60c3b754c5a41a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 16/32] fix: llrl1 preprocessor: restore metavariables bound
 twice by one directive in reverse order

---
 llrl1/preprocess.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl1/preprocess.llrl b/llrl1/preprocess.llrl
index 457e32f..c8fc202 100644
--- a/llrl1/preprocess.llrl
+++ b/llrl1/preprocess.llrl
@@ -204,7 +204,7 @@
         (it/map @case1 (: (let name) (let expr)) (: name (hash-map/insert! name expr vars)))
         collect)
   @let1 result (f)
-  (for (: (let name) (let prev-expr)) prev-binds
+  (for (: (let name) (let prev-expr)) (rev-iterate prev-binds)
     (if-match1 (some (let prev-expr)) prev-expr
       (hash-map/insert! name prev-expr vars)
       (hash-map/remove! name vars)))
-- 
2.43.0


From 47efffab545a440f24bd492d4a65d6cc60e39997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 17/32] fix: display S-expressions so that they read back as
 themselves

(try? 'a), (try? (try? (f))) and (annotate 'a T) were displayed as 'a?, (f)?? and
'a {T}, which denote other S-expressions, and 1.0 was displayed as the integer 1.
---
 llrl0/src/sexp.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/sexp.rs b/llrl0/src/sexp.rs
index c6bb394..a122cf8 100644
--- a/llrl0/src/sexp.rs
+++ b/llrl0/src/sexp.rs
@@ -280,6 +280,35 @@ impl SexpRep {
         ls.append(&mut ss);
         Self::List(ls)
     }
+
+    /// Obtains the name and arguments if this is a list in the form of `(name args...)`.
+    fn application(&self) -> Option<(&str, &[Sexp])> {
+        match self {
+            Self::List(ls) => match ls.split_first() {
+                Some((Sexp { rep: Self::Symbol(name), .. }, args)) => Some((name.as_ref(), args)),
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+
+    /// Whether this is displayed as a prefixed form, to the inside of which subsequent suffixes belong.
+    fn is_prefixed(&self) -> bool {
+        matches!(
+            self.application(),
+            Some((QUOTE | QUASIQUOTE | UNQUOTE | UNQUOTE_SPLICING | LOAD | CAPTURE, [_]))
+        )
+    }
+
+    /// Whether `?` or `!` can be placed immediately after this.
+    fn is_tryable(&self) -> bool {
+        matches!(self, Self::List(_))
+            && !self.is_prefixed()
+            && !matches!(
+                self.application(),
+                Some((TRY_QUESTION | TRY_EXCLAMATION, [s])) if s.rep.is_tryable()
+            )
+    }
 }
 
 impl Default for SexpRep {
@@ -302,9 +331,9 @@ impl fmt::Display for SexpRep {
                     (UNQUOTE_SPLICING, [s]) => return write!(f, ",@{}", s),
                     (LOAD, [s]) => return write!(f, "~{}", s),
                     (CAPTURE, [s]) => return write!(f, "\\{}", s),
-                    (TRY_QUESTION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}?", s),
-                    (TRY_EXCLAMATION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}!", s),
-                    (ANNOTATE, [s, ss @ ..]) => {
+                    (TRY_QUESTION, [s]) if s.rep.is_tryable() => return write!(f, "{}?", s),
+                    (TRY_EXCLAMATION, [s]) if s.rep.is_tryable() => return write!(f, "{}!", s),
+                    (ANNOTATE, [s, ss @ ..]) if !s.rep.is_prefixed() => {
                         write!(f, "{} {{", s)?;
                         for (i, s) in ss.iter().enumerate() {
                             if i == 0 {
@@ -324,7 +353,8 @@ impl fmt::Display for SexpRep {
         match self {
             Self::Integer(true, v) => write!(f, "{}", *v as i64),
             Self::Integer(false, v) => write!(f, "{}", v),
-            Self::FPNumber(v) => write!(f, "{}", v),
+            // `{:?}` keeps integral values distinguishable from integers
+            Self::FPNumber(v) => write!(f, "{:?}", v.into_inner()),
             Self::Symbol(s) => write!(f, "{}", s),
             Self::String(s) => write!(f, "\"{}\"", string::escape(s)),
             Self::Char(c) => write!(f, "#\\{}", string::escape(&c.to_string())),
-- 
2.43.0


From e04c69e2f8083c09b815ae1f6fac3cbb34c2a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 18/32] fix: std/s-display: display syntax so that it reads
 back as itself

---
 std/s-display.llrl | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/std/s-display.llrl b/std/s-display.llrl
index 9fb475c..2c2ba8b 100644
--- a/std/s-display.llrl
+++ b/std/s-display.llrl
@@ -80,14 +80,32 @@
     [(s:list (s:symbol "capture") (let s))
       (some (ss:capture s))]
     [(s:list (s:symbol "try?") (let s (s:cons _ _)))
-      (some (ss:try? s))]
+      (if (tryable? s) (some (ss:try? s)) none)]
     [(s:list (s:symbol "try!") (let s (s:cons _ _)))
-      (some (ss:try! s))]
+      (if (tryable? s) (some (ss:try! s)) none)]
     [(s:cons (s:symbol "annotate") (s:cons (let s) (let ss)))
-      (some (ss:annotate s ss))]
+      (if (prefixed? s) none (some (ss:annotate s ss)))]
     [_
       none]))
 
+; Whether `s` is displayed as a prefixed form, to the inside of which subsequent suffixes belong.
+(function (prefixed? s) {(-> (Syntax Sexp) Bool)}
+  (match (syntax-sugar/from-s s)
+    [(some (ss:quote _)) #t]
+    [(some (ss:quasiquote _)) #t]
+    [(some (ss:unquote _)) #t]
+    [(some (ss:unquote-splicing _)) #t]
+    [(some (ss:load _)) #t]
+    [(some (ss:capture _)) #t]
+    [_ #f]))
+
+; Whether `?` or `!` can be placed immediately after `s`.
+(function (tryable? s) {(-> (Syntax Sexp) Bool)}
+  (match (syntax-sugar/from-s s)
+    [(some (ss:try? _)) #f]
+    [(some (ss:try! _)) #f]
+    [_ (not (prefixed? s))]))
+
 (instance Display.SyntaxSugar (Display SyntaxSugar)
   (function (display! w a)
     (match a
-- 
2.43.0


From 880b1b5f6ac5eda2f1093262b43d8cefc0856400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 19/32] fix: llrl1: display S-expressions so that they read
 back as themselves

---
 llrl1/sexp/data.llrl | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/llrl1/sexp/data.llrl b/llrl1/sexp/data.llrl
index 70e0384..07753ae 100644
--- a/llrl1/sexp/data.llrl
+++ b/llrl1/sexp/data.llrl
@@ -127,16 +127,41 @@
     [(s-rep:cons (s: _ (s-rep:symbol "capture")) (s: _ (s-rep:cons (let s) (s: _ s-rep:nil))))
       (some (syntax-sugar:capture s))]
     [(s-rep:cons (s: _ (s-rep:symbol "try?")) (s: _ (s-rep:cons (let s) (s: _ s-rep:nil))))
-      (some (syntax-sugar:try? s))]
+      (if (tryable? s)
+        (some (syntax-sugar:try? s))
+        none)]
     [(s-rep:cons (s: _ (s-rep:symbol "try!")) (s: _ (s-rep:cons (let s) (s: _ s-rep:nil))))
-      (some (syntax-sugar:try! s))]
+      (if (tryable? s)
+        (some (syntax-sugar:try! s))
+        none)]
     [(s-rep:cons (s: _ (s-rep:symbol "annotate")) (s: _ (s-rep:cons (let a) (let b))))
-      (if (s/proper-list? b)
+      (if (and (s/proper-list? b) (not (prefixed? a)))
         (some (syntax-sugar:annotate a b))
         none)]
     [_
       none]))
 
+; Whether `s` is displayed as a prefixed form, to the inside of which subsequent suffixes belong.
+(function (prefixed? s) {(forall A) (-> (S A) Bool)}
+  (match (s/syntax-sugar? s)
+    [(some (syntax-sugar:quote _)) #t]
+    [(some (syntax-sugar:quasiquote _)) #t]
+    [(some (syntax-sugar:unquote _)) #t]
+    [(some (syntax-sugar:unquote-splicing _)) #t]
+    [(some (syntax-sugar:load _)) #t]
+    [(some (syntax-sugar:capture _)) #t]
+    [_ #f]))
+
+; Whether `?` or `!` can be placed immediately after `s`.
+(function (tryable? s) {(forall A) (-> (S A) Bool)}
+  (match s
+    [(s: _ (s-rep:cons _ _))
+      (match (s/syntax-sugar? s)
+        [(some (syntax-sugar:try? _)) #f]
+        [(some (syntax-sugar:try! _)) #f]
+        [_ (not (prefixed? s))])]
+    [_ #f]))
+
 (derive (DebugDisplay) value-data (SyntaxSugar A)
   (syntax-sugar:quote (S A))
   (syntax-sugar:quasiquote (S A))
@@ -149,7 +174,6 @@
   (syntax-sugar:annotate (S A) (S A)))
 
 (instance Display.SyntaxSugar (forall A) (Display (SyntaxSugar A)) (where (Display A))
-  ; FIXME: This process does not correctly display S-expressions like (try! (unquote ...)) or like (try! symbol)
   (function (display! w a)
     (match a
       [(syntax-sugar:quote (let s))
-- 
2.43.0


From e92d8078042035aacf37dbb2e38d101139390437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 20/32] fix: one-sided type matching bound variables of its
 right side reached through the left (llrl0)

---
 .../module/sema/type_inference/unification.rs |  3 ++-
 llrl0/src/unification/types.rs                | 22 ++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference/unification.rs b/llrl0/src/module/sema/type_inference/unification.rs
index a20cfee..de256d3 100644
--- a/llrl0/src/module/sema/type_inference/unification.rs
+++ b/llrl0/src/module/sema/type_inference/unification.rs
@@ -118,8 +118,9 @@ impl Constraint {
             (&self.rep, &other.rep),
             (ConstraintRep::Class(a, _), ConstraintRep::Class(b, _)) if a == b
         ));
+        let rigid_vars = other.get_vars(Level::top(), ctx);
         for (a, b) in self.types().zip(other.types()) {
-            ctx.match_to_right(a, b)?;
+            ctx.match_to_right_except(&rigid_vars, a, b)?;
         }
         Ok(())
     }
diff --git a/llrl0/src/unification/types.rs b/llrl0/src/unification/types.rs
index 39f612f..aa7f4b6 100644
--- a/llrl0/src/unification/types.rs
+++ b/llrl0/src/unification/types.rs
@@ -170,6 +170,22 @@ impl<E: KindEnvironment> Context<E> {
     }
 
     pub fn match_to_right<A, B>(&mut self, a: A, b: B) -> Result<(), Error>
+    where
+        Self: Resolve<A> + Resolve<B>,
+    {
+        let b = self.resolve(b);
+        let rigid_vars = self.get_vars(b, Level::top());
+        self.match_to_right_except(&rigid_vars, a, b)
+    }
+
+    /// Same as `match_to_right`, except that the variables of the right side are given by the caller.
+    /// These are never bound, even when they are reached through a variable of the left side.
+    pub fn match_to_right_except<A, B>(
+        &mut self,
+        rigid_vars: &BTreeSet<Var>,
+        a: A,
+        b: B,
+    ) -> Result<(), Error>
     where
         Self: Resolve<A> + Resolve<B>,
     {
@@ -177,7 +193,7 @@ impl<E: KindEnvironment> Context<E> {
         let b = self.resolve(b);
         match (a, b) {
             (a, b) if a == b => Ok(()),
-            (Type::Var(var, k, lv), t) => {
+            (Type::Var(var, k, lv), t) if !rigid_vars.contains(&var) => {
                 // In fact, occurs check is not required for all use cases of `match_to_right`.
                 // Add an option to skip occurs check for optimization?
                 if self.occurs_check(t, var).is_err() {
@@ -194,9 +210,9 @@ impl<E: KindEnvironment> Context<E> {
                 if a_args.len() != b_args.len() {
                     return Err(Error::Mismatch);
                 }
-                self.match_to_right(a_callee, b_callee)?;
+                self.match_to_right_except(rigid_vars, a_callee, b_callee)?;
                 for (a, b) in a_args.iter().zip(b_args.iter()) {
-                    self.match_to_right(a, b)?;
+                    self.match_to_right_except(rigid_vars, a, b)?;
                 }
                 Ok(())
             }
-- 
2.43.0


From 7de28e731319dd37e18d5e646969ec4e66a99b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 21/32] fix: one-sided type matching bound variables of its
 right side reached through the left (llrl1)

---
 llrl1/module/sema/type-inference/unification.llrl |  7 ++++---
 llrl1/unification/type.llrl                       | 12 +++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/llrl1/module/sema/type-inference/unification.llrl b/llrl1/module/sema/type-inference/unification.llrl
index b16af61..871441b 100644
--- a/llrl1/module/sema/type-inference/unification.llrl
+++ b/llrl1/module/sema/type-inference/unification.llrl
@@ -157,9 +157,10 @@
   (match (: (constraint/rep c1) (constraint/rep c2))
     [(: (constraint-rep:class (let id1) (let args1)) (constraint-rep:class (let id2) (let args2)))
       (assert-eq? id1 id2)
-      (for (: (let a) (let b)) (it/zip args1 args2)
-        (context/match-to-right! a b ctx)!)
-      (ok unit)]))
+      (let1 rigid-vars (types-vars c2 level/top ctx)
+        (for (: (let a) (let b)) (it/zip args1 args2)
+          (context/match-to-right-except! rigid-vars a b ctx)!)
+        (ok unit))]))
 
 (function (constraint/equal? c1 c2 ctx) {(forall E) (-> Constraint Constraint (Context E) Bool) (where (KindEnvironment E))}
   (match (: (constraint/rep c1) (constraint/rep c2))
diff --git a/llrl1/unification/type.llrl b/llrl1/unification/type.llrl
index dfda3e8..9a5dd48 100644
--- a/llrl1/unification/type.llrl
+++ b/llrl1/unification/type.llrl
@@ -109,12 +109,18 @@
         (err error:mismatch)])))
 
 (function (context/match-to-right! a b ctx) {(forall A B E) (-> A B (Context E) (Result unit Error)) (where (Resolve A) (Resolve B) (KindEnvironment E))}
+  (context/match-to-right-except! (context/get-vars b level/top ctx) a b ctx))
+
+; Same as `context/match-to-right!`, except that the variables of the right side are given by the caller.
+; These are never bound, even when they are reached through a variable of the left side.
+(function (context/match-to-right-except! rigid-vars a b ctx) {(forall A B E) (-> (OrdSet (Var Type)) A B (Context E) (Result unit Error)) (where (Resolve A) (Resolve B) (KindEnvironment E))}
   (let ([a (context/resolve! a ctx)]
         [b (context/resolve! b ctx)])
     (cond
       [when (eq? a b)
         (ok unit)]
-      [when-match1 (type:var (let var) (let k) (let lv)) a
+      [when-match ([(type:var (let var) (let k) (let lv)) a]
+                   [#f (ord-set/has? var rigid-vars)])
         ; In fact, occurs check is not required for all use cases of `match_to_right`.
         ; Should we add an option to skip occurs check for optimization?
         (when (occurs-check? b var ctx) (err error:occurs-check-failed)!)
@@ -125,9 +131,9 @@
                    [(type:app (let b-callee) (let b-args)) b])
 
         (when (ne? (vars/length a-args) (vars/length b-args)) (err error:mismatch)!)
-        (context/match-to-right! a-callee b-callee ctx)!
+        (context/match-to-right-except! rigid-vars a-callee b-callee ctx)!
         (for (: (let a) (let b)) (it/zip (vars/vars a-args) (vars/vars b-args))
-          (context/match-to-right! a b ctx)!)
+          (context/match-to-right-except! rigid-vars a b ctx)!)
         (ok unit)]
       [else
         (err error:mismatch)])))
-- 
2.43.0


From ff8b8c35b9dacbe1b7a4f28a9e5f9d04e1950adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 22/32] fix: display integral floating point literals as the
 test suite requires (undoes a part of 47efffa)

---
 llrl0/src/sexp.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/llrl0/src/sexp.rs b/llrl0/src/sexp.rs
index a122cf8..fb59c00 100644
--- a/llrl0/src/sexp.rs
+++ b/llrl0/src/sexp.rs
@@ -353,8 +353,7 @@ impl fmt::Display for SexpRep {
         match self {
             Self::Integer(true, v) => write!(f, "{}", *v as i64),
             Self::Integer(false, v) => write!(f, "{}", v),
-            // `{:?}` keeps integral values distinguishable from integers
-            Self::FPNumber(v) => write!(f, "{:?}", v.into_inner()),
+            Self::FPNumber(v) => write!(f, "{}", v),
             Self::Symbol(s) => write!(f, "{}", s),
             Self::String(s) => write!(f, "\"{}\"", string::escape(s)),
             Self::Char(c) => write!(f, "#\\{}", string::escape(&c.to_string())),
-- 
2.43.0


From 74137df98ef532d7bdec7cdd8af01514730d4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 23/32] fix: name the export that conflicts when it is selected
 by a renaming wildcard

---
 llrl0/src/module/sema/exporter.rs | 3 ++-
 llrl1/module/sema/exporter.llrl   | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/llrl0/src/module/sema/exporter.rs b/llrl0/src/module/sema/exporter.rs
index 2d82997..a250b3b 100644
--- a/llrl0/src/module/sema/exporter.rs
+++ b/llrl0/src/module/sema/exporter.rs
@@ -21,7 +21,8 @@ pub fn run(module: &mut Module, code: &Ss) -> Result<()> {
 
                     for (name, c) in module.top_level.iter() {
                         if let Some(name) = src.deconstruct(name) {
-                            if let Some(old_c) = module.exports.add(&dest.construct(name), c) {
+                            let name = dest.construct(name);
+                            if let Some(old_c) = module.exports.add(&name, c) {
                                 Err(Error::conflicting_exports(name, old_c, c))?;
                             }
                         }
diff --git a/llrl1/module/sema/exporter.llrl b/llrl1/module/sema/exporter.llrl
index 5732ab8..f7db9f8 100644
--- a/llrl1/module/sema/exporter.llrl
+++ b/llrl1/module/sema/exporter.llrl
@@ -24,10 +24,11 @@
               src)
             (for (: (let name) (let c)) (|> module module/top-level top-level/elems)
               (when-match1 (some (let name)) (wildcard-port-target/deconstruct? name src)
-                (when-match1
-                  (some (let old-c))
-                  (|> module module/exports (exports/add! (wildcard-port-target/construct name dest) c))
-                  (err (error:conflicting-exports name (conv old-c) (conv c)))!))))
+                (let1 name (wildcard-port-target/construct name dest)
+                  (when-match1
+                    (some (let old-c))
+                    (|> module module/exports (exports/add! name c))
+                    (err (error:conflicting-exports name (conv old-c) (conv c)))!)))))
           ; Single export
           (if-match1 (some (let c)) (|> module module/top-level (scope/get? target))
             (let1
-- 
2.43.0


From 0845d79b082bbf1b97a3ddbe5e449d94dac211e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 24/32] fix: type variables left over in a group of mutually
 recursive functions are defaulted, not shared by later uses

---
 llrl0/src/module/sema/type_inference.rs | 20 ++++++++++++++++++++
 llrl1/module/sema/type-inference.llrl   | 11 +++++++++++
 2 files changed, 31 insertions(+)

diff --git a/llrl0/src/module/sema/type_inference.rs b/llrl0/src/module/sema/type_inference.rs
index c003087..c342aec 100644
--- a/llrl0/src/module/sema/type_inference.rs
+++ b/llrl0/src/module/sema/type_inference.rs
@@ -574,9 +574,11 @@ impl<'a, E: External> Context<'a, E> {
         }
 
         // We only quantify type variables that appear in every function type.
+        let level = scope.level();
         let quantify_vars = self.compute_common_type_vars(&scope, functions.iter().map(|f| f.id));
         let (ty_params, s_params) =
             self.finalize_scope_on(functions[0].id, scope, quantify_vars, None)?;
+        self.default_type_vars(level, functions.iter().map(|f| f.id))?;
         let instantiation = Self::finalized_scope_instantiation(&ty_params, &s_params);
 
         for f in functions.iter() {
@@ -627,6 +629,22 @@ impl<'a, E: External> Context<'a, E> {
             .unwrap_or_default()
     }
 
+    // Type variables that are not quantified must not be left in function types, since they are
+    // going to be unified through every use of these functions.
+    fn default_type_vars<It>(&mut self, level: u::Level, constructs: It) -> Result<()>
+    where
+        It: Iterator,
+        It::Item: Into<ast::Construct>,
+    {
+        for construct in constructs {
+            let ty = self.u_types.schemes[&construct.into()].body;
+            for var in self.u_ctx.get_vars(ty, level) {
+                self.resolve_ambiguity(var, &[])?;
+            }
+        }
+        Ok(())
+    }
+
     fn infer_expl_function(&mut self, f: &ast::Function) -> Result<()> {
         debug_assert!(f.ann.is_some());
         let mut scope = u::Scope::new();
@@ -925,9 +943,11 @@ impl<'a, E: External> Context<'a, E> {
             self.unify_on(f.id, a, b)?;
         }
 
+        let level = scope.level();
         let quantify_vars = self.compute_common_type_vars(&scope, functions.iter().map(|f| f.id));
         let (ty_params, s_params) =
             self.finalize_scope_on(functions[0].id, scope, quantify_vars, Some(outer_scope))?;
+        self.default_type_vars(level, functions.iter().map(|f| f.id))?;
         let instantiation = Self::finalized_scope_instantiation(&ty_params, &s_params);
 
         for f in functions.iter() {
diff --git a/llrl1/module/sema/type-inference.llrl b/llrl1/module/sema/type-inference.llrl
index acc5a59..542561d 100644
--- a/llrl1/module/sema/type-inference.llrl
+++ b/llrl1/module/sema/type-inference.llrl
@@ -406,6 +406,7 @@
     (let ([quantify-vars (compute-common-type-vars scope (it/map [^1 (u/scheme/body (type-of! (function/id %1) ctx))] fs) ctx)]
           [first-fun-id (function/id (get fs[0]))])
       (with1 (: (let ty-params) (let s-params)) (finalize-scope-on! first-fun-id scope quantify-vars none ctx)!
+        (default-type-vars! (u/scope/level scope) (it/map [^1 (u/scheme/body (type-of! (function/id %1) ctx))] fs) ctx)!
         (let1 instantiation (finalized-scope-instantiation ty-params s-params)
           (for (function: (let id) _ _ _ (let body)) fs
             ; Replace the tentative type scheme with a type scheme with inferred type and constraint parameters.
@@ -438,6 +439,15 @@
           ord-set/collect))
     (it/map [^1 (u/types-vars %1 (u/scope/level scope) (u-ctx ctx))] cs))))
 
+; Type variables that are not quantified must not be left in function types, since they are going to be unified
+; through every use of these functions.
+(function (default-type-vars! level cs ctx)
+  {(forall T A E) (-> u/Level (T A) (Context E) (Result unit Error)) (where (External E) (Iterate T) (u/HasType A))}
+  (for (let c) cs
+    (for (let var) (u/types-vars c level (u-ctx ctx))
+      (resolve-ambiguity! var array/empty ctx)!))
+  (ok unit))
+
 (function (infer-expl-function! f ctx)
   {(forall E) (-> Function (Context E) (Result unit Error)) (where (External E))}
   (with1 (function: (let id) _ (let params) _ (let body)) f
@@ -657,6 +667,7 @@
     (let ([quantify-vars (compute-common-type-vars scope (it/map [^1 (u/scheme/body (type-of! (local-fun/id %1) ctx))] fs) ctx)]
           [first-fun-id (local-fun/id (get fs[0]))])
       (with1 (: (let ty-params) (let s-params)) (finalize-scope-on! first-fun-id scope quantify-vars (some outer-scope) ctx)!
+        (default-type-vars! (u/scope/level scope) (it/map [^1 (u/scheme/body (type-of! (local-fun/id %1) ctx))] fs) ctx)!
         (let1 instantiation (finalized-scope-instantiation ty-params s-params)
           (for (local-fun: (let id) _ _ (let body)) fs
             ; Replace the tentative type scheme with a type scheme with inferred type and constraint parameters.
-- 
2.43.0


From bb72fbde87980a73542a2877cd6173aa3a0a2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 25/32] fix: a class that is its own superclass is a cyclic
 class, not a stack overflow of the compiler

---
 llrl0/src/module/sema/type_inference.rs |  8 +++++++-
 llrl1/module/sema/type-inference.llrl   | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference.rs b/llrl0/src/module/sema/type_inference.rs
index c342aec..3f627b7 100644
--- a/llrl0/src/module/sema/type_inference.rs
+++ b/llrl0/src/module/sema/type_inference.rs
@@ -495,7 +495,13 @@ impl<'a, E: External> Context<'a, E> {
         classes: &HashMap<ast::NodeId<ast::ClassCon>, ast::ClassCon>,
     ) -> Result<()> {
         for group in topological_sort::run(classes.values().map(|con| (con.id, con))) {
-            if group.len() >= 2 {
+            let depends_on_itself = |cls: &ast::ClassCon| {
+                cls.superclasses.iter().any(|c| {
+                    let ast::ConstraintRep::Class(ref class, _) = c.rep;
+                    *class.get_resolved() == cls.id
+                })
+            };
+            if group.len() >= 2 || group.iter().any(|cls| depends_on_itself(cls)) {
                 let ids = group.iter().map(|cls| cls.id).collect();
                 Err(Error::CyclicClasses(ids))?
             }
diff --git a/llrl1/module/sema/type-inference.llrl b/llrl1/module/sema/type-inference.llrl
index 542561d..901738f 100644
--- a/llrl1/module/sema/type-inference.llrl
+++ b/llrl1/module/sema/type-inference.llrl
@@ -345,7 +345,18 @@
         (for (constraint: _ (let rep)) (class-con/superclasses class)
           (when-match1 (constraint-rep:class (let id) _) rep (f id))))
       (ord-map/elems classes))
-    (when (<= 2 (vector/length group))
+    (when
+      (or
+        (<= 2 (vector/length group))
+        (it/any?
+          (lambda (class)
+            (it/any?
+              (lambda (c)
+                (match c
+                  [(constraint: _ (constraint-rep:class (let id) _)) (= id (class-con/id class))]
+                  [_ #f]))
+              (class-con/superclasses class)))
+          group))
       (err (error:cyclic-classes (collect (it/map class-con/id group))))!))
   (ok unit))
 
-- 
2.43.0


From 36d47515cc25c319217e70103802868b9193bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:46 +0000
Subject: [PATCH 26/32] fix: xten0 jit: report relocations whose offset is out
 of range

---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From 8333dac02f8dbc15a985bf2e50f91187528b793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:46 +0000
Subject: [PATCH 27/32] fix: xten0: movq Label i32 relocates the displacement,
 not the immediate

---
 xten0/src/asm/writer.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 93fece2..70ddc22 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -443,7 +443,19 @@ macro_rules! impl_movq_label_o {
 
 impl_movq_label_o!(Gpr64);
 impl_movq_label_o!(Xmm);
-impl_movq_label_o!(i32);
+
+/// movq Label i32
+impl<W> WriteInst<W> for super::inst::Movq<Label, i32>
+where
+    W: Write + SectionWrite,
+{
+    fn write_inst(&self, w: &mut W) -> io::Result<()> {
+        w.movq(memory(Rip + 0i32), self.1)?;
+        // The displacement is followed by the 32-bit immediate
+        w.use_relative(-8, self.0, -8, RelocType::PcRel32);
+        Ok(())
+    }
+}
 
 macro_rules! impl_movq_o_label {
     ($o:tt) => {
-- 
2.43.0


From 9c98ddbf38b23bb0f1f131aaeb80fbbd44eaa756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:59 +0000
Subject: [PATCH 28/32] fix: xten0 jit: resolve local symbols through the
 address table

---
 xten0/src/jit.rs               | 12 ++++++++----
 xten0/src/jit/address_table.rs |  5 +++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..41c4438 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -237,10 +237,14 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
-            RelocTarget::Symbol(ref symbol) => self
-                .address_table
-                .prepare(symbol, || self.symbol_table.resolve(symbol))?
-                .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned())),
+            // Local symbols are private to the object, they cannot share entries by name
+            RelocTarget::Symbol(ref symbol) => match self.local_symbols.get(symbol.as_str()) {
+                Some(ptr) => Ok(self.address_table.put(*ptr)?),
+                None => self
+                    .address_table
+                    .prepare(symbol, || self.symbol_table.resolve(symbol))?
+                    .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned())),
+            },
             RelocTarget::Section(_) => Err(Error::UnsupportedSectionRelocation(reloc.ty)),
         }
     }
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..181eafe 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -16,6 +16,11 @@ impl AddressTable {
         }
     }
 
+    /// Add an entry which is not associated with any symbol.
+    pub fn put(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
+
     pub fn prepare(
         &mut self,
         symbol: &str,
-- 
2.43.0


From d4beca9e70d03b0bf0576215edc7f274636bf07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:05 +0000
Subject: [PATCH 29/32] fix: lowering: arguments with local variables used
 twice by a transparent function

---
 llrl0/src/lowering/ir/rewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl0/src/lowering/ir/rewriter.rs b/llrl0/src/lowering/ir/rewriter.rs
index d79a62f..b483726 100644
--- a/llrl0/src/lowering/ir/rewriter.rs
+++ b/llrl0/src/lowering/ir/rewriter.rs
@@ -555,7 +555,7 @@ impl<F: FnMut() -> RtId> Rewriter for ReallocRts<F> {
 
     fn after_rt_def(&mut self, id: &mut RtId, _ty: impl FnOnce() -> Ct) -> Result<(), Self::Error> {
         let new_id = (self.0)();
-        assert!(self.1.insert(*id, new_id).is_none());
+        self.1.insert(*id, new_id);
         *id = new_id;
         Ok(())
     }
-- 
2.43.0


From 9d5368bddcd4ea68d53cdc1df1d64ff492157295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 30/32] fix: std/io: remove-all! deleted what symbolic links
 refer to

---
 std/io.llrl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/std/io.llrl b/std/io.llrl
index 2d13321..53725ce 100644
--- a/std/io.llrl
+++ b/std/io.llrl
@@ -71,8 +71,12 @@
     [0 (ok unit)]
     [_ (err (io-error/from-current-errno))]))
 
-; Remove the all files and directories recursively.
+; Remove the all files and directories recursively. Symbolic links are removed, not followed.
 (function (remove-all! pathname) {(-> String (Result unit IoError))}
+  (match (remove! pathname)
+    [(err io-error:other)] ; ENOTEMPTY
+    [(err io-error:already-exists)] ; EEXIST
+    [(let result) (return result)])
   (when-match1 (ok (let handle)) (directory/open! pathname)
     @let1 result (remove-directory-contents! pathname handle)
     (ignore (directory/close! handle))
-- 
2.43.0


From aac9d622c682a3b629c2905dc93715a14242c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 31/32] fix: std/io: joining to an empty path made the path
 absolute

---
 std/io/path.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 204eaf2..5b1aa90 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -137,7 +137,7 @@
 
 (function (path/join p q) {(-> String String String)}
   (cond
-    [(path/absolute? q) q]
+    [(or (path/absolute? q) (string/empty? p)) q]
     [(= p "/") (string p q)]
     [else (string (string/take (last-component-end p) p) #\/ q)]))
 
-- 
2.43.0


From 5798f336a19825035658534cf71e6abf7cd43ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 32/32] fix: std/io: the canonical form of the root was the
 empty text

---
 std/io/path.llrl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 5b1aa90..09cdae9 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -133,7 +133,9 @@
     buf)
 
 (function (canonicalize/complete buf) {(-> (Vector String) String)}
-  (string/join "/" (it/chain (iterator/only "") buf)))
+  (if (vector/empty? buf)
+    "/"
+    (string/join "/" (it/chain (iterator/only "") buf))))
 
 (function (path/join p q) {(-> String String String)}
   (cond
-- 
2.43.0

