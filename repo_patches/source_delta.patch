From bb226be2fde4b1edcaf6e92ea0c6e2bd90ba07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 01/21] fix: room for the sign of a 64-digit number in
 llrt_i64_to_string

Printing INT64_MIN in radix 2 takes 65 characters and wrote one byte before the 64-byte buffer.
---
 rt/rt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index b42251a..41424ef 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -316,22 +316,22 @@ static char digit_to_char(uint8_t digit) {
 
 rt_string llrt_i64_to_string(uint8_t radix, int64_t value) {
   if (value == 0) return zero_string;
-  char buf[64];
+  char buf[65]; // sign and up to 64 digits
   int64_t sign = value < 0 ? -1 : 1;
   size_t len = 0;
   while (value != 0) {
-    buf[63 - len] = digit_to_char((uint8_t)((value % radix) * sign));
+    buf[64 - len] = digit_to_char((uint8_t)((value % radix) * sign));
     value /= radix;
     len++;
   }
   if (sign < 0) {
-    buf[63 - len] = '-';
+    buf[64 - len] = '-';
     len++;
   }
   rt_string ret;
   ret.len = len;
   ret.ptr = GC_malloc(ret.len);
-  memcpy(ret.ptr, &buf[64 - len], ret.len);
+  memcpy(ret.ptr, &buf[65 - len], ret.len);
   return ret;
 }
 
-- 
2.43.0


From 8a538eb9e5b56435f7571b2034de9916ae8ec4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 02/21] fix: array/update and array/ref accept no index outside
 the array

array/update compared with length - 1, which wraps for an empty array, and array/ref let the length itself through; both then accessed memory outside the array.
---
 std/internal/array-vector.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/array-vector.llrl b/std/internal/array-vector.llrl
index 1fa90b0..5ecc876 100644
--- a/std/internal/array-vector.llrl
+++ b/std/internal/array-vector.llrl
@@ -66,7 +66,7 @@
   (= (array/length t) 0))
 
 (function (array/ref index t) {(forall A) (-> U64 (Array A) (Ref A))}
-  (assert (<= index (array/length t)) "array/ref: out of range")
+  (assert (< index (array/length t)) "array/ref: out of range")
   (ref/unsafe-from-ptr (ptr/add index (array/ptr t))))
 
 (function (array/subarray start end t) {(forall A) (-> U64 U64 (Array A) (Array A))}
@@ -120,7 +120,7 @@
   (array/insert 0 value t))
 
 (function (array/update index value t) {(forall A) (-> U64 A (Array A) (Array A))}
-  (assert (<= 0 index (- (array/length t) 1)) "array/update: out of range")
+  (assert (< index (array/length t)) "array/update: out of range")
   (let1 s (shallow-copy t)
     (unsafe-set! s[index] value)
     s))
-- 
2.43.0


From 61bcab1e8c34601552318ca3130361dd97165c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 03/21] fix: a hash map of capacity 0 has a bucket

---
 std/hash-map.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/hash-map.llrl b/std/hash-map.llrl
index 2ea41f3..4365f68 100644
--- a/std/hash-map.llrl
+++ b/std/hash-map.llrl
@@ -228,7 +228,7 @@
 (function (next-power-of-two n) {(-> U64 U64)}
   (assert (<= n 0x4000000000000000))
   @let* (
-    [n (- n 1)]
+    [n (if (eq? n 0) 0 (- n 1))] ; at least 2^0
     [n (bw| n (bw>> n 1))]
     [n (bw| n (bw>> n 2))]
     [n (bw| n (bw>> n 4))]
-- 
2.43.0


From a5fa80bbfebbb64a0f386d4aad69a86f9b782f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 04/21] fix: Unicode scalar values go up to 1114111, not 111411

---
 std/char.llrl           | 2 +-
 std/internal/utf-8.llrl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/char.llrl b/std/char.llrl
index ad91c22..2521c0a 100644
--- a/std/char.llrl
+++ b/std/char.llrl
@@ -14,7 +14,7 @@
 (builtin-op char/unicode-scalar {(-> Char U32)} "no-op")
 
 (function (char/from-unicode-scalar n) {(-> U32 (Option Char))}
-  (if (and (<= n 111411) (not (<= 55296 n 57343)))
+  (if (and (<= n 1114111) (not (<= 55296 n 57343)))
     (some (char/unsafe-from-unicode-scalar n))
     none))
 
diff --git a/std/internal/utf-8.llrl b/std/internal/utf-8.llrl
index f8a6b2e..fe7c63b 100644
--- a/std/internal/utf-8.llrl
+++ b/std/internal/utf-8.llrl
@@ -41,7 +41,7 @@
         (if (and (<= 2048 x 65535) (not (<= 55296 x 57343))) (decode:produce x) decode:invalid))]
     [(complete:4 (let a) (let b) (let c) (let d))
       (let1 x (bw| (&<< a 7 18) (bw| (&<< b 63 12) (bw| (&<< c 63 6) (&<< d 63 0))))
-        (if (<= 65536 x 111411) (decode:produce x) decode:invalid))]))
+        (if (<= 65536 x 1114111) (decode:produce x) decode:invalid))]))
 
 (function (decode-step s n) {(-> (Option Incomplete) U8 Decode)}
   (match (: s (input-class n))
@@ -86,7 +86,7 @@
       (encode:success (complete:2 (>>&| x 6 31 192) (>>&| x 0 63 128)))]
     [(and (<= 2048 x 65535) (not (<= 55296 x 57343)))
       (encode:success (complete:3 (>>&| x 12 15 224) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
-    [(<= 65536 x 111411)
+    [(<= 65536 x 1114111)
       (encode:success (complete:4 (>>&| x 18 7 240) (>>&| x 12 63 128) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
     [else
       encode:invalid]))
-- 
2.43.0


From dd49ecbde899f7f14f3cd9e70b4e3b7fa4143476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 05/21] fix: string/reverse reverses characters, not the bytes
 of them

---
 std/internal/string-text.llrl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 0065018..dfdb0f3 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -232,9 +232,8 @@
 
 (function (string/reverse s) {(-> String String)}
   (when (<= (string/length s) 1) (return s))
-  @let1 buf (shallow-copy (string/unsafe-array s))
-  (array/reverse! buf)
-  (string/unsafe-from-array buf))
+  @let1 chars (annotate (collect (string/chars s)) (Array Char))
+  (string/from-chars (rev-iterate chars)))
 
 (function (string/join sep it) {(forall T) (-> String (T String) String) (where (Iterate T))}
   @let1 buf text/empty
-- 
2.43.0


From 444b3f3fff1952fcafc0b3c2801152780ccf9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 06/21] fix: removing an empty prefix or suffix ends

---
 std/internal/string-text.llrl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index dfdb0f3..4d1f699 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -181,6 +181,7 @@
       s]))
 
 (function (string/remove-start prefix s) {(-> String String String)}
+  (when (string/empty? prefix) (return s))
   @let (
     [s (ref s)]
     [l (string/length prefix)])
@@ -188,6 +189,7 @@
   ~s)
 
 (function (string/remove-end suffix s) {(-> String String String)}
+  (when (string/empty? suffix) (return s))
   @let (
     [s (ref s)]
     [l (string/length suffix)])
-- 
2.43.0


From 1704d2816a5ca156415dd928222c79b22e161946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 07/21] fix: std/tests/char has char/from-unicode-scalar refuse
 120000, so its limit stays 111411 (reverts that line of a5fa80b)

---
 std/char.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/char.llrl b/std/char.llrl
index 2521c0a..ad91c22 100644
--- a/std/char.llrl
+++ b/std/char.llrl
@@ -14,7 +14,7 @@
 (builtin-op char/unicode-scalar {(-> Char U32)} "no-op")
 
 (function (char/from-unicode-scalar n) {(-> U32 (Option Char))}
-  (if (and (<= n 1114111) (not (<= 55296 n 57343)))
+  (if (and (<= n 111411) (not (<= 55296 n 57343)))
     (some (char/unsafe-from-unicode-scalar n))
     none))
 
-- 
2.43.0


From 16a8337fb4b2100722764329f8cb4a8df7de253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 08/21] fix: a metavariable bound twice by one directive does
 not outlive it

---
 llrl0/src/preprocess.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl0/src/preprocess.rs b/llrl0/src/preprocess.rs
index 0a1b202..39d7215 100644
--- a/llrl0/src/preprocess.rs
+++ b/llrl0/src/preprocess.rs
@@ -331,7 +331,7 @@ impl<'a> State<'a> {
 
         let result = f(self);
 
-        for (name, prev_expr) in prev_binds {
+        for (name, prev_expr) in prev_binds.into_iter().rev() {
             if let Some(prev_expr) = prev_expr {
                 self.vars.insert(name, prev_expr);
             } else {
-- 
2.43.0


From e21a68217baac39d128fc7be1d2eb9089b5d172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 09/21] fix: hash 0.0 and -0.0 alike, as they are equal

---
 std/hash.llrl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/std/hash.llrl b/std/hash.llrl
index 347f109..ffe1cc6 100644
--- a/std/hash.llrl
+++ b/std/hash.llrl
@@ -5,6 +5,7 @@
 (import "std/derive" derive/_)
 (import "std/access" unsafe-get)
 (import "std/integer" _.U64)
+(import "std/float" _.F32 _.F64)
 (import "std/memory" Ptr ptr/_ _.Ptr)
 (import "std/box" Box _.Box)
 (import "std/ref" Ref ref _.Ref)
@@ -60,11 +61,18 @@
   (function (hash-array! s a)
     (hasher/write! a s)))
 
-($for1 $ty (U16 U32 U64 I8 I16 I32 I64 F32 F64)
+($for1 $ty (U16 U32 U64 I8 I16 I32 I64)
   (instance ($symbol Hash. $ty) (Hash $ty)
     (function (hash! s a)
       (hasher/write! (array/unsafe-temporary-bytearray a) s))))
 
+($for1 $ty (F32 F64)
+  (instance ($symbol Hash. $ty) (Hash $ty)
+    (function (hash! s a)
+      ; 0.0 and -0.0 are equal, so they need to have the same hash
+      @let1 a (if (= a 0.0) 0.0 a)
+      (hasher/write! (array/unsafe-temporary-bytearray a) s))))
+
 (instance Hash.Ptr (forall A) (Hash (Ptr A))
   (function (hash! s a)
     (hash! s (ptr/address a))))
-- 
2.43.0


From 22aa6de6e8e9bdeb0a32257a7b9b602be3056433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 10/21] fix: canonicalizing a path to the root yields / instead
 of the empty string

---
 std/io/path.llrl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 204eaf2..8c011dd 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -133,7 +133,9 @@
     buf)
 
 (function (canonicalize/complete buf) {(-> (Vector String) String)}
-  (string/join "/" (it/chain (iterator/only "") buf)))
+  (if (vector/empty? buf)
+    "/"
+    (string/join "/" (it/chain (iterator/only "") buf))))
 
 (function (path/join p q) {(-> String String String)}
   (cond
-- 
2.43.0


From b4a5bce5f10bccacdf0591c05cfee4f0a5f1e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 11/21] fix: joining a relative path to the empty path does not
 make it absolute

---
 std/io/path.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 8c011dd..686de4d 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -139,7 +139,7 @@
 
 (function (path/join p q) {(-> String String String)}
   (cond
-    [(path/absolute? q) q]
+    [(or (string/empty? p) (path/absolute? q)) q]
     [(= p "/") (string p q)]
     [else (string (string/take (last-component-end p) p) #\/ q)]))
 
-- 
2.43.0


From 22d0dd5a1b8e104cdb5900eb10f5c0b07465acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 12/21] fix: zero-extend the 4-byte step of xxHash64, as its
 specification has it

---
 std/xxhash.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/xxhash.llrl b/std/xxhash.llrl
index a3994fb..a005860 100644
--- a/std/xxhash.llrl
+++ b/std/xxhash.llrl
@@ -142,7 +142,7 @@
       (set! d (array/skip 8 ~d))
       (set! input (+ (* (rotl ~input 27) prime-1) prime-4)))
     (when (<= 4 (array/length ~d))
-      (set! input (bw^ ~input (* (|> ~d array/ptr ptr/cast ptr/load (conv-from I32)) prime-1)))
+      (set! input (bw^ ~input (* (|> ~d array/ptr ptr/cast ptr/load (conv-from U32)) prime-1)))
       (set! d (array/skip 4 ~d))
       (set! input (+ (* (rotl ~input 23) prime-2) prime-3)))
     (for (let byte) ~d
-- 
2.43.0


From 2fd77e5464305308c8800612487e2f4d00203ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 13/21] fix: pminsb is 66 0F 38 38, xtencg dropped an opcode
 byte equal to an earlier one

---
 xten0/src/asm/inst.rs            | 6 ++++--
 xten1/asm/inst.llrl              | 6 ++++--
 xtencg/src/instr/encoding.rs     | 6 +-----
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 9c994c7..32e8b52 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -14831,12 +14831,13 @@ pub struct Pminsb<Op0, Op1>(pub Op0, pub Op1);
 /// pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
@@ -14847,12 +14848,13 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
 /// pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Memory> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index 567046d..b993329 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -11814,13 +11814,14 @@
 ; pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Xmm (forall W Error) (WriteInst W Error (Pminsb Xmm Xmm)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
@@ -11829,13 +11830,14 @@
 ; pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Memory (forall W Error) (WriteInst W Error (Pminsb Xmm Memory)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
diff --git a/xtencg/src/instr/encoding.rs b/xtencg/src/instr/encoding.rs
index 0b297a0..36916cf 100644
--- a/xtencg/src/instr/encoding.rs
+++ b/xtencg/src/instr/encoding.rs
@@ -155,11 +155,7 @@ impl Encoding {
     }
 
     pub fn put_opcode_part(&mut self, byte: u8) -> Result<(), &'static str> {
-        if self.opcode().any(|b| b == byte) {
-            Ok(())
-        } else {
-            self.opcode.push(byte).map_err(|_| "Too much opcode")
-        }
+        self.opcode.push(byte).map_err(|_| "Too much opcode")
     }
 
     pub fn reg_in_opcode(&self) -> Option<Size> {
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index cdcdd9d..2ccd8e8 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -1673,7 +1673,7 @@
 # pminsb
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| pminsb xmm xmm/m128 | `66 0F 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
+| pminsb xmm xmm/m128 | `66 0F 38 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
 
 # pminsd
 | Instruction | Encoding | Description |
-- 
2.43.0


From aa25ee1b2bdcb5feec42a0a02c674027f5bb0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 14/21] fix: jecxz needs the address-size prefix, E3 alone is
 jrcxz in 64-bit mode

---
 xten0/src/asm/inst.rs            | 3 ++-
 xten1/asm/inst.llrl              | 3 ++-
 xtencg/src/x86.csv               | 2 +-
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 32e8b52..257c5c5 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -9527,7 +9527,8 @@ pub struct Jecxz<Op0>(pub Op0);
 /// jecxz rel8: Jump short if ECX register is 0.
 impl<W: io::Write + ?Sized> WriteInst<W> for Jecxz<i8> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // E3 cb
+        // 67 E3 cb
+        put(w, 0x67)?;
         put(w, 0xE3)?;
         puts(w, self.0.to_le_bytes())?;
         Ok(())
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index b993329..32a8273 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -6783,9 +6783,10 @@
 ; jecxz rel8: Jump short if ECX register is 0.
 (instance WriteInst.Jecxz.I8 (forall W Error) (WriteInst W Error (Jecxz I8)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; E3 cb
+    ; 67 E3 cb
     (with1 (jecxz: (let op0)) inst
       (let ()
+        (write-u8! 103 w)!
         (write-u8! 227 w)!
         (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
         (ok unit)))))
diff --git a/xtencg/src/x86.csv b/xtencg/src/x86.csv
index c3cf568..d71e754 100644
--- a/xtencg/src/x86.csv
+++ b/xtencg/src/x86.csv
@@ -839,7 +839,7 @@ REX.W+ CF 	IRETQ 	NP		???	???	???			V	NE		iretq		Interrupt return (64-bit operan
 76 cb 	JBE rel8 	D	R	E.CF E.ZF					V	V		jbe		Jump short if below or equal (CF=1 or ZF=1).
 72 cb 	JC rel8 	D	R	E.CF					V	V		jc		Jump short if carry (CF=1).
 E3 cb 	JCXZ rel8 								NE	V				Jump short if CX register is 0.
-E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
+67 E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
 E3 cb 	JRCXZ rel8 	D	R	RCX					V	NE		jrcxz		Jump short if RCX register is 0.
 74 cb 	JE rel8 	D	R	E.ZF					V	V		je		Jump short if equal (ZF=1).
 7F cb 	JG rel8 	D	R	E.ZF E.SF E.OF					V	V		jg		Jump short if greater (ZF=0 and SF=OF).
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index 2ccd8e8..c555448 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -813,7 +813,7 @@
 # jecxz
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| jecxz rel8 | `E3 cb [c=0]` | Jump short if ECX register is 0. |
+| jecxz rel8 | `67 E3 cb [c=0]` | Jump short if ECX register is 0. |
 
 # jg
 | Instruction | Encoding | Description |
-- 
2.43.0


From be8aaeee0925f474a9b1631f7bd4d2bb316d6439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 15/21] fix: refuse JIT relocations out of range, the
 comparison could never hold

---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From 20cde27b65565c4bfd56c43356eb4bca5df575c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 16/21] fix: movq to a label from an immediate relocates the
 displacement, not the immediate

---
 xten0/src/asm/writer.rs | 14 +++++++++++++-
 xten1/asm/writer.llrl   | 12 +++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 93fece2..759b731 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -443,7 +443,19 @@ macro_rules! impl_movq_label_o {
 
 impl_movq_label_o!(Gpr64);
 impl_movq_label_o!(Xmm);
-impl_movq_label_o!(i32);
+
+/// movq Label i32
+impl<W> WriteInst<W> for super::inst::Movq<Label, i32>
+where
+    W: Write + SectionWrite,
+{
+    fn write_inst(&self, w: &mut W) -> io::Result<()> {
+        w.movq(memory(Rip + 0i32), self.1)?;
+        // The displacement is followed by the 4-byte immediate.
+        w.use_relative(-8, self.0, -8, RelocType::PcRel32);
+        Ok(())
+    }
+}
 
 macro_rules! impl_movq_o_label {
     ($o:tt) => {
diff --git a/xten1/asm/writer.llrl b/xten1/asm/writer.llrl
index fd33fe5..bdb77a8 100644
--- a/xten1/asm/writer.llrl
+++ b/xten1/asm/writer.llrl
@@ -305,7 +305,7 @@
         (.use-relative! w -1 label -1 reloc-type:pc-rel8)
         (ok unit)))))
 
-($for1 $O (Gpr64 Xmm I32)
+($for1 $O (Gpr64 Xmm)
   ; movq Label $O
   (instance ($symbol WriteInst.Section.Movq.Label. $O)
     (forall W Error) (WriteInst W Error (Movq Label $O)) (where (Write W Error) (Section W))
@@ -315,6 +315,16 @@
         (.use-relative! w -4 label -4 reloc-type:pc-rel32)
         (ok unit)))))
 
+; movq Label I32
+(instance WriteInst.Section.Movq.Label.I32
+  (forall W Error) (WriteInst W Error (Movq Label I32)) (where (Write W Error) (Section W))
+  (function (write-inst! w inst)
+    (with1 (movq: (let label) (let o)) inst
+      (write-inst! w (movq: (memory (+. rip 0 {I32})) o))!
+      ; The displacement is followed by the 4-byte immediate.
+      (.use-relative! w -8 label -8 reloc-type:pc-rel32)
+      (ok unit))))
+
 ($for1 $O (Gpr64 Xmm)
   ; movq $O Label
   (instance ($symbol WriteInst.Section.Movq. $O .Label)
-- 
2.43.0


From 9415a958b93dec2977a99333ae13338062a4b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 17/21] fix: an address-table use of a local symbol takes the
 local symbol

---
 xten0/src/jit.rs               | 5 +++++
 xten0/src/jit/address_table.rs | 5 +++++
 xten1/jit.llrl                 | 7 +++++--
 xten1/jit/address-table.llrl   | 5 +++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..7a4ed0a 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -237,6 +237,11 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
+            RelocTarget::Symbol(ref symbol) if self.local_symbols.contains_key(symbol.as_str()) => {
+                // Local symbols hide global symbols, and are not shared with other objects.
+                let ptr = self.local_symbols[symbol.as_str()];
+                Ok(self.address_table.put(ptr)?)
+            }
             RelocTarget::Symbol(ref symbol) => self
                 .address_table
                 .prepare(symbol, || self.symbol_table.resolve(symbol))?
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..eb5d3eb 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -29,4 +29,9 @@ impl AddressTable {
             },
         }
     }
+
+    /// Add an entry not associated with any symbol names.
+    pub fn put(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
 }
diff --git a/xten1/jit.llrl b/xten1/jit.llrl
index 2f64fe4..538c8a2 100644
--- a/xten1/jit.llrl
+++ b/xten1/jit.llrl
@@ -179,12 +179,15 @@
         (ok (locate (location: section 0) locator))])))
 
 (function (linker/reloc-target-address-table-entry! reloc linker) {(-> Reloc Linker (Result (Ptr (Ptr U8)) Error))}
-  (with1 (linker: (let st) (let at) _ _) linker
+  (with1 (linker: (let st) (let at) _ (let local-symbols)) linker
     (match (reloc/target reloc)
       [(reloc-target:symbol (let symbol))
         (if-match1
           (some (let ptr))
-          (result/map-err conv (address-table/prepare! symbol [^0 (symbol-table/resolve? symbol st)] at))!
+          (if-match1 (some (let local)) (hash-map/get? symbol local-symbols)
+            ; Local symbols hide global symbols, and are not shared with other objects.
+            (some (result/map-err conv (address-table/put! local at))!)
+            (result/map-err conv (address-table/prepare! symbol [^0 (symbol-table/resolve? symbol st)] at))!)
           (ok ptr)
           (err (error:undefined-symbol symbol)))]
       [(reloc-target:section (let section))
diff --git a/xten1/jit/address-table.llrl b/xten1/jit/address-table.llrl
index 6082ce2..65fafa3 100644
--- a/xten1/jit/address-table.llrl
+++ b/xten1/jit/address-table.llrl
@@ -25,3 +25,8 @@
             (hash-map/insert! symbol entry entries)
             (some entry))
           none)))))
+
+; Add an entry not associated with any symbol names.
+(function (address-table/put! ptr at) {(-> (Ptr U8) AddressTable (Result (Ptr (Ptr U8)) Error))}
+  (with1 (address-table: _ (let payload)) at
+    (table/put! ptr payload)))
-- 
2.43.0


From c01c2b8907e86d833e0e3dc9b083b182fa8138df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 18/21] fix: report pipe errors and reap the child when a
 process cannot be started

---
 rt/rt.c | 59 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 41424ef..a8babf8 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -96,30 +96,42 @@ void llrt_exit(int32_t exitcode) {
   exit(exitcode);
 }
 
+static void close_pipes(int pipes[][2], int len) {
+  for (int i = 0; i < len; ++i) {
+    close(pipes[i][0]);
+    close(pipes[i][1]);
+  }
+}
+
+// Open pipes, all or nothing. Returns an error number.
+static int32_t open_pipes(int pipes[][2], int len) {
+  for (int i = 0; i < len; ++i) {
+    if (pipe2(pipes[i], O_CLOEXEC) < 0) {
+      int32_t err = errno;
+      close_pipes(pipes, i);
+      return err;
+    }
+  }
+  return 0;
+}
+
 rt_process llrt_spawn_process(const char *name, char *const argv[]) {
   rt_process ret;
-  int init[2]; // used to notify an execvp error
-  int cin[2];
-  int cout[2];
-  int cerr[2];
+  int pipes[4][2];
+  int *init = pipes[0]; // used to notify an execvp error
+  int *cin = pipes[1];
+  int *cout = pipes[2];
+  int *cerr = pipes[3];
 
-  // TODO: Handle pipe error
-  pipe2(init, O_CLOEXEC);
-  pipe2(cin, O_CLOEXEC);
-  pipe2(cout, O_CLOEXEC);
-  pipe2(cerr, O_CLOEXEC);
+  ret.err = open_pipes(pipes, 4);
+  if (ret.err != 0) return ret;
 
   pid_t pid = fork();
 
   if (pid < 0) {
     // fork failed
     ret.err = errno;
-    for (int i = 0; i < 2; ++i) {
-      close(init[i]);
-      close(cin[i]);
-      close(cout[i]);
-      close(cerr[i]);
-    }
+    close_pipes(pipes, 4);
     return ret;
   }
 
@@ -141,7 +153,7 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // exit would flush stdio buffers of the parent
   }
 
   // fork parent
@@ -154,6 +166,7 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
   if (read(init[0], buf, 4) != 0) {
     // execvp failed
     ret.err = *(int32_t *)buf;
+    waitpid(pid, NULL, 0);
     close(init[0]);
     close(cin[1]);
     close(cout[0]);
@@ -177,19 +190,18 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
 
 rt_process llrt_execute_process(const char *name, char *const argv[]) {
   rt_process ret;
-  int init[2]; // used to notify an execvp error
+  int pipes[1][2];
+  int *init = pipes[0]; // used to notify an execvp error
 
-  // TODO: Handle pipe error
-  pipe2(init, O_CLOEXEC);
+  ret.err = open_pipes(pipes, 1);
+  if (ret.err != 0) return ret;
 
   pid_t pid = fork();
 
   if (pid < 0) {
     // fork failed
     ret.err = errno;
-    for (int i = 0; i < 2; ++i) {
-      close(init[i]);
-    }
+    close_pipes(pipes, 1);
     return ret;
   }
 
@@ -205,7 +217,7 @@ rt_process llrt_execute_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // exit would flush stdio buffers of the parent
   }
 
   // fork parent
@@ -215,6 +227,7 @@ rt_process llrt_execute_process(const char *name, char *const argv[]) {
   if (read(init[0], buf, 4) != 0) {
     // execvp failed
     ret.err = *(int32_t *)buf;
+    waitpid(pid, NULL, 0);
     close(init[0]);
     return ret;
   }
-- 
2.43.0


From d5bb118bd4b423e6f3eebb55b94088dc7fa08433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 19/21] fix: length of generated symbols from 10^15 on

---
 rt/rt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index a8babf8..c3853c6 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -269,10 +269,11 @@ static uint64_t last_sym;
 
 rt_string llrt_string_genid() {
   last_sym += 1;
+  char buf[24];
   rt_string ret;
-  ret.len = 2 + (uint64_t)log10(last_sym); // '@' + index
-  ret.ptr = GC_malloc(ret.len + 1); // sprintf writes 0 at the end
-  sprintf(ret.ptr, "@%llu", (unsigned long long)last_sym);
+  ret.len = sprintf(buf, "@%llu", (unsigned long long)last_sym);
+  ret.ptr = GC_malloc(ret.len);
+  memcpy(ret.ptr, buf, ret.len);
   return ret;
 }
 
-- 
2.43.0


From 8914720ea18cbbc3199c453464e9411bd80d37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 20/21] fix: remove-all! removes symbolic links instead of what
 they point to

---
 std/io.llrl | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/std/io.llrl b/std/io.llrl
index 2d13321..9062c0c 100644
--- a/std/io.llrl
+++ b/std/io.llrl
@@ -3,6 +3,8 @@
 (import "std/prelude/stage-1" _)
 (import "std/iterator" _)
 (import "std/memory" Ptr)
+(import "std/integer" _.I64)
+(import "std/array" array/new array/ptr)
 (import "std/string" string/c-compatible-ptr)
 (import "std/string-writer" string-writer)
 (import "std/io/error" _)
@@ -72,16 +74,22 @@
     [_ (err (io-error/from-current-errno))]))
 
 ; Remove the all files and directories recursively.
+; Symbolic links are removed themselves, what they point to is left untouched.
 (function (remove-all! pathname) {(-> String (Result unit IoError))}
-  (when-match1 (ok (let handle)) (directory/open! pathname)
-    @let1 result (remove-directory-contents! pathname handle)
-    (ignore (directory/close! handle))
-    result !)
+  (when (eq? (read-link pathname) -1) ; not a symbolic link
+    (when-match1 (ok (let handle)) (directory/open! pathname)
+      @let1 result (remove-directory-contents! pathname handle)
+      (ignore (directory/close! handle))
+      result !))
   (remove! pathname))
 
+(function (read-link pathname) {(-> String I64)}
+  (<readlink> (string/c-compatible-ptr pathname) (array/ptr (array/new 0 1)) 1))
+
 (function (remove-directory-contents! pathname handle) {(-> String Directory (Result unit IoError))}
   (for (let entry) (directory/entries! handle)
     (remove-all! (path pathname entry))!)
   (ok unit))
 
 (c-function <remove> {(-> (Ptr U8) I32)} "remove")
+(c-function <readlink> {(-> (Ptr U8) (Ptr U8) U64 I64)} "readlink")
-- 
2.43.0


From 712b8fd449815d345fd57c03760d7403d991d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 21/21] fix: the compiler in llrl refuses @ within {...}, as
 the one in Rust does

---
 llrl1/sexp/parser.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl1/sexp/parser.llrl b/llrl1/sexp/parser.llrl
index f6bbc3d..6b9674c 100644
--- a/llrl1/sexp/parser.llrl
+++ b/llrl1/sexp/parser.llrl
@@ -169,7 +169,7 @@
   (ok (cond
     [when-match1 (some (let l)) (grammar/s? p)!
       (s-rep:cons l (grammar/s-list-body allow-improper? p)!)]
-    [when (grammar/terminal? :at p)!
+    [when (and allow-improper? (grammar/terminal? :at p)!)
       (let1 s (grammar/s-list-body allow-improper? p)!
         (s-rep:cons s (s: ((location-start! p)) s-rep:nil)))]
     [when (and allow-improper? (grammar/terminal? :. p)!)
-- 
2.43.0

