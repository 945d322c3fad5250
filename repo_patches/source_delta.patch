From fdfbdb0724f331ad5c8b00ebe0961722f2750ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:11 +0000
Subject: [PATCH 1/5] fix: zero-extend the 32-bit size argument in the AVX2
 routines

The x86-64 ABI leaves the upper 32 bits of a register holding a uint32_t
argument undefined; the routines used all of rsi to compute addresses.
---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..6b7dd86 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov     esi, esi                // n is 32 bits: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From 29e27ccf80182cd035d96cd6854a50c925e8a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:29 +0000
Subject: [PATCH 2/5] fix: naive products return coefficients in [0, Q-1] as
 documented

The last step of every naive product reduced a possibly negative product
with %, so coefficients in (-Q, 0) were returned.
---
 src/naive_ntt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naive_ntt.c b/src/naive_ntt.c
index f7fb9b6..084ac0d 100644
--- a/src/naive_ntt.c
+++ b/src/naive_ntt.c
@@ -70,6 +70,7 @@ void mul_array16_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q) {
 
   for (i=0; i<n; i++) {
     a[i] = (a[i] * p[i]) % q;
+    if (a[i] < 0) a[i] += q;
   }
 }
 
@@ -98,6 +99,7 @@ void scalar_mul_array_naive(int32_t *a, uint32_t n, int32_t c, int32_t q) {
 
   for (i=0; i<n; i++) {
     a[i] = (a[i] * c) % q;
+    if (a[i] < 0) a[i] += q;
   }
 }
 
-- 
2.43.0


From c63343b126a53d4ab927c6b321e8d07f590ed524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:18 +0000
Subject: [PATCH 3/5] fix: avoid signed overflow in mul_red at the documented
 upper bound

---
 src/ntt_red.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ntt_red.c b/src/ntt_red.c
index deef16f..4df0cfd 100644
--- a/src/ntt_red.c
+++ b/src/ntt_red.c
@@ -41,8 +41,7 @@ static int32_t mul_red(int32_t x, int32_t y) {
   z = (int64_t) x * y;
   assert(-8796042698752 <= z && z <= 8796093026303);
   x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  return 3 * x - (z >> 12); // 64 bits: z >> 12 may be 2^31
 }
 
 #if 0
-- 
2.43.0


From bfef262df5921b957fe13beba49fc3567c4be461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:31 +0000
Subject: [PATCH 4/5] fix: detect 64-bit overflow in interval addition and
 subtraction before it happens

The old test looked at the wrapped result of a signed addition; signed
overflow is undefined, and gcc -O3 removes the test.
---
 src/intervals.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..b3813df 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -79,26 +79,22 @@ interval_t *neg(const interval_t *a) {
 
 // addition of x and y with overflow detection
 static int64_t add64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x + y;
-  if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
+  // check first: signed overflow is undefined
+  if ((x < 0 && y < INT64_MIN - x) || (x >= 0 && y > INT64_MAX - x)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x + y;
 }
 
 // subtraction: x - y with overflow detection
 static int64_t sub64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x - y;
-  if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
+  // check first: signed overflow is undefined
+  if ((y >= 0 && x < INT64_MIN + y) || (y < 0 && x > INT64_MAX + y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x - y;
 }
 
 
@@ -107,9 +103,9 @@ static int64_t sub64(int64_t x, int64_t y) {
  */
 static uint64_t size(const interval_t *a) {
   assert(a->min <= a->max);
-  // assuming 2s complement, this gives the right answer even
-  // if there's an overflow.
-  return (uint64_t) (a->max - a->min);
+  // unsigned subtraction: this gives the right answer even
+  // if the difference does not fit in 63 bits
+  return (uint64_t) a->max - (uint64_t) a->min;
 }
 
 /*
-- 
2.43.0


From 1168d869ef776015e468fbe9c4aa4d3b612cae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:31 +0000
Subject: [PATCH 5/5] fix: bounds on red(w * x) for w = 0 and for intervals
 that are not symmetric

max_red_mul and min_red_mul looped forever or divided by zero for w = 0, and
the interval versions assumed |x| <= b and that 0 is attained.
---
 src/red_bounds.c | 56 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..b9eea72 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(0) is 0
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(0) is 0
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -209,13 +221,16 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  // c = max of |x|
+  c = (-a > b) ? -a : b;
+
+  // start with w = 0 if it's between low and high or w = low otherwise
+  w_max = (low <= 0 && high >= 0) ? 0 : low;
+  r_max = max_red_mul(a, b, w_max, &x_max);
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -223,10 +238,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -244,8 +259,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -267,23 +282,26 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   // c = max of |x|
+   c = (-a > b) ? -a : b;
+
+   // start with w = 0 if it's between low and high or w = low otherwise
+   w_min = (low <= 0 && high >= 0) ? 0 : low;
+   r_min = min_red_mul(a, b, w_min, &x_min);
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -296,12 +314,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0

