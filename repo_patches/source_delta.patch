From c5d344d8d9890b81bbace54b6fab2ce95829bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 01/24] fix: decNumber codec treats non-canonical BID64/BID128
 coefficients as zero

---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 63d3cec..f89227f 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -189,6 +189,7 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
   if ((comb & 0xc00) == 0xc00) { /* G0..G1 = 11 -> exp is G2..G11 */
     exp = (comb) & 0x3ff;
     bcoeff = (x & 0x0007ffffffffffffull) | 0x0020000000000000ull;
+    if (bcoeff > 9999999999999999ull) bcoeff = 0; /* non-canonical */
   } else {
     exp = (comb >> 2) & 0x3ff;
     bcoeff = (x & 0x001fffffffffffffull);
@@ -298,9 +299,21 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
   if ((comb & 0x1e000) == 0x1e000) {
     res = x;
   } else { /* normal number */
-    exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
-    bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
-    bcoeff.w[0] = x.w[0];
+    if ((comb & 0x18000) == 0x18000) { /* G0..G1 = 11 -> non-canonical */
+      exp = (x.w[1] >> 47) & 0x3fff;
+      bcoeff.w[1] = 0;
+      bcoeff.w[0] = 0;
+    } else {
+      exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
+      bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
+      bcoeff.w[0] = x.w[0];
+      if (bcoeff.w[1] > 0x0001ed09bead87c0ull ||
+	  (bcoeff.w[1] == 0x0001ed09bead87c0ull &&
+	   bcoeff.w[0] > 0x378d8e63ffffffffull)) {
+	bcoeff.w[1] = 0; /* non-canonical */
+	bcoeff.w[0] = 0;
+      }
+    }
     d1018 = reciprocals10_128[18];
     __mul_128x128_high (BH, bcoeff, d1018);
     amount = recip_scale[18];
-- 
2.43.0


From 974f999a671f8792b0e8395471d155528817f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:28 +0000
Subject: [PATCH 02/24] fix: copysign must not alter NaN payloads or the
 encoding

copysign round-tripped its first operand through decNumber, which changes
NaN payloads whose declets are non-canonical.  Set the sign bit of the
encoding directly, as fabs does.
---
 ieee754r/copysignd32.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/ieee754r/copysignd32.c b/ieee754r/copysignd32.c
index ec5cf15..bb13779 100644
--- a/ieee754r/copysignd32.c
+++ b/ieee754r/copysignd32.c
@@ -28,33 +28,25 @@
 #  include <decimal32.h>
 #endif
 
-#include <decContext.h>
-#include <decNumber.h>
 #include <math.h>
 
 #define FUNCTION_NAME copysign
 
 #include <dfpmacro.h>
 
-#define decNumberNegate(dn)     (((dn)->bits)^=DECNEG)
-
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
-  decContext context;
-  DEC_TYPE result;
-  decNumber dn_x;
-  decNumber dn_y;
-
-  FUNC_CONVERT_TO_DN (&x, &dn_x);
-  FUNC_CONVERT_TO_DN (&y, &dn_y);
-
-  if(decNumberIsNegative (&dn_x) != decNumberIsNegative (&dn_y))
-    decNumberNegate (&dn_x);
-
-  decContextDefault (&context, DEFAULT_CONTEXT);
-  FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
-
+  /* Operate on the encoding, as fabs does: x may be a NaN or use a
+     non-canonical encoding that must be preserved.  */
+  DEC_TYPE result = x;
+  unsigned char *p = (unsigned char*) &result;
+  const unsigned char *q = (const unsigned char*) &y;
+  #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
+    p += sizeof(DEC_TYPE)-1;
+    q += sizeof(DEC_TYPE)-1;
+  #endif
+  *p = (*p & 0x7Fu) | (*q & 0x80u);
   return result;
 }
 
-- 
2.43.0


From 1b9042ab74f703b47ec873a931f817a280a83172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 03/24] fix: convert INT_MIN and unsigned 2^31, 2^63 correctly
 between integers and decimals

---
 libbid/_dd_to_usi.c   |  6 +++++-
 libbid/_td_to_udi.c   | 10 +++++++++-
 libbid/_td_to_usi.c   | 10 +++++++++-
 libbid/bid_from_int.c |  4 ++--
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 626f9eb..ce503bc 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -33,7 +33,11 @@ __bid_fixunsddsi (_Decimal64 x) {
   ux.d = x;
   res = __bid64_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // 0x80000000 is both the integer indefinite value (NaNs too) and 2^31
+  if (res == 0x80000000
+      && !(__bid64_quiet_greater_equal (ux.i, 0x31c0000080000000ull)
+	   && __bid64_quiet_less (ux.i, 0x31c0000080000001ull)))
+    res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 7e7b72a..3ba6f05 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -29,12 +29,20 @@ UDItype
 __bid_fixunstddi (_Decimal128 x) {
   UDItype res = 0xbaddbaddbaddbaddull;
   union decimal128 ux;
+  UINT128 lo, hi;
 
   ux.d = x;
 
   res = __bid128_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  // 0x8000000000000000ull is both the integer indefinite value (NaNs too) and 2^63
+  lo.w[HIGH_128W] = hi.w[HIGH_128W] = 0x3040000000000000ull;
+  lo.w[LOW_128W] = 0x8000000000000000ull;
+  hi.w[LOW_128W] = 0x8000000000000000ull + 1;
+  if (res == 0x8000000000000000ull
+      && !(__bid128_quiet_greater_equal (ux.i, lo)
+	   && __bid128_quiet_less (ux.i, hi)))
+    res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index 00406be..6e49eec 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -29,11 +29,19 @@ USItype
 __bid_fixunstdsi (_Decimal128 x) {
   USItype res = 0xbaddbadd;
   union decimal128 ux;
+  UINT128 lo, hi;
 
   ux.d = x;
   res = __bid128_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // 0x80000000 is both the integer indefinite value (NaNs too) and 2^31
+  lo.w[HIGH_128W] = hi.w[HIGH_128W] = 0x3040000000000000ull;
+  lo.w[LOW_128W] = 0x80000000ull;
+  hi.w[LOW_128W] = 0x80000000ull + 1;
+  if (res == 0x80000000
+      && !(__bid128_quiet_greater_equal (ux.i, lo)
+	   && __bid128_quiet_less (ux.i, hi)))
+    res = 0;
   return (res);
 }
 
diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index cfee0ed..853a245 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -42,8 +42,8 @@ bid64_from_int32 (int x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // in the lowest 32bits of the result
   if ((x & SIGNMASK32) == SIGNMASK32) {
     // negative int32
-    x = ~x + 1;	// 2's complement of x
-    res = (unsigned int) x | 0xb1c0000000000000ull;
+    // (unsigned negation: it has to be defined for INT_MIN too)
+    res = (~(unsigned int) x + 1) | 0xb1c0000000000000ull;
     // (exp << 53)) = biased exp. is 0
   } else {	// positive int32
     res = x | 0x31c0000000000000ull;	// (exp << 53)) = biased exp. is 0
-- 
2.43.0


From 41b9762a336447798fbf44b8b26829ec72d7a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 04/24] fix: round negative and large 128-bit integers in the
 current mode

---
 base-math/floattitd.c           | 30 +++++++++++++++++++-----------
 sysdeps/soft-dfp/candtruncd32.c |  2 ++
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index ea98a85..68fac23 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -107,7 +107,7 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
        * Can't just use copysign later because we are dealing with
        * different register sets and copysign instructions only
        * within a specific register set.  */
-      u = (UINT128) -a;
+      u = -(UINT128) a;
       negative = 1;
     }
   else
@@ -125,8 +125,8 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
     }
   else
     {
-      /* Else convert the absolute (unsigned) value to Decimal and
-       * correct the sign later if needed.  */
+      /* Else convert the chunks of the absolute (unsigned) value to
+       * Decimal, give them the sign and combine them.  */
       y = u / ten_17;
       z = u % ten_17;
       t_low = (unsigned long long) z;
@@ -135,6 +135,13 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  t_mid = (unsigned long long) y;
 	  d_mid = t_mid;
 	  d_low = t_low;
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 	  result = (d_mid * 100000000000000000.DL) + d_low;
 	}
       else
@@ -146,6 +153,15 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  d_low = t_low;
 	  d_mid = t_mid;
 	  d_high = t_high;
+#ifndef UNSIGNED
+	  /* The sign must be known before the result is rounded.  */
+	  if (negative)
+	    {
+	      d_high = -d_high;
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 
           /* Call out to internal helpers to properly handle
 	   * conversion and trunctation into a smaller format.
@@ -159,14 +175,6 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  result = (result * 100000000000000000.DL) + d_low;
 #endif
 	}
-
-#ifndef UNSIGNED
-      /* Converted the absolute 127-bit value of "a" to Decimal128.
-       * Now correct the decimal sign if the original value
-       * was negative.  */
-      if (negative)
-	result = -result;
-#endif
     }
 
   return (result);
diff --git a/sysdeps/soft-dfp/candtruncd32.c b/sysdeps/soft-dfp/candtruncd32.c
index f1fbca0..028db68 100644
--- a/sysdeps/soft-dfp/candtruncd32.c
+++ b/sysdeps/soft-dfp/candtruncd32.c
@@ -41,6 +41,7 @@
 #include "dfpmacro.h"
 
 #include "convert_helpers.h"
+#include "mapround.h"
 
 #include <stdio.h>
 
@@ -63,6 +64,7 @@ FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
   decContextDefault (&context, DEC_INIT_DECIMAL128);
   /* Hack, we're using 39 digits here. */
   context.digits = 39;
+  context.round = __dn_getround ();
 
   decNumberFromInt32(&dn_17, 17);
   decNumberFromInt32(&dn_34, 34);
-- 
2.43.0


From ed6c351a3f9cab665ce4de6d2a839bf9951d0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 05/24] fix: convert 64-bit integers to _Decimal32 with a
 single rounding

---
 libbid/_di_to_sd.c  | 7 ++++---
 libbid/_udi_to_sd.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..861454c 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatdisd (DItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // exact in 128 bits, so that the value is rounded only once
+  res128 = __bid128_from_int64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..c25ee82 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // exact in 128 bits, so that the value is rounded only once
+  res128 = __bid128_from_uint64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
-- 
2.43.0


From 7a65e34e70082120a94aefe18d145e13e8b71896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 06/24] fix: raise every exception flag of a status, not only
 the last one tested

---
 libbid/bid_decimal_globals.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 5ce0655..ebb97da 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -97,10 +97,10 @@ __dfp_set_status (int excepts) {
   else
     {
       int fexcepts = (excepts & INEXACT_EXCEPTION) ? FE_INEXACT : 0;
-      fexcepts = (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
-      fexcepts = (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
-      fexcepts = (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
-      fexcepts = (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
+      fexcepts |= (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
+      fexcepts |= (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
+      fexcepts |= (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
+      fexcepts |= (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
       fesetexcept (fexcepts);
     }
 }
-- 
2.43.0


From bdfcdac0345f65f9fcbaa48b05dd852ef715899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 07/24] fix: fma rounds once, in the current rounding mode, and
 does not overflow early

---
 ieee754r/fmad32.c        | 17 ++++++++++-------
 libdecnumber/decNumber.c |  5 ++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 268f042..2a6f85a 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -39,6 +39,7 @@
 #define FUNCTION_NAME fma
 
 #include <dfpmacro.h>
+#include "mapround.h"
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
@@ -48,7 +49,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_product;
   decNumber dn_z;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
@@ -70,17 +70,20 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   if (decNumberIsNaN (&dn_z))
     return z+z;
 
-  decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_product, &dn_x, &dn_y, &context);
-
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
-  if (decNumberIsInfinite (&dn_product) && decNumberIsInfinite (&dn_z) &&
-	(decNumberIsNegative (&dn_product) != decNumberIsNegative (&dn_z)))
+  if ((decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y))
+      && decNumberIsInfinite (&dn_z)
+      && ((!decNumberIsNegative (&dn_x) != !decNumberIsNegative (&dn_y))
+	  != !!decNumberIsNegative (&dn_z)))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  decNumberAdd (&dn_result, &dn_product, &dn_z, &context);
+
+  /* The product must not be rounded before the addition.  */
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+  decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 2fff5c3..7303c3a 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -3992,7 +3992,10 @@ static decNumber * decAddOp(decNumber *res, const decNumber *lhs,
       /* If, after pad, rhs would be longer than lhs by digits+1 or */
       /* more then lhs cannot affect the answer, except as a residue, */
       /* so only need to pad up to a length of DIGITS+1. */
-      if (rhs->digits+padding > lhs->digits+reqdigits+1) {
+      /* [When RHS is longer than DIGITS (fused multiply-add) its own */
+      /* discarded digits count too, so LHS must lie below all of them.] */
+      if (rhs->digits+padding > lhs->digits+reqdigits+1
+	  && padding > lhs->digits) {
 	/* The RHS is sufficient */
 	/* for residue use the relative sign indication... */
 	Int shift=reqdigits-rhs->digits;     /* left shift needed */
-- 
2.43.0


From dac4587378083bad4793a8b1b0deaba0f0d1a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 08/24] fix: ldexp scales every exponent correctly and signals
 overflow and underflow

---
 ieee754r/ldexpd32.c | 55 +++++++++++++--------------------------------
 1 file changed, 15 insertions(+), 40 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..cf705f2 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -45,61 +45,36 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
+  DEC_TYPE result;
   long newexp;
-  int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
-  int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
-
-#if NUMDIGITS_SUPPORT==1
-  newexp = FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
-    {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
-    }
-  else if (newexp < minexp)
-    {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
-    }
-  else
-    result = FUNC_D(setexp) (x, newexp);
-
-#else
   decContext context;
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (___decNumberIsNaN (&dn_x) || ___decNumberIsZero (&dn_x) ||
-	___decNumberIsInfinite (&dn_x))
+
+  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x) ||
+	decNumberIsInfinite (&dn_x))
     return x+x;
   if (y == 0)
     return x;
 
+  decContextDefault (&context, DEFAULT_CONTEXT);
+
   /* ldexp(x,y) is just x*10**y, which is equivalent to increasing the exponent
-   * by y.  */
-  newexp = dn_x.exponent + y;
-  if(newexp > INT_MAX)
-    newexp = INT_MAX;
-  if(newexp < -INT_MAX)
-    newexp = -INT_MAX;
+   * by y.  Anything beyond twice the exponent range overflows or underflows
+   * completely.  */
+  newexp = (long) dn_x.exponent + y;
+  if (newexp > 2 * context.emax)
+    newexp = 2 * context.emax;
+  if (newexp < -2 * context.emax)
+    newexp = -2 * context.emax;
   dn_x.exponent = newexp;
 
-  decContextDefault (&context, DEFAULT_CONTEXT);
   FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
-
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
-#endif
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
 
   return result;
 }
-- 
2.43.0


From d11eac89426451c37fe217dda0898d533e8a6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 09/24] fix: scalbn and scalbln overflow or underflow for
 scales decNumberScaleB rejects

---
 ieee754r/scalblnd32.c | 18 +++++++++++-------
 ieee754r/scalbnd32.c  |  9 +++++++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..de82df7 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -44,6 +44,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  int limit;
 /*   long long int sum=0LL;  */
 /*  uint32_t temp2 = 0;  */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -66,13 +67,16 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
+  /* decNumberScaleB takes no larger scale than this, and any such scale
+   * overflows or underflows completely.  */
+  limit = 2 * (context.digits + context.emax);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+
+  decNumberFromInt32(&dn_y, (int)y);
+  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..13536b4 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -46,6 +46,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  int limit;
 /*  long int sum = 0L; */
 /*  uint32_t temp2 = 0; */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -67,6 +68,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
+  /* decNumberScaleB takes no larger scale than this, and any such scale
+   * overflows or underflows completely.  */
+  limit = 2 * (context.digits + context.emax);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+
   decNumberFromInt32(&dn_y, y);
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
-- 
2.43.0


From aab1ff56ca035077dd733950ab6ea0acb1298b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 10/24] fix: frexp returns zero exponent and the operand for
 zeros

---
 ieee754r/frexpd32.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieee754r/frexpd32.c b/ieee754r/frexpd32.c
index ece6582..3111f3b 100644
--- a/ieee754r/frexpd32.c
+++ b/ieee754r/frexpd32.c
@@ -51,7 +51,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, int *y)
 #if NUMDIGITS_SUPPORT==1
   int digits, exponent;
 
-  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x))
+  *y = 0;
+  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x)
+      || x == DFP_CONSTANT(0.0))
     return x+x;
 
   // Given 3.1e0 is encoded as 31e-1 and we want .31e1
-- 
2.43.0


From df87736d06c5fedcfdf59bdc44c07a8ed9f3a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 11/24] fix: logb computes the exponent exactly

---
 ieee754r/logbd32.c | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/ieee754r/logbd32.c b/ieee754r/logbd32.c
index 948e980..4416504 100644
--- a/ieee754r/logbd32.c
+++ b/ieee754r/logbd32.c
@@ -46,11 +46,6 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_tmp;
-  decNumber dn_log10;
-  decNumber dn_one;
-  decNumber dn_cmp;
-  enum rounding round;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -67,26 +62,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     return -x;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberAbs (&dn_tmp, &dn_x, &context);
+
   /*  For DFP, we use radix 10 instead of whatever FLT_RADIX
       happens to be */
-  decNumberLog10 (&dn_log10, &dn_tmp, &context);
-
-  /* Capture the case where truncation will return the wrong result,
-     by rounding up if -1.0 < x < 1.0  */
-  round = DEC_ROUND_DOWN;
-  decNumberFromInt32 (&dn_one, 1);
-  decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-  if (-decNumberIsNegative(&dn_cmp))
-    {
-      decNumberFromInt32 (&dn_one, -1);
-      decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-      if (!decNumberIsNegative(&dn_cmp) && !decNumberIsZero(&dn_cmp))
-	round = DEC_ROUND_UP;
-    }
-  context.round = round;
-
-  decNumberToIntegralValue (&dn_result, &dn_log10, &context);
+  decNumberFromInt32 (&dn_result, dn_x.exponent + dn_x.digits - 1);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 8668ffde5d929ecce38f6514439296b587b4f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 12/24] fix: modf stores the integral part of an infinity

---
 ieee754r/modfd32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieee754r/modfd32.c b/ieee754r/modfd32.c
index 79ddb5d..bfb99c9 100644
--- a/ieee754r/modfd32.c
+++ b/ieee754r/modfd32.c
@@ -52,7 +52,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
       return x+x;
     }
    if (decNumberIsInfinite (&dn_x))
-    return DFP_CONSTANT(0.0)/x;
+    {
+      *y = x;
+      return DFP_CONSTANT(0.0)/x;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;	/* round towards zero */
-- 
2.43.0


From 42717d8d727d94ea0ed4636da4c5eb52d5eb9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 13/24] fix: remainder is exact for every quotient, EDOM only
 on domain errors

---
 ieee754r/remainderd32.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 7af09f2..2c768a5 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -41,13 +41,11 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
-  decContext context;
+  decContext context, exact;
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_mult;
-  decNumber dn_rounded;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -62,11 +60,12 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
-  context.round = DEC_ROUND_HALF_EVEN;
-  decNumberToIntegralValue (&dn_rounded, &dn_mult, &context);
-  decNumberMultiply (&dn_mult, &dn_rounded, &dn_y, &context);
-  decNumberSubtract (&dn_result, &dn_x, &dn_mult, &context);
+  /* The remainder is exact, but the integer quotient it is computed from may
+     have as many digits as the exponent range is wide.  */
+  exact = context;
+  exact.digits += 2 * exact.emax;
+  exact.clamp = 0;
+  decNumberRemainderNear (&dn_result, &dn_x, &dn_y, &exact);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
@@ -77,7 +76,8 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isinf) (x) || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
+  if (!FUNC_D(__isnan) (x) && !FUNC_D(__isnan) (y)
+      && (FUNC_D(__isinf) (x) || y == DFP_CONSTANT(0.0)))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 545e4b997983b670750757e9be7d948d15c08021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 14/24] fix: lround and lrint test the rounded value against
 the exact limits

---
 ieee754r/llroundd32.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ieee754r/llroundd32.c b/ieee754r/llroundd32.c
index f1c7ca0..4bdaf2e 100644
--- a/ieee754r/llroundd32.c
+++ b/ieee754r/llroundd32.c
@@ -61,10 +61,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
     {
       DFP_EXCEPT (FE_INVALID);
+      DFP_ERRNO (EDOM);
       return (__ROUND_RETURN_TYPE) x;
     }
 
@@ -74,6 +74,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
+  /* The rounded value has to fit.  The limits are exact as _Decimal128 only.  */
+  if ((_Decimal128) result > __MAX_VALUE || (_Decimal128) result < __MIN_VALUE)
+    {
+      DFP_EXCEPT (FE_INVALID);
+      DFP_ERRNO (EDOM);
+      return (__ROUND_RETURN_TYPE) x;
+    }
+
 #ifdef POSTFIX_CHECK
   POSTFIX_CHECK;
 #endif
@@ -87,11 +95,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 __ROUND_RETURN_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  __ROUND_RETURN_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (FUNC_D(__isnan) (x) || FUNC_D(__isinf) (x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
-    DFP_ERRNO (EDOM);
-  return z;
+  return IEEE_FUNCTION_NAME (x);
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From be44c3656c1387a6b0429712210650f48921ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 15/24] fix: strtodN rounds the value of the string once, in
 the current rounding mode

The integer and the fractional digits were converted separately and
added, so that long coefficients were rounded twice and always half-even,
the exponent limits dropped results that fit the format, an underflow lost
the sign, and a long integer part did not terminate.
---
 stdlib/strtod32.c | 280 ++++++++++++++++------------------------------
 1 file changed, 98 insertions(+), 182 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 155bd68..97de1b0 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -56,6 +56,7 @@
 //#include <wctype.h>
 
 #include <math.h> /* HUGE_VAL_D32, etc.  */
+#include <fenv.h>
 #include <errno.h>
 #define __set_errno(the_errno)	*__errno_location() = the_errno
 //#include <float.h>
@@ -76,9 +77,19 @@
 # define __DEC_MIN_EXP__ __DEC32_MIN_EXP__
 #endif
 
+#if FLOAT_SIZE == 32
+# include <decimal32.h>
+#elif FLOAT_SIZE == 64
+# include <decimal64.h>
+#else
+# include <decimal128.h>
+#endif
+#include <decContext.h>
+#include <decNumber.h>
+#include <mapround.h>
+
 #define DEC_TYPE	FLOAT
 #define _DECIMAL_SIZE	FLOAT_SIZE
-#include <numdigits.h>
 
 #ifdef USE_WIDE_CHAR
 extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t **,
@@ -129,6 +140,9 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 #define FUNCTION_INTERNAL	PASTE(__FUNCTION_NAME,_internal)
 #define FUNCTION_L_INTERNAL	PASTE(__FUNCTION_NAME,_l_internal)
 
+/* Beyond the exponent range of every format, and safe from overflow.  */
+#define EXPONENT_LIMIT	10000000
+
 /* Extra macros required to get FLT expanded before the pasting.  */
 #ifndef PASTE
 # define PASTE(a,b)             PASTE1(a,b)
@@ -318,7 +332,12 @@ FLOAT
 FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		int group, locale_t loc)
 {
-  FLOAT d32 = FLOAT_ZERO;
+  FLOAT result;
+  decNumber dn;
+  decContext context;
+  /* The sign, a zero, the digits used, and the exponent.  */
+  char dn_string[MANT_DIG + 24];
+  int dn_cnt, kept, sticky, nonzero;
 
   int negative;			/* The sign of the number.  */
   int exponent;			/* Exponent of the number.  */
@@ -689,47 +708,12 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
       if (c >= L_('0') && c <= L_('9'))
 	{
-	  int exp_limit;
-
-	  /* Get the exponent limit. */
-	  exp_limit = (exp_negative ?
-		       -MIN_10_EXP + MANT_DIG + int_no :
-		       MAX_10_EXP - int_no + lead_zero);
-
+	  /* Saturate: this exponent overflows or underflows whatever the digits
+	     are.  */
 	  do
 	    {
-	      exponent *= 10;
-
-	      if (exponent > exp_limit)
-		/* The exponent is too large/small to represent a valid
-		   number.  */
-		{
-		  FLOAT result;
-
-		  /* We have to take care for special situation: a joker
-		     might have written "0.0e100000" which is in fact
-		     zero.  */
-		  if (lead_zero == -1)
-		    result = negative ? -FLOAT_ZERO : FLOAT_ZERO;
-		  else
-		    {
-		      /* Overflow or underflow.  */
-		      __set_errno (ERANGE);
-		      result = (exp_negative ? FLOAT_ZERO :
-				negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL);
-		    }
-
-		  /* Accept all following digits as part of the exponent.  */
-		  do
-		    ++cp;
-		  while (*cp >= L_('0') && *cp <= L_('9'));
-
-		  freelocale(C_locale);
-		  RETURN (result, cp);
-		  /* NOTREACHED */
-		}
-
-	      exponent += c - L_('0');
+	      if (exponent < EXPONENT_LIMIT)
+		exponent = exponent * 10 + (c - L_('0'));
 	      c = *++cp;
 	    }
 	  while (c >= L_('0') && c <= L_('9'));
@@ -777,29 +761,12 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   if (endptr)
     *endptr = (STRING_TYPE *) cp;
 
-  if (dig_no == 0)
-    {
-      if (exponent == 0)
-	{
-	  freelocale(C_locale);
-          return negative ? -FLOAT_ZERO : FLOAT_ZERO;
-	}
-
-#if NUMDIGITS_SUPPORT==0
-      d32 += 1;
-      while(exponent-- > 0)  /* FIXME: this doesn't work right for exponent>0 */
-	d32 *= 10;
-      while(++exponent < 0)
-	d32 /= 10;
-      d32 -= d32;
-#else
-      d32 = FUNC_D(setexp) (d32, exponent);
-#endif
-
-      freelocale(C_locale);
-      return negative ? -d32 : d32;
-    }
+  dn_string[0] = negative ? '-' : '+';
+  dn_string[1] = '0';
+  dn_cnt = 2;
 
+  if (dig_no == 0)
+    goto convert;
 
   if (lead_zero)
     {
@@ -828,143 +795,92 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
     }
 
 
-  /* Now we have the number of digits in total and the integer digits as well
-     as the exponent and its sign.  We can decide whether the read digits are
-     really integer digits or belong to the fractional part; i.e. we normalize
-     123e-2 to 1.23.  */
-  {
-    register int incr = (exponent < 0 ? MAX (-int_no, exponent)
-			 : MIN (dig_no - int_no, exponent));
-    int_no += incr;
-    exponent -= incr;
-  }
-
-  if (int_no + exponent > MAX_10_EXP)
-    {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL;
-    }
-
-  /* Obvious underflow before normalization.  */
-  if (exponent < MIN_10_EXP - MANT_DIG + 1 )
-    {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
-    }
-  /* Read in the integer portion of the input string */
-  if (int_no > 0)
-    {
-      /* Read the integer part as a d32.  */
-      int digcnt = int_no;
-
-      while (int_no > MAX_10_EXP + 1)
-	{
-	  digcnt--;
-	  exponent++;
-	}
-      do
-	{
-	  /* There might be thousands separators or radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-#ifdef USE_WIDE_CHAR
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    ++startp;
-#else
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    {
-	      int inner = 0;
-	      if (thousands != NULL && *startp == *thousands
-		  && ({
-			for (inner = 1; thousands[inner] != '\0'; ++inner)
-			  if (thousands[inner] != startp[inner])
-			    break;
-			thousands[inner] == '\0';
-		      })
-		  )
-		startp += inner;
-	      else
-		startp += decimal_len;
-	    }
-#endif
-	  d32 = d32 * 10 + (*startp - L_('0'));
-	  ++startp;
-	}
-      while (--digcnt > 0);
-
-    }
-  /* If we haven't filled our datatype, read in the fractional digits */
-  if (int_no <= MANT_DIG && dig_no > int_no)
+  /* The value is the DIG_NO digits at STARTP times 10^(EXPONENT - (DIG_NO -
+     INT_NO)).  Keep the significant digits of the format, one more to round
+     it and a nonzero one for any nonzero digits that follow, so that the
+     value is rounded only once.  */
+  exponent -= dig_no - int_no;
+  kept = exponent;
+  sticky = nonzero = 0;
+  while (dig_no > 0)
     {
-      /* Read the decimal part as a FLOAT.  */
-      int digcnt = dig_no - int_no;
-      
-  /* There might be radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-
-      /*do
-	{
-	  frac = frac/10 + *(startp+digcnt-1) - L_('0');
-	}
-      while (--digcnt > 0);
-      frac /= 10;
-
-      d32 += frac;*/
-      int_no = 0;
-      do
-        {
+      /* There might be thousands separators or radix characters in
+	 the string.  But these all can be ignored because we know the
+	 format of the number is correct and we have an exact number
+	 of characters to read.  */
 #ifdef USE_WIDE_CHAR
       if (*startp < L_('0') || *startp > L_('9'))
 	++startp;
 #else
-      if (*startp < '0' || *startp > '9')
-	startp += decimal_len;
+      if (*startp < L_('0') || *startp > L_('9'))
+	{
+	  int inner = 0;
+	  if (thousands != NULL && *startp == *thousands
+	      && ({
+		    for (inner = 1; thousands[inner] != '\0'; ++inner)
+		      if (thousands[inner] != startp[inner])
+			break;
+		    thousands[inner] == '\0';
+		  })
+	      )
+	    startp += inner;
+	  else
+	    startp += decimal_len;
+	}
 #endif
-
-        /* We need the extra digit to get proper rounding.  */
-	if (int_no < MANT_DIG + 1)
-	  {
-	    d32 = d32*10 + (*startp - L_('0'));
-	    ++startp;
-	    --exponent;
-	    int_no++;
-	  }
+      nonzero |= *startp != L_('0');
+      if (dn_cnt < MANT_DIG + 3)
+	dn_string[dn_cnt++] = '0' + (*startp - L_('0'));
+      else
+	{
+	  sticky |= *startp != L_('0');
+	  ++kept;
 	}
-    while (--digcnt > 0);
+      ++startp;
+      --dig_no;
     }
 
-#if NUMDIGITS_SUPPORT==0
-  while(exponent-- > 0)
-    d32 *= 10;
-  while(++exponent < 0)
-    d32 /= 10;
-#else
-  /* Computed underflow after normalization.  */
-  if ( exponent <  (__DEC_MIN_EXP__ - __DEC_MANT_DIG__))
+  if (!nonzero)
+    goto convert;
+  exponent = kept;
+
+  /* Digits below the least exponent of the format are an underflow.  */
+  if (exponent + MAX (dn_cnt - 2 - MANT_DIG, 0) < MIN_10_EXP - MANT_DIG)
     {
       __set_errno (ERANGE);
       freelocale(C_locale);
-      return FLOAT_ZERO;
+      return negative ? -FLOAT_ZERO : FLOAT_ZERO;
     }
 
-  /* Left justification allows us to set a positive exponent that's near
-   * __DEC*_MAX_EXP__, i.e. _almost_ overflowing.  Complete left justification
-   * may be overkill for most numbers in this situation, so perhaps a specific
-   * digit shift will be a better solution in the future.  */
-  if (exponent > (__DEC_MAX_EXP__ - __DEC_MANT_DIG__))
-      d32 = FUNC_D(left_justify) (d32);
+  if (sticky)
+    {
+      dn_string[dn_cnt++] = '1';
+      --exponent;
+    }
 
-  d32 = FUNC_D(setexp) (d32, FUNC_D (getexp) (d32) + exponent);
+  /* An exponent too large for the format is reached by left justification.  */
+  if (exponent > MAX_10_EXP - MANT_DIG)
+    while (dn_cnt < MANT_DIG + 2)
+      {
+	dn_string[dn_cnt++] = '0';
+	--exponent;
+      }
 
-#endif
+ convert:
+  sprintf (dn_string + dn_cnt, "E%d", exponent);
+  decContextDefault (&context, PASTE (DEC_INIT_DECIMAL, FLOAT_SIZE));
+  context.round = __dn_getround ();
+  decNumberFromString (&dn, dn_string, &context);
+  PASTE (PASTE (decimal, FLOAT_SIZE), FromNumber)
+    ((PASTE (decimal, FLOAT_SIZE) *) &result, &dn, &context);
+  if (context.status & DEC_Overflow)
+    __set_errno (ERANGE);
+  if (context.status & DEC_Inexact)
+    feraiseexcept (context.status & DEC_Overflow ? FE_OVERFLOW | FE_INEXACT
+		   : FE_INEXACT);
 
   freelocale(C_locale);
-  return negative? -d32:d32;
+  return result;
 }
 hidden_def(FUNCTION_L_INTERNAL)
 
-- 
2.43.0


From e9269488edae08d42bbfc16cd9853ba0e13bc4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 16/24] fix: strtodN of a NaN keeps its sign and consumes the
 closing parenthesis

---
 stdlib/strtod32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 97de1b0..a6a2e6d 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -499,6 +499,9 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		/* The closing brace is missing.  Only match the NAN
 		   part.  */
 		cp = startp;
+	      else
+		/* Consume the closing parenthesis.  */
+		++cp;
 #if 0
 	      else
 		{
@@ -522,7 +525,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	    *endptr = (STRING_TYPE *) cp;
 
 	  freelocale(C_locale);
-	  return retval;
+	  return negative ? -retval : retval;
 	}
 
       /* It is really a text we do not recognize.  */
-- 
2.43.0


From 735aa9b4a314280f261f6b055838f775f61c8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 17/24] fix: wcstodN dereferenced the wide decimal point as a
 pointer

---
 stdlib/strtod32.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index a6a2e6d..d453b7f 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -327,6 +327,19 @@ __correctly_grouped_prefixmb (const STRING_TYPE *begin, const STRING_TYPE *end,
   return MAX (begin, end);
 }
 
+#ifdef USE_WIDE_CHAR
+/* A wide character item of the locale: nl_langinfo returns the character
+   itself in place of a pointer.  */
+static wchar_t
+langinfo_wc (nl_item item)
+{
+  union { char *string; unsigned int word; } value;
+
+  value.string = nl_langinfo (item);
+  return value.word;
+}
+#endif
+
 /* This is of the form __strtod32_l_internal() */
 FLOAT
 FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
@@ -361,7 +374,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The radix character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *decimalmb;
   wchar_t decimal;
 #else
   const char *decimal;
@@ -369,7 +381,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The thousands character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *thousandsmb = NULL;
   wchar_t thousands = L'\0';
 #else
   const char *thousands = NULL;
@@ -392,9 +403,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	{
 	  /* Figure out the thousands separator character.  */
 #ifdef USE_WIDE_CHAR
-	  thousandsmb = nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC);
-	  mbrtowc(&thousands,thousandsmb, CHAR_MAX, NULL);
-
+	  thousands = langinfo_wc (_NL_NUMERIC_THOUSANDS_SEP_WC);
 	  if (thousands == L'\0')
 	    grouping = NULL;
 #else
@@ -412,8 +421,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
   /* Find the locale's decimal point character.  */
 #ifdef USE_WIDE_CHAR
-  decimalmb = nl_langinfo(_NL_NUMERIC_DECIMAL_POINT_WC);
-  mbrtowc(&decimal,decimalmb, CHAR_MAX, NULL);
+  decimal = langinfo_wc (_NL_NUMERIC_DECIMAL_POINT_WC);
   assert (decimal != L'\0');
 # define decimal_len 1
 #else
-- 
2.43.0


From 76db5539d2748ff3dc52b75b6e5cd9f7debfe204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 18/24] fix: __get_digits_d128 reads a non-canonical
 coefficient as zero

The limit was compared with the high word only, and exceeds every value
that word can have.
---
 sysdeps/bid/bid-private.c | 3 ++-
 sysdeps/bid/bid-private.h | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sysdeps/bid/bid-private.c b/sysdeps/bid/bid-private.c
index a95781a..ce82fea 100644
--- a/sysdeps/bid/bid-private.c
+++ b/sysdeps/bid/bid-private.c
@@ -197,7 +197,8 @@ __get_digits_d128 (_Decimal128 x, char *str, int *exp_p, int *sign_p,
       result[0] |= d.ti[0] & 0xFFFFFFFFUL;
     }
 
-  if (result[1] >= DECIMAL128_TH)
+  if (result[1] > DECIMAL128_TH_HI
+      || (result[1] == DECIMAL128_TH_HI && result[0] >= DECIMAL128_TH_LO))
     {
       result[0] = 0;
       result[1] = 0;
diff --git a/sysdeps/bid/bid-private.h b/sysdeps/bid/bid-private.h
index 83b002f..e80a1da 100644
--- a/sysdeps/bid/bid-private.h
+++ b/sysdeps/bid/bid-private.h
@@ -162,6 +162,8 @@ union ieee754r_Decimal128
   };
 
 #define DECIMAL128_Bias 6176		/* bias for the exponent  */
-#define DECIMAL128_TH 1000000000000000	/* threshold (10³⁴ = 10¹⁵ x 10¹⁹) */
+/* threshold (10³⁴ = TH_HI x 2⁶⁴ + TH_LO)  */
+#define DECIMAL128_TH_HI 0x1ed09bead87c0ULL
+#define DECIMAL128_TH_LO 0x378d8e6400000000ULL
 
 #endif /* _BID_PRIVATE */
-- 
2.43.0


From abd294ce6487e4aaab730fc8b255c21e6a3a9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 19/24] fix: decoded32 and decoded64 show a non-canonical
 coefficient as zero

---
 sysdeps/bid/decode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sysdeps/bid/decode.c b/sysdeps/bid/decode.c
index 6d2ef88..6d5e868 100644
--- a/sysdeps/bid/decode.c
+++ b/sysdeps/bid/decode.c
@@ -52,6 +52,10 @@ __decoded32 (_Decimal32 a, char *str)
       else
 	coeff = d.si & 0x007FFFFF;
 
+      /* A non-canonical coefficient is zero.  */
+      if (coeff >= DECIMAL32_TH)
+	coeff = 0;
+
       for (n = 0; (coeff != 0) && (n < 3); ++n)
 	{
 	  decunits[n] = coeff % 1000;
@@ -89,6 +93,10 @@ __decoded64 (_Decimal64 a, char *str)
 	coeff = d.di[1] & 0x001FFFFF;
       coeff = (coeff << 32) | d.di[0];
 
+      /* A non-canonical coefficient is zero.  */
+      if (coeff >= DECIMAL64_TH)
+	coeff = 0;
+
       for (n = 0; (coeff != 0) && (n < 6); ++n)
 	{
 	  decunits[n] = coeff % 1000;
-- 
2.43.0


From 78aeb7bf97a004f15f61a423786b7ad40d4c19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 20/24] fix: printf counts the characters of infinities and
 NaNs

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c5bf460..f962e51 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -527,7 +527,7 @@ __printf_dfp (FILE *fp,
       if (info->left && width > 0)
 	PADN (' ', width);
 
-      return 0;
+      return done;
     }
 
   /* The term "precision" refers to the number of significant digits right of
-- 
2.43.0


From d89513341d08333db712761f56b27c9719756161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 21/24] fix: printf rounds the decimal digits in the current
 rounding mode

Towards the directions the test for discarded zeros was inverted, and a
value with no kept digit was never rounded away from zero.
---
 printf-hooks/printf_dfp.c | 97 +++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 49 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index f962e51..21b24fb 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -629,8 +629,8 @@ __printf_dfp (FILE *fp,
    * existing method would be faster.  */
   if (prec < input_prec)
     {
-      int index, roundmode = 0;
-      char rounddigit = '4';
+      int index, i, roundmode = 0;
+      int discarded, exact, away;
 
       if (spec == 'f')
 	/* This may force index to negative, in which case we ignore it at a
@@ -645,59 +645,58 @@ __printf_dfp (FILE *fp,
       else
 	index = n + prec + 1;
 
-      /* FIXME: we should check rounding mode for %a */
+      /* The first digit that is not kept, and whether those after it are all
+	 zero.  The digits to the left of digits[0] are zero too.  */
+      discarded = (index >= 0 && index < mw) ? digits[index] - '0' : 0;
+      exact = 1;
+      for (i = index < 0 ? 0 : index + 1; i < mw; i++)
+	if (digits[i] != '0')
+	  exact = 0;
+
       if (__printf_dfp_getround_callback)
-        {
-          roundmode = (*__printf_dfp_getround_callback)();
+	roundmode = (*__printf_dfp_getround_callback)();
 
-	  switch (roundmode)
-	    {
-	      case FE_DEC_TONEAREST: rounddigit = '4'; break;
-	      case FE_DEC_TOWARDZERO: rounddigit = '9'; break;
-	      case FE_DEC_UPWARD: rounddigit = (is_neg ? '9' : '0'-1); break;
-	      case FE_DEC_DOWNWARD: rounddigit = (is_neg ? '0'-1 : '9'); break;
-	      case FE_DEC_TONEARESTFROMZERO: rounddigit = '4'; break;
-	      case 5: rounddigit = '4'; break; /* nearest, ties toward zero */
-	      case 6: rounddigit = '0'-1; break; /* away from zero */
-	      case 7: rounddigit = '4'; break; /* round for shorter precision */
-	      default: rounddigit = '4'; break;
-	    }
+      switch (roundmode)
+	{
+	  case FE_DEC_TOWARDZERO: away = 0; break;
+	  case FE_DEC_UPWARD: away = !is_neg; break;
+	  case FE_DEC_DOWNWARD: away = is_neg; break;
+	  case FE_DEC_TONEARESTFROMZERO: away = discarded >= 5; break;
+	  case 5: /* nearest, ties toward zero */
+	    away = discarded > 5 || (discarded == 5 && !exact);
+	    break;
+	  case 6: away = 1; break; /* away from zero */
+	  default: /* nearest, ties to even */
+	    away = discarded > 5
+		   || (discarded == 5
+		       && (!exact || (index > 0 && (digits[index-1] & 1))));
+	    break;
 	}
 
-      /* If this is true then the requested precision is smaller than the
-      * default and rounding is required.  If 'exp' was sufficiently negative
-      * 'index' may be negative, in which case we don't need to round.  */
-      if (index > 0 && index < mw && digits[index] > rounddigit) 
-	do {
-	  int trailzero = index+1;
-	  if (digits[index] == rounddigit+1)
+      if (away && (discarded || !exact))
+	{
+	  if (index <= 0)
+	    {
+	      /* No digit is kept ('f' only): the result is one unit of the last
+		 place.  */
+	      memset (digits, '0', mw);
+	      digits[mw - 1] = '1';
+	      exp = -prec;
+	      n = mw - 1;
+	      nd = 1;
+	    }
+	  else
 	    {
-	      while (trailzero < mw)
+	      while (digits[--index] == '9')
+		digits[index] = '0';
+	      digits[index]++;
+	      if (index < n)
 		{
-		  if (digits[trailzero] != '0')
-		    {
-		      trailzero = 0;
-		      break;
-		    }
-		  ++trailzero;
+		  nd += n - index;
+		  n = index;
 		}
-	      if (roundmode == FE_DEC_TONEAREST && trailzero &&
-	        (digits[index-1] & 1) == 0) break;
-	      if (roundmode == FE_DEC_UPWARD && !trailzero) break;
-	      if (roundmode == FE_DEC_DOWNWARD && !trailzero) break;
-	      if (roundmode == 5 && trailzero) break;
-	      if (roundmode == 6 && trailzero) break;
-	  }
-
-	while (digits[--index] == '9')
-	  digits[index] = '0';
-	digits[index]++;
-	if (index < n)
-	  {
-	    n--;
-	    nd++;
-	  }
-      } while (0);
+	    }
+	}
     } /* Done rounding.  */
 
   /* If spec == 'a' at this point it means that prec was set by the user
@@ -810,7 +809,7 @@ __printf_dfp (FILE *fp,
     {
       n = decpt;
       outchar ('0');
-      if (n < 0)
+      if (n < 0 && prec > 0)
 	{
 	  outchar (wide ? decimalwc.wc : *decimal);
 	  while (n < 0 && n < decpt + prec)
-- 
2.43.0


From e8db3639ee7b2c27898b19ac0d28d19c619420ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 22/24] fix: printf %g rounds to P digits and then chooses the
 style

---
 printf-hooks/printf_dfp.c | 61 ++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 21b24fb..78fbca9 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -445,6 +445,7 @@ __printf_dfp (FILE *fp,
    mw,           /* Mantissa Width  */
    n,            /* Current digit offset into digits[] */
    nd,           /* num_digits before the get_digits call. */
+   P = 0,        /* Number of significant digits for %g */
    width,        /* Width of the field */
    is_zero = 0;  /* Used in some of the output tests.  */
 
@@ -566,40 +567,18 @@ __printf_dfp (FILE *fp,
 	  }
 	case 'g':
 	  {
-	    int P = prec;
-
-	    /* When the C specification refers to X as the exponent it means the
-	     * exponent when the input value encoding is normalized to the form
-	     * d.dddd.  This means we have to do that before we can do the goof
-	     * check.
-	     *
-	     * e.g., 123.456E-5
-	     * right-justified -> 00123456E-9
-	     * normalized -> 1.23456E-4
-	     *
-	     * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
-	     *
-	     * X == -4  */
-	    int X = exp + (nd -1);
-
-	    /* The C Specification also indicates how to compute P. */
+	    /* The style depends on the exponent X of the conversion with style
+	       'e', that is after rounding to P digits.  Round as 'e' does and
+	       choose the style later.  */
 	    if (prec < 0)
 	      P = 6;
 	    else if (prec == 0)
 	      P = 1;
-
-	    /* Straight from the specification which assumes X is exponent normalized to
-	     * d.ddd... form.  */
-	    if (X >= -4 && P > X)
-	      {
-		prec = (P - (X + 1));
-		spec = 'f';
-	      }
 	    else
-	      {
-		prec = P - 1;
-		spec = 'e';
-	      }
+	      P = prec;
+
+	    prec = P - 1;
+	    spec = 'e';
 	    input_prec = nd - 1;
 	  break;
 	  }
@@ -699,6 +678,30 @@ __printf_dfp (FILE *fp,
 	}
     } /* Done rounding.  */
 
+  if (tolower(info->spec) == 'g')
+    {
+      /* When the C specification refers to X as the exponent it means the
+       * exponent when the rounded value is normalized to the form d.dddd.
+       *
+       * e.g., 123.456E-5
+       * right-justified -> 00123456E-9
+       * normalized -> 1.23456E-4
+       *
+       * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
+       *
+       * X == -4  */
+      int X;
+
+      if (is_zero)
+	exp = 0;
+      X = exp + (nd - 1);
+      if (X >= -4 && P > X)
+	{
+	  prec = P - (X + 1);
+	  spec = 'f';
+	}
+    }
+
   /* If spec == 'a' at this point it means that prec was set by the user
    * and rounding had to be considered.  The spec now requires that the
    * 'a' format presentation algorithm be calculated again.  If prec
-- 
2.43.0


From a70686f91179966265b918ca90997ab484ea4d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 23/24] fix: printf pads for the exponent it prints

---
 printf-hooks/printf_dfp.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 78fbca9..a27eb4c 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -758,6 +758,12 @@ __printf_dfp (FILE *fp,
       exp = mw + exp - decpt;
     }
 
+  /* The C spec says that for %e, if the value is zero the exponent is zero.
+   * This isn't true for the DFP spec for %a so make sure to check info->spec
+   * and not spec since it could have promoted 'a' to 'e'.  */
+  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
+    exp = 0;
+
   /* Remove trailing zeroes for %g */
   if (tolower(info->spec) == 'g' && !info->alt)
     {
@@ -787,7 +793,7 @@ __printf_dfp (FILE *fp,
   if (spec != 'f')
     {
       width -= 3;
-      if (0!=(exp/10) || spec!='a') --width;
+      if (0!=(exp/10) || tolower(info->spec) != 'a') --width;
       if (0!=(exp/100)) --width;
       if (0!=(exp/1000)) --width;
     }
@@ -851,12 +857,6 @@ __printf_dfp (FILE *fp,
   /* print decimal point, if needed */
   if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
 
-  /* The C spec says that for %e, if the value is zero the exponent is zero.
-   * This isn't true for the DFP spec for %a so make sure to check info->spec
-   * and not spec since it could have promoted 'a' to 'e'.  */
-  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
-    exp = 0;
-
   /* Don't display the exponent part for 'f' because it is never used and don't
    * do it for 'g' if the value is zero.  */
   if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
-- 
2.43.0


From 9c5004af43ee620b810b756d96399985a8f157a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 24/24] fix: strfromdN terminates a buffer of one character

---
 stdlib/strfromd32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index f66a1c5..5658c29 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -84,5 +84,9 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
   }
 
   fclose (f);
+
+  /* A stream of one character does not terminate it.  */
+  if (n == 1)
+    s[0] = '\0';
   return num;
 }
-- 
2.43.0

