From 503f4d54bfb5bde93016e6b8e80a4de0c6d203fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 01/39] fix: FSim with theta near an odd multiple of pi dropped
 the -1 phases

---
 src/qbdt/tree.cpp       | 2 +-
 src/qengine/qengine.cpp | 4 ++--
 src/qpager.cpp          | 2 +-
 src/qstabilizer.cpp     | 4 ++++
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 671a62e..498a615 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -759,7 +759,7 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1_f sinTheta = sin(theta);
-    if ((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) {
+    if (((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) && (cos(theta) > ZERO_R1_F)) {
         return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
     }
 
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..858f395 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -448,8 +448,8 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
     }
 
     const real1 sinTheta = (real1)sin(theta);
-    if ((sinTheta * sinTheta) > FP_NORM_EPSILON) {
-        const real1 cosTheta = (real1)cos(theta);
+    const real1 cosTheta = (real1)cos(theta);
+    if (((sinTheta * sinTheta) > FP_NORM_EPSILON) || (cosTheta < ZERO_R1)) {
         const complex fSimSwap[4U]{ complex(cosTheta, ZERO_R1), complex(ZERO_R1, -sinTheta),
             complex(ZERO_R1, -sinTheta), complex(cosTheta, ZERO_R1) };
         const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 80c4428..6107c6a 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1423,7 +1423,7 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1 sinTheta = (real1)sin(theta);
 
-    if ((sinTheta * sinTheta) <= FP_NORM_EPSILON) {
+    if (((sinTheta * sinTheta) <= FP_NORM_EPSILON) && (cos(theta) > ZERO_R1_F)) {
         return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
     }
 
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..7243043 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -2358,6 +2358,10 @@ void QStabilizer::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt q
     real1 sinTheta = (real1)sin(theta);
 
     if (IS_0_R1(sinTheta)) {
+        if (cos(theta) < ZERO_R1_F) {
+            Z(qubit1);
+            Z(qubit2);
+        }
         return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
     }
 
-- 
2.43.0


From 41cd391a7dcada87dc34c2ab632efeba23ac18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 02/39] fix: QPager and QBdt FSim applied the conditional phase
 with the wrong sign

---
 src/qbdt/tree.cpp | 4 ++--
 src/qpager.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 498a615..a4d2435 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -760,10 +760,10 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1_f sinTheta = sin(theta);
     if (((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) && (cos(theta) > ZERO_R1_F)) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
     const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
         ISwap(qubit1, qubit2);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 6107c6a..b7d0709 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1424,10 +1424,10 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
     const real1 sinTheta = (real1)sin(theta);
 
     if (((sinTheta * sinTheta) <= FP_NORM_EPSILON) && (cos(theta) > ZERO_R1_F)) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
 
     const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
-- 
2.43.0


From c233b363306054951265ac55ae7f6f27e69d2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 03/39] fix: adding 2^length with carry (all ones plus
 carry-in) lost the carry-out

---
 include/qinterface.hpp |  8 ++++++++
 src/qalu.cpp           | 24 ++++++++++++++++++++++++
 src/qunit.cpp          | 16 +++++++++++++---
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..a6ddabf 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2144,6 +2144,10 @@ public:
     virtual void INCC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
     {
         const bool hasCarry = M(carryIndex);
+        if (hasCarry && (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0)) {
+            // The register is unchanged, and the carry is set, both in and out.
+            return;
+        }
         if (hasCarry) {
             X(carryIndex);
             INCDECC(toAdd + 1U, start, length, carryIndex);
@@ -2156,6 +2160,10 @@ public:
     virtual void DECC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
     {
         const bool hasCarry = M(carryIndex);
+        if (hasCarry && (bi_compare_0(toSub & pow2Mask(length)) == 0)) {
+            // The register is unchanged, and the carry is set, both in and out.
+            return;
+        }
         bitCapInt invToSub = pow2(length) - toSub;
         if (hasCarry) {
             X(carryIndex);
diff --git a/src/qalu.cpp b/src/qalu.cpp
index 0f825a3..7cdc0a4 100644
--- a/src/qalu.cpp
+++ b/src/qalu.cpp
@@ -50,6 +50,10 @@ void QAlu::INCC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLe
     }
 
     const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
     if (hasCarry) {
         X(carryIndex);
         INCDECC(toAdd + 1U, start, length, carryIndex);
@@ -62,6 +66,10 @@ void QAlu::INCC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLe
 void QAlu::DECC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
 {
     const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0(toSub & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
         X(carryIndex);
@@ -82,6 +90,10 @@ void QAlu::INCSC(
     const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex, bitLenInt carryIndex)
 {
     const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
     if (hasCarry) {
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, overflowIndex, carryIndex);
@@ -99,6 +111,10 @@ void QAlu::DECSC(
     const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex, bitLenInt carryIndex)
 {
     const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0(toSub & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
         X(carryIndex);
@@ -118,6 +134,10 @@ void QAlu::DECSC(
 void QAlu::INCSC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
 {
     const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
     if (hasCarry) {
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, carryIndex);
@@ -135,6 +155,10 @@ void QAlu::INCSC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitL
 void QAlu::DECSC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
 {
     const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0(toSub & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
         X(carryIndex);
diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..5bf5dba 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3103,9 +3103,14 @@ void QUnit::INC(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
 /// Add integer (without sign, with carry)
 void QUnit::INCC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, bitLenInt carryIndex)
 {
-    if (M(carryIndex)) {
+    const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
+    if (hasCarry) {
         X(carryIndex);
-        INT(toAdd + 1, inOutStart, length, carryIndex, true);
+        INT(toAdd + 1U, inOutStart, length, carryIndex, true);
     } else {
         INT(toAdd, inOutStart, length, carryIndex, true);
     }
@@ -3114,8 +3119,13 @@ void QUnit::INCC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length,
 /// Subtract integer (without sign, with carry)
 void QUnit::DECC(const bitCapInt& toSub, bitLenInt inOutStart, bitLenInt length, bitLenInt carryIndex)
 {
+    const bool hasCarry = M(carryIndex);
+    if (hasCarry && (bi_compare_0(toSub & pow2Mask(length)) == 0)) {
+        // The register is unchanged, and the carry is set, both in and out.
+        return;
+    }
     bitCapInt invToSub = pow2(length) - toSub;
-    if (M(carryIndex)) {
+    if (hasCarry) {
         X(carryIndex);
     } else {
         --invToSub;
-- 
2.43.0


From c56a8987ad97cf8d2afbc7be8bce4773edc2545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 04/39] fix: QEngineCPU::IndexedSBC skipped valueLength bits
 above the carry instead of just the carry

---
 src/qengine/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..1e6e3ec 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -1122,7 +1122,7 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
     const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) & (~(inputMask | outputMask | carryMask));
     const bitCapIntOcl skipPower = pow2Ocl(carryIndex);
 
-    par_for_skip(0, maxQPowerOcl, skipPower, valueLength, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, skipPower, 1, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         // These are qubits that are not directly involved in the
         // operation. We iterate over all of their possibilities, but their
         // input value matches their output value:
-- 
2.43.0


From db48134ba7f05317586a53a8be6b5730fcb65cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 05/39] fix: QInterface::INCDECC offset the carry index by the
 register start

---
 src/qinterface/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index e80f5b6..d16bb6b 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -68,7 +68,7 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
         }
         X(start + i);
         for (bitLenInt j = 0U; j < (length - i); ++j) {
-            const bitLenInt target = start + (((i + j + 1U) == length) ? carryIndex : ((i + j + 1U) % length));
+            const bitLenInt target = ((i + j + 1U) == length) ? carryIndex : (start + i + j + 1U);
             MACInvert(
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
-- 
2.43.0


From 77e9f6c61cd7c01ef2401dad067e2925ba863278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 06/39] fix: ADC and CADC on more than one bit chained the
 carry through the wrong qubits

---
 src/qinterface/arithmetic.cpp | 60 ++++++++---------------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index d16bb6b..166d4c6 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -333,18 +333,11 @@ void QInterface::ADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLe
         return;
     }
 
-    FullAdd(input1, input2, carry, output);
-
-    if (length == 1U) {
-        return Swap(carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1U; i < end; ++i) {
-        FullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    // Each full adder leaves the sum in "carry" and the carry-out in the (0 state) output bit.
+    for (bitLenInt i = 0U; i < length; ++i) {
+        FullAdd(input1 + i, input2 + i, carry, output + i);
+        Swap(carry, output + i);
     }
-    FullAdd(input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
@@ -353,19 +346,10 @@ void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitL
         return;
     }
 
-    if (length == 1U) {
-        Swap(carry, output);
-
-        return IFullAdd(input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    IFullAdd(input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        IFullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        Swap(carry, output + i - 1U);
+        IFullAdd(input1 + i - 1U, input2 + i - 1U, carry, output + i - 1U);
     }
-    IFullAdd(input1, input2, carry, output);
 }
 
 void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
@@ -375,18 +359,11 @@ void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    CFullAdd(controls, input1, input2, carry, output);
-
-    if (length == 1) {
-        return CSwap(controls, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1; i < end; ++i) {
-        CFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    // Each full adder leaves the sum in "carry" and the carry-out in the (0 state) output bit.
+    for (bitLenInt i = 0U; i < length; ++i) {
+        CFullAdd(controls, input1 + i, input2 + i, carry, output + i);
+        CSwap(controls, carry, output + i);
     }
-    CFullAdd(controls, input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
@@ -396,19 +373,10 @@ void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    if (length == 1U) {
-        CSwap(controls, carry, output);
-
-        return CIFullAdd(controls, input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    CIFullAdd(controls, input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        CIFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        CSwap(controls, carry, output + i - 1U);
+        CIFullAdd(controls, input1 + i - 1U, input2 + i - 1U, carry, output + i - 1U);
     }
-    CIFullAdd(controls, input1, input2, carry, output);
 }
 
 } // namespace Qrack
-- 
2.43.0


From 9e1c39e47fef085a318459b2c5ca832ab3f31651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 07/39] fix: multi-qubit measurement picked an impossible
 outcome when the random draw was 0

---
 src/qengine/qengine.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 858f395..5479a40 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -166,7 +166,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
     ProbMaskAll(regMask, probArray.get());
 
     bitCapIntOcl lcv = 0U;
-    real1 lowerProb = probArray[0U];
+    real1 lowerProb = ZERO_R1;
     bitCapIntOcl result = lengthPower - 1U;
 
     /*
@@ -175,17 +175,13 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
      * vector.
      */
     real1 nrmlzr = ONE_R1;
-    while ((lowerProb < prob) && (lcv < lengthPower)) {
-        ++lcv;
+    while ((lowerProb <= prob) && (lcv < lengthPower)) {
         lowerProb += probArray[lcv];
         if (probArray[lcv] > ZERO_R1) {
             nrmlzr = probArray[lcv];
             result = lcv;
         }
-    }
-    if (lcv < lengthPower) {
-        nrmlzr = probArray[lcv];
-        result = lcv;
+        ++lcv;
     }
 
     probArray.reset();
@@ -519,7 +515,7 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
          * in a bug-induced topology - some value in stateVec must always be a
          * vector.
          */
-        while ((lowerProb < prob) && (lcv < lengthPower)) {
+        while ((lowerProb <= prob) && (lcv < lengthPower)) {
             lowerProb += (real1_f)probArray[lcv];
             if (probArray[lcv] > ZERO_R1) {
                 nrmlzr = probArray[lcv];
-- 
2.43.0


From 8e7a9e358a2eeead3ef487aee7f96933c1f40b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 08/39] fix: QEngine::ForceM ignored the forced value for a
 single qubit

---
 src/qengine/qengine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 5479a40..6a875a4 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
-- 
2.43.0


From db4dcf717b9e944f1671e778cf39a4c3f7609e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 09/39] fix: bi_div_mod must round the divisor's logarithm up
 (quotient and remainder were wrong when the shifted divisor exceeded the
 remainder)

---
 src/common/big_integer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index 2155e6b..f15230e 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -280,7 +280,8 @@ void bi_div_mod(const BigInteger& left, const BigInteger& right, BigInteger* quo
     BigInteger bi1 = 1U;
     int rightLog2 = bi_log2(right);
     BigInteger rightTest = bi1 << rightLog2;
-    if (bi_compare(right, rightTest) < 0) {
+    if (bi_compare(right, rightTest) > 0) {
+        // Round up, so that the shifted divisor never exceeds the remainder.
         ++rightLog2;
     }
     BigInteger rem;
-- 
2.43.0


From a3757da28b27925910ba492e4c837e2e0a98008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 10/39] fix: BigInteger multiplication by zero, and partial
 products whose top bit is shifted out

---
 src/common/big_integer.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index f15230e..44967f5 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -60,18 +60,14 @@ BigInteger operator*(const BigInteger& left, BIG_INTEGER_HALF_WORD right)
 // Complexity - O(log of bits)
 BigInteger operator*(const BigInteger& left, const BigInteger& right)
 {
-    int rightLog2 = bi_log2(right);
-
-    if (rightLog2 == 0) {
+    if (bi_compare_1(right) == 0) {
         // right == 1
         return left;
     }
 
-    int maxI = BIG_INTEGER_BITS - rightLog2;
-
     BigInteger result;
     bi_set_0(&result);
-    for (int i = 0; i < maxI; ++i) {
+    for (int i = 0; i < (int)BIG_INTEGER_BITS; ++i) {
         BigInteger partMul = right << i;
         if (bi_compare_0(partMul) == 0) {
             break;
-- 
2.43.0


From 2eb3fa57c35a25badb0ad9722ff5e9fc059beabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 11/39] fix: BigInteger operator+ and operator- dropped the
 left high word and carries into a full word

---
 include/common/big_integer.hpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index 2aee61f..fd4769b 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -162,18 +162,6 @@ inline int bi_compare_1(const BigInteger& left)
     return 0;
 }
 
-inline BigInteger operator+(const BigInteger& left, const BigInteger& right)
-{
-    BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] + right.bits[i];
-        result.bits[i + 1] = (result.bits[i] < left.bits[i]) ? 1 : 0;
-    }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] += right.bits[BIG_INTEGER_MAX_WORD_INDEX];
-    return result;
-}
-
 inline void bi_add_ip(BigInteger* left, const BigInteger& right)
 {
     for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
@@ -187,15 +175,10 @@ inline void bi_add_ip(BigInteger* left, const BigInteger& right)
     left->bits[BIG_INTEGER_MAX_WORD_INDEX] += right.bits[BIG_INTEGER_MAX_WORD_INDEX];
 }
 
-inline BigInteger operator-(const BigInteger& left, const BigInteger& right)
+inline BigInteger operator+(const BigInteger& left, const BigInteger& right)
 {
-    BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] - right.bits[i];
-        result.bits[i + 1] = (result.bits[i] > left.bits[i]) ? -1 : 0;
-    }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] -= right.bits[BIG_INTEGER_MAX_WORD_INDEX];
+    BigInteger result = left;
+    bi_add_ip(&result, right);
     return result;
 }
 
@@ -212,6 +195,13 @@ inline void bi_sub_ip(BigInteger* left, const BigInteger& right)
     left->bits[BIG_INTEGER_MAX_WORD_INDEX] -= right.bits[BIG_INTEGER_MAX_WORD_INDEX];
 }
 
+inline BigInteger operator-(const BigInteger& left, const BigInteger& right)
+{
+    BigInteger result = left;
+    bi_sub_ip(&result, right);
+    return result;
+}
+
 inline void bi_increment(BigInteger* pBigInt, const BIG_INTEGER_WORD& value)
 {
     BIG_INTEGER_WORD temp = pBigInt->bits[0];
-- 
2.43.0


From 0dde76710be32d99475810faca0d7dc0bbe6b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 12/39] fix: BigInteger borrow starts at the second word

---
 include/common/big_integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index fd4769b..47439bc 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -228,7 +228,7 @@ inline void bi_decrement(BigInteger* pBigInt, const BIG_INTEGER_WORD& value)
         return;
     }
 
-    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; i++) {
+    for (int i = 1; i < BIG_INTEGER_WORD_SIZE; i++) {
         temp = pBigInt->bits[i]--;
         if (temp >= pBigInt->bits[i]) {
             break;
-- 
2.43.0


From c54c5e297681d322fc2ac29e6f9b72c8a0561be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 13/39] fix: in-place whole-word left shift copied words it had
 already overwritten

---
 include/common/big_integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index 47439bc..ca20ec7 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -268,7 +268,7 @@ inline void bi_lshift_word_ip(BigInteger* left, BIG_INTEGER_WORD rightMult)
         return;
     }
 
-    for (int i = rightMult; i < BIG_INTEGER_WORD_SIZE; ++i) {
+    for (int i = BIG_INTEGER_MAX_WORD_INDEX; i >= (int)rightMult; --i) {
         left->bits[i] = left->bits[i - rightMult];
     }
     for (BIG_INTEGER_WORD i = 0U; i < rightMult; ++i) {
-- 
2.43.0


From 71ac49ad43ceb75e9e7a85640648193174cb469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 14/39] fix: printing a nonzero bitCapInt never terminated

---
 src/common/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index b5d28b1..9bb5c26 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -287,7 +287,7 @@ std::ostream& operator<<(std::ostream& os, const bitCapInt& b)
     // Calculate the base-10 digits, from lowest to highest.
     std::vector<std::string> digits;
     bitCapInt _b = b;
-    while (bi_compare_0(b) != 0) {
+    while (bi_compare_0(_b) != 0) {
         bitCapInt quo;
 #ifdef __SIZEOF_INT128__
         uint64_t rem;
-- 
2.43.0


From 97368a078b89c4eb4d6ce07ef1333a9e3c6822c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 15/39] fix: popCountOcl counted only the low 32 bits

---
 include/common/qrack_functions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index dac76b7..69f9265 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -118,7 +118,11 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 #if CPP_STD >= 20
     return (bitLenInt)std::popcount(n);
 #elif (defined(__GNUC__) || defined(__clang__)) && !TARGET_OS_IPHONE && !TARGET_IPHONE_SIMULATOR
+#if UINTPOW < 6
     return __builtin_popcount(n);
+#else
+    return __builtin_popcountll(n);
+#endif
 #else
     bitLenInt popCount;
     for (popCount = 0U; n; ++popCount) {
-- 
2.43.0


From caf2bb0a50b4a42b6118a715c037cdd0face9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 16/39] fix: log2 of a bitCapInt above 64 bits looked only at
 the low word

---
 include/common/qrack_functions.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index 69f9265..d68decd 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -133,7 +133,16 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 }
 
 #if (QBCAPPOW < 7) || ((QBCAPPOW < 8) && defined(__SIZEOF_INT128__))
-inline int bi_log2(const bitCapInt& n) { return log2Ocl(n); }
+inline int bi_log2(const bitCapInt& n)
+{
+#if QBCAPPOW > UINTPOW
+    constexpr int oclBits = 1 << UINTPOW;
+    if (n >> oclBits) {
+        return oclBits + log2Ocl((bitCapIntOcl)(n >> oclBits));
+    }
+#endif
+    return log2Ocl((bitCapIntOcl)n);
+}
 #endif
 inline bitLenInt log2(bitCapInt n) { return (bitLenInt)bi_log2(n); }
 
-- 
2.43.0


From 34b6bf290af805245de05e082dbda177db9b9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 17/39] fix: default ProbReg shifts the register value to its
 start index

---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..ff1d512 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -267,7 +267,7 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= ((lcv ^ i) << length) | (p << start);
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From e512bafc67f50b20b853ac6852e4276e4a8a6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 18/39] fix: QEngine::ForceM of several forced bits respects
 doApply

---
 src/qengine/qengine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 6a875a4..dd8a6fe 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -147,7 +147,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
         }
         real1_f nrmlzr = ProbMask(regMask, result);
         complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
             ApplyM(regMask, (bitCapInt)result, nrm);
         }
 
-- 
2.43.0


From 612e14d2cddbb6c63cc35b94f4b2ec592249b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 19/39] fix: default ForceM without collapse returns a mask of
 the measured qubits

---
 src/qinterface/qinterface.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index ff1d512..5fe5bc6 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -255,7 +255,16 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
     std::vector<bitCapInt> qPowers(bits.size());
     std::transform(bits.begin(), bits.end(), qPowers.begin(), pow2);
 
-    return MultiShotMeasureMask(qPowers, 1).begin()->first;
+    // The sample is indexed by position in "bits"; the result is a mask of the qubits themselves.
+    const bitCapInt sample = MultiShotMeasureMask(qPowers, 1).begin()->first;
+    bitCapInt result = ZERO_BCI;
+    for (size_t bit = 0U; bit < bits.size(); ++bit) {
+        if (bi_compare_0(sample & pow2(bit)) != 0) {
+            bi_or_ip(&result, qPowers[bit]);
+        }
+    }
+
+    return result;
 }
 
 /// Returns probability of permutation of the register
-- 
2.43.0


From e3a9a2a575d2f3b97f27ff6c35caf3d56884250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 20/39] fix: ForceMParity never draws an odd outcome of zero
 probability

---
 src/qengine/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..4d272a3 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1565,7 +1565,8 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
     }
 
     if (!doForce) {
-        result = (Rand() <= ProbParity(mask));
+        const real1_f oddProb = ProbParity(mask);
+        result = (Rand() <= oddProb) && (oddProb > ZERO_R1_F);
     }
 
     real1 oddChance = ZERO_R1;
-- 
2.43.0


From c673c6ceab558ce9fea7a8e2fa2107426ef06127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 21/39] fix: QEngineCPU Decompose/Dispose take relative phases
 from inner products, not averaged angles

---
 src/qengine/state.cpp | 112 ++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 76 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 4d272a3..457fa51 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -12,6 +12,7 @@
 
 #include "qengine_cpu.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 
@@ -1161,90 +1162,49 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     // Note that the extra parentheses mean to init as 0:
     std::unique_ptr<real1[]> remainderStateProb(new real1[remainderPower]());
     std::unique_ptr<real1[]> remainderStateAngle(new real1[remainderPower]());
-    std::unique_ptr<real1[]> partStateProb;
-    std::unique_ptr<real1[]> partStateAngle;
-    if (destination) {
-        partStateProb = std::unique_ptr<real1[]>(new real1[partPower]());
-        partStateAngle = std::unique_ptr<real1[]>(new real1[partPower]());
-    }
+    std::unique_ptr<real1[]> partStateProb(new real1[partPower]());
+    std::unique_ptr<real1[]> partStateAngle(new real1[partPower]());
 
     if (doNormalize) {
         NormalizeState();
     }
     Finish();
 
-    if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
-
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                partStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-
-            const real1 prob = partStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                partStateAngle[lcv] /= prob;
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
+    const bitCapIntOcl startMask = pow2MaskOcl(start);
+    const auto readPair = [&](const bitCapIntOcl& remainder, const bitCapIntOcl& part) {
+        const bitCapIntOcl low = remainder & startMask;
+        return stateVec->read(low | (part << start) | ((remainder ^ low) << length));
+    };
 
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            remainderStateProb[lcv] += norm(readPair(lcv, k));
+        }
+    });
+    par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
+            partStateProb[lcv] += norm(readPair(k, lcv));
+        }
+    });
 
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    }
+    // Angles wrap around at +/- PI, so they can't be averaged: take relative phases from inner products, instead.
+    const bitCapIntOcl refPart =
+        std::max_element(partStateProb.get(), partStateProb.get() + partPower) - partStateProb.get();
+    par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        if ((lcv == refPart) || (partStateProb[lcv] <= amplitudeFloor)) {
+            return;
+        }
+        complex inner = ZERO_CMPLX;
+        for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
+            inner += conj(readPair(k, refPart)) * readPair(k, lcv);
+        }
+        partStateAngle[lcv] = arg(inner);
+    });
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        if (remainderStateProb[lcv] > amplitudeFloor) {
+            remainderStateAngle[lcv] = arg(readPair(lcv, refPart));
+        }
+    });
 
     if (destination) {
         destination->Dump();
-- 
2.43.0


From 6ee705f2cb83bbe9918a4b237d12684eacdccc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 22/39] fix: QEngineCPU::Dispose of every qubit leaves zero
 qubits, not one with half its amplitudes

---
 src/qengine/state.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 457fa51..3abfbd3 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1270,13 +1270,9 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
         nStateVec->write(iHigh, stateVec->read(iLow | ((iHigh ^ iLow) << (bitCapIntOcl)length) | disposedRes));
     });
 
-    if (!nLength) {
-        SetQubitCount(1U);
-    } else {
-        SetQubitCount(nLength);
-    }
+    SetQubitCount(nLength);
 
-    ResetStateVec(nStateVec);
+    ResetStateVec(nLength ? nStateVec : nullptr);
 }
 
 /// PSEUDO-QUANTUM Direct measure of bit probability to be in |1> state
-- 
2.43.0


From f3673107cac370fdc90e26068bb60219da4d2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 23/39] fix: default Compose returns the start index at which
 it inserts

---
 src/qinterface/qinterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 5fe5bc6..4ac3df7 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -412,10 +412,10 @@ bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
 
     const bitLenInt origSize = qubitCount;
     ROL(origSize - start, 0, qubitCount);
-    const bitLenInt result = Compose(toCopy);
+    Compose(toCopy);
     ROR(origSize - start, 0, qubitCount);
 
-    return result;
+    return start;
 }
 
 std::map<QInterfacePtr, bitLenInt> QInterface::Compose(std::vector<QInterfacePtr> toCopy)
-- 
2.43.0


From a2800736d1d30b24a5f466409594f8307c73e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 24/39] fix: QEngineCPU::Copy carries over the running norm

---
 src/qengine/utility.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..a9c21d2 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -43,7 +43,13 @@ QEnginePtr QEngineCPU::CloneEmpty()
 
 QInterfacePtr QEngineCPU::Copy()
 {
+    if (doNormalize) {
+        NormalizeState();
+    }
+    Finish();
+
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
+    clone->runningNorm = runningNorm;
     clone->stateVec = stateVec;
 
     return clone;
-- 
2.43.0


From 86e334bbb4ea70ee79bac26663df3def80c52b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 25/39] fix: QStabilizer Y keeps the global phase for
 non-Z-eigenstates

---
 src/qstabilizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 7243043..fc85cf9 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1238,7 +1238,7 @@ void QStabilizer::X(bitLenInt t)
 void QStabilizer::Y(bitLenInt t)
 {
     // Y is composed as IS, X, S, with overall -i phase
-    if (!randGlobalPhase && IsSeparableZ(t)) {
+    if (!randGlobalPhase) {
         IS(t);
         X(t);
         return S(t);
-- 
2.43.0


From 046dc274ce5b22e16b822a09e9d09c989ba4b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 26/39] fix: QStabilizer Z, S and IS track the global phase
 when it is not randomized

---
 src/qstabilizer.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index fc85cf9..9c601fb 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1274,7 +1274,7 @@ void QStabilizer::Z(bitLenInt t)
         },
         { t });
 
-    if (randGlobalPhase) {
+    if (!randGlobalPhase) {
         SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
     }
 }
@@ -1303,11 +1303,7 @@ void QStabilizer::S(bitLenInt t)
         },
         { t });
 
-    if (randGlobalPhase) {
-        return;
-    }
-
-    if (randGlobalPhase) {
+    if (!randGlobalPhase) {
         SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
     }
 }
@@ -1336,11 +1332,7 @@ void QStabilizer::IS(bitLenInt t)
         },
         { t });
 
-    if (randGlobalPhase) {
-        return;
-    }
-
-    if (randGlobalPhase) {
+    if (!randGlobalPhase) {
         SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
     }
 }
-- 
2.43.0


From f4345b010099eb308c7f5dec127112cf16dd22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 27/39] fix: QStabilizer H sets the exact global phase for
 every input state

---
 src/qstabilizer.cpp | 40 ++++++++--------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 9c601fb..94caf04 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1181,39 +1181,15 @@ void QStabilizer::H(bitLenInt t)
         return;
     }
 
-    const bool oIsSepZ = clone->IsSeparableZ(t);
-    const bool nIsSepZ = IsSeparableZ(t);
-
+    // Match the phase of any nonzero amplitude to its value by definition of the gate.
     const bitCapInt tPow = pow2(t);
-    const bitLenInt g = gaussian();
-    const bitCapInt permCountMinus1 = pow2Mask(g);
-    const bitLenInt elemCount = qubitCount << 1U;
-    const real1_f nrm = sqrt(ONE_R1_F / (real1_f)bi_to_double(pow2(g)));
-
-    seed(g);
-
-    const AmplitudeEntry entry = getBasisAmp(nrm);
-    if (nIsSepZ || (bi_compare_0(entry.permutation & tPow) == 0)) {
-        const complex oAmp = clone->GetAmplitude(oIsSepZ ? entry.permutation : (entry.permutation & ~tPow));
-        if (norm(oAmp) > FP_NORM_EPSILON) {
-            return SetPhaseOffset(phaseOffset + std::arg(oAmp) - std::arg(entry.amplitude));
-        }
-    }
-    for (bitCapInt t = ZERO_BCI; bi_compare(t, permCountMinus1) < 0; bi_increment(&t, 1U)) {
-        const bitCapInt t2 = t ^ (t + ONE_BCI);
-        for (bitLenInt i = 0U; i < g; ++i) {
-            if (bi_and_1(t2 >> i)) {
-                rowmult(elemCount, qubitCount + i);
-            }
-        }
-        const AmplitudeEntry entry = getBasisAmp(nrm);
-        if (nIsSepZ || (bi_compare_0(entry.permutation & tPow) == 0)) {
-            const complex oAmp = clone->GetAmplitude(oIsSepZ ? entry.permutation : (entry.permutation & ~tPow));
-            if (norm(oAmp) > FP_NORM_EPSILON) {
-                return SetPhaseOffset(phaseOffset + std::arg(oAmp) - std::arg(entry.amplitude));
-            }
-        }
-    }
+    const AmplitudeEntry entry = GetAnyAmplitude();
+    const bool isOne = bi_compare_0(entry.permutation & tPow) != 0;
+    const bitCapInt zeroPerm = isOne ? (entry.permutation ^ tPow) : entry.permutation;
+    const complex zeroAmp = clone->GetAmplitude(zeroPerm);
+    const complex oneAmp = clone->GetAmplitude(zeroPerm | tPow);
+    const complex oAmp = isOne ? (zeroAmp - oneAmp) : (zeroAmp + oneAmp);
+    SetPhaseOffset(phaseOffset + std::arg(oAmp) - std::arg(entry.amplitude));
 }
 
 /// Apply an X (or NOT) gate to target
-- 
2.43.0


From 19a53d633381b73d79a8b566628c214dc36112c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 28/39] fix: QStabilizer FSim uses the phase convention of the
 other back ends and accepts iSWAP

---
 src/qstabilizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 94caf04..ba97bde 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -32,7 +32,7 @@
 #endif
 
 #define IS_0_R1(r) (abs(r) <= REAL1_EPSILON)
-#define IS_1_R1(r) (abs(r) <= REAL1_EPSILON)
+#define IS_1_R1(r) (abs((r)-ONE_R1) <= REAL1_EPSILON)
 
 namespace Qrack {
 
@@ -2330,12 +2330,12 @@ void QStabilizer::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt q
             Z(qubit1);
             Z(qubit2);
         }
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
     if (IS_1_R1(-sinTheta)) {
         ISwap(qubit1, qubit2);
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
     throw std::domain_error("QStabilizer::FSim() not implemented for non-Clifford/Pauli cases!");
-- 
2.43.0


From c72e645f6290f6dcda1702c0a972d82fbf781b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 29/39] fix: QStabilizer Decompose and Dispose accept any
 separable range

Generators are ordered by leading column after elimination, so the rows
[start, start + length) are not those of the range in general.
---
 src/qstabilizer.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index ba97bde..10f3cd5 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1677,6 +1677,42 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
     const bitLenInt secondStart = qubitCount + start;
     const bitLenInt secondEnd = qubitCount + end;
 
+    // Complete the elimination, so that each generator acts either only inside or only outside of a separable range.
+    for (bitLenInt i = qubitCount; i < (qubitCount << 1U); ++i) {
+        const auto xPivot = std::find(x[i].begin(), x[i].end(), true);
+        const bool isX = xPivot != x[i].end();
+        const bitLenInt pivot =
+            isX ? (xPivot - x[i].begin()) : (std::find(z[i].begin(), z[i].end(), true) - z[i].begin());
+        for (bitLenInt k = qubitCount; k < i; ++k) {
+            if (isX ? x[k][pivot] : z[k][pivot]) {
+                rowmult(k, i);
+                rowmult(i - qubitCount, k - qubitCount);
+            }
+        }
+    }
+
+    // Elimination orders generators by their leading columns: move those of the range into the rows of the range.
+    const auto isInRange = [&](const bitLenInt& i) {
+        const BoolVector& xi = x[qubitCount + i];
+        const BoolVector& zi = z[qubitCount + i];
+        return (std::find(xi.begin() + start, xi.begin() + end, true) != (xi.begin() + end)) ||
+            (std::find(zi.begin() + start, zi.begin() + end, true) != (zi.begin() + end));
+    };
+    bitLenInt outer = 0U;
+    for (bitLenInt i = start; i < end; ++i) {
+        if (isInRange(i)) {
+            continue;
+        }
+        while ((outer < qubitCount) && (((outer >= start) && (outer < end)) || !isInRange(outer))) {
+            ++outer;
+        }
+        if (outer >= qubitCount) {
+            break;
+        }
+        rowswap(qubitCount + i, qubitCount + outer);
+        rowswap(i, outer);
+    }
+
     if (dest) {
         for (bitLenInt i = 0U; i < length; ++i) {
             bitLenInt j = start + i;
-- 
2.43.0


From f5f2d67a89b49632b9a10d53a2214bc9ec908633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 30/39] fix: QPager multiplication resets its output register
 on the whole state

Measuring the register page by page renormalized each page on its own.
---
 src/qpager.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index b7d0709..d482315 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1175,8 +1175,9 @@ void QPager::INCDECBCDC(const bitCapInt& toAdd, bitLenInt start, bitLenInt lengt
 #endif
 void QPager::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->MUL(toMul, inOutStart, carryStart, length); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) });
+    // The carry register is reset by measurement, which needs the whole state.
+    CombineEngines();
+    qPages[0U]->MUL(toMul, inOutStart, carryStart, length);
 }
 void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
@@ -1186,8 +1187,8 @@ void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySt
 void QPager::MULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->MULModNOut(toMul, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+    CombineEngines();
+    qPages[0U]->MULModNOut(toMul, modN, inStart, outStart, length);
 }
 void QPager::IMULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
@@ -1198,8 +1199,8 @@ void QPager::IMULModNOut(
 void QPager::POWModNOut(
     const bitCapInt& base, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->POWModNOut(base, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+    CombineEngines();
+    qPages[0U]->POWModNOut(base, modN, inStart, outStart, length);
 }
 void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1208,9 +1209,8 @@ void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryS
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
-    CombineAndOpControlled([&](QEnginePtr engine) { engine->CMUL(toMul, inOutStart, carryStart, length, controls); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) },
-        controls);
+    CombineEngines();
+    qPages[0U]->CMUL(toMul, inOutStart, carryStart, length, controls);
 }
 void QPager::CDIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1230,9 +1230,8 @@ void QPager::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenIn
         return MULModNOut(toMul, modN, inStart, outStart, length);
     }
 
-    CombineAndOpControlled(
-        [&](QEnginePtr engine) { engine->CMULModNOut(toMul, modN, inStart, outStart, length, controls); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
+    CombineEngines();
+    qPages[0U]->CMULModNOut(toMul, modN, inStart, outStart, length, controls);
 }
 void QPager::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
-- 
2.43.0


From 5a0cd80d699c9310a7db7104c2c56a78e93ca836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 31/39] fix: QPager and QBdt FSim treat only angles within
 rounding of pi/2 as iSWAP

The comparison of the sine with one accepted angles up to one degree off.
---
 src/qbdt/tree.cpp | 8 ++++----
 src/qpager.cpp    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index a4d2435..0e6bcc2 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -764,15 +764,15 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
     }
 
     const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
-    const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
-    if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
+    const real1_f cosTheta = cos(theta);
+    const bool isSwapLike = (cosTheta * cosTheta) <= FP_NORM_EPSILON_F;
+    if (isSwapLike && (sinTheta < ZERO_R1_F)) {
         ISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const real1_f sinThetaDiffPos = ONE_R1_F - sinTheta;
-    if ((sinThetaDiffPos * sinThetaDiffPos) <= FP_NORM_EPSILON_F) {
+    if (isSwapLike) {
         IISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index d482315..b373ca4 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1428,15 +1428,15 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
 
     const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
 
-    const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
-    if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
+    const real1 cosTheta = (real1)cos(theta);
+    const bool isSwapLike = (cosTheta * cosTheta) <= FP_NORM_EPSILON;
+    if (isSwapLike && (sinTheta < ZERO_R1)) {
         ISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const real1 sinThetaDiffPos = ONE_R1 - sinTheta;
-    if ((sinThetaDiffPos * sinThetaDiffPos) <= FP_NORM_EPSILON) {
+    if (isSwapLike) {
         IISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
-- 
2.43.0


From 5bc40eed5571096b5f774c1543e1d4a17013a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 32/39] fix: QPager constructor prepares its initial
 permutation

---
 src/qpager.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index b373ca4..f77042a 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -30,7 +30,7 @@
 
 namespace Qrack {
 
-QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCapInt& _initState,
+QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCapInt& initState,
     qrack_rand_gen_ptr rgp, const complex& phaseFac, bool ignored, bool ignored2, bool useHostMem, int64_t deviceId,
     bool useHardwareRNG, bool useSparseStateVec, real1_f norm_thresh, std::vector<int64_t> devList,
     bitLenInt qubitThreshold, real1_f sep_thresh)
@@ -51,20 +51,10 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
         return;
     }
 
-    const bitCapInt initState = maxQPower + ONE_BCI;
-    const bitCapIntOcl initStateOcl = (bitCapIntOcl)initState;
-    bitCapIntOcl pagePerm = basePageMaxQPower;
     for (bitCapIntOcl i = 0U; i < basePageCount; ++i) {
-        if (bi_compare(initState, pagePerm) < 0) {
-            // Init state is in this page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-            qPages.back()->SetPermutation(initStateOcl - (pagePerm - basePageMaxQPower));
-        } else {
-            // Init state is in a higher page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-        }
-        pagePerm += basePageMaxQPower;
+        qPages.push_back(MakeEngine(baseQubitsPerPage, i));
     }
+    SetPermutation(initState, phaseFac);
 }
 
 QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCapInt& initState,
-- 
2.43.0


From cd1f2acb6d0745d5a0b8a340b1859ed14f7ebe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 33/39] fix: QPager amplitude page access spans pages correctly

---
 src/qpager.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index f77042a..65ee329 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -286,20 +286,21 @@ void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitC
     const bitCapIntOcl pageLength = (bitCapIntOcl)pageMaxQPower();
     bitCapIntOcl perm = 0U;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        if ((perm + length) < offset) {
+        const bitCapIntOcl pageStart = perm;
+        perm += pageLength;
+        if (perm <= offset) {
             continue;
         }
-        if (perm >= (offset + length)) {
+        if (pageStart >= (offset + length)) {
             break;
         }
-        const bitCapIntOcl partOffset = (perm < offset) ? (offset - perm) : 0U;
-        const bitCapIntOcl partLength = (length < pageLength) ? length : pageLength;
+        const bitCapIntOcl partStart = (pageStart < offset) ? offset : pageStart;
+        const bitCapIntOcl partEnd = ((offset + length) < perm) ? (offset + length) : perm;
         if (cPagePtr) {
-            qPages[i]->SetAmplitudePage(cPagePtr, partOffset, partLength);
+            qPages[i]->SetAmplitudePage(cPagePtr + (partStart - offset), partStart - pageStart, partEnd - partStart);
         } else {
-            qPages[i]->GetAmplitudePage(pagePtr, partOffset, partLength);
+            qPages[i]->GetAmplitudePage(pagePtr + (partStart - offset), partStart - pageStart, partEnd - partStart);
         }
-        perm += pageLength;
     }
 }
 
-- 
2.43.0


From e5a128591fbb08256a8ee105ac7be68dadb3d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 34/39] fix: QPager Decompose returns a simulator of the
 range's length

---
 src/qpager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 65ee329..60b47bb 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -703,8 +703,9 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
-    QPagerPtr dest = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor);
+    QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
+        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+        deviceIDs, thresholdQubitsPerPage);
 
     Decompose(start, dest);
 
-- 
2.43.0


From 568562edc6dd00b18105136b7e21b871dc1271e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:29 +0000
Subject: [PATCH 35/39] fix: QPager Copy does not share its pages with the
 original

---
 src/qpager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 60b47bb..2064be2 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1620,7 +1620,7 @@ QInterfacePtr QPager::Copy()
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Copy());
+        clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Clone());
     }
     return clone;
 }
-- 
2.43.0


From a2ea1bb24ac3f2503ff021274190d4500a975f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:29 +0000
Subject: [PATCH 36/39] fix: QPager Compose and Allocate work on an empty
 simulator

---
 src/qpager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 2064be2..98f94a1 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -618,6 +618,15 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
             "Cannot instantiate a QPager with greater capacity than environment variable QRACK_MAX_PAGING_QB.");
     }
 
+    if (!qubitCount) {
+        qPages = std::dynamic_pointer_cast<QPager>(toCopy->Clone())->qPages;
+        SetQubitCount(nQubitCount);
+        CombineEngines(thresholdQubitsPerPage);
+        SeparateEngines();
+
+        return toRet;
+    }
+
     if (nQubitCount <= thresholdQubitsPerPage) {
         CombineEngines();
         toCopy->CombineEngines();
-- 
2.43.0


From 7c5b95502a7b6069c9743f8f859d7f27eb0523b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 37/39] fix: QPager comparison sums the overlap over pages
 before squaring

---
 src/qpager.cpp | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 98f94a1..359968e 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1646,38 +1646,11 @@ real1_f QPager::SumSqrDiff(QPagerPtr toCompare)
         return ONE_R1_F;
     }
 
-    SeparateEngines(toCompare->qubitsPerPage());
-    toCompare->SeparateEngines(qubitsPerPage());
-    CombineEngines(toCompare->qubitsPerPage());
-    toCompare->CombineEngines(qubitsPerPage());
-
-    real1_f toRet = ZERO_R1_F;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr lEngine = qPages[i];
-        QEnginePtr rEngine = toCompare->qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            toRet += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [lEngine, rEngine]() { return lEngine->SumSqrDiff(rEngine); });
-#else
-        toRet += lEngine->SumSqrDiff(rEngine);
-#endif
-    }
-
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        toRet += future.get();
-    }
-#endif
+    // The overlap is a sum over all pages before it is squared.
+    CombineEngines();
+    toCompare->CombineEngines();
 
-    return toRet;
+    return qPages[0U]->SumSqrDiff(toCompare->qPages[0U]);
 }
 
 } // namespace Qrack
-- 
2.43.0


From 8ff9c304ec2800f212ac0a6a13415c4ff0e3caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 38/39] fix: QPager keeps its native amplitude count in step
 with its qubit count

---
 include/qpager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 7a73271..3977c16 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -51,7 +51,7 @@ protected:
 
     void SetQubitCount(bitLenInt qb)
     {
-        QInterface::SetQubitCount(qb);
+        QEngine::SetQubitCount(qb);
         baseQubitsPerPage = (qubitCount < thresholdQubitsPerPage) ? qubitCount : thresholdQubitsPerPage;
         basePageCount = pow2Ocl(qubitCount - baseQubitsPerPage);
         basePageMaxQPower = pow2Ocl(baseQubitsPerPage);
-- 
2.43.0


From 188de814a5ba744265c0c5a903c8fde2c4bc79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 39/39] fix: QPager control masks hold more than 8 page qubits

---
 src/qpager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 359968e..3287d94 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -556,7 +556,7 @@ void QPager::SemiMetaControlled(
 {
     const bitLenInt qpp = qubitsPerPage();
 
-    std::vector<bitLenInt> sortedMasks(controls.size());
+    std::vector<bitCapIntOcl> sortedMasks(controls.size());
 
     bitCapIntOcl controlMask = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
-- 
2.43.0

