From d3450c897df5efefafaae8cc7058c866bc2abb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 01/62] fix: NchooseK overflowed through factorials for N>20

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 532ebef..bc20171 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -85,8 +85,14 @@ template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
   if (K * 2 > N) {
     return NchooseK<num_t>(N, N - K);
-  } else
-    return fractorial<num_t>(N) / (fractorial<num_t>(K) * fractorial<num_t>(N - K));
+  } else {
+    // N! overflows much earlier than C^K_N does, so multiply and divide step by step.
+    num_t result = 1;
+    for (num_t i = 1; i <= K; i++) {
+      result = result * (N - K + i) / i;
+    }
+    return result;
+  }
 }
 /*
 namespace internal
-- 
2.43.0


From b64760c118bbd5e1c06d25fb5f5be17c1c061406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 02/62] fix: the global random generator was shared between
 OpenMP threads without synchronization

---
 HeuristicFlow/src/Global/Randoms.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index 51f66fc..d5cf2c7 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -62,9 +62,9 @@ inline std::mt19937& global_mt19937() noexcept {
   static auto now = std::chrono::system_clock::now();
   static std::time_t time = std::chrono::system_clock::to_time_t(now);
   static uint32_t seed = std::hash<std::time_t>()(time);
-  static std::mt19937 mt(seed);
+  static thread_local std::mt19937 mt(seed);
 #else
-  static std::mt19937 mt(global_random_device()());
+  static thread_local std::mt19937 mt(global_random_device()());
 #endif
 
   return mt;
@@ -148,14 +148,14 @@ inline int_t randIdx(int_t min, int_t max_plus_1) noexcept {
 }
 
 inline double normD() noexcept {
-  static std::normal_distribution<double> norm(0.0, 1.0);
+  static thread_local std::normal_distribution<double> norm(0.0, 1.0);
   return norm(internal::global_mt19937());
 }
 
 inline double normD(double mu, double sigma) noexcept { return normD() * sigma + mu; }
 
 inline float normF() noexcept {
-  static std::normal_distribution<float> norm(0.0f, 1.0f);
+  static thread_local std::normal_distribution<float> norm(0.0f, 1.0f);
   return norm(internal::global_mt19937());
 }
 
-- 
2.43.0


From d20f0ba29bcb1b7d883b297e2e89ee9c5b6992f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 03/62] fix: encode(float) gave a wrong code for infinities

---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index aa3950e..d77e330 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -396,9 +396,9 @@ constexpr binCode32 encode(const float d) {
 
   if (absVal(d) >= std::numeric_limits<float>::infinity()) {
     if (d > 0) {
-      return binCode32(0b11111111111UL << 23);
+      return binCode32(0b11111111UL << 23);
     } else {
-      return binCode32(0b111111111111UL << 23);
+      return binCode32(0b111111111UL << 23);
     }
   } else
     return binCode32(signCode(d) | exponentCode(d) | mantissaCode(d));
-- 
2.43.0


From fa5e9b892e879e64df58525cf13a691a86f05c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 04/62] fix: encode gave the next power of two for numbers
 whose mantissa bits are all ones

---
 .../src/Global/ConvertDoubleAndBinCode.hpp         | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index d77e330..97e82e6 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -255,11 +255,16 @@ constexpr uint64_t exponentVal(double fl) {
     code += 8;
   }
 
-  while (fl > seper) {
+  // Halving a number of the smallest normal binade may round, so the last step only counts.
+  while (fl >= 2 * std::numeric_limits<double>::min()) {
     fl /= 2;
     code++;
   }
 
+  if (fl > seper) {
+    code++;
+  }
+
   return code;
 }
 
@@ -277,11 +282,16 @@ constexpr double seper =
     code += 8;
   }
 
-  while (fl > seper) {
+  // Halving a number of the smallest normal binade may round, so the last step only counts.
+  while (fl >= 2 * std::numeric_limits<float>::min()) {
     fl /= 2;
     code++;
   }
 
+  if (fl > seper) {
+    code++;
+  }
+
   return code;
 }
 
-- 
2.43.0


From f29e94bcd168e70c157025c61aa19d04b718ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 05/62] fix: PowEncode overflowed its 54 bits for significands
 above 1.8

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 66dcc69..514a611 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -123,7 +123,7 @@ enum PowCode : uint64_t {
 
 namespace internal {
 // Multiplie val for 10 times until it gets greater than the threshold
-template <uint64_t val, uint64_t threshold = 10000000000000000ULL>
+template <uint64_t val, uint64_t threshold = 1000000000000000ULL>
 struct PowEncode_amplifier {
  private:
   static const constexpr bool need2amp = (val < threshold);
@@ -175,7 +175,7 @@ struct PowEncode_OneE<0> {
 template <int64_t significant, int16_t power>
 struct PowEncode {
  private:
-  static const constexpr uint64_t threshold = 1e16;
+  static const constexpr uint64_t threshold = 1e15;
   static const constexpr bool isNegative = significant < 0;
   static const constexpr uint64_t absVal = (isNegative) ? (-significant) : significant;
   static const constexpr bool isSigValid = (absVal / 10 < threshold);
@@ -227,7 +227,7 @@ struct PowDecode {
   static const constexpr bool isPowNegative = lowerBitMask & code;
   static const constexpr int16_t absPow = lowerPowMask & code;
   static const constexpr int16_t pow = (isPowNegative ? (-absPow) : absPow);
-  static const constexpr double digital = (sig) / (1e16);
+  static const constexpr double digital = (sig) / (1e15);
   static const constexpr double powPart = internal::PowEncode_OneE<pow>::result;
 
  public:
-- 
2.43.0


From fb7d1e213913586e97f389574182f446a18502c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 06/62] fix: setDimensions of rectangle boxes of dynamic
 vectors could not be called

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 551445a..49c1b0e 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -308,7 +308,7 @@ class NonSquareBoxDynamicDimVec : public BoxBase<NonSquareBoxDynamicDimVec<Var>,
     return int(this->min().size());
   }
 
-  inline void setDimensions(const int dim) const noexcept {
+  inline void setDimensions(const int dim) noexcept {
     assert(dim > 0);
     this->min().resize(dim);
     this->max().resize(dim);
-- 
2.43.0


From 03b9867cb754fa313baff65c7efb4eee1d83cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 07/62] fix: setDelta of rectangle boxes could not be called
 for matrices

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 49c1b0e..eb1dd77 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -539,8 +539,8 @@ class NonSquareBoxDeltaCore {
   inline Scalar_t delta(const int idx) const noexcept { return at(_deltaV, idx); }
 
   inline void setDelta(const Var_t& __delta) noexcept {
-    for (Scalar_t deltaElement : __delta) {
-      assert(deltaElement > 0);
+    for (int idx = 0; idx < int(__delta.size()); idx++) {
+      assert(at(__delta, idx) > 0);
     }
     _deltaV = __delta;
   }
-- 
2.43.0


From ac501b2f461edc5536f7a9bd3122d1aa6d46707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 08/62] fix: the mutation step of integer boxes wrapped around
 at limits of the element type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index eb1dd77..cfc690f 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -73,7 +73,12 @@ class BoxBase {
       at(*v, idx) = !at(*v, idx);
     } else {
       // integer mutation
-      at(*v, idx) += (randIdx(2) == 0) ? 1 : -1;
+      // the boundary can be a limit of the element type too, so never step over it
+      if (randIdx(2) == 0) {
+        if (at(*v, idx) < static_cast<const Derived*>(this)->max(idx)) at(*v, idx) += 1;
+      } else {
+        if (at(*v, idx) > static_cast<const Derived*>(this)->min(idx)) at(*v, idx) -= 1;
+      }
       at(*v, idx) = std::min(at(*v, idx), static_cast<const Derived*>(this)->max(idx));
       at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
     }
-- 
2.43.0


From 3d989a7538e1f09acd63c1a30cefeab122fe8428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 09/62] fix: the mutation step of compile-time continous boxes
 ignored delta

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index cfc690f..1b8d7ea 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -650,6 +650,16 @@ class FixedContinousBox20 : public FixedDiscreteBox<Var, _minCT, _maxCT> {
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var>::Scalar_t;
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 #endif
@@ -666,6 +676,16 @@ class FixedContinousBox17 : public FixedDiscreteBox17<Var, _minCode, _maxCode> {
   static_assert(_deltaCT > 0);
 
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 namespace {
-- 
2.43.0


From 88d350b5635839af774d4ff0d0bf0099302498c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 10/62] fix: one-point crossover did not compile for std
 containers

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index f88c615..3c334a3 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -49,10 +49,10 @@ struct imp_GADefaults_DVO {
     const size_t N = p1->size();
     const size_t idx = randIdx(N);
 
-    c1->topRows(idx) = p1->topRows(idx);
-    c2->topRows(idx) = p2->topRows(idx);
-    c1->bottomRows(N - idx) = p2->bottomRows(N - idx);
-    c2->bottomRows(N - idx) = p1->bottomRows(N - idx);
+    for (size_t i = 0; i < N; i++) {
+      c1->operator[](i) = (i < idx) ? p1->operator[](i) : p2->operator[](i);
+      c2->operator[](i) = (i < idx) ? p2->operator[](i) : p1->operator[](i);
+    }
   }
 };
 
-- 
2.43.0


From be08406970deb07fc894aebd87966b011bc222a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 11/62] fix: cFunRandXs ignored its probability

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 3c334a3..b2a47b9 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -446,7 +446,7 @@ struct GADefaults<Var_t, void> {
    */
   template <DivCode p = DivCode::DivCode_Half>
   inline static void cFunRandXs(const Var_t *p1, const Var_t *p2, Var_t *c1, Var_t *c2) noexcept {
-    Heu_PRIVATE_IMP_cFunX cFunRandNs(p1, p2, c1, c2);
+    Heu_PRIVATE_IMP_cFunX cFunRandNs<p>(p1, p2, c1, c2);
   }
 };
 
-- 
2.43.0


From 91ce376e6b89f59987b8d83d761af0072465991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 12/62] fix: parallel loops never ended when there were less
 tasks than threads

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     | 2 +-
 HeuristicFlow/src/Genetic/GABase.hpp   | 2 +-
 HeuristicFlow/src/Genetic/NSGABase.hpp | 2 +-
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    | 2 +-
 HeuristicFlow/src/PSO/PSO4std.hpp      | 2 +-
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a7d158c..62b49a6 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -109,7 +109,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, tasks.size() / thN + 1)
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 185e586..757b645 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -222,7 +222,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, tasks.size() / thN + 1)
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index 23ac246..809408d 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -106,7 +106,7 @@ class NSGABase
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, popSizeBefore / thN)
+#pragma omp parallel for schedule(dynamic, popSizeBefore / thN + 1)
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9f4394b..fd356c3 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -85,7 +85,7 @@ class PSO4Eigen
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, this->_population.size() / thN + 1)
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 6fe808a..3f2525b 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -94,7 +94,7 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, this->_population.size() / thN + 1)
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a7ce3a1..656812d 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -287,7 +287,7 @@ Var_t _velocityMax;
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, _population.size() / thN)
+#pragma omp parallel for schedule(dynamic, _population.size() / thN + 1)
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From c5e5769f2df08dabf596941f5903b5b58ba78b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 13/62] fix: truncation and elite-reserved selection read the
 previous best gene after erasing it

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index f22d2cc..b809d4f 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -56,6 +56,9 @@ class SOGASelector<SelectMethod::Truncation> {
     using GeneIt_t = typename this_t::GeneIt_t;
 
     std::list<Gene_t>& popRef = static_cast<this_t*>(this)->_population;
+    // The previous best gene may be eliminated
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     std::vector<GeneIt_t> sortSpace;
     sortSpace.clear();
     sortSpace.reserve((popRef.size()));
@@ -72,7 +75,8 @@ class SOGASelector<SelectMethod::Truncation> {
       sortSpace.pop_back();
     }
 
-    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front());
+    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front(),
+                                                             previousBestFitness);
   }
 
  private:
@@ -834,6 +838,9 @@ class SOGASelector<SelectMethod::EliteReserved> {
     const int popSizeAfterSelect = int(static_cast<this_t*>(this)->_option.populationSize);
     const int eliminateNum = popSizeBeforeSelect - popSizeAfterSelect;
 
+    // The previous best gene may be eliminated
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     if (eliminateNum <= 0) {
       static_cast<this_t*>(this)->updateFailTimesAndBestGene(
           static_cast<this_t*>(this)->findCurrentBestGene());
@@ -902,7 +909,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(
-        static_cast<this_t*>(this)->findCurrentBestGene());
+        static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
   }
 };
 
-- 
2.43.0


From 4c8001b33702b7e4a62a43fc6f04c01925ed735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 14/62] fix: stochastic universal selection eliminated nothing
 when all fitness values were equal

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index b809d4f..8d58bb7 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -756,12 +756,10 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
     }
 
     if (fitnessSum <= 0) {  //  unlikely
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
-        if (randD() * static_cast<this_t*>(this)->_option.populationSize <= popSizeBeforeSelect) {
-          it = eliminateSpace.erase(it);
-        } else {
-          ++it;
-        }
+      while (int(eliminateSpace.size()) > eliminateNum) {
+        auto it = eliminateSpace.begin();
+        std::advance(it, randIdx(int(eliminateSpace.size())));
+        eliminateSpace.erase(it);
       }
     } else {
       const double pointerInterval =
@@ -785,7 +783,8 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       // While paving throught eliminateSpace, accumulate the fitness. Everytime when the sum is
       // greater of equal to the interval, erase the current element (selected)
       double fitnessCounter = randD(0, pointerInterval);
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
+      for (auto it = eliminateSpace.begin();
+           it != eliminateSpace.end() && int(eliminateSpace.size()) > eliminateNum;) {
         fitnessCounter += it->second;
 
         if (fitnessCounter >= pointerInterval) {
-- 
2.43.0


From 9002f254bf2ebcda37950aeafcc8120f18b692e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 15/62] fix: Boltzmann selection never ended when exp()
 overflowed

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 8d58bb7..9951c0c 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -680,8 +680,15 @@ class SOGASelector<SelectMethod::Boltzmann> {
     }
 
     double rMax = 0;  // the sum of "probability"
+    double exponentMax = ninfD;
     for (auto& pair : eliminateSpace) {
-      pair.second = std::exp(_boltzmannSelectStrength * pair.second);
+      pair.second *= _boltzmannSelectStrength;
+      exponentMax = std::max(exponentMax, pair.second);
+    }
+
+    for (auto& pair : eliminateSpace) {
+      // subtracting the maximum prevents infinite values without changing the proportions
+      pair.second = std::exp(pair.second - exponentMax);
       rMax += pair.second;  //  the sum of probability may not be 1.
     }
 
-- 
2.43.0


From 06c3700e89432edefcb39621ba29e27646ede011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 16/62] fix: selection never ended when the sum of processed
 fitness was not finite

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 9951c0c..13ccf7e 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -157,7 +157,7 @@ class SOGASelector<SelectMethod::RouletteWheel> {
           }
         }
 
-        if (r > 0) {  // unlikely
+        if (!(r <= 0)) {  // unlikely
           processedFitnessSum -= eliminateSpace.back().second;
           eliminateSpace.pop_back();
         }
@@ -431,7 +431,7 @@ class SOGASelector<SelectMethod::Probability> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {
         newProbSum -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -536,7 +536,7 @@ class SOGASelector<SelectMethod::LinearRank> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {
         rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -625,7 +625,7 @@ class SOGASelector<SelectMethod::ExponentialRank> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {
         rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -704,7 +704,7 @@ class SOGASelector<SelectMethod::Boltzmann> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {
         rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -906,7 +906,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
             break;
           }
         }
-        if (r > 0) {  //  unlikely
+        if (!(r <= 0)) {  //  unlikely
           rMax -= eliminateSpace.back().second;
           eliminateSpace.pop_back();
         }
-- 
2.43.0


From ea78c4dcb43bce6f0aff5662ab58ec2349e72379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 17/62] fix: run-time selected Boltzmann selection used an
 uninitialized strength

---
 HeuristicFlow/src/Genetic/SOGA.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGA.hpp b/HeuristicFlow/src/Genetic/SOGA.hpp
index 80ff28a..2d1f555 100644
--- a/HeuristicFlow/src/Genetic/SOGA.hpp
+++ b/HeuristicFlow/src/Genetic/SOGA.hpp
@@ -124,7 +124,8 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
  public:
   HEU_MAKE_GABASE_TYPES(Base_t)
   SOGA() {
-    if constexpr (smOpt == SelectMethod::Boltzmann) {
+    if constexpr (smOpt == SelectMethod::Boltzmann ||
+                  smOpt == SelectMethod::RunTimeSelectMethod) {
       this->_boltzmannSelectStrength = 10 * (fOpt == FITNESS_LESS_BETTER ? -1 : 1);
     }
   }
-- 
2.43.0


From a3a909c75dfcfb6d6a9c674f771c414ddf4e5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 18/62] fix: paretoFront with decision variables did not
 compile

---
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 3691f3c..7eaba3d 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -101,7 +101,7 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
     front.clear();
     front.reserve(_pfGenes.size());
     for (const Gene* i : _pfGenes) {
-      front.emplace_back(std::make_pair(&(i->self), &(i->fitness)));
+      front.emplace_back(std::make_pair(&(i->decision_variable), &(i->fitness)));
     }
   }
 
-- 
2.43.0


From 4d1e7078455059640103cba02d9fa3a2dc000168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 19/62] fix: solvers with a run-time objective number did not
 compile

---
 HeuristicFlow/src/Genetic/MOGABase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGABase.hpp b/HeuristicFlow/src/Genetic/MOGABase.hpp
index 1d60c58..fa6e644 100644
--- a/HeuristicFlow/src/Genetic/MOGABase.hpp
+++ b/HeuristicFlow/src/Genetic/MOGABase.hpp
@@ -151,7 +151,7 @@ class MOGABase<Var_t, Eigen::Dynamic, fOpt, rOpt, Gene, Args_t, _iFun_, _fFun_,
  protected:
   inline void __impl_computeAllFitness() noexcept {
     for (Gene_t& g : this->_population) {
-      if (!g.isCalculated()) {
+      if (!g.is_fitness_computed) {
         g.fitness.resize(objectiveNum(), 1);
       }
     }
-- 
2.43.0


From 10e61fe9b01524081b304ad2f37cc6942584ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 20/62] fix: posMax(int) of square PSO boxes returned the lower
 boundary

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index e1c6100..38c84ba 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -44,7 +44,7 @@ class SquareBox4PSO {
 
   inline Scalar_t posMin(const int) const noexcept { return _posMinS; }
 
-  inline Scalar_t posMax(const int) const noexcept { return _posMinS; }
+  inline Scalar_t posMax(const int) const noexcept { return _posMaxS; }
 
   inline void setRange(const Scalar_t min, const Scalar_t max) noexcept {
     assert(min < max);
-- 
2.43.0


From bfd271cf2b507a5d85e92cbee140ae66fe4f9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 21/62] fix: rectangle boxes for PSO did not compile

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index 38c84ba..41c284b 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -107,7 +107,7 @@ class NonsquareBox4PSO {
   inline Scalar_t posMax(const int idx) const noexcept { return at(_posMaxV, idx); }
 
   inline void setRange(const Var_t& _min, const Var_t& _max) noexcept {
-    if constexpr (!array_traits<Var_t>::isSizeFixed) {
+    if constexpr (!array_traits<Var_t>::isFixedSize) {
       assert(_min.size() == _max.size());
     }
 
@@ -234,8 +234,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d);
       }
     } else if constexpr (array_traits<Var_t>::isColVector) {
       if (this->posMin().size() != __d) {
@@ -244,8 +244,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d, 1);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d, 1);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d, 1);
       }
     } else {
       if (this->posMin().size() != __d) {
@@ -254,8 +254,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(1, __d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(1, __d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(1, __d);
       }
     }
   }
@@ -267,11 +267,11 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
   inline void assert4Size() const noexcept {
     assert(this->posMin().rows() == this->posMax().rows());
 
-    assert(this->posMax().rows() == this->velocityMax().rows());
+    assert(this->posMax().rows() == this->maxVelocity().rows());
 
     assert(this->posMin().cols() == this->posMax().cols());
 
-    assert(this->posMax().cols() == this->velocityMax().cols());
+    assert(this->posMax().cols() == this->maxVelocity().cols());
   }
 
  public:
@@ -299,8 +299,8 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
       this->posMax().resize(_r, _c);
     }
 
-    if (this->velocityMax().rows() != _r || this->velocityMax().cols() != _c) {
-      this->velocityMax().resize(_r, _c);
+    if (this->maxVelocity().rows() != _r || this->maxVelocity().cols() != _c) {
+      this->maxVelocity().resize(_r, _c);
     }
   }
 };
@@ -314,7 +314,7 @@ class NonSquareBoxDynamicDim4PSO
   static_assert(!array_traits<Var_t>::isFixedSize);
   inline int dimensions() const noexcept {
     assert(this->posMin().size() == this->posMax().size());
-    assert(this->posMax().size() == this->velocityMax().size());
+    assert(this->posMax().size() == this->maxVelocity().size());
 
     return this->posMin().size();
   }
-- 
2.43.0


From d76e082e2e167e12834f7bb8668699164d32c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 22/62] fix: PSO did not compile for std containers and
 matrices with per-dimension limits

---
 HeuristicFlow/src/PSO/PSO4std.hpp     | 8 ++++----
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 3f2525b..5475794 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -105,12 +105,12 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
             this->_option.inertiaFactor * i.velocity[idx] +
             this->_option.learnFactorP * rndP * (i.pBest.position[idx] - i.position[idx]) +
             this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);
-        if (std::abs(i.velocity[idx]) > this->_velocityMax[idx]) {
-          i.velocity[idx] = sign(i.velocity[idx]) * this->_velocityMax[idx];
+        if (std::abs(i.velocity[idx]) > this->maxVelocity(idx)) {
+          i.velocity[idx] = sign(i.velocity[idx]) * this->maxVelocity(idx);
         }
         i.position[idx] += i.velocity[idx];
-        i.position[idx] = std::max(i.position[idx], this->_posMin[idx]);
-        i.position[idx] = std::min(i.position[idx], this->_posMax[idx]);
+        i.position[idx] = std::max(i.position[idx], this->posMin(idx));
+        i.position[idx] = std::min(i.position[idx], this->posMax(idx));
       }
     }
   }
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 656812d..916987f 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -328,7 +328,7 @@ Var_t _velocityMax;
         at(*pos, idx) = randD(s->posMin(), s->posMax());
 
       } else {
-        at(*pos, idx) = randD(s->posMin()[idx], s->posMax()[idx]);
+        at(*pos, idx) = randD(s->posMin(idx), s->posMax(idx));
       }
     }
   }
-- 
2.43.0


From f3fd4748e9e614b62fe2c8d8e35cc56ddcd6419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 23/62] fix: the best electron of a layer was found by
 comparing pointers instead of energies (Eigen)

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 099c765..77587a9 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -78,11 +78,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
         layer.bindingState += layer.at(idx)->state;
         layer.bindingEnergy += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
-          if (layer.at(idx) < layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         } else {
-          if (layer.at(idx) > layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy > layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         }
-- 
2.43.0


From 270a8d3fbf91f5ef0da14a65c5b3c0780a5c5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 24/62] fix: the binding energy of a layer was not the mean of
 its members (std containers)

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 77587a9..06e9413 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -196,6 +196,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
+        layer.bindingEnergy += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
-- 
2.43.0


From 06ee4be0902adf5bff5640d8f85b4acc8847aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 25/62] fix: AOS did not compile without OpenMP

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index 62b49a6..bddbaa1 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -123,7 +123,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
         continue;
       }
 
-      AOSExecutor<>::doFitness(this, &i.self, &i._Fitness);
+      AOSExecutor<>::doFitness(this, &i.state, &i.energy);
 
       i.isComputed = true;
     }
-- 
2.43.0


From 296d86fca3e571659af35d27f63cfafb43e3674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 26/62] fix: AOS read its best electron after erasing it when
 energies are equal

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 99d5ddf..746b5c2 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -85,6 +85,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       elecSortSpace.pop_back();
     }
 
+    // the previous best electron may have been removed if its energy is not unique
+    this->_atomBestPtr = &*elecSortSpace.front();
+
     this->_layers.clear();
 
     // a estimation value of layer number
-- 
2.43.0


From 0ddeb7459ff5b9f2cd4489be8bc703658fca4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 27/62] fix: AOS accessed layers out of range when rounding
 left electrons over or layers empty

---
 HeuristicFlow/src/AOS/AOS.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 746b5c2..c2af732 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -115,6 +115,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       }
     }
 
+    // rounding must not leave any electron out of the layers
+    numOfEachLayer[tempLayerNum - 1] = int(this->_electrons.size());
+
     this->_layers.resize(tempLayerNum);
 
     for (Layer_t& layer : this->_layers) {
@@ -124,7 +127,7 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
     int curLayerIdx = 0;
     this->_layers.front().reserve(numOfEachLayer[0]);
     for (int countedElectrons = 0; countedElectrons < this->_electrons.size(); countedElectrons++) {
-      if (countedElectrons >= numOfEachLayer[curLayerIdx]) {
+      while (countedElectrons >= numOfEachLayer[curLayerIdx]) {
         curLayerIdx++;
         this->_layers[curLayerIdx].reserve(numOfEachLayer[curLayerIdx] -
                                            numOfEachLayer[curLayerIdx - 1]);
@@ -134,9 +137,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
     }
 
     // remove empty layers
-    while (this->_layers.back().size() <= 0) {
-      this->_layers.pop_back();
-    }
+    this->_layers.erase(std::remove_if(this->_layers.begin(), this->_layers.end(),
+                                       [](const Layer_t& layer) { return layer.empty(); }),
+                        this->_layers.end());
   }
 };
 
-- 
2.43.0


From 59172799f37aba2c6824bf529487ba3d7eacbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 28/62] fix: multiBitSet did not compile with elements as wide
 as its block

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 00aa9e9..ae2daf5 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -36,7 +36,7 @@ class multiBitSet {
   /// Type of element
   using value_t = uintX_t<eleBits>;
   /// The maximum value of each element
-  static constexpr block_t blockMask = (block_t(1) << (eleBits)) - 1;
+  static constexpr block_t blockMask = block_t(~block_t(0)) >> (sizeof(block_t) * 8 - eleBits);
   /// Bits of block
   static constexpr size_t blockBits = sizeof(block_t) * 8;
 
-- 
2.43.0


From 1b1d9f5f07bf56dba95402a02bbf799a7c37bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 29/62] fix: multiBitSet could not be iterated when const or
 with other block types

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index ae2daf5..cefcbc4 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -111,7 +111,7 @@ class multiBitSet {
         */
 
    private:
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class iterator_t;
     friend class constIterator_t;
     reference_t() : source(nullptr), index(0){};
@@ -212,7 +212,7 @@ class multiBitSet {
    private:
     iterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<iterator_t>;
 
@@ -275,9 +275,10 @@ class multiBitSet {
    */
   class constIterator_t : public iteratorBase<constIterator_t> {
    private:
-    constIterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
+    constIterator_t(const multiBitSet* src, size_t idx)
+        : ref(const_cast<multiBitSet*>(src), idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<constIterator_t>;
 
-- 
2.43.0


From 955bb598f06b4322a9f2742ec198635680336cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 30/62] fix: move constructor of multiBitSet did not compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index cefcbc4..193560e 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -394,7 +394,7 @@ class multiBitSet {
 
     b._size = 0;
     b._data = 0;
-    b.end = 0;
+    b._end = 0;
   }
 
   /**
-- 
2.43.0


From 905181f2f3a5f3c981b639d57e2aa0f8f673e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 31/62] fix: multiBitSet constructed with size 0 was
 uninitialized

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 193560e..46575cf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -353,6 +353,9 @@ class multiBitSet {
    * \param __size The initial size.
    */
   multiBitSet(size_t __size) {
+    _data = nullptr;
+    _end = nullptr;
+    _size = 0;
     if (__size <= 0) {
       return;
     }
-- 
2.43.0


From 8b5cf4a5a8b07d4207c917a37607cbd9df8512a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 32/62] fix: multiBitSet allocated too few blocks for large
 sizes through float rounding

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 46575cf..6e2625c 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -361,7 +361,7 @@ class multiBitSet {
     }
 
     // const size_t __bytesNeed = std::ceil(float(eleBits * __size) / 8);
-    const size_t __blocksNeed = size_t(std::ceil(float(__size * eleBits) / (blockBits)));
+    const size_t __blocksNeed = blocksFor(__size);
     _data = alloc().allocate(__blocksNeed);
     _end = _data + __blocksNeed;
     _size = __size;
@@ -466,7 +466,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = size_t(std::ceil(float(newSize * eleBits) / (sizeof(block_t) * 8)));
+    const size_t newBlockNum = blocksFor(newSize);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -489,7 +489,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = std::ceil(float(newCap * eleBits) / (sizeof(block_t) * 8));
+    const size_t newBlockNum = blocksFor(newCap);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -502,7 +502,7 @@ class multiBitSet {
   }
 
   inline void shrink_to_fit() noexcept {
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     if (blocksNeed == blocks()) {
       return;
@@ -568,7 +568,7 @@ class multiBitSet {
     }
 
     resize(another.size());
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     memcpy(_data, another._data, blocksNeed * sizeof(block_t));
     return *this;
@@ -659,6 +659,11 @@ class multiBitSet {
     }
   }
 
+  /// Number of blocks required to store a number of elements
+  inline static constexpr size_t blocksFor(size_t eleNum) noexcept {
+    return (eleNum * eleBits + blockBits - 1) / blockBits;
+  }
+
   inline static allocator_t& alloc() noexcept {
     static allocator_t allo;
     return allo;
-- 
2.43.0


From 746c87f4c1d6d888f66b49111bbf9f27f4d1efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 33/62] fix: copying a multiBitSet with spare capacity
 overflowed the copy

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 6e2625c..12c3b2a 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -381,7 +381,7 @@ class multiBitSet {
     if (b.size() > 0) {
       this->resize(b.size());
 
-      memcpy(this->_data, b._data, b.blocks() * sizeof(block_t));
+      memcpy(this->_data, b._data, this->blocks() * sizeof(block_t));
     }
   }
 
@@ -562,6 +562,10 @@ class multiBitSet {
    * \return const multiBitSet& A reference to self
    */
   inline const multiBitSet& operator=(const multiBitSet& another) noexcept {
+    if (this == &another) {
+      return *this;
+    }
+
     if (another.size() <= 0) {
       resize(0);
       return *this;
-- 
2.43.0


From 42d4129bb51b9cf4bb04e3b01408a69b1d6c6b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 34/62] fix: growing a multiBitSet lost its elements

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 12c3b2a..e870119 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -466,16 +466,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = blocksFor(newSize);
-
-    block_t* newDataPtr = alloc().allocate(newBlockNum);
-
-    // memcpy(newDataPtr, _data, _end - _data);
-
-    alloc().deallocate(_data, _end - _data);
-
-    _data = newDataPtr;
-    _end = _data + newBlockNum;
+    reserve(newSize);
     _size = newSize;
   }
 
@@ -493,7 +484,10 @@ class multiBitSet {
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
-    memcpy(newDataPtr, _data, _end - _data);
+    memset(newDataPtr, 0, newBlockNum * sizeof(block_t));
+    if (_data != nullptr) {
+      memcpy(newDataPtr, _data, blocks() * sizeof(block_t));
+    }
 
     alloc().deallocate(_data, _end - _data);
 
-- 
2.43.0


From 5286d737aa73218807dc342f2eea458abc77c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 35/62] fix: writing an element of a multiBitSet across small
 blocks kept stale bits

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index e870119..85c9841 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -624,7 +624,7 @@ class multiBitSet {
       const size_t rightBitNum = lastScalarBitIdx - midBitIdx + 1;
 
       (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;
-      (*blockNextPtr) = ((*blockNextPtr) << rightBitNum) >> rightBitNum;
+      (*blockNextPtr) = block_t((*blockNextPtr) << rightBitNum) >> rightBitNum;
 
       (*blockPrevPtr) |= (value >> (rightBitNum));
       (*blockNextPtr) |= (value << (blockBits - rightBitNum));
-- 
2.43.0


From e1e4e23a3d086f02201d03ac2615ca0cc856ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 36/62] fix: copy constructor of MatrixDynamicSize freed an
 uninitialized pointer

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f756ae4..b8874de 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -90,7 +90,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    *
    * \param src Source of copying
    */
-  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept {
+  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept : MatrixDynamicSize() {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
       dataPtr[i] = src.dataPtr[i];
-- 
2.43.0


From 5e958e45c7df08c7f0efaf53129844d7fb590db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 37/62] fix: MatrixDynamicSize of trivial types could not be
 copied

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b8874de..f898f25 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -134,13 +134,13 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return const MatrixDynamicSize& A const ref to *this
    */
   MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
+    if (this == &src) {
+      return *this;
+    }
+
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
-      if constexpr (!std::is_trivially_copy_assignable_v<Scalar_t>) {
-        dataPtr[i] = src.dataPtr[i];
-      } else {
-        memcpy(dataPtr, src, sizeof(Scalar_t) * src.size());
-      }
+      dataPtr[i] = src.dataPtr[i];
     }
     return *this;
   }
-- 
2.43.0


From 3238b535ea386173e4883d7c1bc7681fab16b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 38/62] fix: move assignment of MatrixDynamicSize returned
 nothing and freed itself on self-assignment

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f898f25..479bcd1 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -152,6 +152,10 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return MatrixDynamicSize&
    */
   MatrixDynamicSize &operator=(MatrixDynamicSize &&src) noexcept {
+    if (this == &src) {
+      return *this;
+    }
+
     if (this->dataPtr != nullptr) {
       if constexpr (!std::is_trivially_destructible_v<Scalar_t>) {
         for (int i = 0; i < _capacity; i++) {
@@ -170,6 +174,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     src.colNum = 0;
     this->_capacity = src._capacity;
     src._capacity = 0;
+    return *this;
   }
 
   template <class DerivedB>
-- 
2.43.0


From 6d83ee1271b4e51aba22c9f9e641962a40f8ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 39/62] fix: reserve of MatrixDynamicSize shrank the storage
 and never enlarged it

---
 .../src/SimpleMatrix/MatrixDynamicSize.hpp        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 479bcd1..89e9b96 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -233,13 +233,22 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \param s Size to be reserved
    */
   void reserve(int s) noexcept {
-    if (_capacity <= s) return;
+    if (s <= _capacity) return;
 
     Scalar_t *newPtr = alloc().allocate(s);
 
-    memcpy(newPtr, dataPtr, sizeof(Scalar_t) * _capacity);
+    for (int i = 0; i < s; i++) {
+      if (i < _capacity) {
+        std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i, std::move(dataPtr[i]));
+        (dataPtr + i)->~Scalar_t();
+      } else {
+        std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i);
+      }
+    }
 
-    alloc().deallocate(dataPtr, _capacity);
+    if (dataPtr != nullptr) {
+      alloc().deallocate(dataPtr, _capacity);
+    }
 
     _capacity = s;
 
-- 
2.43.0


From 01823da9fc693a9d4c92db84fb0a7106cc11d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 40/62] fix: resize of MatrixDynamicSize neither destroyed nor
 constructed elements of class types

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 89e9b96..545f01b 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -265,7 +265,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     if (r * c != size()) {
       if (r * c > _capacity) {
         if (dataPtr != nullptr) {
-          if constexpr (std::is_trivially_destructible_v<Scalar_t>)
+          if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
             for (int i = 0; i < _capacity; i++) {
               // alloc().destroy(dataPtr + i);
               (dataPtr + i)->~Scalar_t();
@@ -276,11 +276,9 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
         dataPtr = alloc().allocate(r * c);
         _capacity = r * c;
 
-        if constexpr (std::is_trivially_default_constructible_v<Scalar_t>)
-          for (int i = 0; i < _capacity; i++) {
-            // alloc().construct(dataPtr + i);
-            dataPtr[i] = Scalar_t();
-          }
+        for (int i = 0; i < _capacity; i++) {
+          std::allocator_traits<allocator_t>::construct(alloc(), dataPtr + i);
+        }
       }
     }
 
-- 
2.43.0


From 9a34705f0f48905d961347b83cde464d94c2ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 41/62] fix: MatrixMap could not be assigned from or to other
 kinds of matrices

---
 HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
index af4b033..333afcf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
@@ -27,6 +27,7 @@ namespace heu {
 
 template <typename Scalar>
 class MatrixMap : public MatrixBase<MatrixMap<Scalar>> {
+ public:
   using Scalar_t = Scalar;
 
  protected:
-- 
2.43.0


From 78de59125dac5f64e8f4306b6e9f579b8b428de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 42/62] fix: Ackley function used 2/pi instead of 2*pi

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1f40756..3cf37c0 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -66,7 +66,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     assert4Size(_x);
     auto x = _x->operator[](0), y = _x->operator[](1);
     *f = -20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) -
-         std::exp(0.5 * (std::cos(M_2_PI * x) + std::cos(M_2_PI * y))) + 20 + M_E;
+         std::exp(0.5 * (std::cos(2 * M_PI * x) + std::cos(2 * M_PI * y))) + 20 + M_E;
   }
 
   inline static void beale(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From a97d275b5249428b60634dba6b47b96294ae6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 43/62] fix: wrong terms in Goldstein-Price function, and it
 did not compile with arguments

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 3cf37c0..5773ede 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -33,7 +33,7 @@ template <typename Var_t, class Fitness_t = double, class Arg_t = void>
 struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, ackley)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, beale)
-  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldSteinPrice)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldsteinPrice)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, booth)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, bukin)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
@@ -83,7 +83,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto part1 =
         1 + square(1 + x + y) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y);
     const auto part2 =
-        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x + 47 * y - 36 * x * y + 27 * y * y);
+        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y);
     *f = part1 * part2;
   }
 
-- 
2.43.0


From 5233386f2c52c90ae8b25a391fbeee7e8184e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 44/62] fix: three-hump camel function was missing for solvers
 with arguments

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 5773ede..12cffc4 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -39,6 +39,7 @@ struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, levy)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, himmelblau)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, threeHumpCamel)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, easom)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, crossInTray)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, eggHolder)
-- 
2.43.0


From 77cad337b1a0c6a8a53476d6cfa570b823950bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 45/62] fix: wrong sign in Holder table function

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 12cffc4..cdc6748 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -171,7 +171,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     *f = -std::abs(std::sin(x) * std::cos(y) *
                    std::exp(
 
-                       std::abs(1 - std::sqrt(x * x - y * y) / M_PI)
+                       std::abs(1 - std::sqrt(x * x + y * y) / M_PI)
 
                            ));
   }
-- 
2.43.0


From 94adc78c7c8ca4d77480375937f57fc653c8488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 46/62] fix: Schaffer function N.2 squared a wrong term

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index cdc6748..2b7420f 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -189,7 +189,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto x = _x->operator[](0);
     const auto y = _x->operator[](1);
 
-    *f = 0.5 + (square(std::sin(x * x - y * y) - 0.5)) / square(1 + 0.001 * (x * x + y * y));
+    *f = 0.5 + (square(std::sin(x * x - y * y)) - 0.5) / square(1 + 0.001 * (x * x + y * y));
   }
 
   inline static void schaffer4(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From fc57b8478d3c4df4bbf52811565fd86949f5dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 47/62] fix: Rosenbrock function missed a square

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 2b7420f..cb6db59 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -239,13 +239,15 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto square_1_minus_x_top = (1 - x->topRows(x->size() - 1)).square().sum();
-      auto minusSquare = (x->topRows(x->size() - 1) - x->bottomRows(x->size() - 1)).square().sum();
+      auto arr = x->array();
+      auto square_1_minus_x_top = (1 - arr.topRows(x->size() - 1)).square().sum();
+      auto minusSquare =
+          (arr.topRows(x->size() - 1).square() - arr.bottomRows(x->size() - 1)).square().sum();
       *f = 100 * minusSquare + square_1_minus_x_top;
     } else {
       double val = 0;
       for (int idx = 0; idx < x->size() - 1; idx++) {
-        val += 100 * square(x->operator[](idx + 1) - x->operator[](idx)) +
+        val += 100 * square(x->operator[](idx + 1) - square(x->operator[](idx))) +
                square(1 - x->operator[](idx));
       }
       *f = val;
-- 
2.43.0


From 18dae4c51f0525a19d11112642133bd41d022e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 48/62] fix: Styblinski-Tang function of Eigen arrays was twice
 its value

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index cb6db59..bed480d 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -257,7 +257,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto arr = x->array();
-      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum();
+      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
       for (auto xi : *x) {
-- 
2.43.0


From dc3762d80226220b3888addb984d51faef5d2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 49/62] fix: wrong branches in Schaffer function 2

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0e850ff..8a20efc 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -79,12 +79,12 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
     if (x <= 1) {
       f->operator[](0) = -x;
-    } else if (x <= -3) {
+    } else if (x <= 3) {
       f->operator[](0) = x - 2;
     } else if (x <= 4) {
       f->operator[](0) = 4 - x;
     } else {
-      f->operator[](0) = 4 - x;
+      f->operator[](0) = x - 4;
     }
   }
 };
-- 
2.43.0


From db9a0ded74decae35dfb868b007b32ffe2530f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 50/62] fix: wrong coefficient in Viennet function

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 8a20efc..9c2cc9c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -208,7 +208,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
     const auto x2_plus_y2 = x * x + y * y;
     f->operator[](0) = x2_plus_y2 / 2 + std::sin(x2_plus_y2);
-    f->operator[](1) = square(2 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
+    f->operator[](1) = square(3 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
     f->operator[](2) = 1 / (x2_plus_y2 + 1) - 1.1 * std::exp(-x2_plus_y2);
   }
 };
-- 
2.43.0


From 3a40f82cf29173063a9883e14e87454d6412dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 51/62] fix: multi-objective functions resized the fitness
 depending on the type of decision variable

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 9c2cc9c..4dd80b1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -108,8 +108,8 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(2, 1);
       } else {
         f->resize(2);
@@ -190,8 +190,8 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(3, 1);
       } else {
         f->resize(3);
-- 
2.43.0


From 5778729247c92aa89cbacc3e57ca7a0c9057bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 52/62] fix: Fonseca-Fleming function did not compile, and used
 sqrt instead of square

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 4dd80b1..d2bedfd 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -234,17 +234,16 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
  public:
   static inline void FonsecaFleming(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = f->size();  // If the size of f is determined at compile-time, the compiler will
-                              // be able to optimize it; otherwise N is a read only integer.
+    const int N = int(_x->size());
     typename array_traits<Fitness_t>::Scalar_t exp1 = 0, exp2 = 0;
-    constexpr typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
+    const typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
     if constexpr (array_traits<Var_t>::isEigenClass) {
       exp1 = -1 * (_x->array() - rSqrtN).square().sum();
       exp2 = -1 * (_x->array() + rSqrtN).square().sum();
     } else {
       for (int idx = 0; idx < N; idx++) {
-        exp1 -= sqrt(_x->operator[](idx) - rSqrtN);
-        exp2 -= sqrt(_x->operator[](idx) + rSqrtN);
+        exp1 -= square(_x->operator[](idx) - rSqrtN);
+        exp2 -= square(_x->operator[](idx) + rSqrtN);
       }
     }
 
-- 
2.43.0


From cc70eed6720819da43d0b40ef9bc04f78011d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 53/62] fix: Kursawe function only used as many variables as
 there are objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index d2bedfd..3cb748a 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -253,12 +253,12 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
 
   static inline void Kursawe(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = int(f->size());
+    const int N = int(_x->size());
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
-        auto topN_sub_1Rows = _x->template topRows<N - 1>();
-        auto bottomN_sub_1Rows = _x->template bottomRows<N - 1>();
+        auto topN_sub_1Rows = _x->template topRows<array_traits<Var_t>::sizeCT - 1>();
+        auto bottomN_sub_1Rows = _x->template bottomRows<array_traits<Var_t>::sizeCT - 1>();
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
@@ -268,8 +268,8 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
                        .sum();
 
       } else {
-        auto topN_sub_1Rows = _x->template topRows(N - 1);
-        auto bottomN_sub_1Rows = _x->template bottomRows(N - 1);
+        auto topN_sub_1Rows = _x->topRows(N - 1);
+        auto bottomN_sub_1Rows = _x->bottomRows(N - 1);
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
-- 
2.43.0


From 3913afb1a60e5d68c13b4fcf55081fc392a9f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 54/62] fix: DTLZ5 and DTLZ6 did not compile for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 3cb748a..6e1565c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -524,7 +524,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
       gr = xm.square().sum();
@@ -585,7 +585,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
-- 
2.43.0


From 2686b14506212a522b1e355eedf9e535c001c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 55/62] fix: DTLZ7 left an objective of std containers
 unwritten

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 6e1565c..6b583b7 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -654,7 +654,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         f->head(M - 1) = x->head(M - 1);
       }
     } else {
-      for (int idx = 0; idx < M - 2; idx++) {
+      for (int idx = 0; idx < M - 1; idx++) {
         f->operator[](idx) = x->operator[](idx);
       }
     }
-- 
2.43.0


From d88678556f163a33eecf080a400836aa6228b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 56/62] fix: DTLZ9 read decision variables and objectives out
 of range

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 6b583b7..3b61819 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -859,14 +859,14 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     for (int objIdx = 0; objIdx < M; objIdx++) {
       f->operator[](objIdx) = 0;
-      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N, (objIdx + 1) * N / M);
+      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N - 1, (objIdx + 1) * N / M);
            varIdx++) {
         f->operator[](objIdx) += std::pow(x->operator[](varIdx), 0.1);
       }
     }
     // apply penlties
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-      auto gOfObjIdx = square(f->operator[](M)) + square(f->operator[](objIdx)) - 1;
+      auto gOfObjIdx = square(f->operator[](M - 1)) + square(f->operator[](objIdx)) - 1;
 
       if (gOfObjIdx < 0) {
         f->operator[](objIdx) += 1e3 + (-gOfObjIdx);
-- 
2.43.0


From e0adda79e5f505b9b85f6747fe2ea2a23a568c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 57/62] fix: test functions did not compile when neither kind
 of DTLZ functions matches

---
 HeuristicFlow/src/EAGlobal/TestFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
index 0290afc..2aac73b 100644
--- a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
@@ -62,7 +62,7 @@ struct MOFunctions
       public std::conditional<sizeMayMatchDTLZ1to7<Var_t, Fitness_t>::value,
                               DTLZ1to7<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type,
       public std::conditional<sizeMayMatchDTLZ89<Var_t, Fitness_t>::value,
-                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type {
+                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct6>::type {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 2),
                 "The size of Fitness_t must be greater than 1.");
 };
-- 
2.43.0


From 3a893783fd855533633e46f513e1383679d7d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 58/62] fix: initialization of integer boxes overflowed if the
 maximum is the limit of the element type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 1b8d7ea..947af44 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -41,8 +41,11 @@ class BoxBase {
       if constexpr (std::is_same_v<Scalar_t, bool>) {
         at(*v, idx) = randIdx(2) == 0;
       } else if constexpr (std::is_integral_v<Scalar_t>) {
-        at(*v, idx) = randIdx<Scalar_t>(static_cast<const Derived*>(this)->min(idx),
-                                        1 + static_cast<const Derived*>(this)->max(idx));
+        // max+1 may not be representable in the element type
+        using wide_t = std::conditional_t<(sizeof(Scalar_t) < sizeof(int64_t)), int64_t, Scalar_t>;
+        at(*v, idx) =
+            Scalar_t(randIdx<wide_t>(static_cast<const Derived*>(this)->min(idx),
+                                     wide_t(1) + static_cast<const Derived*>(this)->max(idx)));
       } else {
         at(*v, idx) = Scalar_t(randD(static_cast<const Derived*>(this)->min(idx),
                                      static_cast<const Derived*>(this)->max(idx)));
-- 
2.43.0


From 404e6cbc0b7fe482687f4da207d2068b46a75dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 59/62] fix: DivCode_Pi_mul_2 was 2/pi instead of 2*pi

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 514a611..a2831d3 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -44,7 +44,7 @@ namespace heu {
 enum DivCode : uint64_t {
   DivCode_Half = 4294967298,
   DivCode_Pi = 2088567404207137453,
-  DivCode_Pi_mul_2 = 993512999210214248,
+  DivCode_Pi_mul_2 = 2111843339441150603,
   DivCode_Pi_mul_3 = 2111843339415065010,
   DivCode_Pi_mul_4 = 4223686678804044427,
   DivCode_Pi_mul_6 = 2111843339388979417,
-- 
2.43.0


From 7f08c15a41a6a4292d396cebfab6fe37b77de718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 60/62] fix: Rosenbrock and Styblinski-Tang functions did not
 compile for Eigen arrays

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index bed480d..0e696b2 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -239,7 +239,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
+      const auto &arr = x->array();
       auto square_1_minus_x_top = (1 - arr.topRows(x->size() - 1)).square().sum();
       auto minusSquare =
           (arr.topRows(x->size() - 1).square() - arr.bottomRows(x->size() - 1)).square().sum();
@@ -256,7 +256,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
+      const auto &arr = x->array();
       *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
-- 
2.43.0


From 123c29552436f3352b9ae274f524e4961a4bd1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:21 +0000
Subject: [PATCH 61/62] fix: multi-objective functions did not compile for
 fixed-size variables with a run-time number of objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 3b61819..7e1f58c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -223,7 +223,7 @@ template <typename Var_t, class Fitness_t>
 struct MOFunctionsX2<Var_t, Fitness_t, void> {
  private:
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT == 2));
-  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 1));
+  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Var_t>::sizeCT >= 1));
 
   static inline void assert4Size(const Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
@@ -325,7 +325,7 @@ struct sizeMayMatchDTLZ1to7 {
 
   static constexpr bool value =
       (isAllFixed) ? (array_traits<Var_t>::sizeCT - array_traits<Fitness_t>::sizeCT + 1 > 0)
-                   : (true);
+                   : (!array_traits<Var_t>::isFixedSize || array_traits<Var_t>::sizeCT > 1);
 };
 
 template <typename Var_t, class Fitness_t>
-- 
2.43.0


From 804f4c5c092db554da9bb73ca83af1c5b209230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 62/62] fix: NchooseK overflowed in 2*K when more than half of
 the type's range is chosen

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index bc20171..018716a 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -83,7 +83,7 @@ inline num_t fractorial(num_t n) noexcept {
  */
 template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
-  if (K * 2 > N) {
+  if (K > N - K) {
     return NchooseK<num_t>(N, N - K);
   } else {
     // N! overflows much earlier than C^K_N does, so multiply and divide step by step.
-- 
2.43.0

