From 262101f1d0a3d1f7fb569999c4e3bec20867721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 01/68] fix: OpenMP chunk size became 0 with fewer tasks than
 threads, which hangs the loop

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     | 2 +-
 HeuristicFlow/src/Genetic/GABase.hpp   | 2 +-
 HeuristicFlow/src/Genetic/NSGABase.hpp | 2 +-
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    | 2 +-
 HeuristicFlow/src/PSO/PSO4std.hpp      | 2 +-
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a7d158c..e6ca7f6 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -109,7 +109,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, 1 + tasks.size() / thN)
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 185e586..bd2908c 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -222,7 +222,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, 1 + tasks.size() / thN)
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index 23ac246..3b88263 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -106,7 +106,7 @@ class NSGABase
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, popSizeBefore / thN)
+#pragma omp parallel for schedule(dynamic, 1 + popSizeBefore / thN)
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9f4394b..55f48b9 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -85,7 +85,7 @@ class PSO4Eigen
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, 1 + this->_population.size() / thN)
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 6fe808a..4e42899 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -94,7 +94,7 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, 1 + this->_population.size() / thN)
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a7ce3a1..6c215f3 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -287,7 +287,7 @@ Var_t _velocityMax;
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, _population.size() / thN)
+#pragma omp parallel for schedule(dynamic, 1 + _population.size() / thN)
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From d46d10a024d2a17c3e38099162834c5a05903a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 02/68] fix: PSO drew random numbers from the shared engine
 inside the parallel loop

---
 HeuristicFlow/src/PSO/PSO4Eigen.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 55f48b9..1f8ce65 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -83,13 +83,19 @@ class PSO4Eigen
    *
    */
   void __impl_updatePopulation() noexcept {
+    // The random engine is shared, so all random numbers are generated before the parallel loop.
+    std::vector<std::pair<Scalar_t, Scalar_t>> rnd(this->_population.size());
+    for (auto& r : rnd) {
+      r.first = randD();
+      r.second = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, 1 + this->_population.size() / thN)
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
-      const Scalar_t lFP = randD(), lFG = randD();
+      const Scalar_t lFP = rnd[idx].first, lFG = rnd[idx].second;
       i.velocity = this->_option.inertiaFactor * i.velocity +
                    this->_option.learnFactorP * lFP * (i.pBest.position - i.position) +
                    this->_option.learnFactorG * lFG * (this->gBest.position - i.position);
-- 
2.43.0


From ae495adab3866f38930b93573ef45b7cc899e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 03/68] fix: PSO on standard containers and on runtime-sized
 rectangular boxes did not compile; posMax(i) of a square box returned the
 minimum

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 26 +++++++++++------------
 HeuristicFlow/src/PSO/PSO4std.hpp         | 19 +++++++++++------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index e1c6100..41c284b 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -44,7 +44,7 @@ class SquareBox4PSO {
 
   inline Scalar_t posMin(const int) const noexcept { return _posMinS; }
 
-  inline Scalar_t posMax(const int) const noexcept { return _posMinS; }
+  inline Scalar_t posMax(const int) const noexcept { return _posMaxS; }
 
   inline void setRange(const Scalar_t min, const Scalar_t max) noexcept {
     assert(min < max);
@@ -107,7 +107,7 @@ class NonsquareBox4PSO {
   inline Scalar_t posMax(const int idx) const noexcept { return at(_posMaxV, idx); }
 
   inline void setRange(const Var_t& _min, const Var_t& _max) noexcept {
-    if constexpr (!array_traits<Var_t>::isSizeFixed) {
+    if constexpr (!array_traits<Var_t>::isFixedSize) {
       assert(_min.size() == _max.size());
     }
 
@@ -234,8 +234,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d);
       }
     } else if constexpr (array_traits<Var_t>::isColVector) {
       if (this->posMin().size() != __d) {
@@ -244,8 +244,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d, 1);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d, 1);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d, 1);
       }
     } else {
       if (this->posMin().size() != __d) {
@@ -254,8 +254,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(1, __d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(1, __d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(1, __d);
       }
     }
   }
@@ -267,11 +267,11 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
   inline void assert4Size() const noexcept {
     assert(this->posMin().rows() == this->posMax().rows());
 
-    assert(this->posMax().rows() == this->velocityMax().rows());
+    assert(this->posMax().rows() == this->maxVelocity().rows());
 
     assert(this->posMin().cols() == this->posMax().cols());
 
-    assert(this->posMax().cols() == this->velocityMax().cols());
+    assert(this->posMax().cols() == this->maxVelocity().cols());
   }
 
  public:
@@ -299,8 +299,8 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
       this->posMax().resize(_r, _c);
     }
 
-    if (this->velocityMax().rows() != _r || this->velocityMax().cols() != _c) {
-      this->velocityMax().resize(_r, _c);
+    if (this->maxVelocity().rows() != _r || this->maxVelocity().cols() != _c) {
+      this->maxVelocity().resize(_r, _c);
     }
   }
 };
@@ -314,7 +314,7 @@ class NonSquareBoxDynamicDim4PSO
   static_assert(!array_traits<Var_t>::isFixedSize);
   inline int dimensions() const noexcept {
     assert(this->posMin().size() == this->posMax().size());
-    assert(this->posMax().size() == this->velocityMax().size());
+    assert(this->posMax().size() == this->maxVelocity().size());
 
     return this->posMin().size();
   }
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 4e42899..d838acb 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -92,26 +92,31 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    *
    */
   void __impl_updatePopulation() noexcept {
+    // The random engine is shared, so all random numbers are generated before the parallel loop.
+    std::vector<std::pair<double, double>> rnd(this->_population.size());
+    for (auto& r : rnd) {
+      r.first = randD();
+      r.second = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, 1 + this->_population.size() / thN)
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
-      const double rndP = randD();
-      const double rndG = randD();
+      const double rndP = rnd[index].first;
+      const double rndG = rnd[index].second;
       for (int idx = 0; idx < this->dimensions(); idx++) {
         i.velocity[idx] =
             this->_option.inertiaFactor * i.velocity[idx] +
             this->_option.learnFactorP * rndP * (i.pBest.position[idx] - i.position[idx]) +
             this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);
-        if (std::abs(i.velocity[idx]) > this->_velocityMax[idx]) {
-          i.velocity[idx] = sign(i.velocity[idx]) * this->_velocityMax[idx];
-        }
+      }
+      this->applyConstraint4Velocity(&i.velocity);
+      for (int idx = 0; idx < this->dimensions(); idx++) {
         i.position[idx] += i.velocity[idx];
-        i.position[idx] = std::max(i.position[idx], this->_posMin[idx]);
-        i.position[idx] = std::min(i.position[idx], this->_posMax[idx]);
       }
+      this->applyConstraint4Position(&i.position);
     }
   }
 
-- 
2.43.0


From 6e5774c1a6e1663901b9bc8e785cd359bf031dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 04/68] fix: Truncation and EliteReserved compared with the
 fitness of an already erased gene

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index f22d2cc..cf47f9b 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -66,13 +66,17 @@ class SOGASelector<SelectMethod::Truncation> {
 
     std::sort(sortSpace.begin(), sortSpace.end(), this_t::GeneItCompareFun);
 
+    // The previous best gene may be erased below
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     while (static_cast<this_t*>(this)->_population.size() >
            static_cast<this_t*>(this)->_option.populationSize) {
       static_cast<this_t*>(this)->_population.erase(sortSpace.back());
       sortSpace.pop_back();
     }
 
-    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front());
+    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front(),
+                                                           previousBestFitness);
   }
 
  private:
@@ -833,6 +837,8 @@ class SOGASelector<SelectMethod::EliteReserved> {
     const int popSizeBeforeSelect = int(static_cast<this_t*>(this)->_population.size());
     const int popSizeAfterSelect = int(static_cast<this_t*>(this)->_option.populationSize);
     const int eliminateNum = popSizeBeforeSelect - popSizeAfterSelect;
+    // The previous best gene may be erased below
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
 
     if (eliminateNum <= 0) {
       static_cast<this_t*>(this)->updateFailTimesAndBestGene(
@@ -902,7 +908,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(
-        static_cast<this_t*>(this)->findCurrentBestGene());
+        static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
   }
 };
 
-- 
2.43.0


From ec43b55429ebea7e08f98246e6ef951387a8090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 05/68] fix: StochasticUniversal did not cut the population
 when all fitness values are equal

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index cf47f9b..3168be6 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -755,13 +755,9 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       fitnessSum += pair.second;
     }
 
-    if (fitnessSum <= 0) {  //  unlikely
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
-        if (randD() * static_cast<this_t*>(this)->_option.populationSize <= popSizeBeforeSelect) {
-          it = eliminateSpace.erase(it);
-        } else {
-          ++it;
-        }
+    if (!(fitnessSum > 0)) {  //  unlikely, all genes are equal. Select stochastically
+      while (int(eliminateSpace.size()) > eliminateNum) {
+        eliminateSpace.erase(std::next(eliminateSpace.begin(), randIdx(int(eliminateSpace.size()))));
       }
     } else {
       const double pointerInterval =
-- 
2.43.0


From f5ac61c4a4a3be2bce87497138ddbdf326e2d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 06/68] fix: EliteReserved and Probability selection never
 returned when a fitness value is infinite

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 3168be6..73c9190 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -146,7 +146,7 @@ class SOGASelector<SelectMethod::RouletteWheel> {
 
     while (int(eliminateSpace.size()) > eliminateNum) {
       // erase a solution from eliminateSpace by its fitness
-      if (processedFitnessSum > 0) {
+      if (processedFitnessSum > 0 && std::isfinite(processedFitnessSum)) {
         double r = randD(0, processedFitnessSum);
         for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
           r -= it->second;
@@ -157,7 +157,7 @@ class SOGASelector<SelectMethod::RouletteWheel> {
           }
         }
 
-        if (r > 0) {  // unlikely
+        if (!(r <= 0)) {  // unlikely, or NaN
           processedFitnessSum -= eliminateSpace.back().second;
           eliminateSpace.pop_back();
         }
@@ -397,7 +397,7 @@ class SOGASelector<SelectMethod::Probability> {
       }
 
       //
-      if (fitnessSum <= 0) {
+      if (!(fitnessSum > 0 && std::isfinite(fitnessSum))) {
         for (auto& pair : eliminateSpace) {
           pair.second = 1.0 / prevPopSize;
         }
@@ -431,7 +431,7 @@ class SOGASelector<SelectMethod::Probability> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {  // unlikely, or NaN
         newProbSum -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -536,7 +536,7 @@ class SOGASelector<SelectMethod::LinearRank> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {  // unlikely, or NaN
         rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -625,7 +625,7 @@ class SOGASelector<SelectMethod::ExponentialRank> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {  // unlikely, or NaN
         rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -697,7 +697,7 @@ class SOGASelector<SelectMethod::Boltzmann> {
         }
       }
 
-      if (r > 0) {
+      if (!(r <= 0)) {  // unlikely, or NaN
         rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
@@ -873,7 +873,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
       rMax += pair.second;
     }
 
-    if (rMax <= 0) {  //  erase randomly
+    if (!(rMax > 0 && std::isfinite(rMax))) {  //  erase randomly
       while (int(eliminateSpace.size()) > eliminateNum) {
         const int curEliminateSpaceSize = int(eliminateSpace.size());
         for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
@@ -895,7 +895,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
             break;
           }
         }
-        if (r > 0) {  //  unlikely
+        if (!(r <= 0)) {  //  unlikely, or NaN
           rMax -= eliminateSpace.back().second;
           eliminateSpace.pop_back();
         }
-- 
2.43.0


From 79943d37088f9839f0756d72321392d8dd70e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 07/68] fix: Boltzmann strength was uninitialised when the
 method is chosen at run time

---
 HeuristicFlow/src/Genetic/SOGA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGA.hpp b/HeuristicFlow/src/Genetic/SOGA.hpp
index 80ff28a..3f187ef 100644
--- a/HeuristicFlow/src/Genetic/SOGA.hpp
+++ b/HeuristicFlow/src/Genetic/SOGA.hpp
@@ -124,7 +124,7 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
  public:
   HEU_MAKE_GABASE_TYPES(Base_t)
   SOGA() {
-    if constexpr (smOpt == SelectMethod::Boltzmann) {
+    if constexpr (smOpt == SelectMethod::Boltzmann || smOpt == SelectMethod::RunTimeSelectMethod) {
       this->_boltzmannSelectStrength = 10 * (fOpt == FITNESS_LESS_BETTER ? -1 : 1);
     }
   }
-- 
2.43.0


From baa9ed4313191e0a5442391ea252acce4855c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 08/68] fix: Boltzmann selection lost all information when the
 exponent overflows

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 73c9190..0ac5b94 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -679,9 +679,16 @@ class SOGASelector<SelectMethod::Boltzmann> {
       // Z += std::exp(it->fitness);
     }
 
+    // Only the ratio of the exponents matters. Removing the greatest prevents overflow.
+    double maxExponent = ninfD;
+    for (auto& pair : eliminateSpace) {
+      pair.second *= _boltzmannSelectStrength;
+      maxExponent = std::max(maxExponent, pair.second);
+    }
+
     double rMax = 0;  // the sum of "probability"
     for (auto& pair : eliminateSpace) {
-      pair.second = std::exp(_boltzmannSelectStrength * pair.second);
+      pair.second = std::exp(pair.second - maxExponent);
       rMax += pair.second;  //  the sum of probability may not be 1.
     }
 
-- 
2.43.0


From fe7d23922bad29453055ecf8632aa7f87e2e3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 09/68] fix: LinearRank drew from [0,1) although its weights do
 not sum to 1; selectMethod() was missing in two selectors

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 0ac5b94..c28fe11 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -48,6 +48,9 @@ template <>
 class SOGASelector<SelectMethod::Truncation> {
   friend class SOGAInheriter<SelectMethod::Truncation>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept { return SelectMethod::Truncation; }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
@@ -524,7 +527,10 @@ class SOGASelector<SelectMethod::LinearRank> {
           ));
     }
 
-    double rMax = 1.0;
+    double rMax = 0;  // the sum of weights is not 1
+    for (auto& pair : eliminateSpace) {
+      rMax += pair.second;
+    }
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
@@ -721,6 +727,11 @@ template <>
 class SOGASelector<SelectMethod::StochasticUniversal> {
   friend class SOGAInheriter<SelectMethod::StochasticUniversal>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept {
+    return SelectMethod::StochasticUniversal;
+  }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
-- 
2.43.0


From 32df6d6269f02ac9b49160a7b35c4dd9567eb4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 10/68] fix: paretoFront() with decision variables named a
 member that does not exist

---
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 3691f3c..7eaba3d 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -101,7 +101,7 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
     front.clear();
     front.reserve(_pfGenes.size());
     for (const Gene* i : _pfGenes) {
-      front.emplace_back(std::make_pair(&(i->self), &(i->fitness)));
+      front.emplace_back(std::make_pair(&(i->decision_variable), &(i->fitness)));
     }
   }
 
-- 
2.43.0


From 4e41abbe8353f0fbb85309623eeeabd801d64a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 11/68] fix: solvers with runtime objective numbers called a
 member that does not exist

---
 HeuristicFlow/src/Genetic/MOGABase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGABase.hpp b/HeuristicFlow/src/Genetic/MOGABase.hpp
index 1d60c58..fa6e644 100644
--- a/HeuristicFlow/src/Genetic/MOGABase.hpp
+++ b/HeuristicFlow/src/Genetic/MOGABase.hpp
@@ -151,7 +151,7 @@ class MOGABase<Var_t, Eigen::Dynamic, fOpt, rOpt, Gene, Args_t, _iFun_, _fFun_,
  protected:
   inline void __impl_computeAllFitness() noexcept {
     for (Gene_t& g : this->_population) {
-      if (!g.isCalculated()) {
+      if (!g.is_fitness_computed) {
         g.fitness.resize(objectiveNum(), 1);
       }
     }
-- 
2.43.0


From fc490fa88ac122d719689e55b8233791318a55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 12/68] fix: NSGA2 and NSGA3 crashed when the population is
 smaller than the population size option

---
 HeuristicFlow/src/Genetic/NSGA2.hpp         | 2 +-
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA2.hpp b/HeuristicFlow/src/Genetic/NSGA2.hpp
index 78d53e0..570b1fd 100644
--- a/HeuristicFlow/src/Genetic/NSGA2.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA2.hpp
@@ -207,7 +207,7 @@ class NSGA2
     bool needCongestion = true;
     while (true) {
       // don't need to calculate congestion
-      if (selected.size() == this->_option.populationSize) {
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needCongestion = false;
         break;
       }
diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 86d08c8..02d6e3e 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -163,7 +163,7 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
 
     while (true) {
       // Luckily we don't need to select part of some genes in Fl.
-      if (selected.size() == this->_option.populationSize) {
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needRefPoint = false;
         break;
       }
-- 
2.43.0


From 7817b5af2d2bb7ccde9a36f82ed4d3c1e9d7ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 13/68] fix: NchooseK overflowed for N > 20 although the result
 is small

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 532ebef..58d9a83 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -85,8 +85,14 @@ template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
   if (K * 2 > N) {
     return NchooseK<num_t>(N, N - K);
-  } else
-    return fractorial<num_t>(N) / (fractorial<num_t>(K) * fractorial<num_t>(N - K));
+  } else {
+    // Factorials overflow for N > 20, so multiply and divide in turn. Each division is exact.
+    num_t result = 1;
+    for (num_t i = 1; i <= K; i++) {
+      result = result * (N - K + i) / i;
+    }
+    return result;
+  }
 }
 /*
 namespace internal
-- 
2.43.0


From 04563ae24b7e7fee9ae221a6d6e7c569c6659eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 14/68] fix: reference point precision of NSGA3 was
 uninitialised by default

---
 HeuristicFlow/src/Genetic/NSGA3Base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Base.hpp b/HeuristicFlow/src/Genetic/NSGA3Base.hpp
index 092eaea..4ab0e8c 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Base.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Base.hpp
@@ -110,7 +110,7 @@ class NSGA3Base
   }
 
  protected:
-  size_t _precision;  ///< Precision of RPs in single layer. Only exists when rpOpt==SINGLE_LAYER
+  size_t _precision = 4;  ///< Precision of RPs in single layer. Only exists when rpOpt==SINGLE_LAYER
 
   /**
    * \brief Compute reference points
-- 
2.43.0


From 405ff48e3222922520d4eaa34afa6a753e5e7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 15/68] fix: NSGA3 normalisation divided by zero or negative
 intercepts

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 02d6e3e..7864bb1 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -294,12 +294,19 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
       extremePoints.col(c) = extremePtrs[c]->fitness - ideal;
     }
 
-    if (isSingular(extremePoints)) {
+    bool useDiagonal = isSingular(extremePoints);
+    if (!useDiagonal) {
+      extremePoints2Intercept(extremePoints, &intercepts);
+      // The hyperplane may have negative or infinite intercepts
+      useDiagonal = !(intercepts > 0).all() || !intercepts.isFinite().all();
+    }
+    if (useDiagonal) {
       for (size_t r = 0; r < M; r++) {
         intercepts[r] = extremePoints(r, r);
+        if (intercepts[r] <= 0) {  // All genes are equal in this objective
+          intercepts[r] = 1;
+        }
       }
-    } else {
-      extremePoints2Intercept(extremePoints, &intercepts);
     }
 
     for (Gene_t* i : selected) {
-- 
2.43.0


From db856646669df71cdcf8647dc81336dd5149d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 16/68] fix: EliteReserved kept more genes than the population
 size when there are more elites

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index c28fe11..0a1a8d3 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -874,7 +874,8 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
       std::sort(sortSpace.begin(), sortSpace.end(), this_t::GeneItCompareFun);
 
-      for (int idx = _eliteNum; idx < int(sortSpace.size()); idx++) {
+      //  no more than popSizeAfterSelect genes can be reserved
+      for (int idx = std::min(_eliteNum, popSizeAfterSelect); idx < int(sortSpace.size()); idx++) {
         if constexpr (this_t::FitnessOpt == FitnessOption::FITNESS_GREATER_BETTER)
           eliminateSpace.emplace_back(sortSpace[idx], sortSpace[idx]->fitness);
         else
-- 
2.43.0


From 53562b4920a3383d586432e9186ae53af9d3e4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 17/68] fix: StochasticUniversal selected too many genes when
 the fitness counter overflows

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 0a1a8d3..d8181a9 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -799,7 +799,8 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       // While paving throught eliminateSpace, accumulate the fitness. Everytime when the sum is
       // greater of equal to the interval, erase the current element (selected)
       double fitnessCounter = randD(0, pointerInterval);
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
+      for (auto it = eliminateSpace.begin();
+           it != eliminateSpace.end() && int(eliminateSpace.size()) > eliminateNum;) {
         fitnessCounter += it->second;
 
         if (fitnessCounter >= pointerInterval) {
-- 
2.43.0


From 7ca479659de34c08c7fe8cf43f94491d08aa4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 18/68] fix: default initialisation of matrix-shaped PSO
 variables in a rectangle box compiles

---
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 6c215f3..48cc51a 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -328,7 +328,7 @@ Var_t _velocityMax;
         at(*pos, idx) = randD(s->posMin(), s->posMax());
 
       } else {
-        at(*pos, idx) = randD(s->posMin()[idx], s->posMax()[idx]);
+        at(*pos, idx) = randD(s->posMin(idx), s->posMax(idx));
       }
     }
   }
-- 
2.43.0


From 0ac6e4786fa1481c1c88ca4fafbff9086af2774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 19/68] fix: AOS keeps bestElectron() among the surviving
 electrons

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 99d5ddf..3b3de56 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -79,6 +79,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
 
     std::sort(elecSortSpace.begin(), elecSortSpace.end(), electronIteratorCompareFun);
 
+    // the electron bound so far may be one of those that are removed below
+    this->_atomBestPtr = &*elecSortSpace.front();
+
     // remove worse electrons
     while (elecSortSpace.size() > this->_option.electronNum) {
       this->_electrons.erase(elecSortSpace.back());
-- 
2.43.0


From 7b8cd2619b65ee2dc396750b71ccd9fcb244f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 20/68] fix: AOS compares energies, not addresses, to find the
 best electron of a layer

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 099c765..77587a9 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -78,11 +78,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
         layer.bindingState += layer.at(idx)->state;
         layer.bindingEnergy += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
-          if (layer.at(idx) < layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         } else {
-          if (layer.at(idx) > layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy > layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         }
-- 
2.43.0


From abbcf79aefd2506d040afd5a8537ca2aaed3c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 21/68] fix: AOS with std containers averages the binding
 energy over the whole layer

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 77587a9..06e9413 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -196,6 +196,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
+        layer.bindingEnergy += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
-- 
2.43.0


From 5ca5e584b391ef0e73bdd245362764faedd2df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 22/68] fix: AOS compiles without OpenMP

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index e6ca7f6..841c347 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -123,7 +123,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
         continue;
       }
 
-      AOSExecutor<>::doFitness(this, &i.self, &i._Fitness);
+      AOSExecutor<>::doFitness(this, &i.state, &i.energy);
 
       i.isComputed = true;
     }
-- 
2.43.0


From a7a6173bf8c38b69be250ca29e85204059e92934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 23/68] fix: setDimensions of rectangle boxes with a dynamic
 size compiles

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 551445a..49c1b0e 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -308,7 +308,7 @@ class NonSquareBoxDynamicDimVec : public BoxBase<NonSquareBoxDynamicDimVec<Var>,
     return int(this->min().size());
   }
 
-  inline void setDimensions(const int dim) const noexcept {
+  inline void setDimensions(const int dim) noexcept {
     assert(dim > 0);
     this->min().resize(dim);
     this->max().resize(dim);
-- 
2.43.0


From 97544100083df801f6f4c28b8dc3e81b4b629762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 24/68] fix: Tournament copied genes in an order that depends
 on their addresses

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index d8181a9..90a0591 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -289,11 +289,14 @@ class SOGASelector<SelectMethod::Tournament> {
       }
     }
 
-    for (auto& pair : selectCounter) {
-      while (pair.second > 0) {
+    // Go through the population but not the hash map, so that the order of copies doesn't depend on
+    // the addresses of genes.
+    const size_t survivedNum = static_cast<this_t*>(this)->_population.size();
+    GeneIt_t survivor = static_cast<this_t*>(this)->_population.begin();
+    for (size_t idx = 0; idx < survivedNum; idx++, ++survivor) {
+      for (int& count = selectCounter[&*survivor]; count > 0; count--) {
         // copy if a gene is selected for more than once
-        static_cast<this_t*>(this)->_population.emplace_back(*pair.first);
-        pair.second--;
+        static_cast<this_t*>(this)->_population.emplace_back(*survivor);
       }
     }
 
-- 
2.43.0


From e2fc0a51717aea7d1ef1191677b62035bfabafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 25/68] fix: NSGA3 extreme points depended on the addresses of
 genes when several are equally extreme

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 7864bb1..81dcc25 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -272,11 +272,14 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
       extremePoints.col(c) = extremePtrs[c]->fitness;
     }
 
-    for (auto i : selected) {
+    // Go through the sorted space but not the hash set, so that the extreme points don't depend on
+    // the addresses of genes when several genes are equally extreme.
+    for (auto i : this->sortSpace) {
+      if (selected.find(&*i) == selected.end()) continue;
       ideal = ideal.min(i->fitness);
       for (size_t objIdx = 0; objIdx < M; objIdx++) {
         if (i->fitness[objIdx] > extremePtrs[objIdx]->fitness[objIdx]) {
-          extremePtrs[objIdx] = i;
+          extremePtrs[objIdx] = &*(i);
         }
       }
     }
-- 
2.43.0


From 24fd0570d91962260075a8557b40d452c668c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 26/68] fix: multiBitSet of size 0 had uninitialised members

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 00aa9e9..bfc594c 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -352,6 +352,9 @@ class multiBitSet {
    * \param __size The initial size.
    */
   multiBitSet(size_t __size) {
+    _data = nullptr;
+    _end = nullptr;
+    _size = 0;
     if (__size <= 0) {
       return;
     }
-- 
2.43.0


From a0ead814d806dcf8e6c49518596827ab28528071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 27/68] fix: the move constructor of multiBitSet did not
 compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index bfc594c..89f84d9 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -396,7 +396,7 @@ class multiBitSet {
 
     b._size = 0;
     b._data = 0;
-    b.end = 0;
+    b._end = 0;
   }
 
   /**
-- 
2.43.0


From 77557fc551c65cbefe4635044deff1ad0e9da9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 28/68] fix: multiBitSet lost its elements when resize() or
 reserve() allocates memory

---
 .../src/SimpleMatrix/MultiBitSet.hpp          | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 89f84d9..46c2593 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -460,21 +460,10 @@ class multiBitSet {
    * \param newSize
    */
   inline void resize(size_t newSize) noexcept {
-    if (newSize <= this->capacity()) {
-      _size = newSize;
-      return;
+    reserve(newSize);
+    for (size_t idx = _size; idx < newSize; idx++) {
+      setValue(idx, 0);
     }
-
-    const size_t newBlockNum = size_t(std::ceil(float(newSize * eleBits) / (sizeof(block_t) * 8)));
-
-    block_t* newDataPtr = alloc().allocate(newBlockNum);
-
-    // memcpy(newDataPtr, _data, _end - _data);
-
-    alloc().deallocate(_data, _end - _data);
-
-    _data = newDataPtr;
-    _end = _data + newBlockNum;
     _size = newSize;
   }
 
@@ -492,9 +481,13 @@ class multiBitSet {
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
-    memcpy(newDataPtr, _data, _end - _data);
+    const size_t prevBlockNum = blocks();
+    if (prevBlockNum > 0) {
+      memcpy(newDataPtr, _data, prevBlockNum * sizeof(block_t));
+    }
+    memset(newDataPtr + prevBlockNum, 0, (newBlockNum - prevBlockNum) * sizeof(block_t));
 
-    alloc().deallocate(_data, _end - _data);
+    alloc().deallocate(_data, prevBlockNum);
 
     _data = newDataPtr;
     _end = _data + newBlockNum;
-- 
2.43.0


From ad6f02830e881622e302834b8db08577707c0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 29/68] fix: copying a multiBitSet with spare memory wrote
 behind the end of the copy

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 46c2593..e2460ae 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -380,7 +380,7 @@ class multiBitSet {
     if (b.size() > 0) {
       this->resize(b.size());
 
-      memcpy(this->_data, b._data, b.blocks() * sizeof(block_t));
+      memcpy(this->_data, b._data, this->blocks() * sizeof(block_t));
     }
   }
 
-- 
2.43.0


From 51f463c163d88e51d4c3e1e47c0a8be98b147d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 30/68] fix: multiBitSet allocated too few blocks for more than
 2^24 bits because of rounding

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index e2460ae..c0c7d0c 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -360,7 +360,7 @@ class multiBitSet {
     }
 
     // const size_t __bytesNeed = std::ceil(float(eleBits * __size) / 8);
-    const size_t __blocksNeed = size_t(std::ceil(float(__size * eleBits) / (blockBits)));
+    const size_t __blocksNeed = blocksFor(__size);
     _data = alloc().allocate(__blocksNeed);
     _end = _data + __blocksNeed;
     _size = __size;
@@ -477,7 +477,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = std::ceil(float(newCap * eleBits) / (sizeof(block_t) * 8));
+    const size_t newBlockNum = blocksFor(newCap);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -494,7 +494,7 @@ class multiBitSet {
   }
 
   inline void shrink_to_fit() noexcept {
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     if (blocksNeed == blocks()) {
       return;
@@ -560,7 +560,7 @@ class multiBitSet {
     }
 
     resize(another.size());
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     memcpy(_data, another._data, blocksNeed * sizeof(block_t));
     return *this;
@@ -589,6 +589,11 @@ class multiBitSet {
 
   friend class reference_t;
 
+  /// Number of blocks that are needed to store given number of elements
+  inline static constexpr size_t blocksFor(const size_t elements) noexcept {
+    return (elements * eleBits + blockBits - 1) / blockBits;
+  }
+
   value_t setValue(const size_t index, block_t value) noexcept {
     value &= blockMask;  // remove extra bits
 
-- 
2.43.0


From 6484c842a6585c7189d80552e0626906dcb04185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 31/68] fix: multiBitSet failed with block types other than
 size_t and with elements as wide as a block

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index c0c7d0c..17abb4e 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -36,7 +36,8 @@ class multiBitSet {
   /// Type of element
   using value_t = uintX_t<eleBits>;
   /// The maximum value of each element
-  static constexpr block_t blockMask = (block_t(1) << (eleBits)) - 1;
+  static constexpr block_t blockMask =
+      block_t(~block_t(0)) >> (sizeof(block_t) * 8 - eleBits);
   /// Bits of block
   static constexpr size_t blockBits = sizeof(block_t) * 8;
 
@@ -111,7 +112,7 @@ class multiBitSet {
         */
 
    private:
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class iterator_t;
     friend class constIterator_t;
     reference_t() : source(nullptr), index(0){};
@@ -212,7 +213,7 @@ class multiBitSet {
    private:
     iterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<iterator_t>;
 
@@ -277,7 +278,7 @@ class multiBitSet {
    private:
     constIterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<constIterator_t>;
 
@@ -608,7 +609,7 @@ class multiBitSet {
       const size_t endBitIdx = ((firstScalarBitIdx / blockBits) + 1) * blockBits;
       const size_t leftMoveBits = endBitIdx - lastScalarBitIdx - 1;
 
-      const block_t inverseMask = ~(blockMask << leftMoveBits);
+      const block_t inverseMask = block_t(~block_t(blockMask << leftMoveBits));
 
       (*blockPrevPtr) &= inverseMask;
 
@@ -623,7 +624,7 @@ class multiBitSet {
       const size_t rightBitNum = lastScalarBitIdx - midBitIdx + 1;
 
       (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;
-      (*blockNextPtr) = ((*blockNextPtr) << rightBitNum) >> rightBitNum;
+      (*blockNextPtr) = block_t((*blockNextPtr) << rightBitNum) >> rightBitNum;
 
       (*blockPrevPtr) |= (value >> (rightBitNum));
       (*blockNextPtr) |= (value << (blockBits - rightBitNum));
-- 
2.43.0


From 9e1cdf9354aa25344652dbb71373047a3dd1ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 32/68] fix: read only iterators of multiBitSet did not compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 17abb4e..e25815f 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -216,6 +216,7 @@ class multiBitSet {
     friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<iterator_t>;
+    friend class constIterator_t;
 
     reference_t ref;
 
@@ -281,6 +282,7 @@ class multiBitSet {
     friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<constIterator_t>;
+    friend class iterator_t;
 
     reference_t ref;
 
@@ -577,11 +579,15 @@ class multiBitSet {
 
   inline iterator_t begin() noexcept { return iterator_t(this, 0); }
 
-  inline constIterator_t begin() const noexcept { return constIterator_t(this, 0); }
+  inline constIterator_t begin() const noexcept {
+    return constIterator_t(const_cast<multiBitSet*>(this), 0);
+  }
 
   inline iterator_t end() noexcept { return iterator_t(this, size()); }
 
-  inline constIterator_t end() const noexcept { return constIterator_t(this, size()); }
+  inline constIterator_t end() const noexcept {
+    return constIterator_t(const_cast<multiBitSet*>(this), size());
+  }
 
  private:
   block_t* _data;
-- 
2.43.0


From 68aeccece63ef71294eb538d68f6c9b32d703f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 33/68] fix: copy constructor of MatrixDynamicSize read
 uninitialised members

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f756ae4..b8874de 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -90,7 +90,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    *
    * \param src Source of copying
    */
-  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept {
+  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept : MatrixDynamicSize() {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
       dataPtr[i] = src.dataPtr[i];
-- 
2.43.0


From 49a60fb3b61806897dcfc241bee2efd6134404c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 34/68] fix: copying MatrixDynamicSize of trivial types did not
 compile

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b8874de..15eea69 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -136,11 +136,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
   MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
-      if constexpr (!std::is_trivially_copy_assignable_v<Scalar_t>) {
-        dataPtr[i] = src.dataPtr[i];
-      } else {
-        memcpy(dataPtr, src, sizeof(Scalar_t) * src.size());
-      }
+      dataPtr[i] = src.dataPtr[i];
     }
     return *this;
   }
-- 
2.43.0


From 3625e32aa80d9603fb8ae37e8d2a2300a833a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 35/68] fix: move assigning of MatrixDynamicSize returned
 nothing and lost the data on self assignment

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 15eea69..b20a4c5 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -148,6 +148,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return MatrixDynamicSize&
    */
   MatrixDynamicSize &operator=(MatrixDynamicSize &&src) noexcept {
+    if (this == &src) return *this;
     if (this->dataPtr != nullptr) {
       if constexpr (!std::is_trivially_destructible_v<Scalar_t>) {
         for (int i = 0; i < _capacity; i++) {
@@ -166,6 +167,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     src.colNum = 0;
     this->_capacity = src._capacity;
     src._capacity = 0;
+    return *this;
   }
 
   template <class DerivedB>
-- 
2.43.0


From fa8beac67307ed9b195dbaeccb467632cb0d89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 36/68] fix: MatrixDynamicSize of class types assigned to raw
 memory after resize()

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b20a4c5..8fe7556 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -249,7 +249,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     if (r * c != size()) {
       if (r * c > _capacity) {
         if (dataPtr != nullptr) {
-          if constexpr (std::is_trivially_destructible_v<Scalar_t>)
+          if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
             for (int i = 0; i < _capacity; i++) {
               // alloc().destroy(dataPtr + i);
               (dataPtr + i)->~Scalar_t();
@@ -260,11 +260,9 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
         dataPtr = alloc().allocate(r * c);
         _capacity = r * c;
 
-        if constexpr (std::is_trivially_default_constructible_v<Scalar_t>)
-          for (int i = 0; i < _capacity; i++) {
-            // alloc().construct(dataPtr + i);
-            dataPtr[i] = Scalar_t();
-          }
+        for (int i = 0; i < _capacity; i++) {
+          std::allocator_traits<allocator_t>::construct(alloc(), dataPtr + i);
+        }
       }
     }
 
-- 
2.43.0


From af299755a61b6cc5f242c5ab21610864789e85c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 37/68] fix: reserve() of MatrixDynamicSize did nothing when
 asked for more and cut the memory when asked for less

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 8fe7556..c84ed2a 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -226,11 +226,18 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \param s Size to be reserved
    */
   void reserve(int s) noexcept {
-    if (_capacity <= s) return;
+    if (_capacity >= s) return;
 
     Scalar_t *newPtr = alloc().allocate(s);
 
-    memcpy(newPtr, dataPtr, sizeof(Scalar_t) * _capacity);
+    for (int i = 0; i < s; i++) {
+      if (i < _capacity) {
+        std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i, std::move(dataPtr[i]));
+        (dataPtr + i)->~Scalar_t();
+      } else {
+        std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i);
+      }
+    }
 
     alloc().deallocate(dataPtr, _capacity);
 
-- 
2.43.0


From a626c4a78101417619ea735c43432806707494b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 38/68] fix: MatrixMap could not be assigned to or from other
 matrices

---
 HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
index af4b033..333afcf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
@@ -27,6 +27,7 @@ namespace heu {
 
 template <typename Scalar>
 class MatrixMap : public MatrixBase<MatrixMap<Scalar>> {
+ public:
   using Scalar_t = Scalar;
 
  protected:
-- 
2.43.0


From f195973e4534871323c1a486ab4814d5bb0e10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 39/68] fix: roulette wheel and elite selection preferred genes
 at the front among equal ones

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 24 +++++----------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 90a0591..4a0e274 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -167,13 +167,7 @@ class SOGASelector<SelectMethod::RouletteWheel> {
 
       } else {
         // select stochastically
-        const int sizeBeforeErasement = int(eliminateSpace.size());
-        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-          if (randIdx(sizeBeforeErasement) == 0) {
-            eliminateSpace.erase(it);
-            break;
-          }
-        }
+        eliminateSpace.erase(std::next(eliminateSpace.begin(), randIdx(int(eliminateSpace.size()))));
       }
     }
 
@@ -896,18 +890,10 @@ class SOGASelector<SelectMethod::EliteReserved> {
       rMax += pair.second;
     }
 
-    if (!(rMax > 0 && std::isfinite(rMax))) {  //  erase randomly
-      while (int(eliminateSpace.size()) > eliminateNum) {
-        const int curEliminateSpaceSize = int(eliminateSpace.size());
-        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-          if (randD() * curEliminateSpaceSize <= 1) {
-            eliminateSpace.erase(it);
-            break;
-          }
-        }
-      }
-    } else {
-      while (int(eliminateSpace.size()) > eliminateNum) {
+    while (int(eliminateSpace.size()) > eliminateNum) {
+      if (!(rMax > 0 && std::isfinite(rMax))) {  //  erase randomly
+        eliminateSpace.erase(std::next(eliminateSpace.begin(), randIdx(int(eliminateSpace.size()))));
+      } else {
         double r = randD(0, rMax);
 
         for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-- 
2.43.0


From 2ad5ac487101ff4e13f36f219521e38be94dbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 40/68] fix: probability selection kept the genes at the front
 when all probabilities underflowed

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 4a0e274..7fa3dbd 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -408,19 +408,24 @@ class SOGASelector<SelectMethod::Probability> {
       }
     }
 
-    constexpr double NChooseK = 1e100;
-    // const double NChooseK = ::heu::NchooseK<double>(prevPopSize, K);
-    //  assert(!std::isnan(NChooseK));
+    // p^K*(1-p)^(N-K) underflows for big populations, so compute it relative to the greatest one
+    double maxLog = ninfD;
+    for (auto& pair : eliminateSpace) {
+      pair.second = K * std::log(pair.second) + (prevPopSize - K) * std::log(1.0 - pair.second);
+      maxLog = std::max(maxLog, pair.second);
+    }
 
     double newProbSum = 0;
     for (auto& pair : eliminateSpace) {
-      pair.second =
-          NChooseK * std::pow(pair.second, K) * std::pow(1.0 - pair.second, prevPopSize - K);
+      pair.second = std::isfinite(maxLog) ? std::exp(pair.second - maxLog) : 0.0;
       newProbSum += pair.second;
     }
 
-    // assert(false);
     while (int(eliminateSpace.size()) > eliminateNum) {
+      if (!(newProbSum > 0)) {  // No gene left has any probability
+        eliminateSpace.erase(std::next(eliminateSpace.begin(), randIdx(int(eliminateSpace.size()))));
+        continue;
+      }
       double r = randD(0.0, newProbSum);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
         r -= it->second;
-- 
2.43.0


From 4438926c56607ec71330e3c36e492564aaa3d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 41/68] fix: boxes of integers missed values when the range is
 wide or ends at the limit of the type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 49c1b0e..546bfed 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -41,8 +41,10 @@ class BoxBase {
       if constexpr (std::is_same_v<Scalar_t, bool>) {
         at(*v, idx) = randIdx(2) == 0;
       } else if constexpr (std::is_integral_v<Scalar_t>) {
-        at(*v, idx) = randIdx<Scalar_t>(static_cast<const Derived*>(this)->min(idx),
-                                        1 + static_cast<const Derived*>(this)->max(idx));
+        using wide_t = std::conditional_t<std::is_signed_v<Scalar_t>, int64_t, uint64_t>;
+        std::uniform_int_distribution<wide_t> rnd(static_cast<const Derived*>(this)->min(idx),
+                                                  static_cast<const Derived*>(this)->max(idx));
+        at(*v, idx) = Scalar_t(rnd(internal::global_mt19937()));
       } else {
         at(*v, idx) = Scalar_t(randD(static_cast<const Derived*>(this)->min(idx),
                                      static_cast<const Derived*>(this)->max(idx)));
-- 
2.43.0


From ddfe64da3c4b5183805afa714d31d119c2adced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 42/68] fix: mutation in boxes of integers jumped across the
 box when it ends at the limit of the type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 546bfed..aa66cd0 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -75,7 +75,11 @@ class BoxBase {
       at(*v, idx) = !at(*v, idx);
     } else {
       // integer mutation
-      at(*v, idx) += (randIdx(2) == 0) ? 1 : -1;
+      if (randIdx(2) == 0) {
+        if (at(*v, idx) < static_cast<const Derived*>(this)->max(idx)) at(*v, idx) += 1;
+      } else {
+        if (at(*v, idx) > static_cast<const Derived*>(this)->min(idx)) at(*v, idx) -= 1;
+      }
       at(*v, idx) = std::min(at(*v, idx), static_cast<const Derived*>(this)->max(idx));
       at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
     }
-- 
2.43.0


From 715ba490140811bb2bc650876679645a0d883a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 43/68] fix: setDelta() of rectangle boxes compiles with
 matrices

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index aa66cd0..bc72de2 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -545,8 +545,8 @@ class NonSquareBoxDeltaCore {
   inline Scalar_t delta(const int idx) const noexcept { return at(_deltaV, idx); }
 
   inline void setDelta(const Var_t& __delta) noexcept {
-    for (Scalar_t deltaElement : __delta) {
-      assert(deltaElement > 0);
+    for (int idx = 0; idx < int(__delta.size()); idx++) {
+      assert(at(__delta, idx) > 0);
     }
     _deltaV = __delta;
   }
-- 
2.43.0


From bf8896147492bd8d618e737b4336f904443796f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 44/68] fix: continous boxes with fixed range ignored their
 delta when mutating

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index bc72de2..08c26d3 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -651,6 +651,16 @@ class FixedContinousBox20 : public FixedDiscreteBox<Var, _minCT, _maxCT> {
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var>::Scalar_t;
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 #endif
@@ -667,6 +677,16 @@ class FixedContinousBox17 : public FixedDiscreteBox17<Var, _minCode, _maxCode> {
   static_assert(_deltaCT > 0);
 
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 namespace {
-- 
2.43.0


From bcd3394e43dcca7eec7485a696193940604e78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 45/68] fix: cFunSwapNs and cFunSwapXs did not compile for std
 containers and matrices

---
 .../src/Genetic/Miscellaneous4GA.hpp          | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index f88c615..50a2536 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -49,10 +49,15 @@ struct imp_GADefaults_DVO {
     const size_t N = p1->size();
     const size_t idx = randIdx(N);
 
-    c1->topRows(idx) = p1->topRows(idx);
-    c2->topRows(idx) = p2->topRows(idx);
-    c1->bottomRows(N - idx) = p2->bottomRows(N - idx);
-    c2->bottomRows(N - idx) = p1->bottomRows(N - idx);
+    for (size_t i = 0; i < N; i++) {
+      if (i < idx) {
+        c1->operator[](i) = p1->operator[](i);
+        c2->operator[](i) = p2->operator[](i);
+      } else {
+        c1->operator[](i) = p2->operator[](i);
+        c2->operator[](i) = p1->operator[](i);
+      }
+    }
   }
 };
 
@@ -75,11 +80,11 @@ struct imp_GADefaults_DVO<Var_t, ContainerOption::Eigen> {
 
     for (size_t i = 0; i < N; i++) {
       if (i < idx) {
-        c1->operator[](i) = p1->operator[](i);
-        c2->operator[](i) = p2->operator[](i);
+        c1->operator()(i) = p1->operator()(i);
+        c2->operator()(i) = p2->operator()(i);
       } else {
-        c1->operator[](i) = p2->operator[](i);
-        c2->operator[](i) = p1->operator[](i);
+        c1->operator()(i) = p2->operator()(i);
+        c2->operator()(i) = p1->operator()(i);
       }
     }
   }
-- 
2.43.0


From d68f35868280ffffefca8e2e7c79fe5a084a7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 46/68] fix: cFunRandXs ignored its probability

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 50a2536..fad3bac 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -451,7 +451,7 @@ struct GADefaults<Var_t, void> {
    */
   template <DivCode p = DivCode::DivCode_Half>
   inline static void cFunRandXs(const Var_t *p1, const Var_t *p2, Var_t *c1, Var_t *c2) noexcept {
-    Heu_PRIVATE_IMP_cFunX cFunRandNs(p1, p2, c1, c2);
+    Heu_PRIVATE_IMP_cFunX cFunRandNs<p>(p1, p2, c1, c2);
   }
 };
 
-- 
2.43.0


From c90cf6e99c5b254c6c129f831df9f39405984fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 47/68] fix: mFun_s did not compile with any box

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp  |  1 +
 .../src/Genetic/Miscellaneous4GA.hpp          | 50 ++++---------------
 2 files changed, 11 insertions(+), 40 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 08c26d3..3041fef 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -453,6 +453,7 @@ class DiscretBox
 
   static_assert(!(std::is_same_v<Scalar_t, bool> && BS == BoxShape::RECTANGLE_BOX),
                 "Boolean box must be a square box");
+  static constexpr BoxShape Shape = BS;
 };
 
 /**
diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index fad3bac..ac6eef7 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -136,43 +136,6 @@ struct GADefaults {
   static constexpr ContainerOption dvo =
       (array_traits<Var_t>::isEigenClass) ? (ContainerOption::Eigen) : (ContainerOption::Std);
 
-  template <BoxShape BS, typename unused = void>
-  struct SymBoxOp  //  non-square box
-  {
-    using scalar_t = typename toElement<Var_t>::type;
-
-    inline static void imp_domFunNs(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-      *v = *src;
-      const size_t idx = randIdx(v->size());
-      const auto val = v->operator[](idx);
-      const size_t numLess = val - box->min()[idx];
-      const size_t numGreater = box->max()[idx] - val;
-
-      if (randD() * (numLess + numGreater) <= numLess)
-        v->operator[](idx) = randIdx(box->min()[idx], val);
-      else
-        v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max()[idx] + 1));
-    }
-  };
-
-  template <typename unused>
-  struct SymBoxOp<BoxShape::SQUARE_BOX, unused> {
-    using scalar_t = typename toElement<Var_t>::type;
-
-    inline static void imp_domFunNs(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-      *v = *src;
-      const size_t idx = randIdx(v->size());
-      const auto val = v->operator[](idx);
-      const size_t numLess = val - box->min();
-      const size_t numGreater = box->max() - val;
-
-      if (randD() * (numLess + numGreater) <= numLess)
-        v->operator[](idx) = randIdx(box->min(), val);
-      else
-        v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max() + 1));
-    }
-  };
-
  public:
   /**
    * \brief Univerial initialize function.
@@ -327,12 +290,19 @@ struct GADefaults {
   requires isBoxConstraint<Args_t>
 #endif  //  #if __cplusplus >= 202002L
   inline static void mFun_s(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-    static_assert(Args_t::isBox, "Default mFun requires Args_t to be a box constriant");
-    static_assert(Args_t::Encoding == EncodeType::Symbolic, "mFun_s requires symbolic box");
+    static_assert(isBoxConstraint_v<Args_t>, "Default mFun requires Args_t to be a box constriant");
+    using scalar_t = typename toElement<Var_t>::type;
+    static_assert(std::is_integral_v<scalar_t>, "mFun_s requires symbolic box");
     static_assert(std::is_same<typename Args_t::Var_t, Var_t>::value,
                   "Box and Var_t types must be same");
+    using wide_t = std::conditional_t<std::is_signed_v<scalar_t>, int64_t, uint64_t>;
 
-    SymBoxOp<Args_t::Shape>::imp_domFunNs(src, v, box);
+    // one element changes to any other value in the box
+    *v = *src;
+    const int idx = randIdx(int(v->size()));
+    std::uniform_int_distribution<wide_t> rnd(box->min(idx), wide_t(box->max(idx)) - 1);
+    const wide_t val = rnd(internal::global_mt19937());
+    at(*v, idx) = scalar_t((val >= wide_t(at(*src, idx))) ? (val + 1) : (val));
   }
 };
 
-- 
2.43.0


From d97374fcf9ce8ea71d9e82fc23ebf35c597a0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 48/68] fix: encode() gave the next power of two for numbers
 whose mantissa is all ones

---
 .../src/Global/ConvertDoubleAndBinCode.hpp    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index aa3950e..ccac906 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -247,15 +247,17 @@ constexpr uint64_t exponentVal(double fl) {
   uint64_t code = 0;
   fl = absVal(fl);
 
-  constexpr double seper =
-      decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
+  constexpr double minNormal = std::numeric_limits<double>::min();
+  if (fl < minNormal) return 0;
 
-  while (fl > 257 * seper) {
+  // All divisions here are exact, because their results are normal numbers.
+  code = 1;
+  while (fl >= 256 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
@@ -266,18 +268,17 @@ constexpr uint64_t exponentVal(double fl) {
 constexpr uint32_t exponentVal(float fl) {
   uint32_t code = 0;
   fl = absVal(fl);
-  /*
-constexpr double seper =
-    decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
-    */
-  constexpr float seper = decode(binCode32(0b00000000011111111111111111111111UL));
+  constexpr float minNormal = std::numeric_limits<float>::min();
+  if (fl < minNormal) return 0;
 
-  while (fl > 257 * seper) {
+  // All divisions here are exact, because their results are normal numbers.
+  code = 1;
+  while (fl >= 256 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
-- 
2.43.0


From 61471b64137a5c867e18d9c6228bf30ca8175511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 49/68] fix: encode() lost the sign of negative zero

---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index ccac906..426727a 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -231,9 +231,15 @@ inline constexpr float decode(const binCode32 binCode) {
 
 namespace {
 
+#ifdef __GNUC__
+constexpr bool isNotNegative(const double fl) { return !__builtin_signbit(fl); }
+
+constexpr bool isNotNegative(const float fl) { return !__builtin_signbit(fl); }
+#else
 constexpr bool isNotNegative(const double fl) { return fl >= 0; }
 
 constexpr bool isNotNegative(const float fl) { return fl >= 0; }
+#endif
 
 constexpr uint64_t signCode(const double fl) { return uint64_t(!isNotNegative(fl)) << 63; }
 
-- 
2.43.0


From 0a291c341ba80e4f47642a48d468aec2f8fe9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 50/68] fix: encode() of positive infinite float gave negative
 infinity

---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index 426727a..8f25ad8 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -403,9 +403,9 @@ constexpr binCode32 encode(const float d) {
 
   if (absVal(d) >= std::numeric_limits<float>::infinity()) {
     if (d > 0) {
-      return binCode32(0b11111111111UL << 23);
+      return binCode32(0b11111111UL << 23);
     } else {
-      return binCode32(0b111111111111UL << 23);
+      return binCode32(0b111111111UL << 23);
     }
   } else
     return binCode32(signCode(d) | exponentCode(d) | mantissaCode(d));
-- 
2.43.0


From 2a277775b2b8e9b8bada5e120bc7391064a52f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 51/68] fix: PowEncode overflowed 54 bits when the significant
 is greater than 1.8014398509481984

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 66dcc69..c6b680a 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -123,7 +123,7 @@ enum PowCode : uint64_t {
 
 namespace internal {
 // Multiplie val for 10 times until it gets greater than the threshold
-template <uint64_t val, uint64_t threshold = 10000000000000000ULL>
+template <uint64_t val, uint64_t threshold = 1000000000000000ULL>
 struct PowEncode_amplifier {
  private:
   static const constexpr bool need2amp = (val < threshold);
@@ -175,7 +175,8 @@ struct PowEncode_OneE<0> {
 template <int64_t significant, int16_t power>
 struct PowEncode {
  private:
-  static const constexpr uint64_t threshold = 1e16;
+  // 10^16 < 2^54, so 16 decimal digits fit into the 54 bits of the significant
+  static const constexpr uint64_t threshold = 1e15;
   static const constexpr bool isNegative = significant < 0;
   static const constexpr uint64_t absVal = (isNegative) ? (-significant) : significant;
   static const constexpr bool isSigValid = (absVal / 10 < threshold);
@@ -227,7 +228,7 @@ struct PowDecode {
   static const constexpr bool isPowNegative = lowerBitMask & code;
   static const constexpr int16_t absPow = lowerPowMask & code;
   static const constexpr int16_t pow = (isPowNegative ? (-absPow) : absPow);
-  static const constexpr double digital = (sig) / (1e16);
+  static const constexpr double digital = (sig) / (1e15);
   static const constexpr double powPart = internal::PowEncode_OneE<pow>::result;
 
  public:
-- 
2.43.0


From c2213f09de95f10b2bf28648949fa4f22e62a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 52/68] fix: DivCode_Pi_mul_2 was 2/pi instead of 2*pi

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index c6b680a..e6106f9 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -44,7 +44,7 @@ namespace heu {
 enum DivCode : uint64_t {
   DivCode_Half = 4294967298,
   DivCode_Pi = 2088567404207137453,
-  DivCode_Pi_mul_2 = 993512999210214248,
+  DivCode_Pi_mul_2 = 2111843339441150603,
   DivCode_Pi_mul_3 = 2111843339415065010,
   DivCode_Pi_mul_4 = 4223686678804044427,
   DivCode_Pi_mul_6 = 2111843339388979417,
-- 
2.43.0


From 75281b0d4f8bcfc4ab6c289323d3edeef8b054ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 53/68] fix: ackley used 2/pi instead of 2*pi as angular
 frequency

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1f40756..3cf37c0 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -66,7 +66,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     assert4Size(_x);
     auto x = _x->operator[](0), y = _x->operator[](1);
     *f = -20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) -
-         std::exp(0.5 * (std::cos(M_2_PI * x) + std::cos(M_2_PI * y))) + 20 + M_E;
+         std::exp(0.5 * (std::cos(2 * M_PI * x) + std::cos(2 * M_PI * y))) + 20 + M_E;
   }
 
   inline static void beale(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From fdb6014b711ddf865869ead11f3e69301f6510f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 54/68] fix: GoldsteinPrice had wrong coefficients, and another
 name when called with an argument

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 3cf37c0..5773ede 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -33,7 +33,7 @@ template <typename Var_t, class Fitness_t = double, class Arg_t = void>
 struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, ackley)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, beale)
-  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldSteinPrice)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldsteinPrice)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, booth)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, bukin)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
@@ -83,7 +83,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto part1 =
         1 + square(1 + x + y) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y);
     const auto part2 =
-        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x + 47 * y - 36 * x * y + 27 * y * y);
+        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y);
     *f = part1 * part2;
   }
 
-- 
2.43.0


From 2db393d760154f9afe2e674618ba498cd8bd4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 55/68] fix: threeHumpCamel could not be called with an
 argument

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 5773ede..12cffc4 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -39,6 +39,7 @@ struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, levy)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, himmelblau)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, threeHumpCamel)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, easom)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, crossInTray)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, eggHolder)
-- 
2.43.0


From ebf57d81e818180e91adf97b77dbf8fca554bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 56/68] fix: holderTable took the root of x*x-y*y, which is NaN
 for many points

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 12cffc4..cdc6748 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -171,7 +171,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     *f = -std::abs(std::sin(x) * std::cos(y) *
                    std::exp(
 
-                       std::abs(1 - std::sqrt(x * x - y * y) / M_PI)
+                       std::abs(1 - std::sqrt(x * x + y * y) / M_PI)
 
                            ));
   }
-- 
2.43.0


From 43db59074fbc76907774a0017ce62acd65a80bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 57/68] fix: schaffer2 squared the difference instead of the
 sine

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index cdc6748..2b7420f 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -189,7 +189,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto x = _x->operator[](0);
     const auto y = _x->operator[](1);
 
-    *f = 0.5 + (square(std::sin(x * x - y * y) - 0.5)) / square(1 + 0.001 * (x * x + y * y));
+    *f = 0.5 + (square(std::sin(x * x - y * y)) - 0.5) / square(1 + 0.001 * (x * x + y * y));
   }
 
   inline static void schaffer4(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From 857240c0641b6b548b50f975b689895e5e77efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 58/68] fix: rosenbrock did not square the first variable of
 each pair

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 2b7420f..fab14d4 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -240,12 +240,12 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto square_1_minus_x_top = (1 - x->topRows(x->size() - 1)).square().sum();
-      auto minusSquare = (x->topRows(x->size() - 1) - x->bottomRows(x->size() - 1)).square().sum();
+      auto minusSquare = (x->topRows(x->size() - 1).square() - x->bottomRows(x->size() - 1)).square().sum();
       *f = 100 * minusSquare + square_1_minus_x_top;
     } else {
       double val = 0;
       for (int idx = 0; idx < x->size() - 1; idx++) {
-        val += 100 * square(x->operator[](idx + 1) - x->operator[](idx)) +
+        val += 100 * square(x->operator[](idx + 1) - square(x->operator[](idx))) +
                square(1 - x->operator[](idx));
       }
       *f = val;
-- 
2.43.0


From e5258074f96a6527730a63956c6d8bef266713e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 59/68] fix: styblinskiTang did not compile for Eigen arrays
 and was not halved for Eigen types

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index fab14d4..7e06f7e 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -254,8 +254,8 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
-      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum();
+      const auto &arr = x->array();
+      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
       for (auto xi : *x) {
-- 
2.43.0


From 613c6d9da4d9d05ae01ce2933839289f7adf7feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 60/68] fix: Schaffer2 never took its second branch and had the
 wrong sign in the last one

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0e850ff..8a20efc 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -79,12 +79,12 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
     if (x <= 1) {
       f->operator[](0) = -x;
-    } else if (x <= -3) {
+    } else if (x <= 3) {
       f->operator[](0) = x - 2;
     } else if (x <= 4) {
       f->operator[](0) = 4 - x;
     } else {
-      f->operator[](0) = 4 - x;
+      f->operator[](0) = x - 4;
     }
   }
 };
-- 
2.43.0


From 9663376ce068c8241a4f53b8ac2574554263f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 61/68] fix: two-variable functions resized the objectives by
 the type of the variables

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 8a20efc..1defe9b 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -108,8 +108,8 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(2, 1);
       } else {
         f->resize(2);
@@ -190,8 +190,8 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(3, 1);
       } else {
         f->resize(3);
-- 
2.43.0


From 0268df25ccfa32df7e4b89d32c33149aaa1ee8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 62/68] fix: viennet had a wrong coefficient

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 1defe9b..4dd80b1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -208,7 +208,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
     const auto x2_plus_y2 = x * x + y * y;
     f->operator[](0) = x2_plus_y2 / 2 + std::sin(x2_plus_y2);
-    f->operator[](1) = square(2 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
+    f->operator[](1) = square(3 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
     f->operator[](2) = 1 / (x2_plus_y2 + 1) - 1.1 * std::exp(-x2_plus_y2);
   }
 };
-- 
2.43.0


From aa3f9596a65e4494a9c763600c1b969a8a34f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 63/68] fix: FonsecaFleming took the number of objectives for
 that of variables and roots for squares

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 4dd80b1..d2bedfd 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -234,17 +234,16 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
  public:
   static inline void FonsecaFleming(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = f->size();  // If the size of f is determined at compile-time, the compiler will
-                              // be able to optimize it; otherwise N is a read only integer.
+    const int N = int(_x->size());
     typename array_traits<Fitness_t>::Scalar_t exp1 = 0, exp2 = 0;
-    constexpr typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
+    const typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
     if constexpr (array_traits<Var_t>::isEigenClass) {
       exp1 = -1 * (_x->array() - rSqrtN).square().sum();
       exp2 = -1 * (_x->array() + rSqrtN).square().sum();
     } else {
       for (int idx = 0; idx < N; idx++) {
-        exp1 -= sqrt(_x->operator[](idx) - rSqrtN);
-        exp2 -= sqrt(_x->operator[](idx) + rSqrtN);
+        exp1 -= square(_x->operator[](idx) - rSqrtN);
+        exp2 -= square(_x->operator[](idx) + rSqrtN);
       }
     }
 
-- 
2.43.0


From 56c7ad4850ccc3b3ea2a27e2500bbce6e971a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 64/68] fix: Kursawe took the number of objectives for that of
 variables

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index d2bedfd..08efe3c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -253,10 +253,11 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
 
   static inline void Kursawe(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = int(f->size());
+    const int N = int(_x->size());
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
+        constexpr int N = array_traits<Var_t>::sizeCT;
         auto topN_sub_1Rows = _x->template topRows<N - 1>();
         auto bottomN_sub_1Rows = _x->template bottomRows<N - 1>();
         f1 = -10 * (-0.2 *
-- 
2.43.0


From 222dd3e2ad235498e9c816f18b63dcc82bbc02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 65/68] fix: testFunctions did not compile for one variable or
 for fixed variables with dynamic objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp   | 7 ++++---
 HeuristicFlow/src/EAGlobal/TestFunctions.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 08efe3c..74e5c8f 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -223,7 +223,7 @@ template <typename Var_t, class Fitness_t>
 struct MOFunctionsX2<Var_t, Fitness_t, void> {
  private:
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT == 2));
-  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 1));
+  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Var_t>::sizeCT >= 1));
 
   static inline void assert4Size(const Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
@@ -325,8 +325,9 @@ struct sizeMayMatchDTLZ1to7 {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT));
 
   static constexpr bool value =
-      (isAllFixed) ? (array_traits<Var_t>::sizeCT - array_traits<Fitness_t>::sizeCT + 1 > 0)
-                   : (true);
+      (isAllFixed) ? (array_traits<Var_t>::sizeCT > 1 &&
+                      array_traits<Var_t>::sizeCT - array_traits<Fitness_t>::sizeCT + 1 > 0)
+                   : (!array_traits<Var_t>::isFixedSize || array_traits<Var_t>::sizeCT > 1);
 };
 
 template <typename Var_t, class Fitness_t>
diff --git a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
index 0290afc..2aac73b 100644
--- a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
@@ -62,7 +62,7 @@ struct MOFunctions
       public std::conditional<sizeMayMatchDTLZ1to7<Var_t, Fitness_t>::value,
                               DTLZ1to7<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type,
       public std::conditional<sizeMayMatchDTLZ89<Var_t, Fitness_t>::value,
-                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type {
+                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct6>::type {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 2),
                 "The size of Fitness_t must be greater than 1.");
 };
-- 
2.43.0


From c2733d29380b21e6f0f30cedfa7290fb0175c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 66/68] fix: DTLZ5 and DTLZ6 did not compile for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 74e5c8f..67950ab 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -526,7 +526,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
       gr = xm.square().sum();
@@ -587,7 +587,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
-- 
2.43.0


From 0efe785e84b4e9a76ddabc273640e536ff540f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 67/68] fix: DTLZ7 left one objective unset for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 67950ab..cd4f969 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -656,7 +656,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         f->head(M - 1) = x->head(M - 1);
       }
     } else {
-      for (int idx = 0; idx < M - 2; idx++) {
+      for (int idx = 0; idx < M - 1; idx++) {
         f->operator[](idx) = x->operator[](idx);
       }
     }
-- 
2.43.0


From 1c0302735310998e0777d51e7904efa71ad83736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 68/68] fix: DTLZ9 read beyond the variables and the objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index cd4f969..d91a600 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -861,14 +861,14 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     for (int objIdx = 0; objIdx < M; objIdx++) {
       f->operator[](objIdx) = 0;
-      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N, (objIdx + 1) * N / M);
+      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N - 1, (objIdx + 1) * N / M);
            varIdx++) {
         f->operator[](objIdx) += std::pow(x->operator[](varIdx), 0.1);
       }
     }
     // apply penlties
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-      auto gOfObjIdx = square(f->operator[](M)) + square(f->operator[](objIdx)) - 1;
+      auto gOfObjIdx = square(f->operator[](M - 1)) + square(f->operator[](objIdx)) - 1;
 
       if (gOfObjIdx < 0) {
         f->operator[](objIdx) += 1e3 + (-gOfObjIdx);
-- 
2.43.0

