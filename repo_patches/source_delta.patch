From ec1c4fe230393b71d139a52332b258cce775b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 01/85] fix: negate the global phase when inverting a circuit

---
 src/algorithms/StatePreparation.cpp | 2 +-
 src/ir/QuantumComputation.cpp       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..3c19e85 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -266,7 +266,7 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    disentangler.gphase(-arg);
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..7abb5df 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -550,6 +550,9 @@ void QuantumComputation::invert() {
   }
   std::reverse(ops.begin(), ops.end());
 
+  // the adjoint of a circuit carries the negated global phase
+  gphase(-2. * globalPhase);
+
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
   } else {
-- 
2.43.0


From 969e7c32ed148c84ce98bdb39d4b58bdbba6ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 02/85] fix: reject gates on a zero-qubit decision diagram
 package

---
 src/dd/Package.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..ab852ca 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -354,9 +354,9 @@ mEdge Package::makeGateDD(const GateMatrix& mat, const qc::Controls& controls,
                           const qc::Qubit target) {
   if (std::any_of(controls.begin(), controls.end(),
                   [this](const auto& c) {
-                    return c.qubit > static_cast<Qubit>(nqubits - 1U);
+                    return c.qubit >= nqubits;
                   }) ||
-      target > static_cast<Qubit>(nqubits - 1U)) {
+      target >= nqubits) {
     throw std::runtime_error{
         "Requested gate acting on qubit(s) with index larger than " +
         std::to_string(nqubits - 1U) +
@@ -431,10 +431,10 @@ mEdge Package::makeTwoQubitGateDD(const TwoQubitGateMatrix& mat,
   // sanity check
   if (std::any_of(controls.begin(), controls.end(),
                   [this](const auto& c) {
-                    return c.qubit > static_cast<Qubit>(nqubits - 1U);
+                    return c.qubit >= nqubits;
                   }) ||
-      target0 > static_cast<Qubit>(nqubits - 1U) ||
-      target1 > static_cast<Qubit>(nqubits - 1U)) {
+      target0 >= nqubits ||
+      target1 >= nqubits) {
     throw std::runtime_error{
         "Requested gate acting on qubit(s) with index larger than " +
         std::to_string(nqubits - 1U) +
-- 
2.43.0


From d53b409493019f78cdc8d55cc3dcca41e0def8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 03/85] fix: parse the printed names of the noise operation
 types

---
 src/ir/operations/OpType.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/operations/OpType.cpp b/src/ir/operations/OpType.cpp
index dd6c7df..41e2216 100644
--- a/src/ir/operations/OpType.cpp
+++ b/src/ir/operations/OpType.cpp
@@ -135,6 +135,10 @@ OpType opTypeFromString(const std::string& opType) {
       {"aod_activate", OpType::AodActivate},
       {"aod_deactivate", OpType::AodDeactivate},
       {"aod_move", OpType::AodMove},
+      {"a_true", OpType::ATrue},
+      {"a_false", OpType::AFalse},
+      {"multi_a_true", OpType::MultiATrue},
+      {"multi_a_false", OpType::MultiAFalse},
   };
 
   // try to find the operation type in the map of known operation types and
-- 
2.43.0


From df7749d7284e43f04ce53a9f9ff3abe6bc8a209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 04/85] fix: subtract an expression from a term or constant,
 not the other way round

---
 include/mqt-core/ir/operations/Expression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..35963cd 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -721,12 +721,12 @@ Expression<T, U> operator-(Expression<T, U> lhs, const Term<T>& rhs) {
 template <typename T, typename U>
 Expression<T, U> operator-(const Term<T>& lhs, Expression<T, U> rhs) {
   rhs -= lhs;
-  return rhs;
+  return -rhs;
 }
 template <typename T, typename U>
 Expression<T, U> operator-(const U& lhs, Expression<T, U> rhs) {
   rhs -= lhs;
-  return rhs;
+  return -rhs;
 }
 
 template <typename T, typename U>
-- 
2.43.0


From 40dca4eed5f8395219d305f3bdbd2789fc1275f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 05/85] fix: add the scalar when adding a coefficient-typed
 scalar to an expression

---
 include/mqt-core/ir/operations/Expression.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 35963cd..1a49906 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -702,9 +702,8 @@ Expression<T, U> operator+(Expression<T, U> lhs, const U& rhs) {
 }
 
 template <typename T, typename U>
-Expression<T, U> operator+([[maybe_unused]] const T& lhs,
-                           Expression<T, U> rhs) {
-  rhs += rhs;
+Expression<T, U> operator+(const T& lhs, Expression<T, U> rhs) {
+  rhs += U{lhs};
   return rhs;
 }
 
-- 
2.43.0


From ba166f5f540703a946186692959012fdf880201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 06/85] fix: compare the variables when comparing expressions

---
 include/mqt-core/ir/operations/Expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 1a49906..37c8b9f 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -793,7 +793,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
-- 
2.43.0


From cea7212b62e0d7efa5715737f28b856d00170c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 07/85] fix: partial trace of diagrams that skip eliminated
 levels

---
 include/mqt-core/dd/Package.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..d91f9f5 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1577,8 +1577,8 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
+                         const std::vector<bool>& eliminate,
+                         std::size_t level) {
     const auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
@@ -1611,9 +1611,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
+                    trace(a.p->e[3], eliminate, level - 1), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1632,15 +1631,19 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
+                   [this, &eliminate,
                     &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
+                     return trace(e, eliminate, level - 1);
                    });
-    const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+    // The level decreases by the number of eliminated qubits below it. Levels
+    // above might have been skipped in the DD, so they cannot be counted along
+    // the path to this node.
+    const auto adjustedV = static_cast<Qubit>(
+        v - std::count(
+                eliminate.begin(),
+                eliminate.begin() +
+                    static_cast<std::vector<bool>::difference_type>(v),
+                true));
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From f1d52f0999f74407ed3d6e1ff6da0a206c4cd002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:59 +0000
Subject: [PATCH 08/85] fix: index shift of matrix Kronecker products

---
 include/mqt-core/dd/Package.hpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index d91f9f5..69e9766 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1457,9 +1457,23 @@ private:
       }
     }
 
-    // check if we already computed the product before and return the result
+    // Increase the qubit index
+    Qubit idx = x.p->v;
+    if (incIdx) {
+      // a matrix DD might not have a node for each of its qubits
+      if constexpr (std::is_same_v<Node, mNode> ||
+                    std::is_same_v<Node, dNode>) {
+        idx += static_cast<Qubit>(yNumQubits);
+      } else {
+        idx += static_cast<Qubit>(y.p->v + 1U);
+      }
+    }
+
+    // check if we already computed the product before and return the result.
+    // A result computed for a different index shift must not be reused.
     auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && !r->isTerminal() && r->p->v == idx) {
       return {r->p, rWeight};
     }
 
@@ -1469,21 +1483,6 @@ private:
       edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
     }
 
-    // Increase the qubit index
-    Qubit idx = x.p->v;
-    if (incIdx) {
-      // use the given number of qubits if y is an identity
-      if constexpr (std::is_same_v<Node, mNode> ||
-                    std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
-      } else {
-        idx += static_cast<Qubit>(y.p->v + 1U);
-      }
-    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From bb87d178e824d9d5314fb94317993e081e8e6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 09/85] fix: entries of matrix diagrams without nodes

---
 src/dd/Edge.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..5631d6f 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,9 +43,6 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
-    return c;
-  }
 
   auto r = *this;
   if constexpr (std::is_same_v<Node, dNode>) {
@@ -356,10 +353,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
-- 
2.43.0


From d18bdc08b12c5858ff911c2d056461e4ffab24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 10/85] fix: reject states and matrices on more qubits than the
 package has

---
 src/dd/Package.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index ab852ca..4f79b9e 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -158,6 +158,13 @@ bool Package::garbageCollect(bool force) {
 }
 
 dEdge Package::makeZeroDensityOperator(const std::size_t n) {
+  if (n > nqubits) {
+    throw std::runtime_error{
+        "Requested density operator with " + std::to_string(n) +
+        " qubits, but current package configuration only supports up to " +
+        std::to_string(nqubits) +
+        " qubits. Please allocate a larger package instance."};
+  }
   auto f = dEdge::one();
   for (std::size_t p = 0; p < n; p++) {
     f = makeDDNode(static_cast<Qubit>(p),
@@ -337,6 +344,13 @@ vEdge Package::makeStateFromVector(const CVec& stateVector) {
   }
 
   const auto level = static_cast<Qubit>(std::log2(length) - 1);
+  if (level >= nqubits) {
+    throw std::runtime_error{
+        "Requested state with " + std::to_string(level + 1U) +
+        " qubits, but current package configuration only supports up to " +
+        std::to_string(nqubits) +
+        " qubits. Please allocate a larger package instance."};
+  }
   const auto state =
       makeStateFromVector(stateVector.begin(), stateVector.end(), level);
   const vEdge e{state.p, cn.lookup(state.w)};
@@ -556,6 +570,13 @@ mEdge Package::makeDDFromMatrix(const CMat& matrix) {
   }
 
   const auto level = static_cast<Qubit>(std::log2(length) - 1);
+  if (level >= nqubits) {
+    throw std::runtime_error{
+        "Requested matrix on " + std::to_string(level + 1U) +
+        " qubits, but current package configuration only supports up to " +
+        std::to_string(nqubits) +
+        " qubits. Please allocate a larger package instance."};
+  }
   const auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, width);
   return {matrixDD.p, cn.lookup(matrixDD.w)};
 }
-- 
2.43.0


From 7982727339a1ae17fd6a061f706541378cbbbee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 11/85] fix: reject basis states with too few entries

---
 src/dd/Package.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 4f79b9e..037e24b 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -200,6 +200,11 @@ vEdge Package::makeBasisState(const std::size_t n,
         std::to_string(nqubits) +
         " qubits. Please allocate a larger package instance."};
   }
+  if (state.size() < n + start) {
+    throw std::runtime_error("Insufficient qubit states provided. Requested " +
+                             std::to_string(n + start) + ", but received " +
+                             std::to_string(state.size()));
+  }
   auto f = vEdge::one();
   for (std::size_t p = start; p < n + start; ++p) {
     if (!state[p]) {
@@ -221,9 +226,9 @@ vEdge Package::makeBasisState(const std::size_t n,
         std::to_string(nqubits) +
         " qubits. Please allocate a larger package instance."};
   }
-  if (state.size() < n) {
+  if (state.size() < n + start) {
     throw std::runtime_error("Insufficient qubit states provided. Requested " +
-                             std::to_string(n) + ", but received " +
+                             std::to_string(n + start) + ", but received " +
                              std::to_string(state.size()));
   }
 
-- 
2.43.0


From 70257ed0f970bf92c03b43e185bdbc0ef107bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 12/85] fix: reject matrices with rows of different length

---
 src/dd/Package.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 037e24b..310cd17 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -566,7 +566,9 @@ mEdge Package::makeDDFromMatrix(const CMat& matrix) {
   }
 
   const auto& width = matrix[0].size();
-  if (length != width) {
+  if (std::any_of(matrix.begin(), matrix.end(), [&length](const auto& row) {
+        return row.size() != length;
+      })) {
     throw std::invalid_argument("Matrix must be square.");
   }
 
-- 
2.43.0


From bed2d69be0578dc2c1e213dfda6dcc99619274f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 13/85] fix: copies of classic-controlled operations lose their
 comparison

---
 src/ir/operations/ClassicControlledOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..33b2499 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -90,7 +90,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -100,6 +101,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From 6e36446eeab85b9a97b2fbccf91b6b869901325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 14/85] fix: symbolic operations compare equal despite
 different gates, qubits or parameters

---
 src/ir/operations/SymbolicOperation.cpp | 27 ++++++-------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..6d7ccdb 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -331,32 +331,17 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (!op.isSymbolicOperation() && !isStandardOperation()) {
+  if (isSymbolicOperation() != op.isSymbolicOperation()) {
     return false;
   }
-  if (isStandardOperation() && StandardOperation::equals(op, perm1, perm2)) {
-    return true;
-  }
-
-  if (!op.isSymbolicOperation()) {
+  if (!StandardOperation::equals(op, perm1, perm2)) {
     return false;
   }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
-      return false;
-    }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
-    }
+  if (!isSymbolicOperation()) {
+    return true;
   }
-  return true;
+  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
+  return symbolicParameter == symOp.symbolicParameter;
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From 0c368ba94409f1acc237539958081a3c897f4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 15/85] fix: AOD operations with different movements compare
 equal

---
 include/mqt-core/ir/operations/AodOperation.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mqt-core/ir/operations/AodOperation.hpp b/include/mqt-core/ir/operations/AodOperation.hpp
index ad14379..3b6e7f9 100644
--- a/include/mqt-core/ir/operations/AodOperation.hpp
+++ b/include/mqt-core/ir/operations/AodOperation.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "ir/Definitions.hpp"
+#include "ir/Permutation.hpp"
 #include "ir/Register.hpp"
 #include "ir/operations/Control.hpp"
 #include "ir/operations/OpType.hpp"
@@ -35,6 +36,10 @@ struct SingleOperation {
   SingleOperation(const Dimension d, const qc::fp s, const qc::fp e)
       : dir(d), start(s), end(e) {}
 
+  [[nodiscard]] bool operator==(const SingleOperation& other) const {
+    return dir == other.dir && start == other.start && end == other.end;
+  }
+
   [[nodiscard]] std::string toQASMString() const;
 };
 class AodOperation final : public qc::Operation {
@@ -74,6 +79,16 @@ public:
     return controls.erase(it);
   }
 
+  [[nodiscard]] bool equals(const Operation& op, const qc::Permutation& perm1,
+                            const qc::Permutation& perm2) const override {
+    const auto* aod = dynamic_cast<const AodOperation*>(&op);
+    return aod != nullptr && operations == aod->operations &&
+           Operation::equals(op, perm1, perm2);
+  }
+  [[nodiscard]] bool equals(const Operation& op) const override {
+    return equals(op, {}, {});
+  }
+
   [[nodiscard]] std::vector<qc::fp> getEnds(Dimension dir) const;
 
   [[nodiscard]] std::vector<qc::fp> getStarts(Dimension dir) const;
-- 
2.43.0


From 477a1abb8a03664ba136c6c1cab739d07e7963d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 16/85] fix: equal operations hash differently when qubits are
 listed in another order

---
 .../ir/operations/NonUnitaryOperation.hpp     | 19 ++++++++++++--
 include/mqt-core/ir/operations/Operation.hpp  | 26 ++++++++++++++-----
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
index 02dada2..527803f 100644
--- a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
+++ b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
@@ -23,6 +23,7 @@
 #include <ostream>
 #include <set>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace qc {
@@ -107,10 +108,24 @@ template <> struct std::hash<qc::NonUnitaryOperation> {
   std::size_t operator()(qc::NonUnitaryOperation const& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, op.getType());
-    for (const auto& q : op.getTargets()) {
+    const auto& targets = op.getTargets();
+    const auto& classics = op.getClassics();
+    if (op.getType() == qc::Measure) {
+      // equality does not depend on the order of the measurements
+      std::set<std::pair<qc::Qubit, qc::Bit>> measurements{};
+      for (std::size_t i = 0; i < targets.size(); ++i) {
+        measurements.emplace(targets[i], classics[i]);
+      }
+      for (const auto& [q, c] : measurements) {
+        qc::hashCombine(seed, q);
+        qc::hashCombine(seed, c);
+      }
+      return seed;
+    }
+    for (const auto& q : targets) {
       qc::hashCombine(seed, q);
     }
-    for (const auto& c : op.getClassics()) {
+    for (const auto& c : classics) {
       qc::hashCombine(seed, c);
     }
     return seed;
diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 746a0a4..6afe42c 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -228,14 +228,26 @@ template <> struct std::hash<qc::Operation> {
   std::size_t operator()(const qc::Operation& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, hash<qc::OpType>{}(op.getType()));
-    for (const auto& control : op.getControls()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
-      if (control.type == qc::Control::Type::Neg) {
-        seed ^= 1ULL;
+    if (op.isDiagonalGate()) {
+      // equality does not distinguish positive controls and targets
+      for (const auto& qubit : op.getUsedQubits()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(qubit));
+      }
+      for (const auto& control : op.getControls()) {
+        if (control.type == qc::Control::Type::Neg) {
+          qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
+        }
+      }
+    } else {
+      for (const auto& control : op.getControls()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
+        if (control.type == qc::Control::Type::Neg) {
+          seed ^= 1ULL;
+        }
+      }
+      for (const auto& target : op.getTargets()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(target));
       }
-    }
-    for (const auto& target : op.getTargets()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(target));
     }
     for (const auto& param : op.getParameter()) {
       qc::hashCombine(seed, hash<qc::fp>{}(param));
-- 
2.43.0


From 5847935ea5eaf98d6b2ace0022902d3642e76c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 17/85] fix: numeric operations compare equal to symbolic ones

---
 src/ir/operations/Operation.cpp         | 5 +++++
 src/ir/operations/SymbolicOperation.cpp | 3 ---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..cec4e0d 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -120,6 +120,11 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
+  // the parameters of symbolic operations are not (only) numbers
+  if (isSymbolicOperation() != op.isSymbolicOperation()) {
+    return false;
+  }
+
   // check number of controls
   const auto nc1 = getNcontrols();
   const auto nc2 = op.getNcontrols();
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 6d7ccdb..c6c947c 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -331,9 +331,6 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (isSymbolicOperation() != op.isSymbolicOperation()) {
-    return false;
-  }
   if (!StandardOperation::equals(op, perm1, perm2)) {
     return false;
   }
-- 
2.43.0


From 07f4a83e1803d20af865e4a747bfe3931a6b2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 18/85] fix: removing a set of controls uses iterators of the
 wrong set

---
 include/mqt-core/ir/operations/Operation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 6afe42c..dc89d6c 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -114,8 +114,10 @@ public:
   virtual Controls::iterator removeControl(Controls::iterator it) = 0;
 
   void removeControls(const Controls& c) {
-    for (auto it = c.begin(); it != c.end();) {
-      it = removeControl(it);
+    // `c` might be the set of controls of this very operation
+    const auto controlsToRemove = c;
+    for (const auto& control : controlsToRemove) {
+      removeControl(control);
     }
   }
 
-- 
2.43.0


From 799bc64815cf1425001acee5c3abe199134d680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 19/85] fix: classically controlled compound operations are
 relabelled, counted and queried through their parts

---
 .../operations/ClassicControlledOperation.hpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index d1f1c2c..b2ec72c 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -22,6 +22,7 @@
 #include <memory>
 #include <optional>
 #include <ostream>
+#include <set>
 #include <string>
 
 namespace qc {
@@ -95,6 +96,29 @@ public:
     return op->getNcontrols();
   }
 
+  void setTargets(const Targets& t) override { op->setTargets(t); }
+
+  [[nodiscard]] auto getUsedQubitsPermuted(const Permutation& perm) const
+      -> std::set<Qubit> override {
+    return op->getUsedQubitsPermuted(perm);
+  }
+
+  void apply(const Permutation& permutation) override {
+    op->apply(permutation);
+  }
+
+  void addDepthContribution(std::vector<std::size_t>& depths) const override {
+    op->addDepthContribution(depths);
+  }
+
+  [[nodiscard]] bool isControlled() const override {
+    return op->isControlled();
+  }
+
+  [[nodiscard]] bool isSymbolicOperation() const override {
+    return op->isSymbolicOperation();
+  }
+
   [[nodiscard]] bool isUnitary() const override { return false; }
 
   [[nodiscard]] bool isClassicControlledOperation() const noexcept override {
-- 
2.43.0


From 919188bfd5aa3e5d27bd0b1600bf8a24c1928322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 20/85] fix: global check of empty and non-uniform compound
 operations

---
 src/ir/operations/CompoundOperation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..b8a84e5 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -77,10 +77,13 @@ bool CompoundOperation::isCompoundOperation() const noexcept { return true; }
 bool CompoundOperation::isCustomGate() const noexcept { return customGate; }
 
 bool CompoundOperation::isGlobal(const size_t nQubits) const noexcept {
+  if (ops.empty()) {
+    return false;
+  }
   const auto& params = ops.front()->getParameter();
   const auto& t = ops.front()->getType();
   return getUsedQubits().size() == nQubits &&
-         std::all_of(ops.cbegin() + 1, ops.cend(), [&](const auto& operation) {
+         std::all_of(ops.cbegin(), ops.cend(), [&](const auto& operation) {
            return operation->isStandardOperation() &&
                   operation->getNcontrols() == 0 && operation->getType() == t &&
                   operation->getParameter() == params;
-- 
2.43.0


From 27909d1260b81dda99bcb8e282ce833913b1ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 21/85] fix: dynamic-circuit check rejects symbolic operations

---
 src/ir/QuantumComputation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 7abb5df..e5c6334 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1227,7 +1227,8 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return true;
   }
 
-  if (it->isStandardOperation()) {
+  if (it->isStandardOperation() ||
+      (it->isSymbolicOperation() && !it->isCompoundOperation())) {
     // Whenever a qubit has already been measured, the circuit is dynamic
     const auto& usedQubits = it->getUsedQubits();
     return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
-- 
2.43.0


From f96a62e2d5391d7a4bb5ec0661fb08272b120851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 22/85] fix: instantiate symbolic operations inside compound
 and classically controlled operations

---
 src/ir/QuantumComputation.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index e5c6334..6e74e0f 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1095,19 +1095,34 @@ bool QuantumComputation::isVariableFree() const {
                      [](const auto& op) { return !op->isSymbolicOperation(); });
 }
 
+namespace {
+// Instantiates an operation and everything it contains
+void instantiateOperation(Operation& op, const VariableAssignment& assignment) {
+  if (auto* symOp = dynamic_cast<SymbolicOperation*>(&op); symOp != nullptr) {
+    symOp->instantiate(assignment);
+  } else if (auto* compOp = dynamic_cast<CompoundOperation*>(&op);
+             compOp != nullptr) {
+    for (auto& subOp : *compOp) {
+      instantiateOperation(*subOp, assignment);
+    }
+  } else if (auto* classicOp = dynamic_cast<ClassicControlledOperation*>(&op);
+             classicOp != nullptr) {
+    instantiateOperation(*classicOp->getOperation(), assignment);
+  }
+}
+} // namespace
+
 // Instantiates this computation
 void QuantumComputation::instantiateInplace(
     const VariableAssignment& assignment) {
   for (auto& op : ops) {
+    instantiateOperation(*op, assignment);
+    // if the operation is fully instantiated, it can be replaced by the
+    // corresponding standard operation
     if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
-        symOp != nullptr) {
-      symOp->instantiate(assignment);
-      // if the operation is fully instantiated, it can be replaced by the
-      // corresponding standard operation
-      if (symOp->isStandardOperation()) {
-        op = std::make_unique<StandardOperation>(
-            *dynamic_cast<StandardOperation*>(symOp));
-      }
+        symOp != nullptr && symOp->isStandardOperation()) {
+      op = std::make_unique<StandardOperation>(
+          *dynamic_cast<StandardOperation*>(symOp));
     }
   }
   // after an operation is instantiated, the respective parameters can be
-- 
2.43.0


From e35631f46a6cc26deb9b6d4622a6f71b46f1dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 23/85] fix: new registers start after the highest physical
 qubit in use

---
 src/ir/QuantumComputation.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 6e74e0f..5582741 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -350,12 +350,15 @@ QuantumComputation::addQubitRegister(std::size_t nq,
         "qubits have been added");
   }
 
-  quantumRegisters.try_emplace(regName, static_cast<Qubit>(nqubits), nq,
-                               regName);
+  // physical indices need not be contiguous if qubits have been removed
+  const auto start =
+      initialLayout.empty() ? Qubit{0} : initialLayout.maxKey() + 1;
+  quantumRegisters.try_emplace(regName, start, nq, regName);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(nqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
+    const auto physical = static_cast<Qubit>(start + i);
+    const auto logical = static_cast<Qubit>(nqubits + i);
+    initialLayout.emplace(physical, logical);
+    outputPermutation.emplace(physical, logical);
   }
   nqubits += nq;
   ancillary.resize(nqubits + nancillae);
@@ -396,14 +399,18 @@ QuantumComputation::addAncillaryRegister(std::size_t nq,
   }
 
   const auto totalqubits = static_cast<Qubit>(nqubits + nancillae);
-  ancillaRegisters.try_emplace(regName, totalqubits, nq, regName);
+  // physical indices need not be contiguous if qubits have been removed
+  const auto start =
+      initialLayout.empty() ? Qubit{0} : initialLayout.maxKey() + 1;
+  ancillaRegisters.try_emplace(regName, start, nq, regName);
   ancillary.resize(totalqubits + nq);
   garbage.resize(totalqubits + nq);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(totalqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
-    ancillary[j] = true;
+    const auto physical = static_cast<Qubit>(start + i);
+    const auto logical = static_cast<Qubit>(totalqubits + i);
+    initialLayout.emplace(physical, logical);
+    outputPermutation.emplace(physical, logical);
+    ancillary[logical] = true;
   }
   nancillae += nq;
   return ancillaRegisters.at(regName);
-- 
2.43.0


From 1ef8c1c038c9f2bb1a29d904f64eebe44b7998b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 24/85] fix: unifying registers also clears the ancillary flags

---
 src/ir/QuantumComputation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 5582741..88863fc 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -943,6 +943,7 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
   quantumRegisters.clear();
   nqubits += nancillae;
   nancillae = 0;
+  ancillary.assign(ancillary.size(), false);
   quantumRegisters.try_emplace(regName, 0, nqubits, regName);
   return quantumRegisters.at(regName);
 }
-- 
2.43.0


From 3d4fb58bb7aab2322d6d3eef2390f28ceaea596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 25/85] fix: reject ancilla registers named like a qubit
 register

---
 src/ir/QuantumComputation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 88863fc..4688aef 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -334,7 +334,8 @@ void QuantumComputation::initializeIOMapping() {
 const QuantumRegister&
 QuantumComputation::addQubitRegister(std::size_t nq,
                                      const std::string& regName) {
-  if (quantumRegisters.count(regName) != 0) {
+  if (quantumRegisters.count(regName) != 0 ||
+      ancillaRegisters.count(regName) != 0) {
     throw std::runtime_error("[addQubitRegister] Register " + regName +
                              " already exists");
   }
@@ -388,7 +389,8 @@ QuantumComputation::addClassicalRegister(std::size_t nc,
 const QuantumRegister&
 QuantumComputation::addAncillaryRegister(std::size_t nq,
                                          const std::string& regName) {
-  if (ancillaRegisters.count(regName) != 0) {
+  if (ancillaRegisters.count(regName) != 0 ||
+      quantumRegisters.count(regName) != 0) {
     throw std::runtime_error("[addAncillaryRegister] Register " + regName +
                              " already exists");
   }
-- 
2.43.0


From 646900e44e3a786260ccdf4e84d0353f358d39ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 26/85] fix: output permutation skips the bit of an already
 measured qubit

---
 src/ir/QuantumComputation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 4688aef..79c76ad 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -273,6 +273,7 @@ void QuantumComputation::initializeIOMapping() {
         // only the first measurement of a qubit is used to determine the output
         // permutation
         if (measuredQubits.count(qubitidx) != 0) {
+          ++classicIt;
           continue;
         }
 
-- 
2.43.0


From 68d6dfe83c170c2869a7727d08a58a47afb1f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 27/85] fix: resetting a circuit clears flags, global phase and
 variables

---
 src/ir/QuantumComputation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 79c76ad..eac093d 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -738,6 +738,10 @@ void QuantumComputation::reset() {
   quantumRegisters.clear();
   classicalRegisters.clear();
   ancillaRegisters.clear();
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
   initialLayout.clear();
   outputPermutation.clear();
 }
-- 
2.43.0


From c4d1228dfb5aaae247f62aeb5229ead3c5ebdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 28/85] fix: measuring the outputs of a circuit with garbage
 qubits

---
 src/ir/QuantumComputation.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index eac093d..5fffc01 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -957,17 +957,22 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
 
 void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
     const std::string& registerName) {
-  // ensure that the circuit contains enough classical registers
+  // ensure that the circuit contains enough classical registers; the output
+  // indices need not be contiguous if some qubits are garbage
+  const auto requiredBits =
+      outputPermutation.empty()
+          ? std::size_t{0}
+          : static_cast<std::size_t>(outputPermutation.maxValue()) + 1U;
   if (classicalRegisters.empty()) {
     // in case there are no registers, create a new one
-    addClassicalRegister(outputPermutation.size(), registerName);
-  } else if (nclassics < outputPermutation.size()) {
+    addClassicalRegister(requiredBits, registerName);
+  } else if (nclassics < requiredBits) {
     if (classicalRegisters.find(registerName) != classicalRegisters.end()) {
       throw std::runtime_error(
           "[appendMeasurementsAccordingToOutputPermutation] Register " +
           registerName + " already exists but is too small");
     }
-    addClassicalRegister(outputPermutation.size() - nclassics, registerName);
+    addClassicalRegister(requiredBits - nclassics, registerName);
   }
   barrier();
   // append measurements according to output permutation
-- 
2.43.0


From 625d3a9060a8cb556d2b87d8fc4fa339f5d74d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 29/85] fix: reordering operations respects classical bits and
 keeps operations without qubits

---
 src/ir/QuantumComputation.cpp | 56 +++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 5fffc01..8edaf15 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1152,6 +1152,36 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
+namespace {
+// Collects the classical bits an operation reads or writes
+void collectClassicalBits(const Operation& op, std::set<Bit>& bits) {
+  if (const auto* const nonUnitary =
+          dynamic_cast<const NonUnitaryOperation*>(&op);
+      nonUnitary != nullptr && op.getType() == Measure) {
+    bits.insert(nonUnitary->getClassics().cbegin(),
+                nonUnitary->getClassics().cend());
+  } else if (const auto* const classic =
+                 dynamic_cast<const ClassicControlledOperation*>(&op);
+             classic != nullptr) {
+    if (const auto& reg = classic->getControlRegister(); reg.has_value()) {
+      for (Bit i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = classic->getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
+    }
+    collectClassicalBits(*classic->getOperation(), bits);
+  } else if (const auto* const comp =
+                 dynamic_cast<const CompoundOperation*>(&op);
+             comp != nullptr) {
+    for (const auto& subOp : *comp) {
+      collectClassicalBits(*subOp, bits);
+    }
+  }
+}
+} // namespace
+
 void QuantumComputation::reorderOperations() {
   using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
   using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
@@ -1163,12 +1193,25 @@ void QuantumComputation::reorderOperations() {
   }
 
   auto dag = DAG(highestPhysicalQubit + 1);
+  // operations that share a classical bit must also keep their relative order
+  std::unordered_map<Bit, std::deque<std::unique_ptr<Operation>*>> bitDag{};
 
+  std::vector<std::unique_ptr<Operation>> newOps{};
   for (auto& op : ops) {
     const auto usedQubits = op->getUsedQubits();
+    if (usedQubits.empty()) {
+      // nothing to be ordered
+      newOps.emplace_back(std::move(op));
+      continue;
+    }
     for (const auto q : usedQubits) {
       dag.at(q).push_back(&op);
     }
+    std::set<Bit> bits{};
+    collectClassicalBits(*op, bits);
+    for (const auto bit : bits) {
+      bitDag[bit].push_back(&op);
+    }
   }
 
   // initialize iterators
@@ -1183,8 +1226,6 @@ void QuantumComputation::reorderOperations() {
     }
   }
 
-  std::vector<std::unique_ptr<Operation>> newOps{};
-
   // iterate over DAG in depth-first fashion starting from the top-most qubit
   const auto msq = dag.size() - 1;
   bool done = false;
@@ -1228,12 +1269,23 @@ void QuantumComputation::reorderOperations() {
         }
       }
 
+      // check whether all previous operations on its classical bits are done
+      std::set<Bit> bits{};
+      collectClassicalBits(*op, bits);
+      executable = executable &&
+                   std::all_of(bits.cbegin(), bits.cend(), [&](const Bit bit) {
+                     return bitDag.at(bit).front() == *it;
+                   });
+
       // continue, if this gate is not yet executable
       if (!executable) {
         continue;
       }
 
       // gate is executable, move it to the new vector
+      for (const auto bit : bits) {
+        bitDag.at(bit).pop_front();
+      }
       newOps.emplace_back(std::move(op));
 
       // now increase all corresponding iterators
-- 
2.43.0


From a986991c334ad4d20022b996e1e065fda8fcaf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 30/85] fix: circuits built from compound operations have all
 classical bits their parts use

---
 src/ir/QuantumComputation.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 8edaf15..fdc2544 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1360,13 +1360,11 @@ QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
       maxQubitIndex = std::max(maxQubitIndex, q);
     }
 
-    if (g->getType() == Measure) {
-      // update the maximum classical bit index
-      const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(*g);
-      const auto& classics = measureOp.getClassics();
-      for (const auto& c : classics) {
-        maxBitIndex = std::max(maxBitIndex, c);
-      }
+    // update the maximum classical bit index
+    std::set<Bit> bits{};
+    collectClassicalBits(*g, bits);
+    if (!bits.empty()) {
+      maxBitIndex = std::max(maxBitIndex, *bits.rbegin());
     }
   }
 
-- 
2.43.0


From fb54d79d830fe20cbc41376c5a25db7076544ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 31/85] fix: symbolic gates keep exactly the parameters of
 their canonical type

---
 src/ir/operations/SymbolicOperation.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index c6c947c..118e777 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -231,6 +231,19 @@ void SymbolicOperation::checkSymbolicUgate() {
     }
   }
   // NOLINTEND(bugprone-unchecked-optional-access)
+
+  // the canonical gate only has the last parameters of the original one
+  std::size_t numParams = parameter.size();
+  if (type == P) {
+    numParams = 1;
+  } else if (type == U2) {
+    numParams = 2;
+  }
+  parameter.erase(parameter.begin(),
+                  parameter.end() - static_cast<std::ptrdiff_t>(numParams));
+  symbolicParameter.erase(symbolicParameter.begin(),
+                          symbolicParameter.end() -
+                              static_cast<std::ptrdiff_t>(numParams));
 }
 
 void SymbolicOperation::setup(const std::vector<SymbolOrNumber>& params) {
@@ -372,6 +385,7 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     symbolicParameter.at(i).reset();
   }
   checkUgate();
+  symbolicParameter.resize(parameter.size());
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From c030954ab6a7973eec36bb4faae67a280ae89461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 32/85] fix: inverted and instantiated operations carry the
 name of their new type

---
 .../mqt-core/ir/operations/ClassicControlledOperation.hpp    | 5 ++++-
 src/ir/operations/AodOperation.cpp                           | 1 +
 src/ir/operations/StandardOperation.cpp                      | 1 +
 src/ir/operations/SymbolicOperation.cpp                      | 1 +
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index b2ec72c..9201875 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -150,7 +150,10 @@ public:
                     const BitIndexToRegisterMap& bitMap, std::size_t indent,
                     bool openQASM3) const override;
 
-  void invert() override { op->invert(); }
+  void invert() override {
+    op->invert();
+    name = "c_" + shortName(op->getType());
+  }
 
 private:
   std::unique_ptr<Operation> op;
diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index 01950b3..5ca7e4b 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -160,6 +160,7 @@ void AodOperation::invert() {
   } else if (type == qc::OpType::AodDeactivate) {
     type = qc::OpType::AodActivate;
   }
+  name = toString(type);
 }
 
 } // namespace na
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..c800c22 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -640,6 +640,7 @@ void StandardOperation::invert() {
     throw std::runtime_error("Inverting gate" + toString(type) +
                              " is not supported.");
   }
+  name = toString(type);
 }
 
 void StandardOperation::dumpControls(std::ostringstream& op) const {
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 118e777..70b0187 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -386,6 +386,7 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
   }
   checkUgate();
   symbolicParameter.resize(parameter.size());
+  name = toString(type);
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From b6bf2f858c2231540f9529ee3d131ea036464e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 33/85] fix: symbolic operations with different expressions
 reported to commute

---
 src/ir/operations/StandardOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index c800c22..cefb729 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -553,7 +553,9 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
   // operations with more than one parameter might not be commutative when the
   // parameter are not the same, i.e. a general U3 gate
   // TODO: this check might introduce false negatives
-  return type == other.getType() && targets == other.getTargets() &&
+  // the parameters of symbolic operations are not compared here
+  return !isSymbolicOperation() && !other.isSymbolicOperation() &&
+         type == other.getType() && targets == other.getTargets() &&
          parameter == other.getParameter();
 }
 
-- 
2.43.0


From 2f8a881191dac1cbfcb882ad1db7d7596ef9ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 34/85] fix: OpenQASM 3 export of measurements on several
 qubits uses the bit of each qubit

---
 src/ir/operations/NonUnitaryOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 9ba3aa3..868fa62 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -114,6 +114,7 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
     if (type == Measure && openQASM3) {
       const auto& creg = bitMap.at(*classicsIt);
       of << creg.second << " = ";
+      ++classicsIt;
     }
     of << toString(type) << " " << qreg.second;
     if (type == Measure && !openQASM3) {
-- 
2.43.0


From 7258375d862f95bc134daa12fd26d079edd03933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 35/85] fix: export an operation on a whole register only if it
 lists the register's bits in order

---
 include/mqt-core/ir/operations/Operation.hpp | 14 +++++++++-----
 src/ir/operations/NonUnitaryOperation.cpp    | 20 +++++++++++---------
 src/ir/operations/StandardOperation.cpp      |  2 +-
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index dc89d6c..2622fbb 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -16,6 +16,7 @@
 #include "ir/operations/Control.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cstring>
 #include <functional>
 #include <iostream>
@@ -37,11 +38,14 @@ protected:
   static constexpr size_t OUTPUT_INDENT_SIZE = 2;
 
   static bool isWholeQubitRegister(const QubitIndexToRegisterMap& regMap,
-                                   const Qubit start, const Qubit end) {
-    const auto& startReg = regMap.at(start).first;
-    const auto& endReg = regMap.at(end).first;
-    return startReg == endReg && startReg.getStartIndex() == start &&
-           endReg.getEndIndex() == end;
+                                   const Targets& qubits) {
+    const auto& reg = regMap.at(qubits.front()).first;
+    if (qubits.size() != reg.getSize()) {
+      return false;
+    }
+    auto q = reg.getStartIndex();
+    return std::all_of(qubits.cbegin(), qubits.cend(),
+                       [&q](const auto qubit) { return qubit == q++; });
   }
 
 public:
diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 868fa62..2ec1352 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -78,12 +78,15 @@ NonUnitaryOperation::print(std::ostream& os, const Permutation& permutation,
 }
 
 namespace {
-bool isWholeClassicalRegister(const BitIndexToRegisterMap& reg, const Bit start,
-                              const Bit end) {
-  const auto& startReg = reg.at(start).first;
-  const auto& endReg = reg.at(end).first;
-  return startReg == endReg && startReg.getStartIndex() == start &&
-         endReg.getEndIndex() == end;
+bool isWholeClassicalRegister(const BitIndexToRegisterMap& regMap,
+                              const std::vector<Bit>& bits) {
+  const auto& reg = regMap.at(bits.front()).first;
+  if (bits.size() != reg.getSize()) {
+    return false;
+  }
+  auto b = reg.getStartIndex();
+  return std::all_of(bits.cbegin(), bits.cend(),
+                     [&b](const auto bit) { return bit == b++; });
 }
 } // namespace
 
@@ -94,9 +97,8 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
                                        bool openQASM3) const {
   of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
 
-  if (isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
-      (type != Measure ||
-       isWholeClassicalRegister(bitMap, classics.front(), classics.back()))) {
+  if (isWholeQubitRegister(qubitMap, targets) &&
+      (type != Measure || isWholeClassicalRegister(bitMap, classics))) {
     if (type == Measure && openQASM3) {
       of << bitMap.at(classics.front()).first.getName() << " = ";
     }
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index cefb729..214a68e 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -480,7 +480,7 @@ void StandardOperation::dumpGateType(
   }
   // Print target qubits.
   if (!targets.empty() && type == Barrier &&
-      isWholeQubitRegister(qubitMap, targets.front(), targets.back())) {
+      isWholeQubitRegister(qubitMap, targets)) {
     of << " " << qubitMap.at(targets.front()).first.getName();
   } else {
     for (auto it = targets.begin(); it != targets.end();) {
-- 
2.43.0


From 9df31fe7e122ff666940cca7e2ae60e7c508a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 36/85] fix: OpenQASM export of Peres gates matches their
 matrix

---
 src/ir/operations/StandardOperation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 214a68e..8b8dc87 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -439,28 +439,28 @@ void StandardOperation::dumpGateType(
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
 
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
     return;
   case Peresdg:
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
 
     of << op.str() << "cx";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
     return;
   default:
     std::cerr << "gate type " << toString(type)
-- 
2.43.0


From e41534ada41707a451603bf703d409b43aabb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 37/85] fix: OpenQASM 2 export of Peres gates keeps negative
 controls

---
 src/ir/operations/StandardOperation.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 8b8dc87..abe7576 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -281,25 +281,19 @@ void StandardOperation::dumpOpenQASM2(
   // safe the numbers of controls as a prefix to the operation name
   op << std::string(controls.size(), 'c');
 
-  const bool isSpecialGate = type == Peres || type == Peresdg;
-
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 
   dumpGateType(of, op, qubitMap);
 
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls again
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls again
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 }
-- 
2.43.0


From 9f8980d54bdd40711406a4283330dd74224fd7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 38/85] fix: OpenQASM 2 export of classically controlled
 operations guards every statement

---
 .../operations/ClassicControlledOperation.cpp | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 33b2499..478f5d4 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -21,6 +21,7 @@
 #include <cstdint>
 #include <memory>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -133,24 +134,32 @@ void ClassicControlledOperation::dumpOpenQASM(
     std::ostream& of, const QubitIndexToRegisterMap& qubitMap,
     const BitIndexToRegisterMap& bitMap, const std::size_t indent,
     const bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
-  of << "if (";
+  std::ostringstream condition;
+  condition << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  condition << "if (";
   if (controlRegister.has_value()) {
     assert(!controlBit.has_value());
-    of << controlRegister->getName() << " " << comparisonKind << " "
-       << expectedValue;
+    condition << controlRegister->getName() << " " << comparisonKind << " "
+              << expectedValue;
   }
   if (controlBit.has_value()) {
     assert(!controlRegister.has_value());
-    of << (expectedValue == 0 ? "!" : "") << bitMap.at(*controlBit).second;
+    condition << (expectedValue == 0 ? "!" : "")
+              << bitMap.at(*controlBit).second;
   }
-  of << ") ";
-  if (openQASM3) {
-    of << "{\n";
-  }
-  op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
+  condition << ") ";
   if (openQASM3) {
+    of << condition.str() << "{\n";
+    op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
     of << "}\n";
+    return;
+  }
+  // OpenQASM 2 has no blocks: every statement needs the condition
+  std::stringstream statements;
+  op->dumpOpenQASM(statements, qubitMap, bitMap, indent + 1, openQASM3);
+  std::string statement;
+  while (std::getline(statements, statement)) {
+    of << condition.str() << statement << "\n";
   }
 }
 
-- 
2.43.0


From aaa9dedc16a05a9d94f5a346a10e7544ad8528f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 39/85] fix: OpenQASM 3 export keeps the global phase of a
 circuit

---
 src/ir/QuantumComputation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index fdc2544..1eba657 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -32,6 +32,7 @@
 #include <iomanip>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <map>
 #include <memory>
 #include <numeric>
@@ -712,6 +713,13 @@ void QuantumComputation::dumpOpenQASM(std::ostream& of, bool openQASM3) const {
   for (const auto& op : ops) {
     op->dumpOpenQASM(of, qubitMap, bitMap, 0, openQASM3);
   }
+
+  // global phases cannot be expressed in OpenQASM 2
+  if (openQASM3 && globalPhase != 0.) {
+    std::ostringstream phase;
+    phase << std::setprecision(std::numeric_limits<fp>::digits10) << globalPhase;
+    of << "gphase(" << phase.str() << ");\n";
+  }
 }
 
 std::string QuantumComputation::toQASM(const bool qasm3) const {
-- 
2.43.0


From 6b2bb03afe418cb0893e3df76c37ce42ba463790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 40/85] fix: AOD operations are exported with full-precision
 coordinates

---
 src/ir/operations/AodOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/AodOperation.cpp b/src/ir/operations/AodOperation.cpp
index 5ca7e4b..ba85e93 100644
--- a/src/ir/operations/AodOperation.cpp
+++ b/src/ir/operations/AodOperation.cpp
@@ -39,6 +39,7 @@ AodOperation::AodOperation(qc::OpType s, std::vector<qc::Qubit> qubits,
 
 std::string SingleOperation::toQASMString() const {
   std::stringstream ss;
+  ss << std::setprecision(std::numeric_limits<qc::fp>::digits10);
   ss << static_cast<std::size_t>(dir) << ", " << start << ", " << end << "; ";
   return ss.str();
 }
-- 
2.43.0


From 0fbdc9292e7ad5f35d92462225090f1949176f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 41/85] fix: single-qubit gate fusion only merges gates on one
 qubit

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..e1fed7c 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -186,7 +186,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
   for (auto& it : qc) {
     // not a single-qubit operation
     if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+        it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -204,7 +204,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || !(*op)->getControls().empty() ||
+         (*op)->getTargets().size() > 1)) {
       addToDag(dag, &it);
       continue;
     }
-- 
2.43.0


From 24fbbdcbff23594a8b7dbbecdd6970eb9a4f377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 42/85] fix: decomposing SWAPs keeps controlled SWAPs

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index e1fed7c..02dc6e7 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -595,7 +595,7 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
   auto it = qc.begin();
   while (it != qc.end()) {
     if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP) {
+      if ((*it)->getType() == SWAP && !(*it)->isControlled()) {
         const auto targets = (*it)->getTargets();
         it = qc.erase(it);
         it = qc.insert(it, std::make_unique<StandardOperation>(
@@ -624,7 +624,8 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
       auto cit = compOp.begin();
       while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
+        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP &&
+            !(*cit)->isControlled()) {
           const auto targets = (*cit)->getTargets();
           cit = compOp.erase(cit);
           cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-- 
2.43.0


From 3c8b54ac4c47698fc9efa83c5444775d252d6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 43/85] fix: deferring measurements respects the comparison of
 classically controlled operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 32 ++++++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 02dc6e7..f973276 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -755,6 +755,28 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   }
 }
 
+namespace {
+bool isConditionSatisfied(const ClassicControlledOperation& op,
+                          const std::uint64_t value) {
+  const auto expected = op.getExpectedValue();
+  switch (op.getComparisonKind()) {
+  case ComparisonKind::Eq:
+    return value == expected;
+  case ComparisonKind::Neq:
+    return value != expected;
+  case ComparisonKind::Lt:
+    return value < expected;
+  case ComparisonKind::Leq:
+    return value <= expected;
+  case ComparisonKind::Gt:
+    return value > expected;
+  case ComparisonKind::Geq:
+    return value >= expected;
+  }
+  return false;
+}
+} // namespace
+
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //      ┌───┐┌─┐                         ┌───┐     ┌─┐
   // q_0: ┤ H ├┤M├───────             q_0: ┤ H ├──■──┤M├
@@ -835,8 +857,6 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
         if (const auto* classicOp =
                 dynamic_cast<ClassicControlledOperation*>(opIt->get());
             classicOp != nullptr) {
-          const auto& expectedValue = classicOp->getExpectedValue();
-
           Bit cBit = 0;
           if (const auto& controlRegister = classicOp->getControlRegister();
               controlRegister.has_value()) {
@@ -892,8 +912,14 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           // determine the appropriate control to add
           auto controls = standardOp->getControls();
           const auto controlQubit = measurementQubit;
+          const auto appliedOnOne = isConditionSatisfied(*classicOp, 1U);
+          if (appliedOnOne == isConditionSatisfied(*classicOp, 0U)) {
+            throw std::runtime_error(
+                "Classic-controlled operations whose condition does not depend "
+                "on the measured bit are currently not supported.");
+          }
           const auto controlType =
-              (expectedValue == 1) ? Control::Type::Pos : Control::Type::Neg;
+              appliedOnOne ? Control::Type::Pos : Control::Type::Neg;
           controls.emplace(controlQubit, controlType);
 
           const auto parameters = standardOp->getParameter();
-- 
2.43.0


From f99c8391f256f6b96ca13985c17adc98df687fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 44/85] fix: deferring measurements keeps every measurement and
 their order

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index f973276..3127e1a 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -786,7 +786,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            ║ ┌──╨──┐             c: 2/═══════════╩═
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
-  std::unordered_map<Qubit, std::size_t> qubitsToAddMeasurements{};
+  std::vector<std::pair<Qubit, Bit>> measurementsToAdd{};
   auto it = qc.begin();
   while (it != qc.end()) {
     if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
@@ -801,7 +801,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       }
 
       // if this is the last operation, nothing has to be done
-      if (*it == qc.back()) {
+      if (*it == qc.back() && measurementsToAdd.empty()) {
         break;
       }
 
@@ -809,7 +809,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       const auto measurementBit = classics[0];
 
       // remember q->c for adding measurements later
-      qubitsToAddMeasurements[measurementQubit] = measurementBit;
+      measurementsToAdd.emplace_back(measurementQubit, measurementBit);
 
       // remove the measurement from the vector of operations
       it = qc.erase(it);
@@ -841,11 +841,11 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
         if (const auto* measurement2 =
                 dynamic_cast<NonUnitaryOperation*>(opIt->get());
             measurement2 != nullptr && operation->getType() == Measure) {
-          const auto& targets2 = measurement2->getTargets();
           const auto& classics2 = measurement2->getClassics();
 
-          // if this is the same measurement a breakpoint has been reached
-          if (targets == targets2 && classics == classics2) {
+          // if the classical bit is overwritten a breakpoint has been reached
+          if (std::find(classics2.begin(), classics2.end(), measurementBit) !=
+              classics2.end()) {
             break;
           }
 
@@ -958,14 +958,16 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           opIt = currentInsertionPoint;
         }
       }
+      // `it` already points to the operation after the removed measurement
+      continue;
     }
     ++it;
   }
-  if (qubitsToAddMeasurements.empty()) {
+  if (measurementsToAdd.empty()) {
     return;
   }
   qc.outputPermutation.clear();
-  for (const auto& [qubit, clbit] : qubitsToAddMeasurements) {
+  for (const auto& [qubit, clbit] : measurementsToAdd) {
     qc.measure(qubit, clbit);
   }
   qc.initializeIOMapping();
-- 
2.43.0


From 85ac23864acab3b4a5c3ed01da72e25f0087273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 45/85] fix: deferring measurements inserts operations at the
 right place

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 47 +++++++++++++++++-----
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 3127e1a..cc1b600 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -775,6 +775,17 @@ bool isConditionSatisfied(const ClassicControlledOperation& op,
   }
   return false;
 }
+
+/// Does the operation contain operations that are not unitary?
+bool containsNonUnitaryOperation(const Operation& op) {
+  if (const auto* compound = dynamic_cast<const CompoundOperation*>(&op)) {
+    return std::any_of(compound->begin(), compound->end(),
+                       [](const std::unique_ptr<Operation>& part) {
+                         return containsNonUnitaryOperation(*part);
+                       });
+  }
+  return !op.isUnitary();
+}
 } // namespace
 
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
@@ -786,6 +797,14 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            ║ ┌──╨──┐             c: 2/═══════════╩═
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
+  if (std::any_of(qc.begin(), qc.end(), [](const auto& op) {
+        return op->isCompoundOperation() && containsNonUnitaryOperation(*op);
+      })) {
+    throw std::runtime_error(
+        "Deferring measurements in circuits with non-unitary compound "
+        "operations is not supported. Try flattening the operations.");
+  }
+
   std::vector<std::pair<Qubit, Bit>> measurementsToAdd{};
   auto it = qc.begin();
   while (it != qc.end()) {
@@ -819,15 +838,24 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       auto opIt = it;
       auto currentInsertionPoint = it;
 
+      // operations may only be inserted after operations that commute with the
+      // measurement, i.e., that are diagonal on the measured qubit
+      const StandardOperation diagonalOp(measurementQubit, Z);
+      bool insertionPointFixed = false;
+      const auto updateInsertionPoint = [&](const Operation& op) {
+        insertionPointFixed =
+            insertionPointFixed ||
+            !op.commutesAtQubit(diagonalOp, measurementQubit);
+        if (!insertionPointFixed) {
+          ++currentInsertionPoint;
+        }
+      };
+
       // iterate over all subsequent operations
       while (opIt != qc.end()) {
         const auto* operation = opIt->get();
         if (operation->isUnitary()) {
-          // if an operation does not act on the measured qubit, the insert
-          // location for potential operations has to be updated
-          if (!operation->actsOn(measurementQubit)) {
-            ++currentInsertionPoint;
-          }
+          updateInsertionPoint(*operation);
           ++opIt;
           continue;
         }
@@ -849,7 +877,9 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             break;
           }
 
-          ++currentInsertionPoint;
+          if (!insertionPointFixed) {
+            ++currentInsertionPoint;
+          }
           ++opIt;
           continue;
         }
@@ -877,9 +907,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
 
           // if this is not the classical bit that is measured, continue
           if (cBit != measurementBit) {
-            if (!operation->actsOn(measurementQubit)) {
-              ++currentInsertionPoint;
-            }
+            updateInsertionPoint(*classicOp->getOperation());
             ++opIt;
             continue;
           }
@@ -953,6 +981,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           }
           // advance just after the currently inserted operation
           ++currentInsertionPoint;
+          insertionPointFixed = false;
           // the inner loop also has to restart from here due to the
           // invalidation of the iterators
           opIt = currentInsertionPoint;
-- 
2.43.0


From 83a9c0581e70ad591a7ddfa2342b988e0ba8da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 46/85] fix: deferring measurements keeps symbolic operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index cc1b600..809d409 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -923,9 +923,6 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             throw std::runtime_error(ss.str());
           }
 
-          // get all the necessary information for reconstructing the
-          // operation
-          const auto type = standardOp->getType();
           const auto targs = standardOp->getTargets();
           for (const auto& target : targs) {
             if (target == measurementQubit) {
@@ -950,7 +947,9 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
               appliedOnOne ? Control::Type::Pos : Control::Type::Neg;
           controls.emplace(controlQubit, controlType);
 
-          const auto parameters = standardOp->getParameter();
+          // construct the controlled operation from the underlying operation
+          auto controlledOp = standardOp->clone();
+          controlledOp->setControls(controls);
 
           // remove the classic-controlled operation
           // carefully handle iterator invalidation.
@@ -972,9 +971,8 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
 
           itInvalidated = (it >= currentInsertionPoint);
           // insert the new operation (invalidated all pointer onwards)
-          currentInsertionPoint = qc.insert(
-              currentInsertionPoint, std::make_unique<StandardOperation>(
-                                         controls, targs, type, parameters));
+          currentInsertionPoint =
+              qc.insert(currentInsertionPoint, std::move(controlledOp));
 
           if (itInvalidated) {
             it = currentInsertionPoint;
-- 
2.43.0


From f1854d3c14409848fecdf825824407064d6e519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 47/85] fix: eliminating resets covers compound and symbolic
 operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 97 +++++++++-------------
 1 file changed, 40 insertions(+), 57 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 809d409..28a8ed6 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -681,19 +681,27 @@ void changeControls(Controls& controls,
     }
   }
 }
-} // namespace
+void changeQubits(Operation& op,
+                  const std::map<Qubit, Qubit>& replacementMap) {
+  if (auto* classicOp = dynamic_cast<ClassicControlledOperation*>(&op)) {
+    changeQubits(*classicOp->getOperation(), replacementMap);
+  } else if (auto* compoundOp = dynamic_cast<CompoundOperation*>(&op)) {
+    for (auto& part : *compoundOp) {
+      changeQubits(*part, replacementMap);
+    }
+  } else {
+    changeTargets(op.getTargets(), replacementMap);
+    changeControls(op.getControls(), replacementMap);
+  }
+}
 
-void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
-  //      ┌───┐┌─┐     ┌───┐┌─┐            ┌───┐┌─┐ ░
-  // q_0: ┤ H ├┤M├─|0>─┤ H ├┤M├       q_0: ┤ H ├┤M├─░─────────
-  //      └───┘└╥┘     └───┘└╥┘   -->      └───┘└╥┘ ░ ┌───┐┌─┐
-  // c: 2/══════╩════════════╩═       q_1: ──────╫──░─┤ H ├┤M├
-  //            0            1                   ║  ░ └───┘└╥┘
-  //                                  c: 2/══════╩══════════╩═
-  //                                             0          1
-  auto replacementMap = std::map<Qubit, Qubit>();
-  auto it = qc.begin();
-  while (it != qc.end()) {
+/// Eliminates the resets from the operations of a circuit or of one of its
+/// compound operations
+template <class Operations>
+void eliminateResetsFrom(QuantumComputation& qc, Operations& operations,
+                         std::map<Qubit, Qubit>& replacementMap) {
+  auto it = operations.begin();
+  while (it != operations.end()) {
     if ((*it)->getType() == Reset) {
       for (const auto& target : (*it)->getTargets()) {
         auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
@@ -705,55 +713,30 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
           replacementMap.try_emplace(target, indexAddQubit);
         }
       }
-      it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
-      if ((*it)->isCompoundOperation()) {
-        auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-        auto compOpIt = compOp.begin();
-        while (compOpIt != compOp.end()) {
-          if ((*compOpIt)->getType() == Reset) {
-            for (const auto& compTarget : (*compOpIt)->getTargets()) {
-              auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-              qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-              if (auto oldReset = replacementMap.find(compTarget);
-                  oldReset != replacementMap.end()) {
-                oldReset->second = indexAddQubit;
-              } else {
-                replacementMap.try_emplace(compTarget, indexAddQubit);
-              }
-            }
-            compOpIt = compOp.erase(compOpIt);
-          } else {
-            if ((*compOpIt)->isStandardOperation() ||
-                (*compOpIt)->isClassicControlledOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              auto& controls = (*compOpIt)->getControls();
-              changeTargets(targets, replacementMap);
-              changeControls(controls, replacementMap);
-            } else if ((*compOpIt)->isNonUnitaryOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              changeTargets(targets, replacementMap);
-            }
-            ++compOpIt;
-          }
-        }
-      }
-      if ((*it)->isStandardOperation() ||
-          (*it)->isClassicControlledOperation()) {
-        auto& targets = (*it)->getTargets();
-        auto& controls = (*it)->getControls();
-        changeTargets(targets, replacementMap);
-        changeControls(controls, replacementMap);
-      } else if ((*it)->isNonUnitaryOperation()) {
-        auto& targets = (*it)->getTargets();
-        changeTargets(targets, replacementMap);
-      }
-      ++it;
+      it = operations.erase(it);
+      continue;
+    }
+    if (auto* compoundOp = dynamic_cast<CompoundOperation*>(it->get())) {
+      eliminateResetsFrom(qc, *compoundOp, replacementMap);
     } else {
-      ++it;
+      changeQubits(**it, replacementMap);
     }
+    ++it;
   }
 }
+} // namespace
+
+void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
+  //      ┌───┐┌─┐     ┌───┐┌─┐            ┌───┐┌─┐ ░
+  // q_0: ┤ H ├┤M├─|0>─┤ H ├┤M├       q_0: ┤ H ├┤M├─░─────────
+  //      └───┘└╥┘     └───┘└╥┘   -->      └───┘└╥┘ ░ ┌───┐┌─┐
+  // c: 2/══════╩════════════╩═       q_1: ──────╫──░─┤ H ├┤M├
+  //            0            1                   ║  ░ └───┘└╥┘
+  //                                  c: 2/══════╩══════════╩═
+  //                                             0          1
+  auto replacementMap = std::map<Qubit, Qubit>();
+  eliminateResetsFrom(qc, qc, replacementMap);
+}
 
 namespace {
 bool isConditionSatisfied(const ClassicControlledOperation& op,
-- 
2.43.0


From c12776d6565fc96ac460f79cbf697d74838cee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 48/85] fix: removing final measurements keeps measurements
 that classical conditions depend on

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 161 +++++++--------------
 1 file changed, 53 insertions(+), 108 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 28a8ed6..6c23e56 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -463,129 +463,74 @@ void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
 }
 
 namespace {
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op);
-
-void removeFinalMeasurementsRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  if (dagIterators.at(idx) == dag.at(idx).rend()) { // we reached the end
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
+/// Collects the classical bits an operation depends on
+void addReadBits(const Operation& op, std::unordered_set<Bit>& bits) {
+  if (const auto* classicOp =
+          dynamic_cast<const ClassicControlledOperation*>(&op)) {
+    if (const auto& controlRegister = classicOp->getControlRegister();
+        controlRegister.has_value()) {
+      for (std::size_t i = 0; i < controlRegister->getSize(); ++i) {
+        bits.emplace(controlRegister->getStartIndex() + i);
       }
     }
-    auto* op = (*it)->get();
-    if (op->getType() == Measure || op->getType() == Barrier) {
-      const bool onlyMeasurement =
-          removeFinalMeasurement(dag, dagIterators, idx, it, op);
-      if (onlyMeasurement) {
-        for (const auto& target : op->getTargets()) {
-          if (dagIterators.at(target) == dag.at(target).rend()) {
-            break;
-          }
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyMeasurement = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
-          ++cit;
-          continue;
-        }
-        onlyMeasurement =
-            removeFinalMeasurement(dag, dagIterators, idx, it, cop);
-        if (!onlyMeasurement) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyMeasurement) {
-        ++(dagIterators.at(idx));
-      }
-    } else {
-      // not a measurement, we are done
-      dagIterators.at(idx) = dag.at(idx).rend();
-      break;
+    if (const auto& controlBit = classicOp->getControlBit();
+        controlBit.has_value()) {
+      bits.emplace(controlBit.value());
+    }
+    addReadBits(*classicOp->getOperation(), bits);
+  } else if (const auto* compoundOp =
+                 dynamic_cast<const CompoundOperation*>(&op)) {
+    for (const auto& part : *compoundOp) {
+      addReadBits(*part, bits);
     }
-  }
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
   }
 }
 
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            const Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op) {
-  if (op->getNtargets() != 0) {
-    // need to check all targets
-    bool onlyMeasurements = true;
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyMeasurements = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeFinalMeasurementsRecursive(dag, dagIterators, target, (*it)->get());
-      // check if iteration of target qubit was successful
-      if (dagIterators.at(target) == dag.at(target).rend() ||
-          *dagIterators.at(target) != *it) {
-        onlyMeasurements = false;
-        break;
-      }
+/// Sets measurements (and barriers) to identities so that they can be collected
+/// by the removeIdentities pass, if no later operation acts on their qubits or
+/// depends on their classical bits. Expects operations in reverse order.
+void removeFinalMeasurement(Operation& op,
+                            std::unordered_set<Qubit>& finishedQubits,
+                            std::unordered_set<Bit>& readBits) {
+  if (op.getType() == Measure || op.getType() == Barrier) {
+    const auto& targets = op.getTargets();
+    bool removable = std::none_of(
+        targets.begin(), targets.end(),
+        [&](const auto q) { return finishedQubits.count(q) != 0; });
+    if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(&op);
+        measurement != nullptr) {
+      const auto& classics = measurement->getClassics();
+      removable = removable && std::none_of(classics.begin(), classics.end(),
+                                            [&](const auto bit) {
+                                              return readBits.count(bit) != 0;
+                                            });
     }
-    if (!onlyMeasurements) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
+    if (removable) {
+      op.setGate(I);
+      return;
     }
-    return onlyMeasurements;
   }
-  return false;
+  // neither a final measurement nor a final barrier
+  addReadBits(op, readBits);
+  for (const auto q : op.getUsedQubits()) {
+    finishedQubits.emplace(q);
+  }
 }
 } // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    dagIterators.at(q) = (dag.at(q).rbegin());
+  std::unordered_set<Qubit> finishedQubits{};
+  std::unordered_set<Bit> readBits{};
+  for (auto it = qc.rbegin(); it != qc.rend(); ++it) {
+    if (auto* compoundOp = dynamic_cast<CompoundOperation*>(it->get())) {
+      for (auto cit = compoundOp->rbegin(); cit != compoundOp->rend(); ++cit) {
+        removeFinalMeasurement(**cit, finishedQubits, readBits);
+      }
+    } else {
+      removeFinalMeasurement(**it, finishedQubits, readBits);
+    }
   }
 
-  removeFinalMeasurementsRecursive(dag, dagIterators, 0, nullptr);
-
   removeIdentities(qc);
 }
 
-- 
2.43.0


From db6d91647fc0d1b94057b0d112db53d5c9c308c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 49/85] fix: removing diagonal gates before measurements
 considers all qubits of an operation

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 203 ++++-----------------
 1 file changed, 36 insertions(+), 167 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 6c23e56..5679d62 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -273,190 +273,59 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 }
 
 namespace {
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op);
-
-void removeDiagonalGatesBeforeMeasureRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend()) {
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                                nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    // check if desired operation was reached
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
-    }
-    auto* op = (*it)->get();
-    if (op->isStandardOperation()) {
-      // try removing gate and upon success increase all corresponding iterators
-      auto onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, op);
-      if (onlyDiagonalGates) {
-        for (const auto& control : op->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : op->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
-
-    } else if (op->isCompoundOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyDiagonalGates = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        onlyDiagonalGates = removeDiagonalGate(dag, dagIterators, idx, it, cop);
-        if (!onlyDiagonalGates) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyDiagonalGates) {
-        for (size_t q = 0; q < dag.size(); ++q) {
-          if (compOp->actsOn(static_cast<Qubit>(q))) {
-            ++(dagIterators.at(q));
-          }
-        }
-      }
-    } else if (op->isClassicControlledOperation()) {
-      // consider the operation that is classically controlled and proceed as
-      // above
-      auto* cop = dynamic_cast<ClassicControlledOperation*>(op)->getOperation();
-      const bool onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, cop);
-      if (onlyDiagonalGates) {
-        for (const auto& control : cop->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : cop->getTargets()) {
-          ++(dagIterators.at(target));
-        }
+/// Sets diagonal gates that only act on qubits that are measured afterwards
+/// (without any other operation in between) to identities so that they can be
+/// collected by the removeIdentities pass. Expects operations in reverse order.
+void removeDiagonalGate(Operation& op, std::unordered_set<Qubit>& seenQubits,
+                        std::unordered_set<Qubit>& measuredQubits) {
+  const auto usedQubits = op.getUsedQubits();
+  if (op.getType() == Measure) {
+    for (const auto q : usedQubits) {
+      if (seenQubits.emplace(q).second) {
+        measuredQubits.emplace(q);
+      } else {
+        measuredQubits.erase(q);
       }
-    } else if (op->isNonUnitaryOperation()) {
-      // non-unitary operation is not diagonal
-      it = dag.at(idx).rend();
-    } else {
-      throw std::runtime_error("Unexpected operation encountered");
     }
+    return;
   }
 
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                              nullptr);
+  // consider the operation that is classically controlled
+  auto* classicOp = dynamic_cast<ClassicControlledOperation*>(&op);
+  auto* gate = classicOp != nullptr ? classicOp->getOperation() : &op;
+  if (gate->isDiagonalGate() &&
+      std::all_of(usedQubits.begin(), usedQubits.end(), [&](const auto q) {
+        return measuredQubits.count(q) != 0;
+      })) {
+    gate->setGate(I);
+    return;
   }
-}
 
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op) {
-  // not a diagonal gate
-  if (!op->isDiagonalGate()) {
-    it = dag.at(idx).rend();
-    return false;
+  // a barrier does not affect the measurement outcomes
+  if (op.getType() == Barrier) {
+    return;
   }
 
-  if (op->getNcontrols() != 0) {
-    // need to check all controls and targets
-    bool onlyDiagonalGates = true;
-    for (const auto& control : op->getControls()) {
-      auto controlQubit = control.qubit;
-      if (controlQubit == idx) {
-        continue;
-      }
-      if (control.type == Control::Type::Neg) {
-        dagIterators.at(controlQubit) = dag.at(controlQubit).rend();
-        onlyDiagonalGates = false;
-        break;
-      }
-      if (dagIterators.at(controlQubit) == dag.at(controlQubit).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at control with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
-                                                (*it)->get());
-      // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
-    }
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
-                                                (*it)->get());
-      // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
-    }
-    if (!onlyDiagonalGates) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
-    }
-    return onlyDiagonalGates;
+  for (const auto q : usedQubits) {
+    seenQubits.emplace(q);
+    measuredQubits.erase(q);
   }
-  // set operation to identity so that it can be collected by the
-  // removeIdentities pass
-  op->setGate(I);
-  return true;
 }
 } // namespace
 
 void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
     QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-
-  // initialize iterators
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty() || dag.at(q).back()->get()->getType() != Measure) {
-      // qubit is not measured and thus does not have to be considered
-      dagIterators.at(q) = dag.at(q).rend();
+  std::unordered_set<Qubit> seenQubits{};
+  std::unordered_set<Qubit> measuredQubits{};
+  for (auto it = qc.rbegin(); it != qc.rend(); ++it) {
+    if (auto* compoundOp = dynamic_cast<CompoundOperation*>(it->get())) {
+      for (auto cit = compoundOp->rbegin(); cit != compoundOp->rend(); ++cit) {
+        removeDiagonalGate(**cit, seenQubits, measuredQubits);
+      }
     } else {
-      // point to operation before measurement
-      dagIterators.at(q) = ++(dag.at(q).rbegin());
+      removeDiagonalGate(**it, seenQubits, measuredQubits);
     }
   }
-  // iterate over DAG in depth-first fashion
-  removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, 0, nullptr);
 
   // remove resulting identities from circuit
   removeIdentities(qc);
-- 
2.43.0


From 469afd93da581ab645a4df4f3fa9c7bdeffa5e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 50/85] fix: collecting blocks keeps the order of operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 36 +++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 5679d62..05c0de1 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1207,6 +1207,20 @@ struct DSU {
     return parent[index];
   }
 
+  /**
+   * @brief Give up the position of a block in the circuit.
+   * @details The block will be placed at the position of the next operation
+   * that is added to it.
+   * @param block the block
+   */
+  void releasePosition(const Qubit block) {
+    if (currentBlockInCircuit[block] != nullptr) {
+      (*currentBlockInCircuit[block]) =
+          std::make_unique<StandardOperation>(0, I);
+    }
+    currentBlockInCircuit[block] = nullptr;
+  }
+
   /**
    * @brief Merge two blocks together.
    * @details The smaller block is merged into the larger block.
@@ -1230,11 +1244,13 @@ struct DSU {
     bitBlocks[parent1].insert(bitBlocks[parent1].end(),
                               bitBlocks[parent2].begin(),
                               bitBlocks[parent2].end());
-    if (currentBlockInCircuit[parent2] != nullptr) {
-      (*currentBlockInCircuit[parent2]) =
-          std::make_unique<StandardOperation>(0, I);
+    // the merged block has to be placed at the later of the two positions
+    // because operations that do not belong to the block might be in between
+    if (std::less<>{}(currentBlockInCircuit[parent1],
+                      currentBlockInCircuit[parent2])) {
+      std::swap(currentBlockInCircuit[parent1], currentBlockInCircuit[parent2]);
     }
-    currentBlockInCircuit[parent2] = nullptr;
+    releasePosition(parent2);
     currentBlockOperations[parent2] = std::make_unique<CompoundOperation>();
     bitBlocks[parent2].clear();
   }
@@ -1393,6 +1409,18 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
       if (usedQubits.size() > maxBlockSize) {
         continue;
       }
+      // if the operation joins several blocks, the resulting block has to be
+      // placed at the position of the operation because there might be finalized
+      // operations on some of its qubits that must come before the block
+      std::unordered_set<Qubit> joinedBlocks{};
+      for (const auto& q : usedQubits) {
+        joinedBlocks.emplace(dsu.findBlock(q));
+      }
+      if (joinedBlocks.size() > 1) {
+        for (const auto& q : joinedBlocks) {
+          dsu.releasePosition(q);
+        }
+      }
       std::int64_t prev = -1;
       for (const auto& q : usedQubits) {
         if (prev != -1) {
-- 
2.43.0


From e5d619fb3d422607ed472d267f9a206e3c863b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 51/85] fix: the middle X of the ECR gate is part of its
 ZX-diagram

---
 src/zx/FunctionalityConstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 7fa390a..883a60e 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -459,7 +459,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     case qc::OpType::ECR: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
       addRzx(diag, PiExpression(PiRational(1, 4)), target, target2, qubits);
-      addXSpider(diag, target, qubits);
+      addXSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       addRzx(diag, PiExpression(-PiRational(1, 4)), target, target2, qubits);
       break;
     }
-- 
2.43.0


From 0aa38dd660205aabd67713aae35dd8bd84791596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 52/85] fix: translating a global phase to ZX does not read a
 target qubit

---
 src/zx/FunctionalityConstruction.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 883a60e..0df1b4d 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -317,14 +317,15 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
   }
 
   if (!op->isControlled()) {
+    if (op->getType() == qc::OpType::GPhase) {
+      // global phases do not have a target
+      diag.addGlobalPhase(parseParam(op.get(), 0));
+      return it + 1;
+    }
+
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     switch (op->getType()) {
-    case qc::OpType::GPhase: {
-      const auto& param = parseParam(op.get(), 0);
-      diag.addGlobalPhase(param);
-      break;
-    }
     case qc::OpType::Z:
       addZSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       break;
-- 
2.43.0


From de03abebfa88b443b174bc9b748bff4d466e903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 53/85] fix: negative controls are translated to ZX

---
 src/zx/FunctionalityConstruction.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 0df1b4d..f2b22c6 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -13,6 +13,7 @@
 #include "ir/Permutation.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
+#include "ir/operations/Control.hpp"
 #include "ir/operations/Expression.hpp"
 #include "ir/operations/OpType.hpp"
 #include "ir/operations/SymbolicOperation.hpp"
@@ -33,8 +34,17 @@ bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
                                           const Qubit ctrl, const Qubit target,
                                           const qc::Permutation& p) {
   if (it + 1 != end && it + 2 != end) {
+    const auto hasNegativeControl = [](const auto& op) {
+      return std::any_of(
+          op->getControls().begin(), op->getControls().end(),
+          [](const auto& c) { return c.type == qc::Control::Type::Neg; });
+    };
     const auto& op1 = *(it + 1);
     const auto& op2 = *(it + 2);
+    if (hasNegativeControl(*it) || hasNegativeControl(op1) ||
+        hasNegativeControl(op2)) {
+      return false;
+    }
     if (op1->getType() == qc::OpType::X && op2->getType() == qc::OpType::X &&
         op1->getNcontrols() == 1 && op2->getNcontrols() == 1) {
       const auto tar1 = p.at(op1->getTargets().front());
@@ -316,6 +326,17 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  // negative controls are positive controls between two X gates
+  const auto flipNegativeControls = [&] {
+    for (const auto& control : op->getControls()) {
+      if (control.type == qc::Control::Type::Neg) {
+        addXSpider(diag, static_cast<Qubit>(p.at(control.qubit)), qubits,
+                   PiExpression(PiRational(1, 1)));
+      }
+    }
+  };
+  flipNegativeControls();
+
   if (!op->isControlled()) {
     if (op->getType() == qc::OpType::GPhase) {
       // global phases do not have a target
@@ -586,6 +607,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
                       std::to_string(op->getNcontrols()) + " ctrls)" +
                       qc::toString(op->getType()));
   }
+  flipNegativeControls();
   return it + 1;
 }
 
-- 
2.43.0


From c057015a838a9a5f73892abe78349207fe1573f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 54/85] fix: angles are reduced by all multiples of two pi

---
 src/zx/Rational.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 3abc4fe..98a8513 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -92,10 +92,15 @@ PiRational& PiRational::operator/=(const int64_t rhs) {
 }
 
 void PiRational::modPi() {
-  if (*this > 1) {
-    frac = Rational(getNum() - (2 * getDenom()), getDenom());
-  } else if (*this <= -1) {
-    frac = Rational(getNum() + (2 * getDenom()), getDenom());
+  if (*this > 1 || *this <= -1) {
+    const BigInt denom = getDenom();
+    BigInt num = getNum() % (2 * denom);
+    if (num > denom) {
+      num -= 2 * denom;
+    } else if (num <= -denom) {
+      num += 2 * denom;
+    }
+    frac = Rational(num, denom);
   }
   if (getNum() == 0) {
     setDenom(1);
-- 
2.43.0


From e89cea2515b1041dd49f0e82360669a1e881bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 55/85] fix: subtracting and dividing by an angle keeps the
 order of the operands

---
 include/mqt-core/zx/Rational.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/zx/Rational.hpp b/include/mqt-core/zx/Rational.hpp
index 2a4b198..fbca9af 100644
--- a/include/mqt-core/zx/Rational.hpp
+++ b/include/mqt-core/zx/Rational.hpp
@@ -207,9 +207,8 @@ inline PiRational operator-(PiRational lhs, const int64_t rhs) {
   lhs -= rhs;
   return lhs;
 }
-inline PiRational operator-(const int64_t lhs, PiRational rhs) {
-  rhs -= lhs;
-  return rhs;
+inline PiRational operator-(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(lhs) - rhs;
 }
 
 inline PiRational operator*(PiRational lhs, const PiRational& rhs) {
@@ -233,9 +232,8 @@ inline PiRational operator/(PiRational lhs, const int64_t rhs) {
   lhs /= rhs;
   return lhs;
 }
-inline PiRational operator/(const int64_t lhs, PiRational rhs) {
-  rhs /= lhs;
-  return rhs;
+inline PiRational operator/(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(lhs) / rhs;
 }
 
 inline bool operator<(const PiRational& lhs, const PiRational& rhs) {
-- 
2.43.0


From 6a645c9bb2f38d5ef3f5f98fb6c506a0a5970f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 56/85] fix: small and large angles are converted without
 integer overflow

---
 src/zx/Rational.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 98a8513..39d252f 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -26,14 +26,14 @@ PiRational::PiRational(double val) {
   const double multPi = PI / val;
   const double nearest = std::round(multPi);
   if (std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
-    auto denom = static_cast<int>(nearest);
+    auto denom = static_cast<std::int64_t>(nearest);
     frac = Rational(1, denom);
     modPi();
     return;
   }
 
   val /= PI;
-  val -= 2 * static_cast<int>(val / 2);
+  val -= 2 * std::trunc(val / 2);
   if (val > 1) {
     val -= 2;
   } else if (val <= -1) {
-- 
2.43.0


From 7b9f1522d07cd1d8bc8f1ebecaad80ec7edfc8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 57/85] fix: do not fuse a phase gadget whose only other
 neighbour is a boundary

---
 src/zx/Rules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 686fb99..2143b26 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -302,7 +302,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     const auto& [v0, v0Etype] = diag.incidentEdges(id0)[0].to == v
                                     ? diag.incidentEdges(id0)[1]
                                     : diag.incidentEdges(id0)[0];
-    if (v0Etype != EdgeType::Hadamard) {
+    if (v0Etype != EdgeType::Hadamard || diag.isBoundaryVertex(v0)) {
       return false;
     }
 
-- 
2.43.0


From c5fc39d0c8e2400e774c6a4134f16079893db8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 58/85] fix: a wire with a Hadamard edge is not the identity

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 90073b3..e70c247 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -294,7 +294,8 @@ bool ZXDiagram::isIdentity() const {
 
   const auto nInputs = inputs.size();
   for (size_t i = 0; i < nInputs; ++i) {
-    if (!connected(inputs[i], outputs[i])) {
+    const auto edge = getEdge(inputs[i], outputs[i]);
+    if (!edge.has_value() || edge->type != EdgeType::Simple) {
       return false;
     }
   }
-- 
2.43.0


From 797ba444e90ac7de403e1f78a392eb69449b2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 59/85] fix: concatenate diagrams by the position of their
 inputs, not their qubit labels

---
 src/zx/ZXDiagram.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index e70c247..fdbe6a4 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -264,7 +264,9 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
           addEdge(newVs[i], newVs[to], type);
         }
       } else {
-        const auto outV = outputs[static_cast<std::size_t>(rhs.qubit(to))];
+        const auto in = std::find(rhs.inputs.begin(), rhs.inputs.end(), to);
+        const auto outV =
+            outputs[static_cast<std::size_t>(in - rhs.inputs.begin())];
         for (const auto& [interior_v, interior_type] :
              edges[outV]) { // redirect edges going to outputs
           if (interior_type == type) {
-- 
2.43.0


From bca7ebd5351c5e4f298fae03b0546ba74a31e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 60/85] fix: adjacency matrices of diagrams with deleted
 vertices were accessed out of bounds

---
 src/zx/ZXDiagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index fdbe6a4..f769e7c 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -392,7 +392,7 @@ void ZXDiagram::addGlobalPhase(const PiExpression& phase) {
 }
 
 gf2Mat ZXDiagram::getAdjMat() const {
-  gf2Mat adjMat{nvertices, gf2Vec(nvertices, false)};
+  gf2Mat adjMat{vertices.size(), gf2Vec(vertices.size(), false)};
   for (const auto& [from, to] : getEdges()) {
     adjMat[from][to] = true;
     adjMat[to][from] = true;
-- 
2.43.0


From 1c44f87e0fd917e44745bd6ab6df65959f6cf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 61/85] fix: iterating over the edges of an empty diagram
 dereferenced missing adjacency lists

---
 src/zx/Utils.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index f175598..afa9d8f 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -63,8 +63,10 @@ void Vertices::VertexIterator::nextValidVertex() {
 Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::vector<Edge>>& es,
     const std::vector<std::optional<VertexData>>& verts)
-    : v(0), currentPos(es[0].begin()), edgesPos(es.begin()), edges(es),
-      vertices(verts) {
+    : v(0), currentPos(), edgesPos(es.begin()), edges(es), vertices(verts) {
+  if (edges.empty()) {
+    return;
+  }
   if (!vertices.empty()) {
     while (v < edges.size() && !vertices[v].has_value()) {
       ++v;
@@ -87,8 +89,11 @@ Edges::EdgeIterator::EdgeIterator(
 Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::vector<Edge>>& es,
     const std::vector<std::optional<VertexData>>& verts, const Vertex vertex)
-    : v(vertex), edges(es), vertices(verts) {
-  if (v >= edges.size()) {
+    : v(vertex), currentPos(), edges(es), vertices(verts) {
+  if (edges.empty()) {
+    edgesPos = edges.end();
+    this->v = 0;
+  } else if (v >= edges.size()) {
     currentPos = edges.back().end();
     edgesPos = edges.end();
     this->v = edges.size();
-- 
2.43.0


From 1bff58c717535ec98a07db296c425ec1beb0f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 62/85] fix: adjoint diagrams have the opposite global phase,
 concatenated diagrams the sum

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index f769e7c..6efaa76 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -232,6 +232,7 @@ ZXDiagram& ZXDiagram::invert() {
       data.value().phase = -data.value().phase;
     }
   }
+  globalPhase = -globalPhase;
   return *this;
 }
 
@@ -285,7 +286,7 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
     outputs[i] = newVs[rhs.outputs[i]];
   }
 
-  this->addGlobalPhase(-rhs.globalPhase);
+  this->addGlobalPhase(rhs.globalPhase);
   return *this;
 }
 
-- 
2.43.0


From 614426a18691c6e7343e7619351951dc6e0d0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 63/85] fix: phases slightly above -pi were not rounded to pi

---
 src/zx/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index afa9d8f..35d2ae1 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -173,7 +173,8 @@ void roundToClifford(PiExpression& expr, const fp tolerance) {
     expr.setConst(PiRational(1, 2));
   } else if (expr.getConst().isCloseDivPi(-0.5, tolerance)) {
     expr.setConst(PiRational(-1, 2));
-  } else if (expr.getConst().isCloseDivPi(1, tolerance)) {
+  } else if (expr.getConst().isCloseDivPi(1, tolerance) ||
+             expr.getConst().isCloseDivPi(-1, tolerance)) {
     expr.setConst(PiRational(1, 1));
   }
 }
-- 
2.43.0


From 9a4a5ebfc3416848113ec547fb5a6fc8d97b0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 64/85] fix: control modifiers on controlled OpenQASM gates
 took the wrong operands

---
 src/qasm3/Importer.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6256281..4d619f9 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -531,21 +531,8 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
 
   // here we count the number of controls
   std::vector<std::pair<std::shared_ptr<GateOperand>, bool>> controls{};
-  // since standard gates may define a number of control targets, we first
-  // need to handle those
-  size_t nControls{gate->getNControls() + implicitControls};
-  if (targets.size() < nControls) {
-    throw CompilerError("Gate '" + identifier + "' takes " +
-                            std::to_string(nControls) + " controls, but only " +
-                            std::to_string(targets.size()) +
-                            " qubits were supplied.",
-                        gateCallStatement->debugInfo);
-  }
-
-  controls.reserve(nControls);
-  for (size_t i = 0; i < nControls; ++i) {
-    controls.emplace_back(targets[i], true);
-  }
+  // the operands of control modifiers come before those of the gate itself
+  size_t nControls{0};
 
   bool invertOperation = false;
   for (const auto& modifier : gateCallStatement->modifiers) {
@@ -579,6 +566,22 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                           gateCallStatement->debugInfo);
     }
   }
+
+  // standard gates may define a number of control targets themselves
+  const size_t nGateControls{gate->getNControls() + implicitControls};
+  if (targets.size() < nControls + nGateControls) {
+    throw CompilerError("Gate '" + identifier + "' takes " +
+                            std::to_string(nControls + nGateControls) +
+                            " controls, but only " +
+                            std::to_string(targets.size()) +
+                            " qubits were supplied.",
+                        gateCallStatement->debugInfo);
+  }
+  for (size_t i = 0; i < nGateControls; ++i) {
+    controls.emplace_back(targets[nControls + i], true);
+  }
+  nControls += nGateControls;
+
   targets.erase(targets.begin(),
                 targets.begin() + static_cast<int64_t>(nControls));
 
-- 
2.43.0


From 132e74c0b6628279666a5375ff9cc58dfdff5e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 65/85] fix: OpenQASM conditions ignored indices and the side
 of constants, and crashed on unsupported forms

---
 src/qasm3/Importer.cpp | 63 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 4d619f9..957c5df 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -198,7 +198,7 @@ Importer::translateCondition(
   if (const auto binaryExpression =
           std::dynamic_pointer_cast<BinaryExpression>(condition);
       binaryExpression != nullptr) {
-    const auto comparisonKind = getComparisonKind(binaryExpression->op);
+    auto comparisonKind = getComparisonKind(binaryExpression->op);
     if (!comparisonKind) {
       throw CompilerError("Unsupported comparison operator.", debugInfo);
     }
@@ -225,9 +225,48 @@ Importer::translateCondition(
         lhsIsIdentifier ? std::dynamic_pointer_cast<IndexedIdentifier>(lhs)
                         : std::dynamic_pointer_cast<IndexedIdentifier>(rhs);
     const auto& identifier = indexedIdentifier->identifier;
-    const auto val = lhsIsIdentifier
-                         ? std::dynamic_pointer_cast<Constant>(rhs)->getUInt()
-                         : std::dynamic_pointer_cast<Constant>(lhs)->getUInt();
+    const auto constant =
+        std::dynamic_pointer_cast<Constant>(lhsIsIdentifier ? rhs : lhs);
+    if (constant->isFP() || constant->isBool() ||
+        (constant->isSInt() && constant->getSInt() < 0)) {
+      throw CompilerError(
+          "Only non-negative integers are supported in comparisons.",
+          debugInfo);
+    }
+    const auto val = constant->getUInt();
+
+    if (!lhsIsIdentifier) {
+      // the identifier becomes the left-hand side of the comparison
+      switch (*comparisonKind) {
+      case qc::ComparisonKind::Lt:
+        comparisonKind = qc::ComparisonKind::Gt;
+        break;
+      case qc::ComparisonKind::Leq:
+        comparisonKind = qc::ComparisonKind::Geq;
+        break;
+      case qc::ComparisonKind::Gt:
+        comparisonKind = qc::ComparisonKind::Lt;
+        break;
+      case qc::ComparisonKind::Geq:
+        comparisonKind = qc::ComparisonKind::Leq;
+        break;
+      default:
+        break;
+      }
+    }
+
+    if (!indexedIdentifier->indices.empty()) {
+      std::vector<qc::Bit> bits{};
+      translateBitOperand(indexedIdentifier, bits, debugInfo);
+      if (val > 1 || (*comparisonKind != qc::ComparisonKind::Eq &&
+                      *comparisonKind != qc::ComparisonKind::Neq)) {
+        throw CompilerError(
+            "Single bits can only be compared for (in)equality with 0 or 1.",
+            debugInfo);
+      }
+      return std::pair{bits[0],
+                       (val == 1) == (*comparisonKind == qc::ComparisonKind::Eq)};
+    }
 
     const auto creg = qc->getClassicalRegisters().find(identifier);
     if (creg == qc->getClassicalRegisters().end()) {
@@ -240,11 +279,14 @@ Importer::translateCondition(
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
       unaryExpression != nullptr) {
-    // This should already be caught by the type checker.
-    assert(unaryExpression->op == UnaryExpression::LogicalNot ||
-           unaryExpression->op == UnaryExpression::BitwiseNot);
     const auto& indexedIdentifier =
         std::dynamic_pointer_cast<IndexedIdentifier>(unaryExpression->operand);
+    if ((unaryExpression->op != UnaryExpression::LogicalNot &&
+         unaryExpression->op != UnaryExpression::BitwiseNot) ||
+        indexedIdentifier == nullptr) {
+      throw CompilerError("Only negated bits are supported in conditions.",
+                          debugInfo);
+    }
     std::vector<qc::Bit> bits{};
     translateBitOperand(indexedIdentifier, bits, debugInfo);
     // This should already be caught by the type checker.
@@ -254,8 +296,11 @@ Importer::translateCondition(
   // must be a single bit at this point
   const auto& indexedIdentifier =
       std::dynamic_pointer_cast<IndexedIdentifier>(condition);
-  // should also be caught by the type checker
-  assert(indexedIdentifier != nullptr);
+  if (indexedIdentifier == nullptr) {
+    throw CompilerError("Only classical bits and comparisons are supported as "
+                        "conditions.",
+                        debugInfo);
+  }
   std::vector<qc::Bit> bits{};
   translateBitOperand(indexedIdentifier, bits, debugInfo);
   // This should already be caught by the type checker.
-- 
2.43.0


From 1f37b557975fd12c0ec280fc603b7fd332f1a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 66/85] fix: using a bit of an OpenQASM register in an
 expression changed the register's type

---
 src/qasm3/passes/TypeCheckPass.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 126c10d..2bf0696 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -25,6 +25,19 @@
 
 namespace qasm3::type_checking {
 
+namespace {
+/// The given type with another designator. Types are shared with the
+/// environment and must not be changed in place.
+InferredType withDesignator(const InferredType& type, const uint64_t width) {
+  if (const auto sized =
+          std::dynamic_pointer_cast<DesignatedType<uint64_t>>(type.type)) {
+    return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+        std::make_shared<DesignatedType<uint64_t>>(sized->type, width))};
+  }
+  return type;
+}
+} // namespace
+
 InferredType TypeCheckPass::error(const std::string& msg,
                                   const std::shared_ptr<DebugInfo>& debugInfo) {
   std::cerr << "Type check error: " << msg << '\n';
@@ -208,8 +221,8 @@ InferredType TypeCheckPass::visitBinaryExpression(
       // coerce to float or signed int
       ty = rhs;
     }
-    ty.type->setDesignator(
-        std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
+    ty = withDesignator(ty, std::max(lhs.type->getDesignator(),
+                                     rhs.type->getDesignator()));
   } else if (lhs.type != rhs.type) {
     std::stringstream ss;
     ss << "Type mismatch in binary expression: ";
@@ -348,8 +361,7 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
     return type;
   }
   // Assume that indexed access always results in a single element
-  type.type->setDesignator(1);
-  return type;
+  return withDesignator(type, 1);
 }
 
 InferredType TypeCheckPass::visitMeasureExpression(
-- 
2.43.0


From eb062a79d83822cd5e5c11c46fdb2e9138fdb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 67/85] fix: constants in OpenQASM gates were captured by
 parameters of calling gates

---
 include/mqt-core/qasm3/NestedEnvironment.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mqt-core/qasm3/NestedEnvironment.hpp b/include/mqt-core/qasm3/NestedEnvironment.hpp
index 34d0034..694327a 100644
--- a/include/mqt-core/qasm3/NestedEnvironment.hpp
+++ b/include/mqt-core/qasm3/NestedEnvironment.hpp
@@ -27,11 +27,13 @@ public:
   void pop() { env.pop_back(); }
 
   std::optional<T> find(std::string key) {
-    for (auto it = env.rbegin(); it != env.rend(); ++it) {
-      auto found = it->find(key);
-      if (found != it->end()) {
-        return found->second;
-      }
+    // a scope sees its own names and global ones, but not those of the scope
+    // it is used in
+    if (const auto found = env.back().find(key); found != env.back().end()) {
+      return found->second;
+    }
+    if (const auto found = env.front().find(key); found != env.front().end()) {
+      return found->second;
     }
     return std::nullopt;
   }
-- 
2.43.0


From 93f184b8651c1382aefacf26a4b0c4d91a97341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 68/85] fix: recursive OpenQASM gate definitions overflowed the
 stack

---
 include/mqt-core/qasm3/Importer.hpp | 3 +++
 src/qasm3/Importer.cpp              | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 2d4b69d..60b892f 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -26,6 +26,7 @@
 #include <string>
 #include <tuple>
 #include <unordered_map>
+#include <unordered_set>
 #include <utility>
 #include <variant>
 #include <vector>
@@ -92,6 +93,8 @@ private:
   std::map<std::string, std::shared_ptr<Gate>> gates;
 
   bool openQASM2CompatMode{false};
+  /// gates whose definitions are currently being expanded
+  std::unordered_set<const Gate*> gatesBeingExpanded;
 
   qc::Permutation initialLayout;
   qc::Permutation outputPermutation;
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 957c5df..1089e97 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -800,6 +800,9 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     return op;
   }
   if (auto* compoundGate = dynamic_cast<CompoundGate*>(gate.get())) {
+    if (!gatesBeingExpanded.insert(gate.get()).second) {
+      throw CompilerError("Gates cannot be defined recursively.", debugInfo);
+    }
     constEvalPass.pushEnv();
 
     for (size_t i = 0; i < compoundGate->parameterNames.size(); ++i) {
@@ -871,6 +874,7 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     }
 
     constEvalPass.popEnv();
+    gatesBeingExpanded.erase(gate.get());
 
     if (op->getOps().size() == 1) {
       return std::move(op->getOps()[0]);
-- 
2.43.0


From 57b3c63d148318123d0becc62e6acc6b57a1896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 69/85] fix: any OpenQASM comment containing "i <number>" was
 read as an initial layout

---
 src/qasm3/Scanner.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3aa87f8..685ddb8 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -69,13 +69,15 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
       nextCh();
     }
 
-    static const auto INITIAL_LAYOUT_REGEX = std::regex("i (\\d+ )*(\\d+)");
-    static const auto OUTPUT_PERMUTATION_REGEX = std::regex("o (\\d+ )*(\\d+)");
+    static const auto INITIAL_LAYOUT_REGEX = 
+        std::regex("//\\s*i (\\d+ )*(\\d+)\\s*");
+    static const auto OUTPUT_PERMUTATION_REGEX = 
+        std::regex("//\\s*o (\\d+ )*(\\d+)\\s*");
 
     const auto str = content.str();
-    if (std::regex_search(str, INITIAL_LAYOUT_REGEX)) {
+    if (std::regex_match(str, INITIAL_LAYOUT_REGEX)) {
       t.kind = Token::Kind::InitialLayout;
-    } else if (std::regex_search(str, OUTPUT_PERMUTATION_REGEX)) {
+    } else if (std::regex_match(str, OUTPUT_PERMUTATION_REGEX)) {
       t.kind = Token::Kind::OutputPermutation;
     } else {
       return consumeWhitespaceAndComments();
-- 
2.43.0


From c5d8ac71a155c6a74048cf68ca9f01f2447b4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 70/85] fix: upper-case digits of hexadecimal OpenQASM literals
 were misread

---
 src/qasm3/Scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 685ddb8..8fad83c 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -176,7 +176,7 @@ uint64_t Scanner::parseIntegerLiteral(const std::string& str,
       val += static_cast<uint64_t>(c) - '0';
     } else {
       val *= base;
-      val += static_cast<uint64_t>(c) - 'a' + 10;
+      val += static_cast<uint64_t>(std::tolower(c)) - 'a' + 10;
     }
   }
   return val;
-- 
2.43.0


From f992fcfaec0daa88c750e4d7ee8a307b10e413a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 71/85] fix: unterminated strings in OpenQASM programs were
 read forever

---
 src/qasm3/Scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 8fad83c..2c0caf3 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -330,7 +330,7 @@ Token Scanner::consumeString() {
   nextCh();
 
   std::stringstream content;
-  while (ch != delim) {
+  while (ch != delim && ch != 0) {
     content << ch;
     nextCh();
   }
-- 
2.43.0


From a2baa3b72451cba5cfceef3006fdb22c4b05192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 72/85] fix: out-of-range OpenQASM float literals ended in
 std::out_of_range

---
 src/qasm3/Scanner.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 2c0caf3..e16e1e7 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -248,11 +248,15 @@ Token Scanner::consumeNumberLiteral() {
 
     try {
       t.valReal = std::stod(ss.str());
+      t.kind = Token::Kind::FloatLiteral;
     } catch (std::invalid_argument&) {
       error("Unable to parse float literal");
+      t.kind = Token::Kind::None;
+    } catch (std::out_of_range&) {
+      error("Float literal out of range");
+      t.kind = Token::Kind::None;
     }
 
-    t.kind = Token::Kind::FloatLiteral;
     if (negative) {
       t.valReal *= -1;
     }
-- 
2.43.0


From cff39ac491f617a2d035423b7874e33688ac6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 73/85] fix: OpenQASM expressions could not subtract literals,
 e.g. pi-2 or -(2)

---
 include/mqt-core/qasm3/Parser.hpp  | 18 ++++++++++++++++++
 src/qasm3/passes/ConstEvalPass.cpp |  3 +++
 src/qasm3/passes/TypeCheckPass.cpp |  7 +++++++
 3 files changed, 28 insertions(+)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9c7c477..af6e7c0 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -21,6 +21,7 @@
 #include "Token.hpp"
 #include "Types_fwd.hpp"
 
+#include <cmath>
 #include <istream>
 #include <memory>
 #include <optional>
@@ -47,11 +48,28 @@ class Parser final {
     std::unique_ptr<Scanner> scanner;
     std::optional<std::string> filename;
     bool isImplicitInclude;
+    std::optional<Token> pending{};
 
     bool scan() {
       last = t;
       t = next;
+      if (pending.has_value()) {
+        next = *pending;
+        pending.reset();
+        return t.kind != Token::Kind::Eof;
+      }
       next = scanner->next();
+      // The scanner treats a `-` directly followed by a digit as part of the
+      // literal. For the parser, it always is an operator (`a-1`, `-2^2`).
+      if ((next.kind == Token::Kind::IntegerLiteral && next.isSigned) ||
+          (next.kind == Token::Kind::FloatLiteral &&
+           std::signbit(next.valReal))) {
+        pending = next;
+        pending->val = -next.val;
+        pending->isSigned = false;
+        pending->valReal = -next.valReal;
+        next.kind = Token::Kind::Minus;
+      }
 
       return t.kind != Token::Kind::Eof;
     }
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 888bccc..354a7cc 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -495,6 +495,9 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
   case UnaryExpression::Negate:
     if (val->type == ConstEvalValue::Type::ConstInt) {
       val->value = -std::get<0>(val->value);
+    } else if (val->type == ConstEvalValue::Type::ConstUint) {
+      val->value = -std::get<0>(val->value);
+      val->type = ConstEvalValue::Type::ConstInt;
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
     } else {
diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 2bf0696..fb39941 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -279,6 +279,9 @@ InferredType TypeCheckPass::visitBinaryExpression(
 InferredType TypeCheckPass::visitUnaryExpression(
     const std::shared_ptr<UnaryExpression> unaryExpression) {
   auto type = visit(unaryExpression->operand);
+  if (type.isError) {
+    return type;
+  }
 
   switch (unaryExpression->op) {
   case UnaryExpression::BitwiseNot:
@@ -292,6 +295,10 @@ InferredType TypeCheckPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
+    if (type.type->isUint()) {
+      type = InferredType{std::dynamic_pointer_cast<ResolvedType>(
+          DesignatedType<uint64_t>::getIntTy(type.type->getDesignator()))};
+    }
     break;
   case UnaryExpression::DurationOf:
     return InferredType{UnsizedType<uint64_t>::getDurationTy()};
-- 
2.43.0


From 6d35c54aeb5635f73021cd8280f52931a9294d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 74/85] fix: powers of negative numbers, of zero and with
 negative exponents in OpenQASM expressions

---
 src/qasm3/passes/ConstEvalPass.cpp | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 354a7cc..8dd8f1c 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -28,17 +28,29 @@
 
 namespace qasm3::const_eval {
 namespace {
-template <typename T> T power(T base, T exponent) {
-  if (exponent == 0) {
-    return 1;
-  }
+template <typename T> T multiply(T lhs, T rhs) {
+  using Limits = std::numeric_limits<T>;
+  const bool overflows =
+      lhs > 0 ? (rhs > 0 ? lhs > Limits::max() / rhs
+                         : rhs < Limits::min() / lhs)
+              : (rhs > 0 ? lhs < Limits::min() / rhs
+                         : lhs != 0 && rhs < Limits::max() / lhs);
+  if (overflows) {
+    throw ConstEvalError("Integer overflow in constant evaluation.");
+  }
+  return static_cast<T>(lhs * rhs);
+}
 
+template <typename T> T power(T base, T exponent) {
   T result = 1;
-  for (T i = 0; i < exponent; ++i) {
-    if (result > std::numeric_limits<T>::max() / base) {
-      throw ConstEvalError("Integer overflow in constant evaluation.");
+  while (exponent > 0) {
+    if (exponent % 2 == 1) {
+      result = multiply(result, base);
+    }
+    exponent /= 2;
+    if (exponent > 0) {
+      base = multiply(base, base);
     }
-    result *= base;
   }
   return result;
 }
@@ -180,6 +192,10 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
   // such as addition and subtraction we can use the unsigned version directly.
   switch (op) {
   case BinaryExpression::Power:
+    if (isSigned && rhs < 0) {
+      return ConstEvalValue{
+          std::pow(static_cast<double>(lhs), static_cast<double>(rhs))};
+    }
     if (isSigned) {
       result.value = power(lhs, rhs);
     } else {
-- 
2.43.0


From c594ea4c7d4cdfb3f26a5f37ed90ff3d01d0dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 75/85] fix: differences of OpenQASM integer literals wrapped
 around

---
 src/qasm3/passes/ConstEvalPass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 8dd8f1c..390a4b2 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -207,6 +207,10 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     break;
   case BinaryExpression::Subtract:
     result.value = static_cast<int64_t>(lhsU - rhsU);
+    if (!isSigned && lhsU < rhsU) {
+      // integer literals are unsigned, their difference does not have to be
+      result.type = ConstEvalValue::Type::ConstInt;
+    }
     break;
   case BinaryExpression::Multiply:
     if (isSigned) {
-- 
2.43.0


From 9c8b48972be0c2638f49c6a54ed379bdb1b7e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 76/85] fix: integer divisions by zero in OpenQASM expressions
 crashed

---
 src/qasm3/passes/ConstEvalPass.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 390a4b2..26a7ab3 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -181,6 +181,15 @@ template <typename T> int64_t castToWidth(const int64_t value) {
   return static_cast<int64_t>(static_cast<T>(value));
 }
 
+void checkDivision(const int64_t lhs, const int64_t rhs, const bool isSigned) {
+  if (rhs == 0) {
+    throw ConstEvalError("Division by zero in constant evaluation.");
+  }
+  if (isSigned && rhs == -1 && lhs == std::numeric_limits<int64_t>::min()) {
+    throw ConstEvalError("Integer overflow in constant evaluation.");
+  }
+}
+
 ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
                                  int64_t rhs, size_t width, bool isSigned) {
   auto lhsU = static_cast<uint64_t>(lhs);
@@ -220,6 +229,7 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     }
     break;
   case BinaryExpression::Divide:
+    checkDivision(lhs, rhs, isSigned);
     if (isSigned) {
       result.value = lhs / rhs;
     } else {
@@ -227,6 +237,7 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     }
     break;
   case BinaryExpression::Modulo:
+    checkDivision(lhs, rhs, isSigned);
     if (isSigned) {
       result.value = lhs % rhs;
     } else {
-- 
2.43.0


From 9e01fb0ee923104b3e3e80dc73681b470f51f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 77/85] fix: functions of integers in OpenQASM expressions were
 not evaluated

---
 src/qasm3/passes/ConstEvalPass.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 26a7ab3..77fecb4 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -506,6 +506,25 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     return std::nullopt;
   }
 
+  // Mathematical functions implicitly convert integers to floats.
+  switch (unaryExpression->op) {
+  case UnaryExpression::Sin:
+  case UnaryExpression::Cos:
+  case UnaryExpression::Tan:
+  case UnaryExpression::Exp:
+  case UnaryExpression::Ln:
+  case UnaryExpression::Sqrt:
+    if (val->type == ConstEvalValue::Type::ConstInt) {
+      val = ConstEvalValue{static_cast<double>(std::get<0>(val->value))};
+    } else if (val->type == ConstEvalValue::Type::ConstUint) {
+      val = ConstEvalValue{
+          static_cast<double>(static_cast<uint64_t>(std::get<0>(val->value)))};
+    }
+    break;
+  default:
+    break;
+  }
+
   // For each unary operator, we need to check the type of the operand and
   // determine whether the operation is valid.
   switch (unaryExpression->op) {
-- 
2.43.0


From 7346878b10e043354b98c93b0e5a6dc65336f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 78/85] fix: precedence and associativity of operators in
 OpenQASM expressions

---
 include/mqt-core/qasm3/Parser.hpp |  2 +
 src/qasm3/Parser.cpp              | 74 +++++++++++++++----------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index af6e7c0..765c3ef 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -158,6 +158,8 @@ public:
 
   std::shared_ptr<Expression> term();
 
+  std::shared_ptr<Expression> sum();
+
   std::shared_ptr<Expression> comparison();
 
   std::shared_ptr<Expression> parseExpression();
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 8b8698b..bf7bfce 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -653,12 +653,6 @@ std::shared_ptr<MeasureExpression> Parser::parseMeasureExpression() {
 
 std::shared_ptr<Expression> Parser::exponentiation() {
   switch (current().kind) {
-  case Token::Kind::Minus: {
-    scan();
-    const auto x = exponentiation();
-    return std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::Negate, x});
-  }
   case Token::Kind::FloatLiteral: {
     const auto val = current().valReal;
     scan();
@@ -729,10 +723,27 @@ std::shared_ptr<Expression> Parser::exponentiation() {
 }
 
 std::shared_ptr<Expression> Parser::factor() {
+  switch (current().kind) {
+  case Token::Kind::Minus:
+    scan();
+    return std::make_shared<UnaryExpression>(UnaryExpression::Op::Negate,
+                                             factor());
+  case Token::Kind::ExclamationPoint:
+    scan();
+    return std::make_shared<UnaryExpression>(UnaryExpression::Op::LogicalNot,
+                                             factor());
+  case Token::Kind::Tilde:
+    scan();
+    return std::make_shared<UnaryExpression>(UnaryExpression::Op::BitwiseNot,
+                                             factor());
+  default:
+    break;
+  }
   auto x = exponentiation();
-  while (current().kind == Token::Kind::Caret) {
+  // the power operator is right-associative and binds tighter than signs
+  if (current().kind == Token::Kind::Caret) {
     scan();
-    const auto y = exponentiation();
+    const auto y = factor();
     x = std::make_shared<BinaryExpression>(BinaryExpression::Op::Power, x, y);
   }
   return x;
@@ -752,8 +763,22 @@ std::shared_ptr<Expression> Parser::term() {
   return x;
 }
 
-std::shared_ptr<Expression> Parser::comparison() {
+std::shared_ptr<Expression> Parser::sum() {
   auto x = term();
+  while (current().kind == Token::Kind::Plus ||
+         current().kind == Token::Kind::Minus) {
+    auto const op = current().kind == Token::Kind::Plus
+                        ? BinaryExpression::Op::Add
+                        : BinaryExpression::Op::Subtract;
+    scan();
+    const auto y = term();
+    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
+  }
+  return x;
+}
+
+std::shared_ptr<Expression> Parser::comparison() {
+  auto x = sum();
   while (current().kind == Token::Kind::DoubleEquals ||
          current().kind == Token::Kind::NotEquals ||
          current().kind == Token::Kind::LessThan ||
@@ -784,41 +809,14 @@ std::shared_ptr<Expression> Parser::comparison() {
       error(current(), "Expected comparison operator");
     }
     scan();
-    const auto y = term();
+    const auto y = sum();
     x = std::make_shared<BinaryExpression>(op, x, y);
   }
   return x;
 }
 
 std::shared_ptr<Expression> Parser::parseExpression() {
-  std::shared_ptr<Expression> x{};
-  if (current().kind == Token::Kind::Minus) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::Negate, term()});
-  } else if (current().kind == Token::Kind::ExclamationPoint) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::LogicalNot, term()});
-  } else if (current().kind == Token::Kind::Tilde) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::BitwiseNot, term()});
-  } else {
-    x = comparison();
-  }
-
-  while (current().kind == Token::Kind::Plus ||
-         current().kind == Token::Kind::Minus) {
-    auto const op = current().kind == Token::Kind::Plus
-                        ? BinaryExpression::Op::Add
-                        : BinaryExpression::Op::Subtract;
-    scan();
-    const auto y = comparison();
-    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
-  }
-
-  return x;
+  return comparison();
 }
 
 std::shared_ptr<IdentifierList> Parser::parseIdentifierList() {
-- 
2.43.0


From 890e3d1a550aac360f8731666df61135a5bb6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 79/85] fix: OpenQASM gate parameters and modifiers of
 unexpected types ended in std::bad_variant_access

---
 include/mqt-core/qasm3/Statement.hpp | 6 +++---
 src/qasm3/Importer.cpp               | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/qasm3/Statement.hpp b/include/mqt-core/qasm3/Statement.hpp
index 7b924be..8bb35b0 100644
--- a/include/mqt-core/qasm3/Statement.hpp
+++ b/include/mqt-core/qasm3/Statement.hpp
@@ -80,9 +80,9 @@ public:
   explicit Constant(bool value)
       : val(value), isSigned(false), isFp(false), isBoolean(true) {}
 
-  [[nodiscard]] bool isInt() const { return !isFp; }
-  [[nodiscard]] bool isSInt() const { return !isFp && isSigned; }
-  [[nodiscard]] bool isUInt() const { return !isFp && !isSigned; }
+  [[nodiscard]] bool isInt() const { return !isFp && !isBoolean; }
+  [[nodiscard]] bool isSInt() const { return isInt() && isSigned; }
+  [[nodiscard]] bool isUInt() const { return isInt() && !isSigned; }
   [[nodiscard]] bool isFP() const { return isFp; }
   [[nodiscard]] bool isBool() const { return isBoolean; }
   [[nodiscard]] int64_t getSInt() const { return std::get<0>(val); }
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 1089e97..a6db56e 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -317,7 +317,8 @@ Importer::evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
   }
 
   const auto constInt = std::dynamic_pointer_cast<Constant>(expr);
-  if (!constInt) {
+  if (!constInt || !constInt->isInt() ||
+      (constInt->isSInt() && constInt->getSInt() < 0)) {
     throw CompilerError("Expected a constant integer expression.", debugInfo);
   }
 
@@ -650,6 +651,11 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
           gateCallStatement->debugInfo);
     }
 
+    if (result->type == const_eval::ConstEvalValue::Type::ConstBool) {
+      throw CompilerError("Gate parameters cannot be booleans.",
+                          gateCallStatement->debugInfo);
+    }
+
     evaluatedParameters.emplace_back(result->toExpr()->asFP());
   }
 
-- 
2.43.0


From 1bc25e376631d7d73b143c3bd163b761f60a45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 80/85] fix: divisions of integers in OpenQASM 2 expressions
 were truncated

---
 include/mqt-core/qasm3/passes/ConstEvalPass.hpp |  4 ++++
 src/qasm3/Importer.cpp                          |  1 +
 src/qasm3/passes/ConstEvalPass.cpp              | 11 +++++++++++
 3 files changed, 16 insertions(+)

diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index 333762b..599e9bf 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -54,6 +54,7 @@ class ConstEvalPass final
       public ExpressionVisitor<std::optional<ConstEvalValue>>,
       public TypeVisitor<std::shared_ptr<Expression>> {
   NestedEnvironment<ConstEvalValue> env;
+  bool realDivision{false};
 
 public:
   ConstEvalPass() = default;
@@ -69,6 +70,9 @@ public:
 
   void processStatement(Statement& statement) override;
 
+  /// OpenQASM 2 expressions are real-valued, e.g., `3/4*pi` is not zero.
+  void useRealDivision() { realDivision = true; }
+
   void pushEnv() { env.push(); }
   void popEnv() { env.pop(); }
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index a6db56e..660e2c6 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -361,6 +361,7 @@ void Importer::visitVersionDeclaration(
     const std::shared_ptr<VersionDeclaration> versionDeclaration) {
   if (versionDeclaration->version < 3) {
     openQASM2CompatMode = true;
+    constEvalPass.useRealDivision();
   }
 }
 
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 77fecb4..9c6c8bc 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -445,6 +445,17 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
     return std::nullopt;
   }
 
+  if (realDivision && binaryExpression->op == BinaryExpression::Op::Divide &&
+      lhsVal->type == ConstEvalValue::Type::ConstUint) {
+    lhsVal = ConstEvalValue{
+        static_cast<double>(static_cast<uint64_t>(std::get<0>(lhsVal->value)))};
+  } else if (realDivision &&
+             binaryExpression->op == BinaryExpression::Op::Divide &&
+             lhsVal->type == ConstEvalValue::Type::ConstInt) {
+    lhsVal =
+        ConstEvalValue{static_cast<double>(std::get<0>(lhsVal->value))};
+  }
+
   // We need to coerce the values to the correct type.
   // ConstInt and ConstUint should be able to coerce to ConstFloat.
   // ConstUint should coerce to ConstInt.
-- 
2.43.0


From e48b84aef02a1f7adb0e7068000fd0928e96619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 81/85] fix: signs in front of hexadecimal, octal and binary
 OpenQASM literals

---
 src/qasm3/Scanner.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index e16e1e7..c9b0e78 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -186,6 +186,12 @@ Token Scanner::consumeNumberLiteral() {
   Token t(line, col);
   uint8_t base = 10;
 
+  bool negative = false;
+  if (ch == '-') {
+    negative = true;
+    nextCh();
+  }
+
   if (ch == '0') {
     switch (peek()) {
     case 'b':
@@ -209,15 +215,6 @@ Token Scanner::consumeNumberLiteral() {
       break;
     }
   }
-  bool negative = false;
-  if (ch == '-') {
-    if (base != 10) {
-      error("Negative numbers are only allowed in base 10");
-    }
-    negative = true;
-    nextCh();
-  }
-
   const auto valBeforeDecimalSeparator = consumeNumberLiteral(base);
 
   if (ch == '.' || ch == 'e' || ch == 'E') {
-- 
2.43.0


From bd76d26ac6f92226561a7686a7b00f0513f1e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 82/85] fix: errors in OpenQASM type designators and gate
 bodies escaped as ConstEvalError

---
 src/qasm3/Importer.cpp             | 7 ++++++-
 src/qasm3/passes/TypeCheckPass.cpp | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 660e2c6..e7eb302 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -643,7 +643,12 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
   // now evaluate all arguments; we only support const arguments.
   std::vector<qc::fp> evaluatedParameters{};
   for (const auto& param : parameters) {
-    auto result = constEvalPass.visit(param);
+    std::optional<const_eval::ConstEvalValue> result;
+    try {
+      result = constEvalPass.visit(param);
+    } catch (const ConstEvalError& e) {
+      throw CompilerError(e.what(), gateCallStatement->debugInfo);
+    }
     if (!result.has_value()) {
       throw CompilerError(
           "Only const expressions are supported as gate parameters, but "
diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index fb39941..5665f2a 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -58,6 +58,8 @@ void TypeCheckPass::processStatement(Statement& statement) {
     }
   } catch (const TypeCheckError& e) {
     throw CompilerError(e.what(), statement.debugInfo);
+  } catch (const ConstEvalError& e) {
+    throw CompilerError(e.what(), statement.debugInfo);
   }
 }
 
-- 
2.43.0


From 073604da29744506f99a795f246b0aa23b8150c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 83/85] fix: OpenQASM float constants initialized by integers
 were used as integers

---
 src/qasm3/passes/ConstEvalPass.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 9c6c8bc..38b73c4 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -75,12 +75,20 @@ void ConstEvalPass::visitDeclarationStatement(
         "Constant declaration initialization expression must be initialized.");
   }
 
-  const auto value = visit(declarationStatement->expression->expression);
+  auto value = visit(declarationStatement->expression->expression);
   if (!value) {
     throw ConstEvalError(
         "Constant declaration initialization expression must be const.");
   }
 
+  if (const auto* type =
+          std::get_if<std::shared_ptr<TypeExpr>>(&declarationStatement->type);
+      type != nullptr && (*type)->isFP() &&
+      (value->type == ConstEvalValue::Type::ConstInt ||
+       value->type == ConstEvalValue::Type::ConstUint)) {
+    value = ConstEvalValue{value->toExpr()->asFP()};
+  }
+
   declarationStatement->expression->expression = value->toExpr();
 
   this->env.emplace(declarationStatement->identifier, *value);
-- 
2.43.0


From 5acc71b3c560e628dd530aca6782395c98d61c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 84/85] fix: OpenQASM assignments of invalid expressions
 dereferenced a null type

---
 src/qasm3/passes/TypeCheckPass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 5665f2a..687e589 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -181,7 +181,7 @@ void TypeCheckPass::visitAssignmentStatement(
     return;
   }
 
-  if (!idTy->second.type->fits(*exprTy.type)) {
+  if (!exprTy.isError && !idTy->second.type->fits(*exprTy.type)) {
     std::stringstream ss;
     ss << "Type mismatch in assignment. Expected '";
     ss << idTy->second.type->toString();
-- 
2.43.0


From e8322480c29a69fc7b10c264291f0812fd7a99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 85/85] fix: OpenQASM programs ending in an include statement
 were rejected

---
 src/qasm3/Parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index bf7bfce..1000045 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -143,18 +143,18 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
       }
     }
 
+    if (current().kind == Token::Kind::Include) {
+      // The include statement just adds a new file to the scanner.
+      parseInclude();
+      continue;
+    }
+
     statements.push_back(parseStatement());
   }
   return statements;
 }
 
 std::shared_ptr<Statement> Parser::parseStatement() {
-  if (current().kind == Token::Kind::Include) {
-    // We parse include and then continue in parseStatement, as the include
-    // statement just adds a new file to the scanner.
-    parseInclude();
-  }
-
   if (current().kind == Token::Kind::Const) {
     scan();
     return parseDeclaration(true);
-- 
2.43.0

