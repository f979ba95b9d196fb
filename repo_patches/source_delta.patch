From 06dcbf9ad9df44ea062431fbecc1cb4a87cc3808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 01/26] fix: divide by the factorial of the multiplicity of
 repeated contractions

Three or more identical elementary contractions were divided by their number
instead of by the number of their permutations.
---
 wicked/diagrams/wick_theorem_process_contractions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..f08d07b 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,7 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    factor /= factorial(kv.second);
   }
   return factor;
 }
-- 
2.43.0


From 0ff95bb69b505ddae4e839f80f5151af604782b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 02/26] fix: binomial overflowed in intermediate products and
 ignored negative k

---
 wicked/helpers/combinatorics.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/combinatorics.cc b/wicked/helpers/combinatorics.cc
index c6c8740..38dea76 100644
--- a/wicked/helpers/combinatorics.cc
+++ b/wicked/helpers/combinatorics.cc
@@ -9,17 +9,17 @@ long long int factorial(int n) {
 }
 
 long long int binomial(int n, int k) {
-  if (k > n)
+  if (k < 0 or k > n)
     return 0;
-  if (k * 2 > n)
+  if (k > n - k)
     k = n - k;
   if (k == 0)
     return 1;
 
   long long int result = n;
   for (long long int i = 2; i <= k; ++i) {
-    result *= (n - i + 1);
-    result /= i;
+    // result * (n - i + 1) / i (exact), without overflowing in the product
+    result = (result / i) * (n - i + 1) + (result % i) * (n - i + 1) / i;
   }
   return result;
 }
-- 
2.43.0


From 4d17a4e5af394c5bf8c9e131139b6c8310c70a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 03/26] fix: integer_partitions(1, 0) has no partition of
 length zero

---
 wicked/helpers/combinatorics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/helpers/combinatorics.cc b/wicked/helpers/combinatorics.cc
index 38dea76..28a0193 100644
--- a/wicked/helpers/combinatorics.cc
+++ b/wicked/helpers/combinatorics.cc
@@ -83,7 +83,7 @@ std::vector<std::vector<int>> integer_partitions(int n, int maxlen) {
   } else if (n == 0) {
     // Special case not handled by ZS2
     partitions.push_back({});
-  } else if (n == 1) {
+  } else if (n == 1 and maxlen >= 1) {
     // Special case not handled by ZS2
     partitions.push_back({1});
   }
-- 
2.43.0


From 381a4866b8727935a4552f698928f3a1535f48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 04/26] fix: canonicalize relabeled tensor indices onto
 operator indices that are on no tensor

---
 wicked/algebra/symbolic_term.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..a18b1d9 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -187,6 +187,21 @@ scalar_t SymbolicTerm::canonicalize() {
     is_operator_index[sqop.index()] = true;
   }
 
+  // operator indices that appear on no tensor keep their label, so no other
+  // index can be relabeled to one of them
+  std::map<Index, bool> is_reserved_index = is_operator_index;
+  for (const auto &tensor : tensors_) {
+    for (const auto &index : tensor.indices()) {
+      is_reserved_index.erase(index);
+    }
+  }
+  auto next_index = [&](std::vector<int> &index_count, int s) {
+    while (is_reserved_index.count(Index(s, index_count[s])) > 0) {
+      index_count[s] += 1;
+    }
+    return Index(s, index_count[s]);
+  };
+
   // b. Assign indices to tensors operators
   for (const auto &tensor : tensors_) {
     // lower indices
@@ -195,14 +210,14 @@ scalar_t SymbolicTerm::canonicalize() {
         // this index is not shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, tens_index_count[s]);
+          index_map[l] = next_index(tens_index_count, s);
           tens_index_count[s] += 1;
         }
       } else {
         // this index is shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, sqop_index_count[s]);
+          index_map[l] = next_index(sqop_index_count, s);
           sqop_index_count[s] += 1;
         }
       }
@@ -212,13 +227,13 @@ scalar_t SymbolicTerm::canonicalize() {
       if (is_operator_index.count(u) == 0) {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, tens_index_count[s]);
+          index_map[u] = next_index(tens_index_count, s);
           tens_index_count[s] += 1;
         }
       } else {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, sqop_index_count[s]);
+          index_map[u] = next_index(sqop_index_count, s);
           sqop_index_count[s] += 1;
         }
       }
-- 
2.43.0


From 7ce3be8f5cf65ebb28561ce59161aa95d41d456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 05/26] fix: sorting bosonic operators gave a fermionic sign

---
 wicked/algebra/sqoperator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/sqoperator.cc b/wicked/algebra/sqoperator.cc
index d4de1fd..d67e46e 100644
--- a/wicked/algebra/sqoperator.cc
+++ b/wicked/algebra/sqoperator.cc
@@ -145,7 +145,10 @@ scalar_t canonicalize_sqops(Product<SQOperator> &sqops, bool reversed) {
   sqops.clear();
   for (const auto &[sqop, pos] : sqop_pos) {
     sqops.push_back(sqop);
-    perm.push_back(pos);
+    // exchanging an operator with a bosonic one does not change the sign
+    if (sqop.field_type() == FieldType::Fermion) {
+      perm.push_back(pos);
+    }
   }
   return permutation_sign(perm);
 }
-- 
2.43.0


From 655705077ff329e811e3e87842257dddfa0189bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 06/26] fix: concurrent contraction tasks updated the timers
 without synchronisation

---
 .../diagrams/wick_theorem_process_contractions.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index f08d07b..bead0fe 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -3,6 +3,7 @@
 #include <future>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -45,6 +46,9 @@ std::string contraction_signature(const OperatorProduct &ops,
 
 using namespace std;
 
+// protects the timers when contractions are processed concurrently
+static std::mutex timers_mutex;
+
 Expression WickTheorem::process_contractions(scalar_t factor,
                                              const OperatorProduct &ops,
                                              const int minrank,
@@ -169,12 +173,19 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    double canonicalize_time = tc.get();
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    double evaluate_time = te.get();
+
+    {
+      // the tasks of one contraction share the timers
+      std::lock_guard<std::mutex> lock(timers_mutex);
+      timers_["canonicalize_contraction_graph"] += canonicalize_time;
+      timers_["evaluate_contraction"] += evaluate_time;
+    }
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From f82c7f9bb656cb13ec621c760ee168082b4fb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 07/26] fix: division by a negative rational left a negative
 denominator

---
 wicked/helpers/rational.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..49e4a61 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -63,9 +63,8 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
-  numerator_ *= rhs.denominator();
-  denominator_ *= rhs.numerator();
-  reduce();
+  // the constructor enforces a positive denominator
+  *this = rational(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
   return *this;
 }
 
-- 
2.43.0


From 01db06ae4b6548ff69d709cab961f9a4f067f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 08/26] fix: reading a rational failed beyond the range of int
 and accepted a zero denominator

---
 wicked/helpers/rational.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 49e4a61..0493874 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -203,6 +203,18 @@ void rational::reduce() {
 
 #include <iostream>
 
+/// convert a string of digits to an integer of arbitrary size
+static rational_t make_integer_from_digits(const std::string &digits) {
+#if USE_BOOST_1024_INT
+  // leading zeros are removed because they select an octal number
+  const auto pos = digits.find_first_not_of('0');
+  return pos == std::string::npos ? rational_t(0)
+                                  : rational_t(digits.substr(pos));
+#else
+  return std::stoll(digits);
+#endif
+}
+
 rational make_rational_from_str(const std::string &s) {
   std::smatch sm;
   auto factor_re = std::regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
@@ -215,7 +227,7 @@ rational make_rational_from_str(const std::string &s) {
   std::string numerator_str = sm[2];
   std::string division = sm[3];
   std::string denominator_str = sm[4];
-  int numerator = 1, denominator = 1;
+  rational_t numerator = 1, denominator = 1;
   if (sign == "-") {
     numerator *= -1;
   }
@@ -227,10 +239,14 @@ rational make_rational_from_str(const std::string &s) {
                                " to a rational object");
   }
   if (numerator_str.size() > 0) {
-    numerator *= std::stoi(numerator_str);
+    numerator *= make_integer_from_digits(numerator_str);
   }
   if ((division == "/") and (denominator_str.size() > 0)) {
-    denominator *= std::stoi(denominator_str);
+    denominator *= make_integer_from_digits(denominator_str);
+  }
+  if (denominator == 0) {
+    throw std::runtime_error("\nCould not convert the string " + s +
+                             " to a rational object");
   }
   return rational(numerator, denominator);
 }
-- 
2.43.0


From 117cfe333fed8cf59ae69c14f2d62437728b0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 09/26] fix: compiled factors were truncated to a few digits

---
 wicked/algebra/equation.cc | 9 +++++++--
 wicked/helpers/rational.cc | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index b1f2d4f..24fce3e 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -111,8 +111,13 @@ std::string Equation::compile(const std::string &format) const {
       lhs_tensor_label += orbital_subspaces->label(l.space());
     }
 
-    str_vec.push_back(lhs_tensor_label +
-                      " += " + std::format("{:.9f}", rhs_factor().to_double()) +
+    // use as many digits as needed to recover the factor
+    const double factor = rhs_factor().to_double();
+    std::string factor_str = std::format("{:.9f}", factor);
+    if (std::stod(factor_str) != factor) {
+      factor_str = std::format("{:.17g}", factor);
+    }
+    str_vec.push_back(lhs_tensor_label + " += " + factor_str +
                       " * np.einsum(");
 
     std::map<std::string, std::string> index_map;
diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 0493874..be7895b 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,3 +1,4 @@
+#include <format>
 #include <numeric>
 #include <regex>
 
@@ -147,8 +148,10 @@ std::string rational::latex(bool first) const {
 }
 
 std::string rational::compile(const std::string &format) const {
-  return std::to_string(static_cast<double>(numerator_) /
-                        static_cast<double>(denominator_));
+  const double value = to_double();
+  const std::string s = std::to_string(value);
+  // use as many digits as needed to recover the value
+  return std::stod(s) == value ? s : std::format("{:.17g}", value);
 }
 
 rational operator+(rational lhs, const rational &rhs) {
-- 
2.43.0


From c9c9bd511de0de5cb74b0405b5b5482431a4d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 10/26] fix: Expression::reindex discarded the relabeled terms

---
 wicked/algebra/expression.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..ad0af2a 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -80,6 +80,7 @@ Expression &Expression::reindex(index_map_t &idx_map) {
     term.reindex(idx_map);
     add_to_map(reindexed_terms, term, kv.second);
   }
+  terms_ = reindexed_terms;
   return *this;
 }
 
-- 
2.43.0


From de34f9f948f8d2e6e95ca0400cf722e2b6f17bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 11/26] fix: sums lost or kept wrong terms

operator+ returned a reference to a local, scaling by zero kept terms with
coefficient zero, and e -= e, p *= p read elements that had been erased or moved.
---
 wicked/algebra/symbolic_term.cc |  4 +++-
 wicked/helpers/algebra.hpp      | 11 ++++++++++-
 wicked/helpers/product.hpp      |  7 ++++---
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index a18b1d9..ed987cd 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -69,7 +69,9 @@ SymbolicTerm SymbolicTerm::adjoint() const {
 
 SymbolicTerm &SymbolicTerm::operator*=(const SymbolicTerm &rhs) {
   const auto [ops, normal_ordered] = operator_product(*this, rhs);
-  for (const auto &tensor : rhs.tensors_) {
+  // copy the tensors, since rhs can be *this
+  const std::vector<Tensor> rhs_tensors = rhs.tensors_;
+  for (const auto &tensor : rhs_tensors) {
     add(tensor);
   }
   operators_ = ops;
diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..df6c553 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -71,7 +71,7 @@ public:
 
   /// @brief Addition operator
   /// @param rhs the term to add
-  Derived &operator+(const Algebra &rhs) {
+  Derived operator+(const Algebra &rhs) const {
     Derived result;
     for (const auto &[e, c] : terms()) {
       result.add(e, c);
@@ -102,6 +102,11 @@ public:
   /// @brief Subtraction assignment operator
   /// @param rhs the term to subtract
   Algebra &operator-=(const Algebra &rhs) {
+    if (this == &rhs) {
+      // adding would erase the terms while they are visited
+      terms_.clear();
+      return *this;
+    }
     for (const auto &[e, c] : rhs.terms()) {
       add(e, -c);
     }
@@ -124,6 +129,10 @@ public:
   /// @brief Scalar multiplication assignment operator
   /// @param rhs the scalar to multiply by
   Algebra &operator*=(scalar_t factor) {
+    if (factor == scalar_t(0, 1)) {
+      terms_.clear();
+      return *this;
+    }
     for (auto &[e, c] : terms()) {
       c *= factor;
     }
diff --git a/wicked/helpers/product.hpp b/wicked/helpers/product.hpp
index 242de89..d797db4 100644
--- a/wicked/helpers/product.hpp
+++ b/wicked/helpers/product.hpp
@@ -56,9 +56,10 @@ public:
   /// @brief Multiplication assignment operator
   /// @param rhs the term to multiply by
   Product &operator*=(const Product &rhs) {
-    // Add the elements of the second product
-    elements_.insert(elements_.end(), rhs.elements_.begin(),
-                     rhs.elements_.end());
+    // Add the elements of the second product (a copy, since rhs can be *this)
+    const prod_t rhs_elements = rhs.elements_;
+    elements_.insert(elements_.end(), rhs_elements.begin(),
+                     rhs_elements.end());
     return *this;
   }
 
-- 
2.43.0


From d7d6be75578468e7cddf6a9833585f54b22ce25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 12/26] fix: exchanging bosonic operators in an operator
 product changed its sign

---
 wicked/diagrams/operator_product.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/operator_product.cc b/wicked/diagrams/operator_product.cc
index a8a603e..0a9384d 100644
--- a/wicked/diagrams/operator_product.cc
+++ b/wicked/diagrams/operator_product.cc
@@ -1,3 +1,5 @@
+#include "helpers/orbital_space.h"
+
 #include "operator_product.h"
 
 using namespace std;
@@ -10,6 +12,19 @@ int OperatorProduct::num_ops() const {
   return r;
 }
 
+namespace {
+/// Return the number of fermionic creation and annihilation operators
+int num_fermionic_ops(const Operator &op) {
+  int r = 0;
+  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
+    if (orbital_subspaces->field_type(s) == FieldType::Fermion) {
+      r += op.cre(s) + op.ann(s);
+    }
+  }
+  return r;
+}
+} // namespace
+
 scalar_t OperatorProduct::canonicalize() {
   int nperm = 0;
   int n = elements_.size();
@@ -17,7 +32,9 @@ scalar_t OperatorProduct::canonicalize() {
     // Last i elements are already in place
     for (int j = 0; j < n - i - 1; j++) {
       if (operator_noncommuting_less(elements_[j + 1], elements_[j])) {
-        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();
+        // only the exchange of fermionic operators changes the sign
+        nperm += num_fermionic_ops(elements_[j]) *
+                 num_fermionic_ops(elements_[j + 1]);
         swap(elements_[j], elements_[j + 1]);
       }
     }
-- 
2.43.0


From 785f4274ecec3c993d63bbf035083992fcddd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:06 +0000
Subject: [PATCH 13/26] fix: terms that differ only in the normal-ordering mark
 were identified

---
 wicked/algebra/symbolic_term.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index ed987cd..100135e 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -380,11 +380,19 @@ bool SymbolicTerm::operator<(const SymbolicTerm &other) const {
   if (tensors_ < other.tensors_) {
     return true;
   }
-  return operators_ < other.operators_;
+  if (other.operators_ < operators_) {
+    return false;
+  }
+  if (operators_ < other.operators_) {
+    return true;
+  }
+  // normal ordering only distinguishes terms that contain operators
+  return (nops() > 0) and (not normal_ordered_) and other.normal_ordered_;
 }
 
 bool SymbolicTerm::operator==(const SymbolicTerm &other) const {
-  return (tensors_ == other.tensors_) and (operators_ == other.operators_);
+  return (tensors_ == other.tensors_) and (operators_ == other.operators_) and
+         ((nops() == 0) or (normal_ordered_ == other.normal_ordered_));
 }
 
 std::string SymbolicTerm::str() const {
-- 
2.43.0


From 6b574e5926905e578eda8da894690b65c4285323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 14/26] fix: a one-digit coefficient was printed as part of the
 tensor label

---
 wicked/algebra/expression.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index ad0af2a..4cbb6fe 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -105,7 +105,8 @@ std::string Expression::str() const {
       }
       // rational(1,1).str() returns "", so we need to handle the case of
       // a pure scalar term with no operator
-      if ((factor_str.size() > 1) and (factor_str != "-")) {
+      if ((factor_str.size() > 0) and (factor_str != "+") and
+          (factor_str != "-")) {
         factor_str += " ";
       }
     } else {
-- 
2.43.0


From a541eb6ac7dda79561d91bab7efa5885158a82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 15/26] fix: normal-ordered bosonic operators were read without
 their normal ordering

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 4cbb6fe..0bee43f 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -263,7 +263,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
     tensor_re = std::regex(R"(([a-zA-Z0-9]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
+    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
-- 
2.43.0


From 1b4ea4cec81f318b3eea0d8b76157ff072d69ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 16/26] fix: equations with operators or too many indices were
 compiled into wrong code

einsum: operators on the right-hand side were dropped, a left-hand side
without tensors was read out of bounds, and a contraction with more than
52 distinct indices took letters from an empty list. ambit: the error was
thrown as a character string.
---
 wicked/algebra/equation.cc      | 11 +++++++++++
 wicked/algebra/symbolic_term.cc |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 24fce3e..39656c9 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -56,6 +56,10 @@ std::string get_unique_index(const std::string &s,
   // is this index (something like "i" or "o2") in the map? If not, figure out
   // what it corresponds to.
   if (index_map.count(s) == 0) {
+    if (unused_indices.empty()) {
+      throw std::runtime_error("Equation::compile() - too many distinct "
+                               "indices for einsum.");
+    }
     // a character
     if (s.size() == 1) {
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
@@ -100,6 +104,13 @@ std::string Equation::compile(const std::string &format) const {
   }
 
   if (format == "einsum") {
+    if ((lhs().tensors().size() != 1) or (lhs().nops() > 0) or
+        (rhs().nops() > 0)) {
+      throw std::runtime_error(
+          "Equation::compile() - einsum code can be generated only for "
+          "equations with one tensor on the left-hand side and without "
+          "operators.");
+    }
     std::vector<std::string> str_vec;
     const auto &lhs_tensor = lhs().tensors()[0];
 
diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 100135e..c206f14 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -454,8 +454,8 @@ std::string SymbolicTerm::compile(const std::string &format) const {
       str_vec.push_back(tensor.compile(format));
     }
     if (nops()) {
-      throw "Trying to convert an SymbolicTerm object with operator terms to "
-            "ambit.";
+      throw std::runtime_error("Trying to convert an SymbolicTerm object with "
+                               "operator terms to ambit.");
     }
     return (join(str_vec, " * "));
   }
-- 
2.43.0


From bb3f58e06cc52a9618906b64d1df79d1114d4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:27 +0000
Subject: [PATCH 17/26] fix: einsum gave one letter to two indices whose
 printed names agree

---
 wicked/algebra/equation.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 39656c9..e244f43 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -50,12 +50,14 @@ get_unique_tensor_indices(const Tensor &t,
                           std::map<std::string, std::string> &index_map,
                           std::vector<char> &unused_indices);
 
-std::string get_unique_index(const std::string &s,
-                             std::map<std::string, std::string> &index_map,
+std::string get_unique_index(const Index &index,
+                             std::map<Index, std::string> &index_map,
                              std::vector<std::string> &unused_indices) {
-  // is this index (something like "i" or "o2") in the map? If not, figure out
-  // what it corresponds to.
-  if (index_map.count(s) == 0) {
+  // is this index in the map? If not, figure out what it corresponds to.
+  // The name of the index (something like "i" or "o_{7}") is only a suggestion:
+  // the name of an index can look like that of another index.
+  if (index_map.count(index) == 0) {
+    const std::string s = index.latex();
     if (unused_indices.empty()) {
       throw std::runtime_error("Equation::compile() - too many distinct "
                                "indices for einsum.");
@@ -65,32 +67,33 @@ std::string get_unique_index(const std::string &s,
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
           unused_indices.end()) {
         // if this character is unused, use it
-        index_map[s] = s;
+        index_map[index] = s;
       } else {
         // if it is used, grab the first available index
-        index_map[s] = unused_indices.back();
+        index_map[index] = unused_indices.back();
       }
     } else {
-      index_map[s] = unused_indices.back();
+      index_map[index] = unused_indices.back();
     }
     // erase this character from the available characters to avoid reusing
     unused_indices.erase(
-        std::remove(unused_indices.begin(), unused_indices.end(), index_map[s]),
+        std::remove(unused_indices.begin(), unused_indices.end(),
+                    index_map[index]),
         unused_indices.end());
   }
-  return index_map[s];
+  return index_map[index];
 }
 
 std::string
 get_unique_tensor_indices(const Tensor &t,
-                          std::map<std::string, std::string> &index_map,
+                          std::map<Index, std::string> &index_map,
                           std::vector<std::string> &unused_indices) {
   std::string indices;
   for (const auto &l : t.upper()) {
-    indices += get_unique_index(l.latex(), index_map, unused_indices);
+    indices += get_unique_index(l, index_map, unused_indices);
   }
   for (const auto &l : t.lower()) {
-    indices += get_unique_index(l.latex(), index_map, unused_indices);
+    indices += get_unique_index(l, index_map, unused_indices);
   }
   return indices;
 }
@@ -131,7 +134,7 @@ std::string Equation::compile(const std::string &format) const {
     str_vec.push_back(lhs_tensor_label + " += " + factor_str +
                       " * np.einsum(");
 
-    std::map<std::string, std::string> index_map;
+    std::map<Index, std::string> index_map;
     std::vector<std::string> unused_indices = {
         "Z", "Y", "X", "W", "V", "U", "T", "S", "R", "Q", "P", "O", "N",
         "M", "L", "K", "J", "I", "H", "G", "F", "E", "D", "C", "B", "A",
-- 
2.43.0


From 52237ed6f5c8185fe971ac512e7e39f0d9f90d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:41 +0000
Subject: [PATCH 18/26] fix: a rejected add_space left a partially registered
 space behind

---
 wicked/helpers/orbital_space.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..05f1d1f 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <set>
 
 #include "helpers.h"
 #include "orbital_space.h"
@@ -81,21 +82,25 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
                              "\" is already defined. Use another label.");
   }
 
-  size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+  // check all the arguments before changing the state of this object
+  std::set<std::string> new_indices;
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (indices_to_pos_.count(index) or not new_indices.insert(index).second) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
-    } else {
-      indices_to_pos_[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
     elementary_spaces_int.push_back(label_to_space(e));
   }
+
+  size_t pos = space_info_.size();
+  label_to_pos_[label] = pos;
+  for (auto &index : indices) {
+    indices_to_pos_[index] = pos;
+  }
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
 }
-- 
2.43.0


From 40411b55cfacfad3aa792912b8710da59fa103bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 19/26] fix: more orbital spaces than the diagram code can
 store were accepted

---
 wicked/diagrams/graph_matrix.h  | 5 +++--
 wicked/helpers/orbital_space.cc | 6 ++++++
 wicked/helpers/orbital_space.h  | 3 +++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/graph_matrix.h b/wicked/diagrams/graph_matrix.h
index 613ffa5..af1b635 100644
--- a/wicked/diagrams/graph_matrix.h
+++ b/wicked/diagrams/graph_matrix.h
@@ -4,6 +4,7 @@
 #include <string>
 #include <vector>
 
+#include "../helpers/orbital_space.h"
 #include "../wicked-def.h"
 
 /// A class to keep track of creation and annilation operators,
@@ -11,9 +12,9 @@
 /// This object stores a vector of pairs of number for each space
 class GraphMatrix {
   // Here we use an optimized way to store the graph matrix
-  // We assume that we work at most with 8 different spaces, which
+  // We assume that we work at most with max_orbital_spaces spaces, which
   // should be enough for virtually any type of application
-  static constexpr int max_spaces_ = 8;
+  static constexpr int max_spaces_ = max_orbital_spaces;
   using graph_matrix_t = std::array<std::pair<int, int>, max_spaces_>;
 
 public:
diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 05f1d1f..3abc61f 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -82,6 +82,12 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
                              "\" is already defined. Use another label.");
   }
 
+  // the diagram code stores operator counts in arrays of this size
+  if (space_info_.size() >= max_orbital_spaces) {
+    throw std::runtime_error("add_space: Cannot define more than " +
+                             std::to_string(max_orbital_spaces) +
+                             " orbital spaces.");
+  }
   // check all the arguments before changing the state of this object
   std::set<std::string> new_indices;
   for (auto &index : indices) {
diff --git a/wicked/helpers/orbital_space.h b/wicked/helpers/orbital_space.h
index 35e9bdc..d5624ed 100644
--- a/wicked/helpers/orbital_space.h
+++ b/wicked/helpers/orbital_space.h
@@ -5,6 +5,9 @@
 #include <string>
 #include <vector>
 
+/// The largest number of orbital spaces that can be defined
+inline constexpr int max_orbital_spaces = 8;
+
 /// Type of orbital space
 enum class SpaceType {
   // Single creation/annihilation contractions that yields a Kronecker delta
-- 
2.43.0


From e161ebc61d671d3289101347e747a1d82e6a82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 20/26] fix: operator_expr ignored its coefficient

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 0bee43f..b952d0b 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -243,7 +243,7 @@ Expression make_operator_expr(const std::string &label,
     std::reverse(std::begin(ann), std::end(ann));
     Tensor tensor(label, cre, ann, symmetry);
     term.add(tensor);
-    result.add(term);
+    result.add(term, term.coefficient());
   }
   return result;
 }
-- 
2.43.0


From 71fd1c4334b4bf92ce83f34e3403369c59d115d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:38 +0000
Subject: [PATCH 21/26] fix: gen_op kept diagonal components of rank two and
 higher

---
 wicked/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index b60b9ac..15f216a 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -45,7 +45,8 @@ def gen_op(label, rank, cre_spaces, ann_spaces, diagonal=True):
                 is_re_sorted = all(m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 1))
                 if is_re_sorted:
                     if not diagonal:
-                        if le != re:
+                        # le and re are sorted in opposite order
+                        if le != re[::-1]:
                             terms.append(
                                 " ".join([s + "+" for s in le]) + " " + " ".join(re)
                             )
-- 
2.43.0


From 95ec3eae3e5a889666c16906d30f6b66fcc0242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:38 +0000
Subject: [PATCH 22/26] fix: compile_einsum failed for equations with indices
 on the left-hand side

---
 wicked/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index 15f216a..7dc8b5a 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -95,9 +95,9 @@ def compile_einsum(equation):
     tensor_label_string += "optimize='optimal')"
 
     if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []): # If the lhs is not a scalar
-        left = rhs.tensors()[0].label()
+        left = lhs.tensors()[0].label()
         left += ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].upper()]) + ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].lower()])
-        res_indx = _get_unique_tensor_indices(rhs.tensors(), unused_indices, index_dict)
+        res_indx = _get_unique_tensor_indices(lhs.tensors()[0], unused_indices, index_dict)
         index_string += res_indx
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
-- 
2.43.0


From 53f5d3eae6550c945b87724a613b25c11a8a2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:38 +0000
Subject: [PATCH 23/26] fix: compile_einsum rounded the factor to eight decimal
 places

---
 wicked/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index 7dc8b5a..0e5912d 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -102,9 +102,14 @@ def compile_einsum(equation):
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
 
+    # use as many digits as needed to recover the factor
+    factor_string = f"{float(factor):+.8f}"
+    if float(factor_string) != float(factor):
+        factor_string = f"{float(factor):+.17g}"
+
     einsum_string = left \
         + ' ' \
-        + f"+= {float(factor):+.8f} * np.einsum('"\
+        + f"+= {factor_string} * np.einsum('"\
         + index_string \
         + "', " \
         + tensor_label_string
-- 
2.43.0


From efaa69b1d45fe26bd00bdb462ae864a0a543cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 24/26] fix: a blank string was read as the term 1

---
 wicked/algebra/expression.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index b952d0b..3b428d0 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -253,9 +253,9 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
   TensorSyntax syntax = TensorSyntax::Wicked;
   Expression sum;
 
-  // if we have an empty string, do not parse it (the code below would interpret
-  // it as the term 1)
-  if (s.size() == 0)
+  // if we have an empty (or blank) string, do not parse it (the code below would
+  // interpret it as the term 1)
+  if (s.find_first_not_of(" \t\n\v\f\r") == std::string::npos)
     return sum;
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
-- 
2.43.0


From b36755a1b2572fc1da8a7cd0aa1a381714f81691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 25/26] fix: factorials of thirteen and more were truncated to
 int when converted to rational

---
 wicked/helpers/rational.cc | 7 +++++++
 wicked/helpers/rational.h  | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index be7895b..db92ca4 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -20,6 +20,13 @@ rational::rational(rational_t numerator) {
   denominator_ = 1;
 }
 
+#if USE_BOOST_1024_INT
+rational::rational(long long int numerator) {
+  numerator_ = numerator;
+  denominator_ = 1;
+}
+#endif
+
 rational::rational(rational_t numerator, rational_t denominator) {
   // enforce a positive denominator
   numerator_ = denominator < 0 ? -numerator : numerator;
diff --git a/wicked/helpers/rational.h b/wicked/helpers/rational.h
index 4141b1b..0b1f093 100644
--- a/wicked/helpers/rational.h
+++ b/wicked/helpers/rational.h
@@ -27,6 +27,11 @@ public:
   rational(rational_t numerator);
   /// initialize with integer (numerator)
   rational(int numerator);
+#if USE_BOOST_1024_INT
+  /// initialize with integer (numerator). Without this constructor a long long
+  /// int would be converted to int
+  rational(long long int numerator);
+#endif
   /// return the numerator
   rational_t numerator() const;
   /// return the denominator
-- 
2.43.0


From 198c77444c5eac7f00654ba4174030a870840d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:05 +0000
Subject: [PATCH 26/26] fix: the symmetry factor of thirteen and more indices
 overflowed

---
 wicked/algebra/index.cc  | 4 ++--
 wicked/algebra/index.h   | 2 +-
 wicked/algebra/tensor.cc | 2 +-
 wicked/algebra/tensor.h  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 5b1f31e..4531dee 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -111,8 +111,8 @@ std::vector<int> num_indices_per_space(const std::vector<Index> &indices) {
   return counter;
 }
 
-int symmetry_factor(const std::vector<Index> &indices) {
-  int result = 1;
+long long int symmetry_factor(const std::vector<Index> &indices) {
+  long long int result = 1;
   std::vector<int> idx_per_space = num_indices_per_space(indices);
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
     result *= factorial(idx_per_space[s]);
diff --git a/wicked/algebra/index.h b/wicked/algebra/index.h
index 0e339f8..0ee6e9d 100644
--- a/wicked/algebra/index.h
+++ b/wicked/algebra/index.h
@@ -91,4 +91,4 @@ std::vector<int> num_indices_per_space(const std::vector<Index> &indices);
 /// Return the symmetry factor of a product of indices
 /// This is the product n1! x n2! x n3! x ... where ni is the number of
 /// indices that belong to orbital space i
-int symmetry_factor(const std::vector<Index> &indices);
+long long int symmetry_factor(const std::vector<Index> &indices);
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 29f83f9..cc40aed 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -24,7 +24,7 @@ std::vector<std::pair<int, int>> Tensor::signature() const {
   return result;
 }
 
-int Tensor::symmetry_factor() const {
+long long int Tensor::symmetry_factor() const {
   return ::symmetry_factor(upper_) * ::symmetry_factor(lower_);
 }
 
diff --git a/wicked/algebra/tensor.h b/wicked/algebra/tensor.h
index b807633..e8158e4 100644
--- a/wicked/algebra/tensor.h
+++ b/wicked/algebra/tensor.h
@@ -62,7 +62,7 @@ public:
   std::vector<std::pair<int, int>> signature() const;
 
   /// Return the symmetry factor of this tensor
-  int symmetry_factor() const;
+  long long int symmetry_factor() const;
 
   /// Comparison operator used for sorting
   bool operator<(Tensor const &other) const;
-- 
2.43.0

