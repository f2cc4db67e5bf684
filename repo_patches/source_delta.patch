From 988b3466245f59d43cd5b5e7d41e0ca205d5623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 01/21] fix: propagate non_differentiable_behavior when
 differentiating a substitution

---
 components/core/wf/derivative.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/derivative.cc b/components/core/wf/derivative.cc
index 7634587..d414293 100644
--- a/components/core/wf/derivative.cc
+++ b/components/core/wf/derivative.cc
@@ -296,8 +296,8 @@ scalar_expr derivative_visitor::operator()(const substitution& sub,
       replacement_diff * std::invoke([&] {
         if (sub.target().is_type<variable, unique_variable, function_argument_variable>()) {
           // The target is itself a variable, so create: sub(f(y).diff(y), y, g(x))
-          return substitution::create(sub.input().diff(sub.target()), sub.target(),
-                                      sub.replacement());
+          return substitution::create(sub.input().diff(sub.target(), 1, non_diff_behavior_),
+                                      sub.target(), sub.replacement());
         } else if (sub.replacement()
                        .is_type<variable, unique_variable, function_argument_variable>()) {
           // We don't need to introduce another variable, just take the derivative:
-- 
2.43.0


From 2842d4a01e2892b68334289285757be493702d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 02/21] fix: derivative of a substitution counted the input
 derivative twice

---
 components/core/wf/derivative.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/derivative.cc b/components/core/wf/derivative.cc
index d414293..5b8ade4 100644
--- a/components/core/wf/derivative.cc
+++ b/components/core/wf/derivative.cc
@@ -298,11 +298,14 @@ scalar_expr derivative_visitor::operator()(const substitution& sub,
           // The target is itself a variable, so create: sub(f(y).diff(y), y, g(x))
           return substitution::create(sub.input().diff(sub.target(), 1, non_diff_behavior_),
                                       sub.target(), sub.replacement());
-        } else if (sub.replacement()
+        } else if (is_zero(input_diff) &&
+                   sub.replacement()
                        .is_type<variable, unique_variable, function_argument_variable>()) {
           // We don't need to introduce another variable, just take the derivative:
           // d[sub(f(y), y, z)]/dz --> diff(sub(f(y), y, z), z) * dz/dx
           // Either dz/dx (replacement_diff) will be one or zero.
+          // This is a total derivative, so it is only usable if the input is not itself a function
+          // of z (otherwise we would count the contribution of `input_diff` twice).
           return derivative::create(sub_abstract, sub.replacement(), 1);
         } else {
           // The target and substitution are both functions.
-- 
2.43.0


From 4f68e056df61091c9370f59cf10f477fe2ead696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 03/21] fix: is_function_of ignored children of nodes with the
 same type as the target

---
 components/core/wf/utility_visitors.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/components/core/wf/utility_visitors.cc b/components/core/wf/utility_visitors.cc
index 538beec..e004610 100644
--- a/components/core/wf/utility_visitors.cc
+++ b/components/core/wf/utility_visitors.cc
@@ -99,12 +99,18 @@ bool is_function_of_visitor<T>::operator()(const U& x) const {
     return visit(x, *this);
   } else if constexpr (std::is_same_v<U, any_expression>) {
     return std::visit(*this, x);
-  } else if constexpr (std::is_same_v<U, T>) {
-    return are_identical(target_, x);
-  } else if constexpr (!U::is_leaf_node) {
-    return any_of(x.children(), *this);
   } else {
-    return false;
+    if constexpr (std::is_same_v<U, T>) {
+      if (are_identical(target_, x)) {
+        return true;
+      }
+    }
+    // Even if `x` has the same type as the target, one of its children may match.
+    if constexpr (!U::is_leaf_node) {
+      return any_of(x.children(), *this);
+    } else {
+      return false;
+    }
   }
 }
 
-- 
2.43.0


From 28b0ac6fb1f1ed21aa16a8ce1a5e2144a7561d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:10 +0000
Subject: [PATCH 04/21] fix: parenthesise ternaries nested under arithmetic and
 comparison operators

---
 components/core/wf/code_generation/ast_conversion.cc | 10 +++++-----
 components/core/wf/enumerations.h                    |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 3a2df5b..01aa2fa 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -415,8 +415,8 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::ca
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::compare& compare) {
   return ast::ast_element{std::in_place_type_t<ast::compare>{}, compare.operation(),
-                          visit_operation_argument(val[0], std::nullopt),
-                          visit_operation_argument(val[1], std::nullopt)};
+                          visit_operation_argument(val[0], precedence::relational),
+                          visit_operation_argument(val[1], precedence::relational)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
@@ -428,9 +428,9 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val,
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::cond&) {
   return ast::ast_element{std::in_place_type_t<ast::ternary>{},
-                          visit_operation_argument(val[0], precedence::ternary),
-                          visit_operation_argument(val[1], precedence::ternary),
-                          visit_operation_argument(val[2], precedence::ternary)};
+                          visit_operation_argument(val[0], precedence::multiplication),
+                          visit_operation_argument(val[1], precedence::multiplication),
+                          visit_operation_argument(val[2], precedence::multiplication)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::copy&) {
diff --git a/components/core/wf/enumerations.h b/components/core/wf/enumerations.h
index 115e5b0..f1ffdf4 100644
--- a/components/core/wf/enumerations.h
+++ b/components/core/wf/enumerations.h
@@ -13,11 +13,11 @@ using index_t = int;
 
 // Mathematical precedence of operators.
 enum class precedence : int {
-  relational = 0,
+  ternary = 0,
+  relational,
   addition,
   multiplication,
   power,
-  ternary,
   none = std::numeric_limits<int>::max(),
 };
 
-- 
2.43.0


From 329fc7eacce1ca402595847a262cd4fa2dade3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 05/21] fix: parenthesise signum when it is an operand in
 generated code

---
 components/core/wf/code_generation/ir_value.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/core/wf/code_generation/ir_value.cc b/components/core/wf/code_generation/ir_value.cc
index 993a3d2..ce00c28 100644
--- a/components/core/wf/code_generation/ir_value.cc
+++ b/components/core/wf/code_generation/ir_value.cc
@@ -36,6 +36,10 @@ precedence value::operation_precedence() const {
       [](const ir::mul&) constexpr { return precedence::multiplication; },
       [](const ir::div&) constexpr { return precedence::multiplication; },
       [](const ir::cond&) constexpr { return precedence::ternary; },
+      [](const ir::call_std_function& func) constexpr {
+        // `signum` is emitted as a difference of two comparisons in C++ and Rust.
+        return func.name() == std_math_function::signum ? precedence::addition : precedence::none;
+      },
       [](const auto&) constexpr { return precedence::none; });
 }
 
-- 
2.43.0


From d4a52a6e7b4766576dec079a6846a6baa7d2fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 06/21] fix: parenthesise boolean casts under negation

---
 components/core/wf/code_generation/ast_conversion.cc | 2 +-
 components/core/wf/code_generation/ir_value.cc       | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 01aa2fa..04ac439 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -515,7 +515,7 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::mu
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::neg&) {
   return ast::ast_element{std::in_place_type_t<ast::negate>{},
-                          visit_operation_argument(val[0], precedence::multiplication)};
+                          visit_operation_argument(val[0], precedence::power)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const scalar_type&, const argument& arg,
diff --git a/components/core/wf/code_generation/ir_value.cc b/components/core/wf/code_generation/ir_value.cc
index ce00c28..2422b8b 100644
--- a/components/core/wf/code_generation/ir_value.cc
+++ b/components/core/wf/code_generation/ir_value.cc
@@ -40,6 +40,12 @@ precedence value::operation_precedence() const {
         // `signum` is emitted as a difference of two comparisons in C++ and Rust.
         return func.name() == std_math_function::signum ? precedence::addition : precedence::none;
       },
+      [this](const ir::cast&) {
+        // In Rust `-(x) as i64` negates `x`, which is invalid when `x` is boolean.
+        return operands_.front()->numeric_type() == numeric_primitive_type::boolean
+                   ? precedence::power
+                   : precedence::none;
+      },
       [](const auto&) constexpr { return precedence::none; });
 }
 
-- 
2.43.0


From d3489a18b274f50fdfdc54f982fca24e4fd56c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 07/21] fix: use torch.pow in generated PyTorch code (torch has
 no power)

---
 .../core/wf/code_generation/python_code_generator.cc       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index cead274..171f28f 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -359,7 +359,7 @@ std::string python_code_generator::operator()(const ast::call_external_function&
 }
 
 constexpr static std::string_view python_string_from_std_math_function(
-    const std_math_function function) {
+    const std_math_function function, const python_generator_target target) {
   switch (function) {
     case std_math_function::cos:
     case std_math_function::sin:
@@ -400,7 +400,8 @@ constexpr static std::string_view python_string_from_std_math_function(
     }
     case std_math_function::powi:
     case std_math_function::powf: {
-      return "power";
+      // torch does not have `power`.
+      return target == python_generator_target::pytorch ? "pow" : "power";
     }
   }
   WF_ASSERT_ALWAYS("Unhandled standard math function: {}",
@@ -409,7 +410,7 @@ constexpr static std::string_view python_string_from_std_math_function(
 
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
-                     python_string_from_std_math_function(x.function),
+                     python_string_from_std_math_function(x.function, target_),
                      fmt::join(x.args | std::views::transform(*this), ", "));
 }
 
-- 
2.43.0


From a45ac3aeddb61b592f386ec66192d15156e862a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:46 +0000
Subject: [PATCH 08/21] fix: parenthesise negated operands of negation and
 ternary arguments of signum

---
 .../core/wf/code_generation/ast_conversion.cc     |  6 +++++-
 components/core/wf/code_generation/ir_value.cc    | 15 +++++++++++++++
 .../wf/code_generation/rust_code_generator.cc     | 12 +++++++++---
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 04ac439..7d14041 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -404,8 +404,12 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val,
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
                                               const ir::call_std_function& func) {
+  // `signum` may be emitted as a comparison of its argument with zero.
+  const std::optional<precedence> argument_precedence =
+      func.name() == std_math_function::signum ? std::make_optional(precedence::relational)
+                                               : std::nullopt;
   return ast::ast_element{std::in_place_type_t<ast::call_std_function>{}, func.name(),
-                          transform_operands(val, std::nullopt)};
+                          transform_operands(val, argument_precedence)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::cast& cast) {
diff --git a/components/core/wf/code_generation/ir_value.cc b/components/core/wf/code_generation/ir_value.cc
index 2422b8b..2778b8a 100644
--- a/components/core/wf/code_generation/ir_value.cc
+++ b/components/core/wf/code_generation/ir_value.cc
@@ -36,6 +36,21 @@ precedence value::operation_precedence() const {
       [](const ir::mul&) constexpr { return precedence::multiplication; },
       [](const ir::div&) constexpr { return precedence::multiplication; },
       [](const ir::cond&) constexpr { return precedence::ternary; },
+      // `--x` would be a decrement in C++.
+      [](const ir::neg&) constexpr { return precedence::power; },
+      [](const ir::load& load) {
+        return std::visit(
+            []<typename T>(const T& contents) {
+              if constexpr (std::is_same_v<T, integer_constant> ||
+                            std::is_same_v<T, float_constant> ||
+                            std::is_same_v<T, rational_constant>) {
+                return contents.is_negative() ? precedence::power : precedence::none;
+              } else {
+                return precedence::none;
+              }
+            },
+            load.variant());
+      },
       [](const ir::call_std_function& func) constexpr {
         // `signum` is emitted as a difference of two comparisons in C++ and Rust.
         return func.name() == std_math_function::signum ? precedence::addition : precedence::none;
diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 88e30c1..f4497f3 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -235,9 +235,15 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
                          string_from_standard_library_function(x.function));
     case std_math_function::log:
       return fmt::format("({}).ln()", make_view(x[0]));
-    case std_math_function::signum:
-      return fmt::format("(0.0f64 < {arg}) as i64 - ({arg} < 0.0f64) as i64",
-                         fmt::arg("arg", make_view(x[0])));
+    case std_math_function::signum: {
+      // A comparison `<` that follows a cast would be parsed as a list of generic arguments.
+      const bool ends_with_cast =
+          x[0].is_type<ast::call_external_function, ast::call_std_function, ast::cast>();
+      return fmt::format("(0.0f64 < {arg}) as i64 - ({open}{arg}{close} < 0.0f64) as i64",
+                         fmt::arg("arg", make_view(x[0])),
+                         fmt::arg("open", ends_with_cast ? "(" : ""),
+                         fmt::arg("close", ends_with_cast ? ")" : ""));
+    }
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
     case std_math_function::atan2:
-- 
2.43.0


From 3e28abd75ac259f0589756fd2d2b5832a12817ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 09/21] fix: cast arguments of real-valued functions to
 floating point

---
 components/core/wf/code_generation/ir_form_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/core/wf/code_generation/ir_form_visitor.cc b/components/core/wf/code_generation/ir_form_visitor.cc
index 3bd44bc..de47887 100644
--- a/components/core/wf/code_generation/ir_form_visitor.cc
+++ b/components/core/wf/code_generation/ir_form_visitor.cc
@@ -202,6 +202,13 @@ ir::value_ptr ir_form_visitor::operator()(const built_in_function_invocation& fu
   // Convert args to values:
   auto args = transform_map<absl::InlinedVector<ir::value_ptr, 4>>(func, *this);
 
+  // All functions except `abs` operate on floating point values.
+  if (enum_value != std_math_function::abs) {
+    for (auto& arg : args) {
+      arg = maybe_cast(arg, numeric_primitive_type::floating_point);
+    }
+  }
+
   const numeric_primitive_type numeric_type = std_function_output_type(enum_value, args);
   return push_operation(ir::call_std_function{enum_value}, numeric_type, args);
 }
-- 
2.43.0


From ca6be9250572a129ef8a3b672d6fcb029013b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 10/21] fix: integer powers in generated Rust did not type
 check

---
 components/core/wf/code_generation/rust_code_generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index f4497f3..0b0e9d8 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -246,8 +246,10 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
     }
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
-    case std_math_function::atan2:
     case std_math_function::powi:
+      // `f64::powi` only accepts i32, and our integers are i64.
+      return fmt::format("({}).powf(({}) as f64)", make_view(x[0]), make_view(x[1]));
+    case std_math_function::atan2:
     case std_math_function::powf:
       return fmt::format("({}).{}({})", make_view(x[0]),
                          string_from_standard_library_function(x.function), make_view(x[1]));
-- 
2.43.0


From 5716811714704b2f941fb0fd160f3bf19c809c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 11/21] fix: do not terminate when a rational cannot be reduced
 to canonical form

create_pair is noexcept but negates and divides checked integers, so
rational(1, -2**63) ended the process instead of raising.
---
 components/core/wf/expressions/numeric_expressions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index adc2ede..258c52f 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -108,7 +108,7 @@ class rational_constant {
 
   // Normalize a rational into a whole integer part, and a rational whose absolute value is less
   // than one.
-  constexpr std::pair<integer_constant, rational_constant> normalized() const noexcept {
+  constexpr std::pair<integer_constant, rational_constant> normalized() const {
     return std::make_pair(integer_constant{n_ / d_}, rational_constant{n_ % d_, d_});
   }
 
@@ -116,8 +116,7 @@ class rational_constant {
   bool is_proper() const noexcept { return abs(n_) < d_; }
 
  private:
-  static constexpr std::pair<value_type, value_type> create_pair(value_type n,
-                                                                 value_type d) noexcept {
+  static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
     // Find the largest common denominator and reduce:
     const auto gcd = std::gcd(n.value(), d.value());
     n = n / gcd;
-- 
2.43.0


From 88fcfd655009c463fcea8e4bf13c005d64e456e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 12/21] fix: rational_constant::is_proper terminated for the
 smallest numerator

abs() of the smallest integer raises an arithmetic_error, which escaped a
noexcept function, e.g. for pow(pow(x, rational(-2**63, 3)), y).
---
 components/core/wf/expressions/numeric_expressions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 258c52f..5244ab7 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -113,7 +113,7 @@ class rational_constant {
   }
 
   // True if the absolute value of the fraction is less than one.
-  bool is_proper() const noexcept { return abs(n_) < d_; }
+  bool is_proper() const noexcept { return n_ / d_ == 0; }
 
  private:
   static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
-- 
2.43.0


From c2962e6ab50f1ff86eca18021468b356b68610aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 13/21] fix: ordering two large rationals terminated on
 overflow

The cross-multiplication in order_struct<rational_constant> raises an
arithmetic_error out of a noexcept function.
---
 components/core/wf/expressions/numeric_expressions.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 5244ab7..b39e975 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -282,9 +282,13 @@ struct order_struct<rational_constant> {
     if (a.denominator() == b.denominator()) {
       return order_by_comparison(a.numerator(), b.numerator());
     }
-    const auto left = a.numerator() * b.denominator();
-    const auto right = b.numerator() * a.denominator();
-    return order_by_comparison(left, right);
+    // Multiplying out the fractions could overflow, so compare their rounded values instead, and break
+    // ties with the exact content.
+    const double left = static_cast<double>(a.numerator()) / static_cast<double>(a.denominator());
+    const double right = static_cast<double>(b.numerator()) / static_cast<double>(b.denominator());
+    return order_by(left, right)
+        .and_then_by(a.denominator(), b.denominator())
+        .and_then_by(a.numerator(), b.numerator());
   }
 };
 
-- 
2.43.0


From 95db2a6b3d34eb2779161450c3101e6112fd3b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 14/21] fix: factorising a large prime overflowed and never
 returned

k * k wraps around once k exceeds the square root of the largest integer, so
for example sqrt(2**63 - 25) did not terminate.
---
 components/core/wf/integer_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/core/wf/integer_utils.h b/components/core/wf/integer_utils.h
index 0581fdf..5e23714 100644
--- a/components/core/wf/integer_utils.h
+++ b/components/core/wf/integer_utils.h
@@ -26,7 +26,7 @@ constexpr int64_t wheel_factorization(const int64_t n_in) noexcept {
   // These are the increments between the first primes: [7, 11, 13, 17, 19, 23, 29, 31]
   constexpr int inc_length = 8;
   constexpr int inc[inc_length] = {4, 2, 4, 2, 4, 6, 2, 6};
-  while (k * k <= n_in) {
+  while (k <= n_in / k) {
     if (n_in % k == 0) {
       return k;
     }
-- 
2.43.0


From 8fcf199b3afae7bccae09d9c78ff8e21ecd2ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 15/21] fix: floor of a float outside the integer range
 produced an arbitrary integer

floor(1e300) evaluated to -9223372036854775808.
---
 components/core/wf/functions.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/core/wf/functions.cc b/components/core/wf/functions.cc
index 23466da..dc0678e 100644
--- a/components/core/wf/functions.cc
+++ b/components/core/wf/functions.cc
@@ -600,6 +600,10 @@ struct floor_visitor {
       return std::nullopt;
     }
     const auto floored = std::floor(f.value());
+    // 2^63, the first value that exceeds the range of an integer constant.
+    if (constexpr double limit = 9223372036854775808.0; floored < -limit || floored >= limit) {
+      return std::nullopt;
+    }
     return scalar_expr{static_cast<std::int64_t>(floored)};
   }
 
-- 
2.43.0


From adca7af7b34aef62fead0b12456c4ad8d39170f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 16/21] fix: negative row/column index combined with a slice
 counts from the end

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 5e87a98..c5be6e4 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -150,7 +150,7 @@ matrix_expr matrix_get_row_and_col_slice(const matrix_expr& self,
 matrix_expr matrix_get_row_index_and_col_slice(
     const matrix_expr& self, const std::tuple<index_t, py::slice>& row_and_col_slice) {
   const auto [row, col_slice] = row_and_col_slice;
-  const index_t wrapped_row = row < 0 ? self.rows() - row : row;
+  const index_t wrapped_row = row < 0 ? self.rows() + row : row;
   const slice col_index{self.cols(), col_slice};
 
   std::vector<scalar_expr> elements;
@@ -165,7 +165,7 @@ matrix_expr matrix_get_row_index_and_col_slice(
 matrix_expr matrix_get_row_slice_and_col_index(
     const matrix_expr& self, const std::tuple<py::slice, index_t>& row_slice_and_col) {
   const auto [row_slice, col] = row_slice_and_col;
-  const index_t wrapped_col = col < 0 ? self.cols() - col : col;
+  const index_t wrapped_col = col < 0 ? self.cols() + col : col;
   const slice row_index{self.rows(), row_slice};
 
   std::vector<scalar_expr> elements;
-- 
2.43.0


From a07646752858fe6003b9269f6e74909e7aa747ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 17/21] fix: building a matrix from empty rows raises instead
 of dividing by zero

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index c5be6e4..3c7af0f 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -219,6 +219,9 @@ inline matrix_expr stack_iterables(const std::vector<py::object>& rows) {
   // Transform the first row to get the # of columns.
   auto it = rows.begin();
   const std::size_t expected_num_cols = extract_iterable_rows(*it, converted);
+  if (expected_num_cols == 0) {
+    throw dimension_error("Cannot construct matrix from rows without any elements.");
+  }
   converted.reserve(rows.size() * expected_num_cols);
 
   // All other elements must match.
-- 
2.43.0


From b344ded0000c1a58a8e9f4e3361a809d487a83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 18/21] fix: get_block with a negative size raises
 dimension_error

---
 components/core/wf/expressions/matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/core/wf/expressions/matrix.cc b/components/core/wf/expressions/matrix.cc
index 7ddbb95..eea7fb0 100644
--- a/components/core/wf/expressions/matrix.cc
+++ b/components/core/wf/expressions/matrix.cc
@@ -21,7 +21,7 @@ matrix::matrix(const index_t rows, const index_t cols, container_type data)
 
 matrix matrix::get_block(const index_t row, const index_t col, const index_t nrows,
                          const index_t ncols) const {
-  if (row < 0 || row + nrows > rows_ || col < 0 || col + ncols > cols_) {
+  if (row < 0 || nrows < 0 || row + nrows > rows_ || col < 0 || ncols < 0 || col + ncols > cols_) {
     throw dimension_error(
         "Block [position: ({}, {}), size: ({}, {})] is out of bounds for matrix of shape ({}, {})",
         row, col, nrows, ncols, rows_, cols_);
-- 
2.43.0


From e68969666a85cbe1b2443aaa434fc7c2cce99054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 19/21] fix: reject read-only buffers passed as output spans
 (value_type is never const)

---
 components/runtime/wrenfold/span.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/components/runtime/wrenfold/span.h b/components/runtime/wrenfold/span.h
index b612c06..6393706 100644
--- a/components/runtime/wrenfold/span.h
+++ b/components/runtime/wrenfold/span.h
@@ -433,8 +433,8 @@ constexpr auto make_output_span(T& output) noexcept(
                 "The provided type does not have an implementation of: convert_to_span<T>");
 
   auto span = detail::span_converter<Dimensions, T>{}.convert(output);
-  static_assert(!std::is_const_v<typename decltype(span)::value_type>,
-                "value_type of output spans may not be const");
+  static_assert(!std::is_const_v<typename decltype(span)::element_type>,
+                "element_type of output spans may not be const");
   return span;
 }
 
@@ -458,8 +458,8 @@ constexpr auto make_optional_output_span(T& output) noexcept(
                 "The provided type does not have an implementation of: convert_to_span<T>");
 
   auto span = detail::span_converter<Dimensions, T>{}.convert(output);
-  static_assert(!std::is_const_v<typename decltype(span)::value_type>,
-                "value_type of output spans may not be const");
+  static_assert(!std::is_const_v<typename decltype(span)::element_type>,
+                "element_type of output spans may not be const");
   return span;
 }
 
-- 
2.43.0


From c7ccff635769e84d8b81f243908765e435a7dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 20/21] fix: check the expected dimensions when a quaternion is
 converted to a span

---
 components/runtime/wrenfold/span.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/runtime/wrenfold/span.h b/components/runtime/wrenfold/span.h
index 6393706..6a1cda6 100644
--- a/components/runtime/wrenfold/span.h
+++ b/components/runtime/wrenfold/span.h
@@ -607,6 +607,10 @@ struct convert_to_span<Dimensions, T, enable_if_inherits_quaternion_base_t<T>> {
   template <typename U>
   constexpr auto convert(U&& q) const noexcept {
     // Quaternion is convertible to 4x1 column vector.
+    static_assert(constant_value_pack_axis_v<0, Dimensions> == 4,
+                  "Number of rows does not match expected dimension");
+    static_assert(constant_value_pack_axis_v<1, Dimensions> == 1,
+                  "Number of columns does not match expected dimension");
     constexpr auto dims = make_constant_value_pack<4, 1>();
     constexpr auto strides = make_constant_value_pack<1, 4>();
     return make_span(q.coeffs().data(), dims, strides);
-- 
2.43.0


From c24b6eeb8fc20b04e727e1d0e3b70b6f1f8b5e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 21/21] fix: format matrix and call arguments through the
 overridable generator

---
 components/core/wf/code_generation/cpp_code_generator.cc | 2 +-
 .../core/wf/code_generation/python_code_generator.cc     | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index dadd09d..2460221 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -307,7 +307,7 @@ std::string cpp_code_generator::operator()(const ast::construct_matrix& x) const
     throw_matrix_error<ast::construct_matrix>();
   } else {
     return fmt::format("(Eigen::Matrix<Scalar, {}, {}>() << {}).finished()", x.type.rows(),
-                       x.type.cols(), fmt::join(x.args | std::views::transform(*this), ", "));
+                       x.type.cols(), join(", ", x.args, *this));
   }
 }
 
diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index 171f28f..ffa8761 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -3,7 +3,6 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/code_generation/python_code_generator.h"
 
-#include <ranges>
 #include <span>
 
 #include "wf/code_generation/ast_formatters.h"
@@ -344,8 +343,7 @@ std::string python_code_generator::operator()(const ast::branch& x) const {
 }
 
 std::string python_code_generator::operator()(const ast::call_external_function& x) const {
-  const std::string result = fmt::format("{}({})", x.function.name(),
-                                         fmt::join(x.args | std::views::transform(*this), ", "));
+  const std::string result = fmt::format("{}({})", x.function.name(), join(", ", x.args, *this));
   if (const matrix_type* mat = std::get_if<matrix_type>(&x.function.return_type());
       mat != nullptr) {
     return fmt::format("{}.asarray({}, dtype={}.{}).reshape({}, {})",
@@ -411,7 +409,7 @@ constexpr static std::string_view python_string_from_std_math_function(
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
                      python_string_from_std_math_function(x.function, target_),
-                     fmt::join(x.args | std::views::transform(*this), ", "));
+                     join(", ", x.args, *this));
 }
 
 std::string python_code_generator::operator()(const ast::cast& x) const {
@@ -430,8 +428,7 @@ std::string python_code_generator::operator()(const ast::compare& x) const {
 
 std::string python_code_generator::operator()(const ast::construct_matrix& x) const {
   return fmt::format("{}([{}]).reshape({}, {})", python_matrix_constructor_from_target(target_),
-                     fmt::join(x.args | std::views::transform(*this), ", "), x.type.rows(),
-                     x.type.cols());
+                     join(", ", x.args, *this), x.type.rows(), x.type.cols());
 }
 
 std::string python_code_generator::operator()(const ast::construct_custom_type& x) const {
-- 
2.43.0

