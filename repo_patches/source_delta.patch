From ca74a083aa50e0d7c1f9956c4f8f2b01a1d5f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 01/17] fix: division by real 1.0 returns the dividend instead
 of the divisor

---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From cddab8b9594cb14410d722fe46bd4dfc5cf620d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 02/17] fix: power of an integer to a product with a negative
 integer factor no longer recurses forever

---
 src/exponential/power.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..8fb76de 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -155,7 +155,8 @@ impl Expression {
                         }
                         if let Some(integer_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Integer(_) => true,
+                                /* a negative factor would just be recreated by the recursion */
+                                Expression::Integer(n) => !n.is_negative(),
                                 _ => false,
                             })
                         {
-- 
2.43.0


From 1f80bb72b8d9db137cab50e491960c566ab3b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 03/17] fix: product of a negative integer beyond the machine
 word with a real no longer panics

---
 src/arithmetics/multiplication.rs | 9 +++++----
 src/symbols/integer.rs            | 6 ++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..cbc0d56 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -59,10 +59,11 @@ impl Expression {
         }
 
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
-            let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
-            integer = Symbol::integer(-1);
+            if let Some(integer_value) = integer.to_real() {
+                let real_value = real.value().unwrap();
+                real = Symbol::real(real_value * -integer_value);
+                integer = Symbol::integer(-1);
+            }
         }
 
         if integer != Symbol::integer(1) {
diff --git a/src/symbols/integer.rs b/src/symbols/integer.rs
index 8d787b1..b7cf58b 100644
--- a/src/symbols/integer.rs
+++ b/src/symbols/integer.rs
@@ -13,6 +13,12 @@ impl Symbol<BigInt> {
     pub fn value(&self) -> Option<isize> {
         num::traits::ToPrimitive::to_isize(&self.data)
     }
+    /**
+     * Nearest finite real number, if there is one
+     */
+    pub fn to_real(&self) -> Option<f64> {
+        num::traits::ToPrimitive::to_f64(&self.data).filter(|value| value.is_finite())
+    }
     pub fn label(&self) -> String {
         format!("{}", self.data)
     }
-- 
2.43.0


From 8a7430c89be9f018403fbe71855947588fb3038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 04/17] fix: power between a real and an integer beyond the
 machine word no longer panics

---
 src/exponential/power.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 8fb76de..b932184 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -132,9 +132,10 @@ impl Expression {
                     }
                     /* Simplification (Integer to Real) */
                     Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
-                        let exp_value: f64 = real_exponent.value().unwrap();
-                        return Symbol::real(base_value.powf(exp_value)).expr();
+                        if let Some(base_value) = integer_base.to_real() {
+                            let exp_value: f64 = real_exponent.value().unwrap();
+                            return Symbol::real(base_value.powf(exp_value)).expr();
+                        }
                     }
                     /* Simplification (Integer to multiplication with Integer or Real) */
                     Expression::Multiplication(exponent_factors) => {
@@ -188,9 +189,10 @@ impl Expression {
                     }
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
-                        let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
-                        return Symbol::real(base_value.powf(exp_value)).expr();
+                        if let Some(exp_value) = integer_exponent.to_real() {
+                            let base_value: f64 = real_base.value().unwrap();
+                            return Symbol::real(base_value.powf(exp_value)).expr();
+                        }
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
                     Expression::Multiplication(exponent_factors) => {
-- 
2.43.0


From 62487b3fc14d8c0e20c736299b1f2f2ce8710ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 05/17] fix: logarithm of integers is exact and does not panic
 beyond the machine word

---
 src/exponential/logarithm.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..9a15145 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -1,6 +1,7 @@
 use crate::base::{
     associative_operation::AssociativeOperation, expression::Expression, symbol::Symbol,
 };
+use num::bigint::BigInt;
 
 impl Expression {
     pub fn logarithm(argument: Expression, base: Expression) -> Expression {
@@ -12,10 +13,8 @@ impl Expression {
             }
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
-                    let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
-                    if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                    if let Some(log_result) = integer_logarithm(integer_argument, integer_base) {
+                        return Symbol::integer(log_result).expr();
                     }
                 }
                 _ => {}
@@ -37,3 +36,24 @@ impl Expression {
         Self::logarithm(self, base)
     }
 }
+
+/**
+ * Exponent that takes the base to the argument exactly, if there is one
+ */
+fn integer_logarithm(argument: &Symbol<BigInt>, base: &Symbol<BigInt>) -> Option<isize> {
+    if base <= &Symbol::integer(1) {
+        return None;
+    }
+
+    let mut exponent: isize = 0;
+    let mut power = Symbol::integer(1);
+    while &power < argument {
+        power = power * base;
+        exponent += 1;
+    }
+
+    if &power == argument {
+        return Some(exponent);
+    }
+    return None;
+}
-- 
2.43.0


From f48672f0d08f173d8943106bcbc4e75185d03b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 06/17] fix: single denominator keeps the symbolic part of a
 negative exponent

---
 .../factoring/single_algebraic_denominator.rs  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
index 2aea09d..caee748 100644
--- a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
+++ b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
@@ -31,16 +31,16 @@ impl Rule for SingleAlgebraicDenominator {
                                 return power.argument().pow((n * Symbol::integer(-1)).expr())
                             }
                             Expression::Multiplication(power_factors) => {
-                                return Expression::multiplication(power_factors.map(&|factor| {
-                                    match factor {
-                                        Expression::Integer(n) => {
-                                            return power
-                                                .argument()
-                                                .pow((n * Symbol::integer(-1)).expr())
+                                let opposite_exponent =
+                                    Expression::multiplication(power_factors.map(&|factor| {
+                                        match factor {
+                                            Expression::Integer(n) => {
+                                                return (n * Symbol::integer(-1)).expr()
+                                            }
+                                            _ => return factor.clone(),
                                         }
-                                        _ => return factor.clone(),
-                                    }
-                                }))
+                                    }));
+                                return power.argument().pow(opposite_exponent);
                             }
                             _ => return denominator.clone(),
                         },
-- 
2.43.0


From 53ebe7e7562724d4564b2eb2a61b851673533840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 07/17] fix: collecting like addends with coefficients beyond
 the machine word no longer panics

---
 .../factoring/additive_common_addend.rs       | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..5d103f5 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,7 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+use num::bigint::BigInt;
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
@@ -9,12 +10,12 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Symbol<BigInt>,
                 ) {
                     let opposite = &-addend;
 
@@ -45,26 +46,34 @@ impl Rule for AdditiveCommonAddend {
                                     update_addend_list(
                                         &mut addend_count_list,
                                         &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
+                                        integer,
                                     );
                                 }
 
                                 /* No Integer factor in multiplication */
                                 _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
+                                    update_addend_list(
+                                        &mut addend_count_list,
+                                        addend,
+                                        Symbol::integer(1),
+                                    );
                                 }
                             };
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(
+                                &mut addend_count_list,
+                                addend,
+                                Symbol::integer(1),
+                            );
                         }
                     }
                 }
                 let addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &Symbol::integer(0))
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 return Expression::addition(addends);
-- 
2.43.0


From 03a12366bba066e2d540072c64bf2a7668684b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 08/17] fix: lawful equality, order and hash for every real
 number, infinities, zeros and NaN included

---
 src/symbols/real.rs | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..0f0a9da 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,13 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        /* equal numbers hash equally: a single zero and a single NaN */
+        let data = match self.data {
+            data if data == 0.0 => 0.0,
+            data if data.is_nan() => std::f64::NAN,
+            data => data,
+        };
+        let (m, e, s) = num::Float::integer_decode(data);
         m.hash(state);
         e.hash(state);
         s.hash(state);
@@ -34,7 +40,7 @@ impl Hash for Symbol<f64> {
 impl Eq for Symbol<f64> {}
 impl PartialEq for Symbol<f64> {
     fn eq(&self, other: &Self) -> bool {
-        self.data == other.data
+        self.data == other.data || (self.data.is_nan() && other.data.is_nan())
     }
 }
 impl Ord for Symbol<f64> {
@@ -44,36 +50,13 @@ impl Ord for Symbol<f64> {
         } else if self.data < other.data {
             return std::cmp::Ordering::Less;
         } else {
-            return std::cmp::Ordering::Equal;
+            /* NaN is placed after every number */
+            return self.data.is_nan().cmp(&other.data.is_nan());
         }
     }
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
-        let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
-        let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
-
-        let first_ninf =
-            self.data == std::f64::NEG_INFINITY && other.data != std::f64::NEG_INFINITY;
-        let second_ninf =
-            other.data == std::f64::NEG_INFINITY && self.data != std::f64::NEG_INFINITY;
-
-        let first_inf = self.data == std::f64::INFINITY && other.data != std::f64::INFINITY;
-        let second_inf = other.data == std::f64::INFINITY && self.data != std::f64::INFINITY;
-
-        if both_nan || both_inf || both_ninf {
-            return None;
-        }
-
-        if first_ninf || second_inf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
-        if first_inf || second_ninf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
         Some(self.cmp(other))
     }
 }
-- 
2.43.0


From 9da3a6d68acf343917d891ce54d921e7e1038447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 09/17] fix: comparisons recognise a negative real difference

---
 src/manipulation/expression_comparison.rs | 30 +++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 6e3d833..7704a4f 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -3,7 +3,7 @@ use crate::base::symbol::Symbol;
 
 impl Expression {
     pub fn comparable(&self, other: &Expression) -> bool {
-        match (self - other).simplify() {
+        match difference(self, other) {
             Expression::Integer(_) => return true,
             Expression::Real(_) => return true,
             _ => return false,
@@ -11,7 +11,7 @@ impl Expression {
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = difference(self, other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0),
@@ -20,7 +20,7 @@ impl Expression {
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = difference(self, other);
         match simplified_difference {
             Expression::Integer(n) => return n != Symbol::integer(0),
             Expression::Real(r) => return r != Symbol::real(0.0),
@@ -29,7 +29,7 @@ impl Expression {
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = difference(self, other);
         match simplified_difference {
             Expression::Integer(n) => return n > Symbol::integer(0),
             Expression::Real(r) => return r > Symbol::real(0.0),
@@ -38,7 +38,7 @@ impl Expression {
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = difference(self, other);
         match simplified_difference {
             Expression::Integer(n) => return n < Symbol::integer(0),
             Expression::Real(r) => return r < Symbol::real(0.0),
@@ -47,7 +47,7 @@ impl Expression {
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = difference(self, other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
@@ -55,7 +55,7 @@ impl Expression {
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = difference(self, other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
@@ -63,3 +63,19 @@ impl Expression {
         }
     }
 }
+
+/**
+ * Simplified difference
+ *  - the sign of a negative real is kept separated: puts it back together
+ */
+fn difference(left: &Expression, right: &Expression) -> Expression {
+    let simplified_difference = (left - right).simplify();
+    if let Expression::Multiplication(factors) = &simplified_difference {
+        if let [Expression::Real(r), Expression::Integer(n)] = factors.items().as_slice() {
+            if n == &Symbol::integer(-1) {
+                return (r * Symbol::real(-1.0)).expr();
+            }
+        }
+    }
+    return simplified_difference;
+}
-- 
2.43.0


From 052c7d91549d0feb823d518c8567390a3ab37364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 10/17] fix: simplify keeps the expansion when it is a single
 symbol

---
 src/manipulation/simplifiable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6422a0d..4496fae 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -19,7 +19,7 @@ use crate::{
 impl Expression {
     pub fn simplify(self) -> Expression {
         /* recursive expansion */
-        match self.clone().expand() {
+        match self.expand() {
             Expression::Multiplication(factors) => {
                 let simplified_inner_factors =
                     Expression::multiplication(factors.map(&|factor| factor.clone().simplify()));
@@ -50,7 +50,7 @@ impl Expression {
                 return Expression::logarithm(log.argument().simplify(), log.modifier().simplify())
             }
 
-            _ => return self,
+            expanded => return expanded,
         }
     }
 }
-- 
2.43.0


From 10fb8a8e21231b1ce29d05b3849e902c21b9a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 11/17] fix: expand distributes a power over a product, so
 equal powers of products compare equal

---
 src/manipulation/expand.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/expand.rs b/src/manipulation/expand.rs
index 5e313d4..601dfe5 100644
--- a/src/manipulation/expand.rs
+++ b/src/manipulation/expand.rs
@@ -5,7 +5,8 @@ use crate::{
     base::expression::Expression,
     manipulation::expansion_rules::{
         multiplicative_distributive::MultiplicativeDistributive,
-        power_distributive_addition::PowerDistributiveAddition, rule::Rule,
+        power_distributive_addition::PowerDistributiveAddition,
+        power_distributive_multiplication::PowerDistributiveMultiplication, rule::Rule,
     },
 };
 
@@ -23,10 +24,14 @@ impl Expression {
             }
 
             Expression::Power(power) => {
-                return PowerDistributiveAddition::apply(&Expression::power(
+                let expanded = PowerDistributiveAddition::apply(&Expression::power(
                     power.argument().expand(),
                     power.modifier().expand(),
                 ));
+                match PowerDistributiveMultiplication::apply(&expanded) {
+                    distributed if distributed != expanded => return distributed.expand(),
+                    _ => return expanded,
+                }
             }
             Expression::Logarithm(log) => {
                 return Expression::logarithm(log.argument().expand(), log.modifier().expand())
-- 
2.43.0


From 31debd52ee1d204827c2621134260fc2b434d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 12/17] fix: division by a negative integer reduces to a whole
 number when it divides evenly

---
 src/arithmetics/division.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index de9dc52..8806896 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -14,7 +14,11 @@ impl Expression {
 
                 match &dividend {
                     Expression::Integer(integer_dividend) => {
-                        let gcd = &Symbol::gcd(integer_divisor, integer_dividend);
+                        /* a negative divisor hands its sign over to the dividend */
+                        let gcd = &match Symbol::gcd(integer_divisor, integer_dividend) {
+                            gcd if integer_divisor.is_negative() => gcd.opposite(),
+                            gcd => gcd,
+                        };
                         if integer_divisor == gcd {
                             return (integer_dividend / gcd).expr();
                         } else if integer_dividend == gcd {
-- 
2.43.0


From c7abeb092c586bc783e77990ff2eb46df7b3733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 13/17] fix: simplify adds up the real numbers of a sum, so
 real differences are recognised

---
 .../factoring/additive_common_addend.rs       | 52 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 5d103f5..8ba8f35 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -30,7 +30,20 @@ impl Rule for AdditiveCommonAddend {
                     }
                 }
 
+                /* numbers add up, integers apart from reals */
+                let mut integer: Symbol<BigInt> = Symbol::integer(0);
+                let mut real: Symbol<f64> = Symbol::real(0.0);
+
                 for addend in addends.items().iter() {
+                    if let Expression::Integer(value) = addend {
+                        integer = integer + value;
+                        continue;
+                    }
+                    if let Some(value) = real_value(addend) {
+                        real = real + value;
+                        continue;
+                    }
+
                     match addend {
                         Expression::Multiplication(factors) => {
                             match factors.get_one(&|factor| match factor {
@@ -70,12 +83,22 @@ impl Rule for AdditiveCommonAddend {
                         }
                     }
                 }
-                let addends: Vec<Expression> = addend_count_list
+                let mut addends: Vec<Expression> = addend_count_list
                     .iter()
                     .filter(|&(_, counter)| counter != &Symbol::integer(0))
                     .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
+                /* a real takes in the integer it can represent */
+                if real != Symbol::real(0.0) {
+                    if let Some(value) = exact_real(&integer) {
+                        real = real + value;
+                        integer = Symbol::integer(0);
+                    }
+                }
+                addends.push(integer.expr());
+                addends.push(real.expr());
+
                 return Expression::addition(addends);
             }
             _ => {}
@@ -85,6 +108,33 @@ impl Rule for AdditiveCommonAddend {
     }
 }
 
+/**
+ * Value of a real number, also when an integer part is kept separated from it
+ */
+fn real_value(expression: &Expression) -> Option<Symbol<f64>> {
+    match expression {
+        Expression::Real(real) => return Some(real.clone()),
+        Expression::Multiplication(factors) => match factors.items().as_slice() {
+            [Expression::Real(real), Expression::Integer(integer)] => {
+                return integer.to_real().map(|value| real * Symbol::real(value))
+            }
+            _ => return None,
+        },
+        _ => return None,
+    }
+}
+
+/**
+ * The same number as a real, unless it would be rounded
+ */
+fn exact_real(integer: &Symbol<BigInt>) -> Option<Symbol<f64>> {
+    let limit: isize = 1 << std::f64::MANTISSA_DIGITS;
+    match integer.value() {
+        Some(value) if -limit <= value && value <= limit => Some(Symbol::real(value as f64)),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod simplify {
     use super::*;
-- 
2.43.0


From 6d097b41690389273035e902d9d94a6117fcb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 14/17] fix: expanding a power of a sum beyond the machine word
 no longer panics

---
 .../expansion_rules/power_distributive_addition.rs        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 4513cff..38687a6 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -15,10 +15,14 @@ impl Rule for PowerDistributiveAddition {
                 Expression::Addition(_) => match power.modifier() {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
-                        let exponent = integer_exponent.value().unwrap();
+                        let exponent = match integer_exponent.value() {
+                            Some(value) => value,
+                            /* Too many factors, beyond machine integers */
+                            None => return expression.clone(),
+                        };
                         let mut factors: Vec<Expression> = Vec::new();
 
-                        for _ in 0..exponent.abs() {
+                        for _ in 0..exponent.unsigned_abs() {
                             factors.push(power.argument());
                         }
 
-- 
2.43.0


From 7e27ebf8dee6e38b91541a46f1e4db45f1645c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 15/17] fix: comparisons recognise a difference that is an
 integer multiple of a real

---
 src/manipulation/expression_comparison.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 7704a4f..e6bfc9d 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -66,14 +66,14 @@ impl Expression {
 
 /**
  * Simplified difference
- *  - the sign of a negative real is kept separated: puts it back together
+ *  - sign and integer factor of a real are kept separated: puts them back together
  */
 fn difference(left: &Expression, right: &Expression) -> Expression {
     let simplified_difference = (left - right).simplify();
     if let Expression::Multiplication(factors) = &simplified_difference {
         if let [Expression::Real(r), Expression::Integer(n)] = factors.items().as_slice() {
-            if n == &Symbol::integer(-1) {
-                return (r * Symbol::real(-1.0)).expr();
+            if let Some(value) = n.to_real() {
+                return (r * Symbol::real(value)).expr();
             }
         }
     }
-- 
2.43.0


From 5d9103d345472562912e3cab00a298f05605bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 16/17] fix: a product keeps its integers and reals apart
 whatever the sign, so grouping does not matter

---
 src/arithmetics/multiplication.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index cbc0d56..564738b 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -58,14 +58,6 @@ impl Expression {
             }
         }
 
-        if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
-            if let Some(integer_value) = integer.to_real() {
-                let real_value = real.value().unwrap();
-                real = Symbol::real(real_value * -integer_value);
-                integer = Symbol::integer(-1);
-            }
-        }
-
         if integer != Symbol::integer(1) {
             items_vec.push(integer.expr());
         }
-- 
2.43.0


From 0970cc5e5f2385be07450d44dfa7ea19ee000972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 17/17] fix: a negative power of 1 or -1 is a whole number

---
 src/exponential/power.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index b932184..487931f 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -119,11 +119,16 @@ impl Expression {
                     Expression::Integer(integer_exponent) => {
                         if integer_exponent.is_negative() {
                             /* Rational Denominator */
+                            let denominator =
+                                integer_base.pow(&integer_exponent.opposite()).unwrap();
+                            /* Identity (inverse of 1 and -1) */
+                            if denominator == Symbol::integer(1)
+                                || denominator == Symbol::integer(-1)
+                            {
+                                return denominator.expr();
+                            }
                             return Expression::Power(AssociativeOperation::new(
-                                integer_base
-                                    .pow(&integer_exponent.opposite())
-                                    .unwrap()
-                                    .expr(),
+                                denominator.expr(),
                                 Symbol::integer(-1).expr(),
                             ));
                         } else {
-- 
2.43.0

