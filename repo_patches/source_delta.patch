From d9db7f4d4f0c5dfbccff8d4584daa24882b73849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 01/12] fix: report sink errors while formatting sums and
 products instead of panicking

---
 src/base/expression.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/expression.rs b/src/base/expression.rs
index ae20682..2e37939 100644
--- a/src/base/expression.rs
+++ b/src/base/expression.rs
@@ -73,10 +73,10 @@ impl Display for Expression {
                 let addition_items = addition.items();
                 let mut iterator = addition_items.iter();
                 if let Some(first_item) = iterator.next() {
-                    write!(f, "({}", first_item).expect("");
+                    write!(f, "({}", first_item)?;
                 }
                 while let Some(item) = iterator.next() {
-                    write!(f, " + {}", item).expect("");
+                    write!(f, " + {}", item)?;
                 }
                 write!(f, ")")
             }
@@ -87,10 +87,10 @@ impl Display for Expression {
                 let multiplication_items = multiplication.items();
                 let mut iterator = multiplication_items.iter();
                 if let Some(first_item) = iterator.next() {
-                    write!(f, "({}", first_item).expect("");
+                    write!(f, "({}", first_item)?;
                 }
                 while let Some(item) = iterator.next() {
-                    write!(f, " * {}", item).expect("");
+                    write!(f, " * {}", item)?;
                 }
                 write!(f, ")")
             }
-- 
2.43.0


From 54aa6dfaa4841087329bdc17fcd3236c075863e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 02/12] fix: hash 0.0 and -0.0 alike, they are equal

---
 src/symbols/real.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..d55d068 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,9 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        /* 0.0 and -0.0 are equal, so they must hash alike */
+        let data = if self.data == 0.0 { 0.0 } else { self.data };
+        let (m, e, s) = num::Float::integer_decode(data);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From bafe8202d910f063436a37f1f44f0cd85e420622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 03/12] fix: dividing by the real 1.0 returns the dividend

---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From 8924db83be52147d1f1e9abd174a0d44be29b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 04/12] fix: endless recursion building an integer to a negated
 exponent

---
 src/exponential/power.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..6e60d59 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -155,7 +155,8 @@ impl Expression {
                         }
                         if let Some(integer_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Integer(_) => true,
+                                /* a sign stays in the exponent: it would only come back from the power to power identity */
+                                Expression::Integer(n) => n != &Symbol::integer(-1),
                                 _ => false,
                             })
                         {
-- 
2.43.0


From 105ae4654e8c6f513f5eba406982f50d1cab4462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 05/12] fix: add collected addends in a fixed order, real sums
 depended on the hash seed

---
 .../simplification_rules/factoring/additive_common_addend.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..1c68260 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -61,12 +61,15 @@ impl Rule for AdditiveCommonAddend {
                         }
                     }
                 }
-                let addends: Vec<Expression> = addend_count_list
+                let mut addends: Vec<Expression> = addend_count_list
                     .iter()
                     .filter(|&(_, counter)| counter != &0)
                     .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
                     .collect();
 
+                /* the order of the map is random, the order reals are added in must not be */
+                addends.sort();
+
                 return Expression::addition(addends);
             }
             _ => {}
-- 
2.43.0


From 34107711ac181391b2a81053a0e39b256e673705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 06/12] fix: collect addends with coefficients beyond the
 machine word

---
 .../factoring/additive_common_addend.rs       | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c68260..4505d12 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,7 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+use num::bigint::BigInt;
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
@@ -9,12 +10,12 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Symbol<BigInt>,
                 ) {
                     let opposite = &-addend;
 
@@ -45,26 +46,34 @@ impl Rule for AdditiveCommonAddend {
                                     update_addend_list(
                                         &mut addend_count_list,
                                         &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
+                                        integer,
                                     );
                                 }
 
                                 /* No Integer factor in multiplication */
                                 _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
+                                    update_addend_list(
+                                        &mut addend_count_list,
+                                        addend,
+                                        Symbol::integer(1),
+                                    );
                                 }
                             };
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(
+                                &mut addend_count_list,
+                                addend,
+                                Symbol::integer(1),
+                            );
                         }
                     }
                 }
                 let mut addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &Symbol::integer(0))
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 /* the order of the map is random, the order reals are added in must not be */
-- 
2.43.0


From 02bb2c6774386ed39737e703ee84475433d8ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 07/12] fix: integers beyond the machine word in real
 arithmetic, logarithms and expansion panicked

---
 src/arithmetics/multiplication.rs                      | 10 +++++++---
 src/exponential/logarithm.rs                           |  2 +-
 src/exponential/power.rs                               |  9 ++++++---
 .../expansion_rules/power_distributive_addition.rs     |  6 +++++-
 src/symbols/integer.rs                                 |  6 ++++++
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..089ceb5 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -60,9 +60,13 @@ impl Expression {
 
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
             let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
-            integer = Symbol::integer(-1);
+            let integer_value = integer.to_f64();
+            let product = real_value * (integer_value * -1.0);
+            /* out of the range of a real: the integer is kept as it is */
+            if product.is_finite() {
+                real = Symbol::real(product);
+                integer = Symbol::integer(-1);
+            }
         }
 
         if integer != Symbol::integer(1) {
diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..1f4ec32 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -13,7 +13,7 @@ impl Expression {
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
                     let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
+                        integer_argument.to_f64().log(integer_base.to_f64());
                     if (log_result as isize) as f64 == log_result {
                         return Symbol::integer(log_result as isize).expr();
                     }
diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 6e60d59..53d9d90 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -132,9 +132,12 @@ impl Expression {
                     }
                     /* Simplification (Integer to Real) */
                     Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
+                        let base_value: f64 = integer_base.to_f64();
                         let exp_value: f64 = real_exponent.value().unwrap();
-                        return Symbol::real(base_value.powf(exp_value)).expr();
+                        /* out of the range of a real: the base is kept as it is */
+                        if base_value.is_finite() {
+                            return Symbol::real(base_value.powf(exp_value)).expr();
+                        }
                     }
                     /* Simplification (Integer to multiplication with Integer or Real) */
                     Expression::Multiplication(exponent_factors) => {
@@ -189,7 +192,7 @@ impl Expression {
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
                         let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
+                        let exp_value: f64 = integer_exponent.to_f64();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 4513cff..2478a77 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -15,7 +15,11 @@ impl Rule for PowerDistributiveAddition {
                 Expression::Addition(_) => match power.modifier() {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
-                        let exponent = integer_exponent.value().unwrap();
+                        let exponent = match integer_exponent.value() {
+                            Some(exponent) => exponent,
+                            /* far too many factors to write down */
+                            None => return expression.clone(),
+                        };
                         let mut factors: Vec<Expression> = Vec::new();
 
                         for _ in 0..exponent.abs() {
diff --git a/src/symbols/integer.rs b/src/symbols/integer.rs
index 8d787b1..ccb2f7e 100644
--- a/src/symbols/integer.rs
+++ b/src/symbols/integer.rs
@@ -13,6 +13,12 @@ impl Symbol<BigInt> {
     pub fn value(&self) -> Option<isize> {
         num::traits::ToPrimitive::to_isize(&self.data)
     }
+    /**
+     * Nearest real value, infinite when out of the range of a real
+     */
+    pub fn to_f64(&self) -> f64 {
+        num::traits::ToPrimitive::to_f64(&self.data).unwrap_or(f64::INFINITY)
+    }
     pub fn label(&self) -> String {
         format!("{}", self.data)
     }
-- 
2.43.0


From 1f59d200b74758d8229facd97aa22c075aacf46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 08/12] fix: logarithm of integers rounded to an integer that
 is not the logarithm

---
 src/exponential/logarithm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index 1f4ec32..83ecc1b 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -15,7 +15,11 @@ impl Expression {
                     let log_result: f64 =
                         integer_argument.to_f64().log(integer_base.to_f64());
                     if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                        let log_integer = Symbol::integer(log_result as isize);
+                        /* the real logarithm is rounded: 2^60 + 1 is no power of 2 */
+                        if integer_base.pow(&log_integer).as_ref() == Some(integer_argument) {
+                            return log_integer.expr();
+                        }
                     }
                 }
                 _ => {}
-- 
2.43.0


From d3418d8878d68d146c744b0af81abe13e266a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 09/12] fix: comparisons of real numbers contradicted each
 other

---
 src/manipulation/expression_comparison.rs | 60 ++++++++++++++++++++---
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 6e3d833..986f2ee 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -2,8 +2,54 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 
 impl Expression {
+    /**
+     * Simplified difference between expressions
+     *  - subtracts in a fixed direction, real arithmetic would round differently in each direction
+     *  - merges numbers left apart by the constructors
+     */
+    fn difference(&self, other: &Expression) -> Expression {
+        if self == other {
+            return Symbol::integer(0).expr();
+        }
+
+        if self > other {
+            return (self - other).simplify().merge_numbers();
+        }
+
+        match (other - self).simplify().merge_numbers() {
+            Expression::Integer(n) => (Symbol::integer(-1) * n).expr(),
+            Expression::Real(r) => (Symbol::real(-1.0) * r).expr(),
+            difference => difference,
+        }
+    }
+
+    /**
+     * Sums and products of integers and reals as a single real
+     */
+    fn merge_numbers(self) -> Expression {
+        fn real_value(expression: &Expression) -> Option<f64> {
+            match expression {
+                Expression::Integer(n) => Some(n.to_f64()),
+                Expression::Real(r) => r.value(),
+                Expression::Addition(addends) => addends.items().iter().map(real_value).sum(),
+                Expression::Multiplication(factors) => {
+                    factors.items().iter().map(real_value).product()
+                }
+                _ => None,
+            }
+        }
+
+        match &self {
+            Expression::Addition(_) | Expression::Multiplication(_) => match real_value(&self) {
+                Some(value) => Symbol::real(value).expr(),
+                None => self,
+            },
+            _ => self,
+        }
+    }
+
     pub fn comparable(&self, other: &Expression) -> bool {
-        match (self - other).simplify() {
+        match self.difference(other) {
             Expression::Integer(_) => return true,
             Expression::Real(_) => return true,
             _ => return false,
@@ -11,7 +57,7 @@ impl Expression {
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0),
@@ -20,7 +66,7 @@ impl Expression {
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n != Symbol::integer(0),
             Expression::Real(r) => return r != Symbol::real(0.0),
@@ -29,7 +75,7 @@ impl Expression {
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n > Symbol::integer(0),
             Expression::Real(r) => return r > Symbol::real(0.0),
@@ -38,7 +84,7 @@ impl Expression {
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n < Symbol::integer(0),
             Expression::Real(r) => return r < Symbol::real(0.0),
@@ -47,7 +93,7 @@ impl Expression {
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
@@ -55,7 +101,7 @@ impl Expression {
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
-- 
2.43.0


From 6d16763ab1f5b8679c1e2ebdd309ee6d6d05ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 10/12] fix: an integer power of a product was never
 distributed over its factors

---
 src/manipulation/expand.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/expand.rs b/src/manipulation/expand.rs
index 5e313d4..79419db 100644
--- a/src/manipulation/expand.rs
+++ b/src/manipulation/expand.rs
@@ -5,7 +5,8 @@ use crate::{
     base::expression::Expression,
     manipulation::expansion_rules::{
         multiplicative_distributive::MultiplicativeDistributive,
-        power_distributive_addition::PowerDistributiveAddition, rule::Rule,
+        power_distributive_addition::PowerDistributiveAddition,
+        power_distributive_multiplication::PowerDistributiveMultiplication, rule::Rule,
     },
 };
 
@@ -23,10 +24,18 @@ impl Expression {
             }
 
             Expression::Power(power) => {
-                return PowerDistributiveAddition::apply(&Expression::power(
+                let expanded_power = PowerDistributiveAddition::apply(&Expression::power(
                     power.argument().expand(),
                     power.modifier().expand(),
                 ));
+
+                /* (a * b) ^ 2 is a ^ 2 * b ^ 2 */
+                return match power.modifier() {
+                    Expression::Integer(_) => {
+                        PowerDistributiveMultiplication::apply(&expanded_power)
+                    }
+                    _ => expanded_power,
+                };
             }
             Expression::Logarithm(log) => {
                 return Expression::logarithm(log.argument().expand(), log.modifier().expand())
-- 
2.43.0


From 2a5bc9b1b54048ca2d8cf16e3a2d914e653ba51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 11/12] fix: simplify returned its input when the expansion is
 a single symbol or number

---
 src/manipulation/simplifiable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6422a0d..4496fae 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -19,7 +19,7 @@ use crate::{
 impl Expression {
     pub fn simplify(self) -> Expression {
         /* recursive expansion */
-        match self.clone().expand() {
+        match self.expand() {
             Expression::Multiplication(factors) => {
                 let simplified_inner_factors =
                     Expression::multiplication(factors.map(&|factor| factor.clone().simplify()));
@@ -50,7 +50,7 @@ impl Expression {
                 return Expression::logarithm(log.argument().simplify(), log.modifier().simplify())
             }
 
-            _ => return self,
+            expanded => return expanded,
         }
     }
 }
-- 
2.43.0


From 1da3a00ff0ec26d1bc8aaee511cd83c3e4c2a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 12/12] fix: the order of operands that are not a number
 depended on the hash seed

---
 src/symbols/real.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index d55d068..066e5b8 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -46,13 +46,14 @@ impl Ord for Symbol<f64> {
         } else if self.data < other.data {
             return std::cmp::Ordering::Less;
         } else {
-            return std::cmp::Ordering::Equal;
+            /* what is not a number comes after all numbers */
+            return self.data.is_nan().cmp(&other.data.is_nan());
         }
     }
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
+        let both_nan = self.data.is_nan() || other.data.is_nan();
         let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
         let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
 
-- 
2.43.0

