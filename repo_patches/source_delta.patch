From 3185832c8b2af887084987fe4ea3e6f037ce68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 01/35] fix: reject an unclosed grouping symbol when draining
 the operator stack

infix_to_rpn tested is_grouping_close twice, so `((2)` converted to an RPN
sequence that still contains a GroupingOpen token.
---
 prexel/src/evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..904979e 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -434,7 +434,7 @@ mod shunting_yard {
         }
 
         while let Some(t) = operators.pop() {
-            if t.is_grouping_close() || t.is_grouping_close() {
+            if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     "Misplace parentheses",
-- 
2.43.0


From 23d93a7ffd9abfee816a9798abf36e71a28493d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 02/35] fix: return the error when a function call lacks
 arguments

rpn_eval built the InvalidArgumentCount error and dropped it, so the function
was called with fewer arguments than its argument count.
---
 prexel/src/evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 904979e..32ac9cb 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
-- 
2.43.0


From b423a5d26b76ce04c78537d25c7c2050075f0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 03/35] fix: count zero arguments for a function call with
 empty parentheses

`Random()` was given an argument count of 1, so `1 + Random()` failed and
`3 Sum()` took the 3 as the missing argument.
---
 prexel/src/evaluator.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 32ac9cb..466fee0 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -365,7 +365,16 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    // `Random()`: nothing between the grouping symbols, so there are no arguments.
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -583,6 +592,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -602,7 +612,8 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From bd1d6b243a11b01e8eaffd2bedc7b1306ace5f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 04/35] fix: apply pending prefix operators before a binary
 operator

`-(2)+3` was converted as `-(2+3)`, and so was every prefix operator before a
grouping, a function call or another prefix operator.
---
 prexel/src/evaluator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 466fee0..ea39207 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -557,7 +557,8 @@ mod shunting_yard {
                 break;
             }
 
-            if t.is_function() {
+            // Prefix unary operators bind tighter than any binary operator.
+            if t.is_function() || t.is_unary_operator() {
                 output.push(operators.pop().unwrap());
             } else {
                 let top_operator = match t {
-- 
2.43.0


From 4847156daadf77c6c11e4a174e302ac4825775f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 05/35] fix: do not slice inside a multi-byte character in
 is_unary
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`&prev_str[..1]` panics when the previous token starts with a non-ASCII
character, for example `π - 2` where `π` is unknown.
---
 prexel/src/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..2f90706 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -232,8 +232,9 @@ where
                 }
 
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
+                let first_char: String = prev_str.chars().take(1).collect();
+                if context.is_unary_function(&first_char)
+                    && !context.is_binary_function(&first_char)
                 {
                     return false;
                 }
-- 
2.43.0


From 9baa238c697ef97812061535c68dd5f090da4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 06/35] fix: do not drop the second decimal point of a number

SplitNumeric consumed the second `.` before stopping, so `1.5.` was read as
`1.5` and `1.5.+2` evaluated to 3.5.
---
 prexel/src/utils/splitter.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 6ef73e2..fc462d2 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -235,12 +235,10 @@ pub mod rules {
 
                     let mut has_decimal_point = false;
 
-                    while let Some(c) = rest.next_if(is_valid_char) {
+                    while let Some(c) =
+                        rest.next_if(|c| is_valid_char(c) && !(*c == '.' && has_decimal_point))
+                    {
                         if c == '.' {
-                            if has_decimal_point {
-                                break;
-                            }
-
                             has_decimal_point = true;
                         }
 
-- 
2.43.0


From 05b297447f476da0c31a2cbe62e1019db5eea824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 07/35] fix: subtract in the Sub impl generated by the
 unchecked num traits macro

---
 prexel/src/numeric_traits/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 2542ae8..08858a4 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -22,7 +22,7 @@ macro_rules! impl_unchecked_num_traits_with_field {
             fn sub(self, other: Self) -> Self {
                 let x = self.$field;
                 let y = other.$field;
-                Self::from(x + y)
+                Self::from(x - y)
             }
         }
 
-- 
2.43.0


From 5ceea80a40a3c5a03fb8e645066ca7190b184823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 08/35] fix: hash case-insensitive strings consistently with
 their equality
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Equality lower-cases every character but the hash only ASCII ones, so a
constant added as `Π` was not found as `π` although both names are equal.
---
 prexel/src/utils/ignore_case_str.rs    | 4 ++--
 prexel/src/utils/ignore_case_string.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..27b614c 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,8 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..ade8082 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,8 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
-- 
2.43.0


From 9e7b3b7a100ef3d9515db75476fd8a6c9f85cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 09/35] fix: do not panic when pushing to a history of capacity
 zero

`eval run --history 0` panicked on the first entered expression.
---
 eval/src/collections/carray.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..f5d7139 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -18,6 +18,10 @@ impl<T> CircularArray<T> {
     }
 
     pub fn push(&mut self, item: T) {
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From 408b86a48b6f9672335c97729108f1230158a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 10/35] fix: report decimal powers as exact values or errors

checked_powi panicked for a zero base with a negative exponent, checked_powd
panicked when the exponent does not fit an i64 and returned 1 for a fractional
power of zero, and an unused final squaring made representable powers such as
10^16 overflow.
---
 prexel/src/decimal/decimal_ext.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..c15c2a6 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -67,11 +67,16 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
+            return self.checked_powi(exponent.to_i64()?);
         }
 
         if self.is_zero() {
-            return Some(Decimal::one());
+            // 0^(-x) is a division by zero
+            return if exponent.is_sign_negative() {
+                None
+            } else {
+                Some(Decimal::zero())
+            };
         }
 
         if self.is_one() {
@@ -99,7 +104,7 @@ impl DecimalExt for Decimal {
         }
 
         if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
+            return Self::checked_powi(self.checked_inv()?, exponent.checked_neg()?);
         }
 
         let mut result = Decimal::one();
@@ -112,8 +117,12 @@ impl DecimalExt for Decimal {
                 exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            // Avoids an overflow in a square that is not used
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
-- 
2.43.0


From 0b85235ab91c9ada9f94e8b8342d1af9de70e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 11/35] fix: report an error when the number of averaged values
 does not fit the type

`Avg` of more than 127 values panicked in a checked i8 context.
---
 prexel/src/ops/checked.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..d7698c3 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -264,7 +264,10 @@ impl<N: CheckedAdd + CheckedDiv + FromPrimitive + Clone> Function<N> for AvgFunc
         match sum {
             Some(n) => {
                 let result = n
-                    .checked_div(&N::from_usize(args.len()).unwrap())
+                    .checked_div(
+                        &N::from_usize(args.len())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                    )
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
 
                 Ok(result)
-- 
2.43.0


From bca068929cfd159c711964a435bf08dcf43371fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 12/35] fix: return an error for binary shifts by an out of
 range amount

Shifting by a negative amount or by 128 or more panicked.
---
 prexel/src/binary/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..30baf18 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,7 +102,9 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use crate::error::{Error, ErrorKind};
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
+    use std::convert::TryFrom;
 
     pub struct NotFunction;
     impl UnaryFunction<Binary> for NotFunction {
@@ -395,7 +397,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shr(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
@@ -422,7 +428,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shl(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
-- 
2.43.0


From 6377a28a4e23631761c2fcdd9dac08488ed2d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 13/35] fix: accept a real base in the complex Log function

The condition was inverted: `Log(8, 2)` was rejected with `Expected decimal
base` and a base with an imaginary part was accepted and truncated.
---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..1cc4b59 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -51,7 +51,7 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
-                    n if !n.is_zero() => {
+                    n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From d48ebc830d7b4b7d0a957f6a8951318d600b545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 14/35] fix: compute factorials with checked operations in the
 checked context

The checked context used the unchecked factorial, so `25!` over i64 panicked
in debug builds and wrapped around in release builds.
---
 prexel/src/ops/checked.rs | 63 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index d7698c3..32e2cf0 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -1,9 +1,10 @@
-use num_traits::{FromPrimitive, Zero};
+use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
 use crate::error::*;
 use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
+use crate::utils::gamma::gamma;
 use crate::Result;
 
 #[cfg(feature = "docs")]
@@ -162,6 +163,66 @@ impl<N: CheckedNeg> UnaryFunction<N> for UnaryMinus {
     }
 }
 
+pub struct Factorial;
+impl<N> UnaryFunction<N> for Factorial
+where
+    N: Clone
+        + Zero
+        + One
+        + CheckedSub
+        + CheckedMul
+        + PartialOrd
+        + ToPrimitive
+        + FromPrimitive,
+{
+    fn name(&self) -> &str {
+        "!"
+    }
+
+    fn notation(&self) -> Notation {
+        Notation::Postfix
+    }
+
+    fn call(&self, value: N) -> Result<N> {
+        if value < N::zero() {
+            return Err(Error::from(ErrorKind::NegativeValue));
+        }
+
+        // 0! = 1
+        if value.is_zero() {
+            return Ok(N::one());
+        }
+
+        let mut total = N::one();
+        let mut next = value;
+
+        while next >= N::one() {
+            total = total
+                .checked_mul(&next)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+            next = next
+                .checked_sub(&N::one())
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+        }
+
+        // If next value is non-zero, apply `Gamma function`.
+        if !next.is_zero() {
+            if let (Some(total), Some(n)) = (total.to_f64(), next.to_f64()) {
+                N::from_f64(total * gamma(n + 1f64)).ok_or_else(|| Error::from(ErrorKind::Overflow))
+            } else {
+                Err(Error::from(ErrorKind::Overflow))
+            }
+        } else {
+            Ok(total)
+        }
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Factorial.into())
+    }
+}
+
 pub struct AbsFunction;
 impl<N: Zero + PartialOrd + CheckedNeg + Clone> Function<N> for AbsFunction {
     fn name(&self) -> &str {
-- 
2.43.0


From 3e1f43327d7948cb34a539d9dc34cd0197fb13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 15/35] fix: report an alias collision as an error without
 registering anything

---
 prexel/src/context.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..29bab7b 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -187,11 +187,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Checks all the names before add any, so nothing is added on error.
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -216,11 +219,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Checks all the names before add any, so nothing is added on error.
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -256,11 +262,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Checks all the names before add any, so nothing is added on error.
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From 6e1b3aaf423bd1f8a3f7b6031e0229ad51924410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 16/35] fix: require grouping symbols after a function name
 also with custom function calls

---
 prexel/src/evaluator.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index ea39207..78d8288 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -353,6 +353,18 @@ mod shunting_yard {
                                 ),
                             ));
                         }
+                    } else if !token_iterator
+                        .peek()
+                        .map_or(false, |t| t.1.is_grouping_open())
+                    {
+                        // Any grouping symbol is valid, but the arguments must be within one
+                        return Err(Error::new(
+                            ErrorKind::InvalidInput,
+                            format!(
+                                "Function arguments of `{}` are not within grouping symbols",
+                                name
+                            ),
+                        ));
                     }
 
                     arg_count.push(0);
-- 
2.43.0


From 06c9dd329354dee79242e3e861120b5b03ebdf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 17/35] fix: classify an operator after a prefix, word or
 multi-character operator as unary

---
 prexel/src/tokenizer.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 2f90706..f41a963 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -232,11 +232,17 @@ where
                 }
 
                 // 10! - 2
-                let first_char: String = prev_str.chars().take(1).collect();
-                if context.is_unary_function(&first_char)
-                    && !context.is_binary_function(&first_char)
-                {
-                    return false;
+                if let Some(prev_op) = context.get_unary_function(prev_str) {
+                    if prev_op.notation() == Notation::Postfix
+                        && !context.is_binary_function(prev_str)
+                    {
+                        return false;
+                    }
+                }
+
+                // ~ -2, 1 != -2, 2 x -3
+                if context.is_unary_function(prev_str) || context.is_binary_function(prev_str) {
+                    return true;
                 }
 
                 // +-, (-, !+
-- 
2.43.0


From ebfb0c5889f38f7528394cd4ba9f0fb9597e2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 18/35] fix: decimal sum, product and avg report overflow
 instead of panicking

---
 prexel/src/decimal/mod.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..3719777 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -538,8 +538,11 @@ mod math_ops {
             for cur in args {
                 match result {
                     None => result = Some(*cur),
-                    Some(ref n) => {
-                        result = Some(*n + *cur);
+                    Some(n) => {
+                        result = Some(
+                            Decimal::checked_add(n, *cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -565,8 +568,11 @@ mod math_ops {
             for cur in args {
                 match result {
                     None => result = Some(*cur),
-                    Some(ref n) => {
-                        result = Some(n * cur);
+                    Some(n) => {
+                        result = Some(
+                            Decimal::checked_mul(n, *cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -592,14 +598,19 @@ mod math_ops {
             for cur in args {
                 match sum {
                     None => sum = Some(*cur),
-                    Some(ref n) => {
-                        sum = Some(*n + *cur);
+                    Some(n) => {
+                        sum = Some(
+                            Decimal::checked_add(n, *cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
 
             match sum {
-                Some(n) => Ok(n / Decimal::from_usize(args.len()).unwrap()),
+                Some(n) => Decimal::from_usize(args.len())
+                    .and_then(|count| n.checked_div(count))
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                 None => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
-- 
2.43.0


From e9dad0fb3c042c4234048f2bccf77c8b5488fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 19/35] fix: decimal csc, sec and cot return the reciprocal of
 sin, cos and tan

---
 prexel/src/decimal/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 3719777..689a38b 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -758,7 +758,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -865,7 +865,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
-- 
2.43.0


From 55f6e8983f35a4c51708d8419a4f621d0ee91ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 20/35] fix: decimal inverse trigonometric functions take a
 ratio and return degrees

---
 prexel/src/decimal/mod.rs | 82 +++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 12 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 689a38b..7f4bcb8 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -919,6 +919,29 @@ mod trig_ops {
     impl_checked_trig_rec!(CotFunction, checked_tan, cot, Description::Cot);
 
     //////////////////// Inverse Trigonometric ////////////////////
+    #[cfg(not(feature = "docs"))]
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($method_name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .$method_name()
+                            .map(|n| n.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
     #[cfg(not(feature = "docs"))]
     macro_rules! impl_arc_trig_rec {
         ($struct_name:ident, $method_name:ident, $name:ident) => {
@@ -931,7 +954,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(|n| n.$method_name().to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -956,8 +982,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(Decimal::$method_name)
+                            .map(|n| n.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -970,6 +997,33 @@ mod trig_ops {
         };
     }
 
+    #[cfg(feature = "docs")]
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident, $description:expr) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($method_name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .$method_name()
+                            .map(|n| n.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     #[cfg(feature = "docs")]
     macro_rules! impl_arc_trig_rec {
         ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
@@ -982,7 +1036,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(|n| n.$method_name().to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -1011,8 +1068,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(Decimal::$method_name)
+                            .map(|n| n.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1031,15 +1089,15 @@ mod trig_ops {
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ASinFunction, asin);
+    impl_checked_arc_trig!(ASinFunction, asin);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ASinFunction, asin, Description::ASin);
+    impl_checked_arc_trig!(ASinFunction, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ACosFunction, acos);
+    impl_checked_arc_trig!(ACosFunction, acos);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ACosFunction, acos, Description::ACos);
+    impl_checked_arc_trig!(ACosFunction, acos, Description::ACos);
 
     pub struct ATanFunction;
     impl Function<Decimal> for ATanFunction {
@@ -1051,8 +1109,8 @@ mod trig_ops {
         #[inline]
         fn call(&self, args: &[Decimal]) -> Result<Decimal> {
             match args.len() {
-                1 => Ok(args[0].atan()),
-                2 => Ok(args[0].atan2(args[1])),
+                1 => Ok(args[0].atan().to_degrees()),
+                2 => Ok(args[0].atan2(args[1]).to_degrees()),
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
-- 
2.43.0


From dc47c043715e578b96e5042b5c0887284520acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 21/35] fix: decimal hyperbolic functions report overflow
 instead of panicking

---
 prexel/src/decimal/decimal_ext.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index c15c2a6..d99fcef 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -31,6 +31,7 @@ pub trait DecimalExt {
     fn cosh(self) -> Option<Decimal>;
     fn tanh(self) -> Option<Decimal>;
     fn asinh(self) -> Decimal;
+    fn checked_asinh(self) -> Option<Decimal>;
     fn acosh(self) -> Option<Decimal>;
     fn atanh(self) -> Option<Decimal>;
 }
@@ -485,27 +486,29 @@ impl DecimalExt for Decimal {
         // formula: sinh(x) = (e^x - e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 - e1) / consts::TWO;
-        Some(result)
+        e0.checked_sub(e1)?.checked_div(consts::TWO)
     }
 
     fn cosh(self) -> Option<Decimal> {
         // formula: cosh(x) = (e^x + e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 + e1) / consts::TWO;
-        Some(result)
+        e0.checked_add(e1)?.checked_div(consts::TWO)
     }
 
     fn tanh(self) -> Option<Decimal> {
-        let result = self.sinh()? / self.cosh()?;
-        Some(result)
+        self.sinh()?.checked_div(self.cosh()?)
     }
 
     fn asinh(self) -> Decimal {
+        self.checked_asinh().unwrap()
+    }
+
+    fn checked_asinh(self) -> Option<Decimal> {
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 + consts::ONE).unwrap()).unwrap()
+        let x2 = self.checked_mul(self)?;
+        let sqrt = x2.checked_add(consts::ONE)?.checked_sqrt()?;
+        self.checked_add(sqrt)?.checked_ln()
     }
 
     fn acosh(self) -> Option<Decimal> {
@@ -514,8 +517,9 @@ impl DecimalExt for Decimal {
         }
 
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
+        let x2 = self.checked_mul(self)?;
+        let sqrt = x2.checked_sub(consts::ONE)?.checked_sqrt()?;
+        self.checked_add(sqrt)?.checked_ln()
     }
 
     fn atanh(self) -> Option<Decimal> {
@@ -526,7 +530,7 @@ impl DecimalExt for Decimal {
         // formula: atanh(x) = 0.5 * ln((1 + x)/(1 - x))
         let x0 = consts::ONE + self;
         let x1 = consts::ONE - self;
-        Decimal::checked_ln(x0 / x1)?.checked_mul(consts::HALF)
+        Decimal::checked_ln(x0.checked_div(x1)?)?.checked_mul(consts::HALF)
     }
 }
 
-- 
2.43.0


From 5982a3780a9503d2f8eb4c348dc557a4cd57e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 22/35] fix: decimal acsch, asech and acoth invert their
 argument and return errors instead of panicking

---
 prexel/src/decimal/mod.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 7f4bcb8..f1f9a5a 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -143,7 +143,7 @@ macro_rules! forward_func_impl {
 }
 
 #[cfg(not(feature = "docs"))]
-macro_rules! forward_func_inv_impl {
+macro_rules! forward_checked_inv_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident) => {
         impl Function<Decimal> for $struct_name {
             #[inline]
@@ -154,7 +154,10 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .and_then(Decimal::$method_name)
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
@@ -162,7 +165,7 @@ macro_rules! forward_func_inv_impl {
     };
 
     ($struct_name:ident, $method_name:ident) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name);
+        forward_checked_inv_func_impl!($struct_name, $method_name, $method_name);
     };
 }
 
@@ -257,7 +260,7 @@ macro_rules! forward_func_impl {
 }
 
 #[cfg(feature = "docs")]
-macro_rules! forward_func_inv_impl {
+macro_rules! forward_checked_inv_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
         impl Function<Decimal> for $struct_name {
             #[inline]
@@ -268,7 +271,10 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .and_then(Decimal::$method_name)
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
@@ -280,7 +286,7 @@ macro_rules! forward_func_inv_impl {
     };
 
     ($struct_name:ident, $method_name:ident, $description:expr) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name, $description);
+        forward_checked_inv_func_impl!($struct_name, $method_name, $method_name, $description);
     };
 }
 
@@ -1179,9 +1185,9 @@ mod trig_ops {
     //////////////////// Inverse Hyperbolic Trigonometric ////////////////////
     pub struct ASinhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ASinhFunction, asinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ASinhFunction, asinh, Description::ASinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh, Description::ASinh);
 
     pub struct ACoshFunction;
     #[cfg(not(feature = "docs"))]
@@ -1197,21 +1203,21 @@ mod trig_ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch);
+    forward_checked_inv_func_impl!(ACschFunction, checked_asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_checked_inv_func_impl!(ACschFunction, checked_asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech);
+    forward_checked_inv_func_impl!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech, Description::ASech);
+    forward_checked_inv_func_impl!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth);
+    forward_checked_inv_func_impl!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_checked_inv_func_impl!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From b2ab3000ab24d43b83d820dd03b7db73de4b5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 23/35] fix: decimal atan2 returns half pi when the quotient
 has no value

---
 prexel/src/decimal/decimal_ext.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index d99fcef..eec3d75 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -462,16 +462,18 @@ impl DecimalExt for Decimal {
             return Decimal::zero();
         }
 
-        if x.is_zero() {
-            return if self > consts::ZERO {
-                consts::PI_2
-            } else {
-                consts::PI_2_MINUS
-            };
-        }
-
         // Θ = arctan(y / x)
-        let atan2 = Decimal::atan(self / x);
+        // a quotient that overflows is handled as x = 0
+        let atan2 = match self.checked_div(x) {
+            Some(quotient) => Decimal::atan(quotient),
+            None => {
+                return if self > consts::ZERO {
+                    consts::PI_FRACT_2
+                } else {
+                    -consts::PI_FRACT_2
+                }
+            }
+        };
 
         if x > consts::ZERO {
             atan2
-- 
2.43.0


From c7a4b44e1fd814138311600f915af90b21f80663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 24/35] fix: decimal factorial of 2 is 2

---
 prexel/src/decimal/decimal_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index eec3d75..347c882 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -277,7 +277,7 @@ impl DecimalExt for Decimal {
             return None;
         }
 
-        if self == consts::TWO || self == consts::ONE || self == consts::ZERO {
+        if self == consts::ONE || self == consts::ZERO {
             return Some(Decimal::one());
         }
 
-- 
2.43.0


From 3b2533213ffb2d8334fe902192203f0e93f157c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 25/35] fix: decimal factorial of a fraction above 1 does not
 divide by zero or overflow

---
 prexel/src/decimal/decimal_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 347c882..080abeb 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -288,13 +288,13 @@ impl DecimalExt for Decimal {
         let mut result = self;
         let mut n = self - Decimal::one();
 
-        while n > Decimal::zero() {
+        while n >= Decimal::one() {
             result = result.checked_mul(n)?;
             n -= Decimal::one();
         }
 
         if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
-- 
2.43.0


From 45a229ed8d004525928dc29adf97dc288db50e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 26/35] fix: decimal to_degrees reports overflow instead of
 panicking

---
 prexel/src/decimal/decimal_ext.rs | 6 ++++++
 prexel/src/decimal/mod.rs         | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 080abeb..e876577 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -10,6 +10,7 @@ pub trait DecimalExt {
     fn is_integer(&self) -> bool;
     fn to_radians(&self) -> Decimal;
     fn to_degrees(&self) -> Decimal;
+    fn checked_to_degrees(self) -> Option<Decimal>;
     fn inv(self) -> Decimal;
     fn checked_inv(self) -> Option<Decimal>;
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal>;
@@ -52,6 +53,11 @@ impl DecimalExt for Decimal {
         (self * (dec!(180) / consts::PI)).approx()
     }
 
+    #[inline]
+    fn checked_to_degrees(self) -> Option<Decimal> {
+        self.checked_mul(dec!(180) / consts::PI).map(|n| n.approx())
+    }
+
     #[inline]
     fn inv(self) -> Decimal {
         consts::ONE / self
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index f1f9a5a..73b37a3 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -707,9 +707,14 @@ mod math_ops {
 
     pub struct ToDegreesFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees, Description::ToDegrees);
+    forward_checked_func_impl!(
+        ToDegreesFunction,
+        checked_to_degrees,
+        to_degrees,
+        Description::ToDegrees
+    );
 }
 
 mod trig_ops {
-- 
2.43.0


From 1a272231bf69510699754b3ac466b291f2b06806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 27/35] fix: complex acsc, asec, acot, acsch, asech and acoth
 invert their argument

---
 prexel/src/complex/mod.rs | 64 +++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 1cc4b59..c9948ff 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -175,6 +175,24 @@ pub mod ops {
         };
     }
 
+    #[cfg(not(feature = "docs"))]
+    macro_rules! forward_impl_inv_func {
+        ($t:ty, $method_name:ident, $name:ident) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
     #[cfg(feature = "docs")]
     macro_rules! forward_impl_func {
         ($t:ty, $method_name:ident, $description:expr) => {
@@ -227,6 +245,28 @@ pub mod ops {
         };
     }
 
+    #[cfg(feature = "docs")]
+    macro_rules! forward_impl_inv_func {
+        ($t:ty, $method_name:ident, $name:ident, $description:expr) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -305,21 +345,21 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACscFunction, asin, acsc);
+    forward_impl_inv_func!(ACscFunction, asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_inv_func!(ACscFunction, asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASecFunction, acos, asec);
+    forward_impl_inv_func!(ASecFunction, acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_inv_func!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACotFunction, atan, acot);
+    forward_impl_inv_func!(ACotFunction, atan, acot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACotFunction, atan, acot, Description::ACot);
+    forward_impl_inv_func!(ACotFunction, atan, acot, Description::ACot);
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
 
@@ -381,21 +421,21 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch);
+    forward_impl_inv_func!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_inv_func!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASechFunction, acosh, asech);
+    forward_impl_inv_func!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASechFunction, acosh, asech, Description::ASech);
+    forward_impl_inv_func!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth);
+    forward_impl_inv_func!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_impl_inv_func!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From c7925330408e5fcf476e4d415b5c55d9a647b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 28/35] fix: the decimal square root of some numbers never
 ended

---
 prexel/src/decimal/decimal_ext.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index e876577..9e9c21c 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -146,9 +146,13 @@ impl DecimalExt for Decimal {
         // Initial approximation
         let mut result = Decimal::from_f64(self.to_f64()?.sqrt())?;
         let mut x = Decimal::zero();
+        let mut iterations = 0;
 
-        while x != result {
+        // The rounding may keep the approximation alternating between two adjacent
+        // values, eg: 3.9720354828415177818323744671, so the iterations are limited.
+        while x != result && iterations < consts::TAYLOR_SERIES_ITERATIONS {
             x = result;
+            iterations += 1;
 
             // result = 0.5 * ( value / x + result )
             // -> where value = self
-- 
2.43.0


From a2f2807514148a2b02020071a6f20081084809e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 29/35] fix: the factorial of a huge float never ended

---
 prexel/src/ops/checked.rs | 9 ++++++++-
 prexel/src/ops/mod.rs     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 32e2cf0..4350e4e 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -197,9 +197,16 @@ where
         let mut next = value;
 
         while next >= N::one() {
-            total = total
+            let product = total
                 .checked_mul(&next)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+            // A product that does not grow is infinite: it absorbs all the remaining factors.
+            if next > N::one() && product == total {
+                return Ok(product);
+            }
+
+            total = product;
             next = next
                 .checked_sub(&N::one())
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..69deed7 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -399,7 +399,14 @@ mod math_ops {
             let mut next = total.clone() - N::one();
 
             while next >= N::one() {
-                total = total.clone() * next.clone();
+                let product = total.clone() * next.clone();
+
+                // A product that does not grow is infinite: it absorbs all the remaining factors.
+                if next > N::one() && product == total {
+                    return Ok(product);
+                }
+
+                total = product;
                 next = next.clone() - N::one();
             }
 
-- 
2.43.0


From b0e9d239a6b3641e597e02cafbf9b7527354b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:28 +0000
Subject: [PATCH 30/35] fix: comparisons with ==, !=, <= and >= can be entered
 in the REPL

Every line with an equals sign was taken as an assignment: in a binary
session `b1 == b1` was an invalid assignment and `b1 != b11` silently
set a variable.
---
 eval/src/repl/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/eval/src/repl/mod.rs b/eval/src/repl/mod.rs
index 1bfde3f..63946dc 100644
--- a/eval/src/repl/mod.rs
+++ b/eval/src/repl/mod.rs
@@ -88,7 +88,7 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
             }
 
             // Assign a variable
-            _ if expression.contains('=') => {
+            _ if is_assignment(expression) => {
                 let parts = expression
                     .split('=')
                     .map(|s| s.trim().to_owned())
@@ -130,6 +130,25 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
     });
 }
 
+/// Whether the line contains a `=` which is not part of `==`, `!=`, `<=` or `>=`.
+fn is_assignment(expression: &str) -> bool {
+    let mut prev = ' ';
+    let mut chars = expression.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        if c == '='
+            && !matches!(prev, '=' | '!' | '<' | '>')
+            && !matches!(chars.peek(), Some('='))
+        {
+            return true;
+        }
+
+        prev = c;
+    }
+
+    false
+}
+
 fn repl_tokenizer<'a, N>(is_binary: bool) -> Tokenizer<'a, N>
     where
         N: FromStr + Clone + Display + Debug + 'a,
-- 
2.43.0


From 9921d9199b0e2d55d0642e81620160ca1017ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 31/35] fix: name truncate and sign alike with and without the
 docs feature

---
 prexel/src/ops/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 69deed7..7ec645e 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -542,7 +542,7 @@ mod math_ops {
     forward_func_impl!(TruncateFunction, trunc, truncate);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(TruncateFunction, trunc, Description::Truncate);
+    forward_func_impl!(TruncateFunction, trunc, truncate, Description::Truncate);
 
     pub struct RoundFunction;
     #[cfg(not(feature = "docs"))]
@@ -556,7 +556,7 @@ mod math_ops {
     forward_func_impl!(SignFunction, signum, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, Description::Sign);
+    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 3cd4bfd8167dc505939b8f246c2cdbe08d119204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 32/35] fix: reject an empty argument between two commas

---
 prexel/src/evaluator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 78d8288..fd2247a 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -483,6 +483,11 @@ mod shunting_yard {
             return Err(Error::new(ErrorKind::InvalidInput, "Misplaced comma: `(,`"));
         }
 
+        if tokens.get(pos - 1).map_or(false, |t| t.is_comma()) {
+            // Invalid expression: `,,`
+            return Err(Error::new(ErrorKind::InvalidInput, "Misplaced comma: `,,`"));
+        }
+
         if tokens.get(pos + 1).map_or(false, |t| t.is_grouping_close()) {
             // Invalid expression: `,)`
             return Err(Error::new(ErrorKind::InvalidInput, "Misplaced comma: `,)`"));
-- 
2.43.0


From 433920945826a03e3728249f15bfdbd3bc1253f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:09 +0000
Subject: [PATCH 33/35] fix: reject an empty group at the start of an
 expression

---
 prexel/src/evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index fd2247a..39589cb 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -389,13 +389,13 @@ mod shunting_yard {
                     )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
-                    if pos > 1 {
+                    if pos > 0 {
                         if let Token::GroupingOpen(s) = tokens[pos - 1] {
                             if context
                                 .config()
                                 .get_group_open_for(*c)
                                 .map_or(false, |v| v == s)
-                                && !tokens[pos - 2].is_function()
+                                && !(pos > 1 && tokens[pos - 2].is_function())
                             {
                                 return Err(Error::new(
                                     ErrorKind::InvalidInput,
-- 
2.43.0


From dac8a45d9712dfbae67e309eafb9cc9ad0007833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:03 +0000
Subject: [PATCH 34/35] fix: list the float context's names for the float type

---
 prexel-server/src/endpoints/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index aac1cb1..046f4ed 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -66,7 +66,7 @@ pub async fn get_operators(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(operators))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let operators = services::get_operators(&context);
             Ok(HttpResponse::Ok().json(operators))
         }
@@ -100,7 +100,7 @@ pub async fn get_constants(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(constants))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let constants = services::get_constants(&context);
             Ok(HttpResponse::Ok().json(constants))
         }
@@ -134,7 +134,7 @@ pub async fn get_functions(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(functions))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let functions = services::get_functions(&context);
             Ok(HttpResponse::Ok().json(functions))
         }
-- 
2.43.0


From 3346dc9edc0c75008ec02a7c578303d1dd03f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:53 +0000
Subject: [PATCH 35/35] fix: give powers of complex zero instead of NaN

---
 prexel/src/complex/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index c9948ff..7a5bf72 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -2,7 +2,7 @@ pub type Complex<T> = num_complex::Complex<T>;
 
 pub mod ops {
     use num_complex::Complex;
-    use num_traits::{Float, FromPrimitive};
+    use num_traits::{Float, FromPrimitive, One, Zero};
     use rand::random;
     use std::fmt::{Display, Debug};
 
@@ -28,6 +28,17 @@ pub mod ops {
         }
 
         fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> {
+            // `powc` takes the logarithm of the base, which zero doesn't have.
+            if left.is_zero() {
+                if right.is_zero() {
+                    return Ok(Complex::one());
+                }
+
+                if right.re > T::zero() {
+                    return Ok(Complex::zero());
+                }
+            }
+
             Ok(Complex::powc(&left, right))
         }
 
-- 
2.43.0

