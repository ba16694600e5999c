From b4bc01fec7f609b8c037118780d247a3e23ca634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/53] fix: tokenizer panicked or misread a prefix operator
 after a non-ASCII or named token

---
 prexel/src/tokenizer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..0540c5f 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -232,8 +232,10 @@ where
                 }
 
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
+                if context
+                    .get_unary_function(prev_str)
+                    .map_or(false, |f| f.notation() == Notation::Postfix)
+                    && !context.is_binary_function(prev_str)
                 {
                     return false;
                 }
@@ -242,6 +244,8 @@ where
                 if prev_str.chars().count() == 1 {
                     let c = prev_str.chars().last().unwrap();
                     c.is_ascii_punctuation()
+                        || context.is_binary_function(prev_str)
+                        || context.is_unary_function(prev_str)
                 } else {
                     true
                 }
-- 
2.43.0


From 077964fbf868ecb72e789e3a06b7038928c0cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/53] fix: a function call without arguments was counted as
 having one, consuming an outer operand

---
 prexel/src/evaluator.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..d91b4d7 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -365,7 +365,16 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    // A call without arguments: eg: `Random()`
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -583,6 +592,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -602,7 +612,8 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From 6339ef9473c12c0b8e321b1c12a3d0f21250af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 03/53] fix: a call with missing arguments was evaluated
 instead of rejected

---
 prexel/src/evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index d91b4d7..a07508b 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
-- 
2.43.0


From 8af268e36c2f6751eac6b3db8ad1d4287120b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 04/53] fix: a prefix operator before a group or another prefix
 operator captured the rest of the expression

---
 prexel/src/evaluator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index a07508b..cb54117 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -557,7 +557,8 @@ mod shunting_yard {
                 break;
             }
 
-            if t.is_function() {
+            // An unary operator always binds tighter than a binary operator: eg: `-(3) + 5`
+            if t.is_function() || t.is_unary_operator() {
                 output.push(operators.pop().unwrap());
             } else {
                 let top_operator = match t {
-- 
2.43.0


From 86f54f6e20d8a9dbceae241b5b83a48b7b423934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 05/53] fix: misplaced operands, operators and commas were
 accepted and evaluated

---
 prexel/src/evaluator.rs | 58 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index cb54117..211f377 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -319,6 +319,8 @@ mod shunting_yard {
         N: Clone + Debug,
         C: Context<'a, N>,
     {
+        check_operands(tokens, context)?;
+
         let mut output = Vec::new();
         let mut operators = Vec::new();
         let mut arg_count: Vec<usize> = Vec::new();
@@ -456,6 +458,62 @@ mod shunting_yard {
         Ok(output)
     }
 
+    /// Checks each operator have its operands where its notation expects them,
+    /// eg: `(2 3 +)`, `(* 3 4)`, `()5` and `Sum(1, , 2)` are invalid.
+    fn check_operands<'a, N>(tokens: &[Token<N>], context: &impl Context<'a, N>) -> Result<()> {
+        let misplaced = |token: Option<&Token<N>>| match token {
+            None => Error::new(ErrorKind::InvalidExpression, "Expected an operand"),
+            Some(_) => Error::new(ErrorKind::InvalidExpression, "Misplaced operand or operator"),
+        };
+
+        let implicit_mul = context.config().implicit_mul;
+        // Whether the next token should start an operand
+        let mut expect_operand = true;
+        let mut prev: Option<&Token<N>> = None;
+
+        for (pos, token) in tokens.iter().enumerate() {
+            // `2(3)`, `2x`, `(2)3`, `(2)Sin(30)`
+            let is_implicit_mul = implicit_mul
+                && prev.map_or(false, |p| {
+                    p.is_grouping_close() || (p.is_number() && !token.is_number())
+                });
+
+            let is_valid = match token {
+                Number(_) | Variable(_) | Constant(_) | Function(_) | GroupingOpen(_) => {
+                    expect_operand || is_implicit_mul
+                }
+                UnaryOperator(name) => match context.get_unary_function(name) {
+                    Some(f) => (f.notation() == Notation::Prefix) == expect_operand,
+                    None => true,
+                },
+                // `Random()`
+                GroupingClose(_) if pos > 1 && tokens[pos - 2].is_function() => {
+                    !expect_operand || tokens[pos - 1].is_grouping_open()
+                }
+                BinaryOperator(_) | GroupingClose(_) | Comma => !expect_operand,
+                _ => true,
+            };
+
+            if !is_valid {
+                return Err(misplaced(Some(token)));
+            }
+
+            expect_operand = match token {
+                Number(_) | Variable(_) | Constant(_) | GroupingClose(_) => false,
+                UnaryOperator(_) => expect_operand,
+                _ => true,
+            };
+            prev = Some(token);
+        }
+
+        // No operand after the last operator
+        if expect_operand && prev.is_some() {
+            return Err(misplaced(None));
+        }
+
+        Ok(())
+    }
+
     fn check_comma_position<N>(
         tokens: &[Token<N>],
         grouping_count: &[usize],
-- 
2.43.0


From 14274f634dbd50a97d0e69b12becac0f7603c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/53] fix: infix_to_rpn accepted an unclosed grouping symbol

---
 prexel/src/evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 211f377..b4a123c 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -445,7 +445,7 @@ mod shunting_yard {
         }
 
         while let Some(t) = operators.pop() {
-            if t.is_grouping_close() || t.is_grouping_close() {
+            if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     "Misplace parentheses",
-- 
2.43.0


From 70aaba1adc6e9bad8123163f5557a8748a229fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 07/53] fix: the numeric split rule swallowed a second decimal
 point

---
 prexel/src/utils/splitter.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 6ef73e2..66d2f89 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -235,12 +235,11 @@ pub mod rules {
 
                     let mut has_decimal_point = false;
 
-                    while let Some(c) = rest.next_if(is_valid_char) {
+                    // A second decimal point is not part of the number
+                    while let Some(c) =
+                        rest.next_if(|c| is_valid_char(c) && !(*c == '.' && has_decimal_point))
+                    {
                         if c == '.' {
-                            if has_decimal_point {
-                                break;
-                            }
-
                             has_decimal_point = true;
                         }
 
-- 
2.43.0


From 899e2ca17a94b1cc1633665e1377f842aff430da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 08/53] fix: adjacent operators without spaces in between were
 rejected

---
 prexel/src/tokenizer.rs | 50 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 0540c5f..d6bb7ec 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -75,7 +75,12 @@ where
         }
 
         // `Vec` used for fast access indexing, Iterator.nth(..) could be O(N)
-        let raw_tokens = self.splitter.split_into_tokens(expression);
+        let raw_tokens: Vec<String> = self
+            .splitter
+            .split_into_tokens(expression)
+            .into_iter()
+            .flat_map(|s| split_adjacent_operators(s, context))
+            .collect();
         // Actual iterator over the string tokens.
         let mut iter = raw_tokens.iter().enumerate().peekable();
         // Stores the tokens to return.
@@ -187,6 +192,49 @@ where
     }
 }
 
+/// Splits a sequence of operators and commas without spaces in between: eg: `*-`, `,-`, `!+`.
+///
+/// The longest operator is always taken, and the string is returned unchanged
+/// if is a known name or is not entirely made of operators and commas.
+fn split_adjacent_operators<'a, N, C>(string: String, context: &C) -> Vec<String>
+where
+    C: Context<'a, N>,
+    N: FromStr,
+{
+    let is_operator = |s: &str| context.is_binary_function(s) || context.is_unary_function(s);
+
+    if string.chars().any(|c| c.is_alphanumeric() || c.is_whitespace())
+        || N::from_str(&string).is_ok()
+        || context.is_variable(&string)
+        || context.is_constant(&string)
+        || context.is_function(&string)
+        || is_operator(&string)
+    {
+        return vec![string];
+    }
+
+    let mut operators = Vec::new();
+    let mut rest = string.as_str();
+
+    while !rest.is_empty() {
+        let operator = rest
+            .char_indices()
+            .map(|(pos, c)| &rest[..pos + c.len_utf8()])
+            .rev()
+            .find(|s| *s == "," || is_operator(s));
+
+        match operator {
+            Some(s) => {
+                operators.push(s.to_string());
+                rest = &rest[s.len()..];
+            }
+            None => return vec![string],
+        }
+    }
+
+    operators
+}
+
 fn is_unary<'a, N, C>(prev: Option<&str>, cur: &str, next: Option<&str>, context: &C) -> bool
 where
     C: Context<'a, N>,
-- 
2.43.0


From 7486dad9f81584397ffe0884cad0efee478b9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 09/53] fix: the factorial of a large float never finished

---
 prexel/src/ops/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..f0720ab 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -399,7 +399,14 @@ mod math_ops {
             let mut next = total.clone() - N::one();
 
             while next >= N::one() {
-                total = total.clone() * next.clone();
+                let product = total.clone() * next.clone();
+
+                // The product only remains the same if is infinite
+                if product == total && !next.is_one() {
+                    return Ok(total);
+                }
+
+                total = product;
                 next = next.clone() - N::one();
             }
 
-- 
2.43.0


From b624daffd1d86b4546a788de507d5145350d0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 10/53] fix: the factorial of a checked context panicked on
 overflow

---
 prexel/src/ops/checked.rs | 54 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..f784e60 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -1,9 +1,10 @@
-use num_traits::{FromPrimitive, Zero};
+use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
 use crate::error::*;
 use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
+use crate::utils::gamma::gamma;
 use crate::Result;
 
 #[cfg(feature = "docs")]
@@ -162,6 +163,57 @@ impl<N: CheckedNeg> UnaryFunction<N> for UnaryMinus {
     }
 }
 
+pub struct Factorial;
+impl<N> UnaryFunction<N> for Factorial
+where
+    N: CheckedMul + CheckedSub + Zero + One + PartialOrd + ToPrimitive + FromPrimitive + Clone,
+{
+    fn name(&self) -> &str {
+        "!"
+    }
+
+    fn notation(&self) -> Notation {
+        Notation::Postfix
+    }
+
+    fn call(&self, value: N) -> Result<N> {
+        let overflow = || Error::from(ErrorKind::Overflow);
+
+        if value < N::zero() {
+            return Err(Error::from(ErrorKind::NegativeValue));
+        }
+
+        let mut total = N::one();
+        let mut next = value;
+
+        while next >= N::one() {
+            let product = total.checked_mul(&next).ok_or_else(overflow)?;
+
+            // The product only remains the same if is infinite
+            if product == total && !next.is_one() {
+                return Ok(total);
+            }
+
+            total = product;
+            next = next.checked_sub(&N::one()).ok_or_else(overflow)?;
+        }
+
+        // If next value is non-zero, apply `Gamma function`.
+        if !next.is_zero() {
+            let n = next.to_f64().ok_or_else(overflow)?;
+            let total = total.to_f64().ok_or_else(overflow)?;
+            N::from_f64(total * gamma(n + 1f64)).ok_or_else(overflow)
+        } else {
+            Ok(total)
+        }
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Factorial.into())
+    }
+}
+
 pub struct AbsFunction;
 impl<N: Zero + PartialOrd + CheckedNeg + Clone> Function<N> for AbsFunction {
     fn name(&self) -> &str {
-- 
2.43.0


From f81147d61fdeac66d26fc1e09967f03f05d3c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 11/53] fix: avg of a checked context panicked if the argument
 count did not fit the number type

---
 prexel/src/ops/checked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index f784e60..3594e7c 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -315,8 +315,8 @@ impl<N: CheckedAdd + CheckedDiv + FromPrimitive + Clone> Function<N> for AvgFunc
 
         match sum {
             Some(n) => {
-                let result = n
-                    .checked_div(&N::from_usize(args.len()).unwrap())
+                let result = N::from_usize(args.len())
+                    .and_then(|len| n.checked_div(&len))
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
 
                 Ok(result)
-- 
2.43.0


From 0c268a88c0fd37665a77f080d0d1a4601fe90015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 12/53] fix: the decimal factorial of 2 was 1, and of a value
 slightly above an integer panicked

---
 prexel/src/decimal/decimal_ext.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..8a6d108 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -267,7 +267,7 @@ impl DecimalExt for Decimal {
             return None;
         }
 
-        if self == consts::TWO || self == consts::ONE || self == consts::ZERO {
+        if self == consts::ONE || self == consts::ZERO {
             return Some(Decimal::one());
         }
 
@@ -278,13 +278,14 @@ impl DecimalExt for Decimal {
         let mut result = self;
         let mut n = self - Decimal::one();
 
-        while n > Decimal::zero() {
+        while n > Decimal::one() {
             result = result.checked_mul(n)?;
             n -= Decimal::one();
         }
 
-        if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+        // Remaining factor in the range (0, 1]
+        if !n.is_one() {
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
-- 
2.43.0


From 1ed484a188f2405d28541295472103732009ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 13/53] fix: sum, product and avg of decimals panicked on
 overflow

---
 prexel/src/decimal/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..c7f5fdb 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -539,7 +539,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(*n + *cur);
+                        result = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -566,7 +569,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(n * cur);
+                        result = Some(
+                            n.checked_mul(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -593,7 +599,10 @@ mod math_ops {
                 match sum {
                     None => sum = Some(*cur),
                     Some(ref n) => {
-                        sum = Some(*n + *cur);
+                        sum = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
-- 
2.43.0


From e58d3c69e8f426f31d47ef3106e5ee558a48968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 14/53] fix: decimal powers panicked on a negative power of
 zero or a huge exponent, and overflowed too early

---
 prexel/src/decimal/decimal_ext.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 8a6d108..5e19c25 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -67,7 +67,7 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
+            return self.checked_powi(exponent.to_i64()?);
         }
 
         if self.is_zero() {
@@ -99,7 +99,7 @@ impl DecimalExt for Decimal {
         }
 
         if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
+            return Self::checked_powi(self.checked_inv()?, exponent.checked_neg()?);
         }
 
         let mut result = Decimal::one();
@@ -112,8 +112,12 @@ impl DecimalExt for Decimal {
                 exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            // The last square is not used, and may overflow
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
-- 
2.43.0


From 9f23a5fb14a026d42ded67986390dbc6f16c4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 15/53] fix: a fractional power of the decimal zero was one

---
 prexel/src/decimal/decimal_ext.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 5e19c25..cd51708 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -71,7 +71,11 @@ impl DecimalExt for Decimal {
         }
 
         if self.is_zero() {
-            return Some(Decimal::one());
+            return if exponent > Decimal::zero() {
+                Some(self)
+            } else {
+                None
+            };
         }
 
         if self.is_one() {
-- 
2.43.0


From 6f31c351e5b486d6de78b19c26122c616d1509d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 16/53] fix: to_degrees of a large decimal panicked

---
 prexel/src/decimal/decimal_ext.rs | 6 ++++++
 prexel/src/decimal/mod.rs         | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index cd51708..5e8b741 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -10,6 +10,7 @@ pub trait DecimalExt {
     fn is_integer(&self) -> bool;
     fn to_radians(&self) -> Decimal;
     fn to_degrees(&self) -> Decimal;
+    fn checked_to_degrees(&self) -> Option<Decimal>;
     fn inv(self) -> Decimal;
     fn checked_inv(self) -> Option<Decimal>;
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal>;
@@ -51,6 +52,11 @@ impl DecimalExt for Decimal {
         (self * (dec!(180) / consts::PI)).approx()
     }
 
+    #[inline]
+    fn checked_to_degrees(&self) -> Option<Decimal> {
+        self.checked_mul(dec!(180) / consts::PI).map(|n| n.approx())
+    }
+
     #[inline]
     fn inv(self) -> Decimal {
         consts::ONE / self
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index c7f5fdb..2ca6d96 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -699,9 +699,9 @@ mod math_ops {
 
     pub struct ToDegreesFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees, Description::ToDegrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees, Description::ToDegrees);
 }
 
 mod trig_ops {
-- 
2.43.0


From fd50599b06cb7be117833814cd048dbbdca1e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 17/53] fix: csc, sec and cot of decimals returned sin, cos and
 tan

---
 prexel/src/decimal/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2ca6d96..4f6da70 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -756,7 +756,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -863,7 +863,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
-- 
2.43.0


From 991e758b17f8101e1b26d9b2829aaa275c3be72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 18/53] fix: asin and acos of decimals took their argument as
 an angle in degrees

---
 prexel/src/decimal/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 4f6da70..32282c0 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -1029,15 +1029,15 @@ mod trig_ops {
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ASinFunction, asin);
+    forward_checked_func_impl!(ASinFunction, asin);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ASinFunction, asin, Description::ASin);
+    forward_checked_func_impl!(ASinFunction, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ACosFunction, acos);
+    forward_checked_func_impl!(ACosFunction, acos);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ACosFunction, acos, Description::ACos);
+    forward_checked_func_impl!(ACosFunction, acos, Description::ACos);
 
     pub struct ATanFunction;
     impl Function<Decimal> for ATanFunction {
-- 
2.43.0


From ee64267ec7fab2f17af5aa0e0a42463eb3756405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 19/53] fix: acsc and asec of the decimal zero panicked

---
 prexel/src/decimal/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 32282c0..888e0be 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -954,8 +954,8 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(|n| n.$method_name())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1009,8 +1009,8 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(|n| n.$method_name())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
-- 
2.43.0


From 54d8db52cd9970a4e17eec8a33bf8856c76e8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 20/53] fix: acot of decimals returned atan

---
 prexel/src/decimal/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 888e0be..32a79b4 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -929,7 +929,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(|n| n.$method_name())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -980,7 +983,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(|n| n.$method_name())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
-- 
2.43.0


From 4218975e82630cbe1a787a26b2f093d0367ab273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 21/53] fix: decimal atan of two arguments was wrong over the
 vertical axis, and panicked close to it

---
 prexel/src/decimal/decimal_ext.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 5e8b741..8e5510a 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -469,14 +469,19 @@ impl DecimalExt for Decimal {
 
         if x.is_zero() {
             return if self > consts::ZERO {
-                consts::PI_2
+                consts::PI_FRACT_2
             } else {
-                consts::PI_2_MINUS
+                -consts::PI_FRACT_2
             };
         }
 
         // Θ = arctan(y / x)
-        let atan2 = Decimal::atan(self / x);
+        let atan2 = match self.checked_div(x) {
+            Some(n) => Decimal::atan(n),
+            // The quotient is too large to be represented
+            None if self.is_sign_negative() == x.is_sign_negative() => consts::PI_FRACT_2,
+            None => -consts::PI_FRACT_2,
+        };
 
         if x > consts::ZERO {
             atan2
-- 
2.43.0


From 6e76e7d6762c2894daf198e6c23d9e38bcce7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 22/53] fix: asinh, acosh and atanh of decimals panicked on
 overflow and at the limits of its domain

---
 prexel/src/decimal/decimal_ext.rs | 18 ++++++++++++++----
 prexel/src/decimal/mod.rs         |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 8e5510a..57015b0 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -32,6 +32,7 @@ pub trait DecimalExt {
     fn cosh(self) -> Option<Decimal>;
     fn tanh(self) -> Option<Decimal>;
     fn asinh(self) -> Decimal;
+    fn checked_asinh(self) -> Option<Decimal>;
     fn acosh(self) -> Option<Decimal>;
     fn atanh(self) -> Option<Decimal>;
 }
@@ -514,9 +515,18 @@ impl DecimalExt for Decimal {
     }
 
     fn asinh(self) -> Decimal {
+        self.checked_asinh().unwrap()
+    }
+
+    fn checked_asinh(self) -> Option<Decimal> {
+        // asinh(-x) = -asinh(x)
+        if self < consts::ZERO {
+            return self.neg().checked_asinh().map(Decimal::neg);
+        }
+
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 + consts::ONE).unwrap()).unwrap()
+        let x2 = self.checked_mul(self)?.checked_add(consts::ONE)?;
+        Decimal::checked_ln(self + Decimal::checked_sqrt(x2)?)
     }
 
     fn acosh(self) -> Option<Decimal> {
@@ -525,7 +535,7 @@ impl DecimalExt for Decimal {
         }
 
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
-        let x2 = self * self;
+        let x2 = self.checked_mul(self)?;
         Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
     }
 
@@ -537,7 +547,7 @@ impl DecimalExt for Decimal {
         // formula: atanh(x) = 0.5 * ln((1 + x)/(1 - x))
         let x0 = consts::ONE + self;
         let x1 = consts::ONE - self;
-        Decimal::checked_ln(x0 / x1)?.checked_mul(consts::HALF)
+        Decimal::checked_ln(x0.checked_div(x1)?)?.checked_mul(consts::HALF)
     }
 }
 
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 32a79b4..040d400 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -1125,9 +1125,9 @@ mod trig_ops {
     //////////////////// Inverse Hyperbolic Trigonometric ////////////////////
     pub struct ASinhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ASinhFunction, asinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ASinhFunction, asinh, Description::ASinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh, Description::ASinh);
 
     pub struct ACoshFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 6937cb42bec3b7488f774e2fe6aab98b04651cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 23/53] fix: acsch, asech and acoth of decimals inverted the
 result instead of the argument

---
 prexel/src/decimal/mod.rs | 64 ++++-----------------------------------
 1 file changed, 6 insertions(+), 58 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 040d400..8912bd0 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -142,30 +142,6 @@ macro_rules! forward_func_impl {
     };
 }
 
-#[cfg(not(feature = "docs"))]
-macro_rules! forward_func_inv_impl {
-    ($struct_name:ident, $method_name:ident, $name:ident) => {
-        impl Function<Decimal> for $struct_name {
-            #[inline]
-            fn name(&self) -> &str {
-                stringify!($name)
-            }
-
-            #[inline]
-            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
-                match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
-                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-                }
-            }
-        }
-    };
-
-    ($struct_name:ident, $method_name:ident) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name);
-    };
-}
-
 #[cfg(feature = "docs")]
 macro_rules! forward_checked_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
@@ -256,34 +232,6 @@ macro_rules! forward_func_impl {
     };
 }
 
-#[cfg(feature = "docs")]
-macro_rules! forward_func_inv_impl {
-    ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
-        impl Function<Decimal> for $struct_name {
-            #[inline]
-            fn name(&self) -> &str {
-                stringify!($name)
-            }
-
-            #[inline]
-            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
-                match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
-                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-                }
-            }
-
-            fn description(&self) -> Option<&str> {
-                Some($description.into())
-            }
-        }
-    };
-
-    ($struct_name:ident, $method_name:ident, $description:expr) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name, $description);
-    };
-}
-
 pub mod ops {
     pub use super::math_ops::*;
     pub use super::trig_ops::*;
@@ -1143,21 +1091,21 @@ mod trig_ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch);
+    impl_checked_arc_trig_rec!(ACschFunction, checked_asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch, Description::ACsch);
+    impl_checked_arc_trig_rec!(ACschFunction, checked_asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech);
+    impl_checked_arc_trig_rec!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech, Description::ASech);
+    impl_checked_arc_trig_rec!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth);
+    impl_checked_arc_trig_rec!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth, Description::ACoth);
+    impl_checked_arc_trig_rec!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From fea5d4a7b0767bbb31acc02bb4c11b194c8f09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 24/53] fix: a decimal division by zero was reported as an
 overflow

---
 prexel/src/decimal/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 8912bd0..be23f56 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -358,6 +358,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_div(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
@@ -387,6 +391,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_rem(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
-- 
2.43.0


From 8e152d6464164fe818ad297d600a067744c5dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 25/53] fix: ln of a decimal lower than 0.1 was inaccurate

---
 prexel/src/decimal/decimal_ext.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 57015b0..308e7ad 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -218,6 +218,13 @@ impl DecimalExt for Decimal {
             return Some(result);
         }
 
+        // The series below converges too slowly close to 0
+        // ln(x) = ln(x * 10) - log(10)
+        if self < consts::ONE.checked_div(consts::TEN)? {
+            let lna = Self::checked_ln(self.checked_mul(consts::TEN)?)?;
+            return lna.checked_sub(consts::LN_10);
+        }
+
         // See: https://en.wikipedia.org/wiki/Logarithm#Power_series
         // Error: ~0.0000000000000000000000000007
         const ITERATIONS: u32 = consts::TAYLOR_SERIES_ITERATIONS * 10;
-- 
2.43.0


From abb8d451b180d1de478c6f780179ab59820a1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 26/53] fix: exp of a large decimal was inaccurate

---
 prexel/src/decimal/decimal_ext.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 308e7ad..2b7af4a 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -256,6 +256,14 @@ impl DecimalExt for Decimal {
 
         debug_assert!(consts::TAYLOR_SERIES_ITERATIONS > 0);
 
+        // The continued fraction is only accurate for small values
+        // e^(n + x) = e^n * e^x
+        if self.abs() > Decimal::one() {
+            let n = self.trunc();
+            let a = consts::E.checked_powi(n.to_i64()?)?;
+            return a.checked_mul((self - n).checked_exp()?);
+        }
+
         // Using Continued fraction
         // https://en.wikipedia.org/wiki/Exponential_function#Continued_fractions_for_ex
         let a0 = self.checked_mul(self)?;
-- 
2.43.0


From cc1763bee42ff408545eed3fc2149574e1eb117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 27/53] fix: cbrt of zero and of large decimals was an overflow

---
 prexel/src/decimal/decimal_ext.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 2b7af4a..c5e93e2 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -160,11 +160,12 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_cbrt(self) -> Option<Decimal> {
-        if self.is_one() {
+        if self.is_one() || self.is_zero() {
             return Some(self);
         }
 
-        let mut x = Decimal::one();
+        // Initial approximation
+        let mut x = Decimal::from_f64(self.to_f64()?.cbrt())?;
 
         // Using Newton's Method
         // See: https://en.wikipedia.org/wiki/Cube_root#Numerical_methods
-- 
2.43.0


From bb313c4f13997eab23bc3753de70b8efdd33af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 28/53] fix: log of complex numbers only accepted a base with
 an imaginary part, and ignored it

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..1cc4b59 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -51,7 +51,7 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
-                    n if !n.is_zero() => {
+                    n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From f30a7e3209032925dadef645a1153567a5e856e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 29/53] fix: random of complex numbers accepted min > max and
 rejected negative limits

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 1cc4b59..3a7a928 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -110,7 +110,7 @@ pub mod ops {
                 2 => {
                     let min = try_get_real(&args[0])?;
                     let max = try_get_real(&args[1])?;
-                    if min.is_sign_negative() || max.is_sign_negative(){
+                    if min > max {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid `Random` arguments: `min > max`, {} > {}", min, max)
-- 
2.43.0


From 4920b11a4beaf6e2048fd7bdaf72ed7f6a401d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 30/53] fix: the inverse reciprocal functions of complex
 numbers inverted the result instead of the argument

---
 prexel/src/complex/mod.rs | 64 +++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 3a7a928..8b42f82 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -227,6 +227,46 @@ pub mod ops {
         };
     }
 
+    #[cfg(not(feature = "docs"))]
+    macro_rules! forward_impl_arc_func_inv {
+        ($t:ty, $method_name:ident, $name:ident) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
+    #[cfg(feature = "docs")]
+    macro_rules! forward_impl_arc_func_inv {
+        ($t:ty, $method_name:ident, $name:ident, $description:expr) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -305,21 +345,21 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACscFunction, asin, acsc);
+    forward_impl_arc_func_inv!(ACscFunction, asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_arc_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASecFunction, acos, asec);
+    forward_impl_arc_func_inv!(ASecFunction, acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_arc_func_inv!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACotFunction, atan, acot);
+    forward_impl_arc_func_inv!(ACotFunction, atan, acot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACotFunction, atan, acot, Description::ACot);
+    forward_impl_arc_func_inv!(ACotFunction, atan, acot, Description::ACot);
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
 
@@ -381,21 +421,21 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch);
+    forward_impl_arc_func_inv!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_arc_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASechFunction, acosh, asech);
+    forward_impl_arc_func_inv!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASechFunction, acosh, asech, Description::ASech);
+    forward_impl_arc_func_inv!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth);
+    forward_impl_arc_func_inv!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_impl_arc_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From d303016d25d0af967d0562ea33b44fa856f056dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 31/53] fix: binary shifts by a negative or too large amount
 panicked

---
 prexel/src/binary/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..30baf18 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,7 +102,9 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use crate::error::{Error, ErrorKind};
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
+    use std::convert::TryFrom;
 
     pub struct NotFunction;
     impl UnaryFunction<Binary> for NotFunction {
@@ -395,7 +397,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shr(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
@@ -422,7 +428,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shl(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
-- 
2.43.0


From f3ee4c28c53639975fda28c3ac894eeb48ba316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 32/53] fix: case insensitive strings that are equal had
 different hashes if not ASCII

---
 prexel/src/utils/ignore_case_str.rs    | 4 ++--
 prexel/src/utils/ignore_case_string.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..27b614c 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,8 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..ade8082 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,8 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
-- 
2.43.0


From aa9578b5cf8f89474f00ff2c6dd503320f12632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 33/53] fix: adding a function panicked if an alias was in use,
 and left it partially added

---
 prexel/src/context.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..11063d7 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -187,11 +187,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Nothing is added if any of the names is already in use
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -216,11 +219,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Nothing is added if any of the names is already in use
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -256,11 +262,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Nothing is added if any of the names is already in use
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From 4c6dce30b6d3fe52b0a954c4223c40a5dc7f94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 34/53] fix: the subtraction implemented by the numeric traits
 macros was an addition

---
 prexel/src/numeric_traits/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 2542ae8..08858a4 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -22,7 +22,7 @@ macro_rules! impl_unchecked_num_traits_with_field {
             fn sub(self, other: Self) -> Self {
                 let x = self.$field;
                 let y = other.$field;
-                Self::from(x + y)
+                Self::from(x - y)
             }
         }
 
-- 
2.43.0


From b48d095d3a3e3bff37d6039fc790397284d6d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 35/53] fix: the sign of zero was one

---
 prexel/src/ops/mod.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index f0720ab..6528c1f 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -552,11 +552,33 @@ mod math_ops {
     forward_func_impl!(RoundFunction, round, Description::Round);
 
     pub struct SignFunction;
-    #[cfg(not(feature = "docs"))]
-    forward_func_impl!(SignFunction, signum, sign);
+    impl<N: ToPrimitive + FromPrimitive> Function<N> for SignFunction {
+        #[cfg(not(feature = "docs"))]
+        fn name(&self) -> &str {
+            "sign"
+        }
 
-    #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, Description::Sign);
+        #[cfg(feature = "docs")]
+        fn name(&self) -> &str {
+            "signum"
+        }
+
+        fn call(&self, args: &[N]) -> Result<N> {
+            if args.len() != 1 {
+                return Err(Error::from(ErrorKind::InvalidArgumentCount));
+            }
+
+            // `f64::signum` of zero is one
+            let n = try_to_float(&args[0])?;
+            let result = if n == 0_f64 { 0_f64 } else { n.signum() };
+            N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
+        }
+
+        #[cfg(feature = "docs")]
+        fn description(&self) -> Option<&str> {
+            Some(Description::Sign.into())
+        }
+    }
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 8b82f529a7cce390c6bb195a0712aebcc9e3744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 36/53] fix: the REPL panicked with a history of size 0

---
 eval/src/collections/carray.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..f5d7139 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -18,6 +18,10 @@ impl<T> CircularArray<T> {
     }
 
     pub fn push(&mut self, item: T) {
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From c3faa62a09b80fd97ba888c0af9f79b64b1b0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 37/53] fix: the server listed the decimal operators, functions
 and constants for floats

---
 prexel-server/src/endpoints/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index aac1cb1..046f4ed 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -66,7 +66,7 @@ pub async fn get_operators(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(operators))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let operators = services::get_operators(&context);
             Ok(HttpResponse::Ok().json(operators))
         }
@@ -100,7 +100,7 @@ pub async fn get_constants(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(constants))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let constants = services::get_constants(&context);
             Ok(HttpResponse::Ok().json(constants))
         }
@@ -134,7 +134,7 @@ pub async fn get_functions(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(functions))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let functions = services::get_functions(&context);
             Ok(HttpResponse::Ok().json(functions))
         }
-- 
2.43.0


From 9644fb66be985afa693e7a349985041d55257190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 38/53] fix: the REPL took the comparison operators as
 assignments

---
 eval/src/repl/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/eval/src/repl/mod.rs b/eval/src/repl/mod.rs
index 1bfde3f..0adb182 100644
--- a/eval/src/repl/mod.rs
+++ b/eval/src/repl/mod.rs
@@ -88,7 +88,7 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
             }
 
             // Assign a variable
-            _ if expression.contains('=') => {
+            _ if is_assignment(expression) => {
                 let parts = expression
                     .split('=')
                     .map(|s| s.trim().to_owned())
@@ -130,6 +130,14 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
     });
 }
 
+/// Checks if the expression is an assignment, and not just a comparison.
+fn is_assignment(expression: &str) -> bool {
+    ["==", "!=", "<=", ">="]
+        .iter()
+        .fold(expression.to_owned(), |s, operator| s.replace(operator, ""))
+        .contains('=')
+}
+
 fn repl_tokenizer<'a, N>(is_binary: bool) -> Tokenizer<'a, N>
     where
         N: FromStr + Clone + Display + Debug + 'a,
-- 
2.43.0


From c459f88d0eeb21a199c7a9862aaa4c1743e3c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 39/53] fix: integer powers above 2^53 were inexact

---
 prexel/src/ops/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 6528c1f..f813140 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -445,6 +445,15 @@ mod math_ops {
 
         fn call(&self, left: N, right: N) -> Result<N> {
             if let (Some(base), Some(exp)) = (left.to_f64(), right.to_f64()) {
+                // A float don't have all the digits of an integer power above 2^53
+                if let (Some(int_base), Some(int_exp)) = (left.to_i128(), right.to_u32()) {
+                    if int_base as f64 == base && int_exp as f64 == exp {
+                        if let Some(n) = int_base.checked_pow(int_exp).and_then(N::from_i128) {
+                            return Ok(n);
+                        }
+                    }
+                }
+
                 N::from_f64(f64::powf(base, exp)).ok_or_else(|| Error::from(ErrorKind::Overflow))
             } else {
                 Err(Error::from(ErrorKind::Overflow))
-- 
2.43.0


From 8bb5a4617fb76e11d3883eb60c816a7773b9c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 40/53] fix: the power of -1 by an odd exponent above 2^53 was
 1

---
 prexel/src/ops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index f813140..18350ff 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -446,9 +446,10 @@ mod math_ops {
         fn call(&self, left: N, right: N) -> Result<N> {
             if let (Some(base), Some(exp)) = (left.to_f64(), right.to_f64()) {
                 // A float don't have all the digits of an integer power above 2^53
-                if let (Some(int_base), Some(int_exp)) = (left.to_i128(), right.to_u32()) {
+                if let (Some(int_base), Some(int_exp)) = (left.to_i128(), right.to_usize()) {
                     if int_base as f64 == base && int_exp as f64 == exp {
-                        if let Some(n) = int_base.checked_pow(int_exp).and_then(N::from_i128) {
+                        let power = num_traits::checked_pow(int_base, int_exp);
+                        if let Some(n) = power.and_then(N::from_i128) {
                             return Ok(n);
                         }
                     }
-- 
2.43.0


From cfe3a345b34ea7146e445e416a050e7236dfb1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 41/53] fix: rounding an integer above 2^53 changed it

---
 prexel/src/ops/mod.rs | 63 +++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 18350ff..eaca2f5 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -533,33 +533,56 @@ mod math_ops {
         }
     }
 
-    pub struct FloorFunction;
-    #[cfg(not(feature = "docs"))]
-    forward_func_impl!(FloorFunction, floor);
+    fn round_with<N: ToPrimitive + FromPrimitive>(n: &N, round: fn(f64) -> f64) -> Result<N> {
+        const MAX_EXACT: f64 = 9_007_199_254_740_992_f64;
+        let value = try_to_float(n)?;
+
+        // From 2^53 all the values are integers, and a float don't have all their digits
+        if value.abs() >= MAX_EXACT {
+            if let Some(n) = n.to_i128().and_then(N::from_i128) {
+                return Ok(n);
+            }
+        }
 
-    #[cfg(feature = "docs")]
-    forward_func_impl!(FloorFunction, floor, Description::Floor);
+        N::from_f64(round(value.approx())).ok_or_else(|| Error::from(ErrorKind::Overflow))
+    }
 
-    pub struct CeilFunction;
-    #[cfg(not(feature = "docs"))]
-    forward_func_impl!(CeilFunction, ceil);
+    macro_rules! rounding_func_impl {
+        ($func_name:ident, $method_name:ident, $name:expr, $description:ident) => {
+            impl<N: ToPrimitive + FromPrimitive> Function<N> for $func_name {
+                fn name(&self) -> &str {
+                    $name
+                }
 
-    #[cfg(feature = "docs")]
-    forward_func_impl!(CeilFunction, ceil, Description::Ceil);
+                fn call(&self, args: &[N]) -> Result<N> {
+                    if args.len() != 1 {
+                        Err(Error::from(ErrorKind::InvalidArgumentCount))
+                    } else {
+                        round_with(&args[0], f64::$method_name)
+                    }
+                }
 
-    pub struct TruncateFunction;
-    #[cfg(not(feature = "docs"))]
-    forward_func_impl!(TruncateFunction, trunc, truncate);
+                #[cfg(feature = "docs")]
+                fn description(&self) -> Option<&str> {
+                    Some(Description::$description.into())
+                }
+            }
+        };
+    }
 
-    #[cfg(feature = "docs")]
-    forward_func_impl!(TruncateFunction, trunc, Description::Truncate);
+    const TRUNCATE_NAME: &str = if cfg!(feature = "docs") { "trunc" } else { "truncate" };
 
-    pub struct RoundFunction;
-    #[cfg(not(feature = "docs"))]
-    forward_func_impl!(RoundFunction, round);
+    pub struct FloorFunction;
+    rounding_func_impl!(FloorFunction, floor, "floor", Floor);
 
-    #[cfg(feature = "docs")]
-    forward_func_impl!(RoundFunction, round, Description::Round);
+    pub struct CeilFunction;
+    rounding_func_impl!(CeilFunction, ceil, "ceil", Ceil);
+
+    pub struct TruncateFunction;
+    rounding_func_impl!(TruncateFunction, trunc, TRUNCATE_NAME, Truncate);
+
+    pub struct RoundFunction;
+    rounding_func_impl!(RoundFunction, round, "round", Round);
 
     pub struct SignFunction;
     impl<N: ToPrimitive + FromPrimitive> Function<N> for SignFunction {
-- 
2.43.0


From 2010ab1131669cf2a7f71521eefaa9b7679ac6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 42/53] fix: the decimal square root and factorial of -0 were
 overflows

---
 prexel/src/decimal/decimal_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index c5e93e2..fbd501a 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -135,7 +135,7 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_sqrt(self) -> Option<Decimal> {
-        if self.is_sign_negative() {
+        if self < consts::ZERO {
             return None;
         }
 
@@ -294,7 +294,7 @@ impl DecimalExt for Decimal {
         // To reduce errors
         const MAX_DECIMAL_PLACES: u32 = 15;
 
-        if self.is_sign_negative() {
+        if self < consts::ZERO {
             return None;
         }
 
-- 
2.43.0


From d4790ebe71b103a32982189f80733cbf646648ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 43/53] fix: the powers of the complex zero were NaN

---
 prexel/src/complex/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 8b42f82..0818be4 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -2,7 +2,7 @@ pub type Complex<T> = num_complex::Complex<T>;
 
 pub mod ops {
     use num_complex::Complex;
-    use num_traits::{Float, FromPrimitive};
+    use num_traits::{Float, FromPrimitive, One, Zero};
     use rand::random;
     use std::fmt::{Display, Debug};
 
@@ -28,6 +28,15 @@ pub mod ops {
         }
 
         fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> {
+            // `powc` takes the logarithm of the base, which gives NaN for zero
+            if left.is_zero() && right.is_zero() {
+                return Ok(Complex::one());
+            }
+
+            if left.is_zero() && right.re > T::zero() {
+                return Ok(Complex::zero());
+            }
+
             Ok(Complex::powc(&left, right))
         }
 
-- 
2.43.0


From f2bd0de1e4bb2c0db6c76fd3e8c3b6c8de5db28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 44/53] fix: the square root of a large decimal may never have
 finished

---
 prexel/src/decimal/decimal_ext.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index fbd501a..86d2c3b 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -146,7 +146,12 @@ impl DecimalExt for Decimal {
         let mut result = Decimal::from_f64(self.to_f64()?.sqrt())?;
         let mut x = Decimal::zero();
 
-        while x != result {
+        // The last digit may never settle
+        for _ in 0..consts::TAYLOR_SERIES_ITERATIONS {
+            if x == result {
+                break;
+            }
+
             x = result;
 
             // result = 0.5 * ( value / x + result )
-- 
2.43.0


From 26cbd302f04208ada44b43f25f76c1c06aa923f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 45/53] fix: asinh and acosh of decimals above 10^14 were
 overflows

---
 prexel/src/decimal/decimal_ext.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 86d2c3b..941ec6c 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -546,8 +546,10 @@ impl DecimalExt for Decimal {
         }
 
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
-        let x2 = self.checked_mul(self)?.checked_add(consts::ONE)?;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2)?)
+        match self.checked_mul(self).and_then(|x2| x2.checked_add(consts::ONE)) {
+            Some(x2) => Decimal::checked_ln(self + Decimal::checked_sqrt(x2)?),
+            None => ln_of_twice(self),
+        }
     }
 
     fn acosh(self) -> Option<Decimal> {
@@ -556,8 +558,10 @@ impl DecimalExt for Decimal {
         }
 
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
-        let x2 = self.checked_mul(self)?;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
+        match self.checked_mul(self) {
+            Some(x2) => Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?),
+            None => ln_of_twice(self),
+        }
     }
 
     fn atanh(self) -> Option<Decimal> {
@@ -595,6 +599,11 @@ impl Approx for Decimal {
     }
 }
 
+/// ln(2x), which is asinh(x) and acosh(x) for an x which square is too large to be represented.
+fn ln_of_twice(x: Decimal) -> Option<Decimal> {
+    Decimal::checked_ln(x)?.checked_add(Decimal::checked_ln(consts::TWO)?)
+}
+
 fn gamma(mut x: Decimal) -> Option<Decimal> {
     //Using Coefficients from: https://mrob.com/pub/ries/lanczos-gamma.html
     const G: Decimal = dec!(4.7421875);
-- 
2.43.0


From fdbac671cbe1205f97ae6a5627a9a16d721ac91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 46/53] fix: the binary context did not compile without the
 docs feature

---
 prexel/src/binary/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index 30baf18..0f43201 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -124,6 +124,7 @@ pub mod math {
             Ok(Binary(!value.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise NOT of the given value.")
         }
@@ -151,6 +152,7 @@ pub mod math {
             Ok(Binary(left.0 & right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise AND of the given values.")
         }
@@ -178,6 +180,7 @@ pub mod math {
             Ok(Binary(left.0 | right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise OR of the given values.")
         }
@@ -205,6 +208,7 @@ pub mod math {
             Ok(Binary(left.0 ^ right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise XOR of the given values.")
         }
@@ -233,6 +237,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are equal, 0 otherwise.")
         }
@@ -261,6 +266,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are not equal, 0 otherwise.")
         }
@@ -289,6 +295,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than the right value, 0 otherwise.")
         }
@@ -317,6 +324,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than the right value, 0 otherwise.")
         }
@@ -345,6 +353,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than or equal to the right value, 0 otherwise.")
         }
@@ -373,6 +382,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than or equal to the right value, 0 otherwise.")
         }
@@ -404,6 +414,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted right by the right value.")
         }
@@ -435,6 +446,7 @@ pub mod math {
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted left by the right value.")
         }
-- 
2.43.0


From 22d2c27539fc8b33618878f2df4b6a19094d68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 47/53] fix: two functions had other names without the docs
 feature

---
 prexel/src/ops/mod.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index eaca2f5..e0b02f1 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -570,8 +570,6 @@ mod math_ops {
         };
     }
 
-    const TRUNCATE_NAME: &str = if cfg!(feature = "docs") { "trunc" } else { "truncate" };
-
     pub struct FloorFunction;
     rounding_func_impl!(FloorFunction, floor, "floor", Floor);
 
@@ -579,19 +577,13 @@ mod math_ops {
     rounding_func_impl!(CeilFunction, ceil, "ceil", Ceil);
 
     pub struct TruncateFunction;
-    rounding_func_impl!(TruncateFunction, trunc, TRUNCATE_NAME, Truncate);
+    rounding_func_impl!(TruncateFunction, trunc, "trunc", Truncate);
 
     pub struct RoundFunction;
     rounding_func_impl!(RoundFunction, round, "round", Round);
 
     pub struct SignFunction;
     impl<N: ToPrimitive + FromPrimitive> Function<N> for SignFunction {
-        #[cfg(not(feature = "docs"))]
-        fn name(&self) -> &str {
-            "sign"
-        }
-
-        #[cfg(feature = "docs")]
         fn name(&self) -> &str {
             "signum"
         }
-- 
2.43.0


From c62f88182802ced65406484b65ca69e21506d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 48/53] fix: splitting adjacent operators took a time cubic on
 their number

---
 prexel/src/tokenizer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index d6bb7ec..69a5c11 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -194,13 +194,16 @@ where
 
 /// Splits a sequence of operators and commas without spaces in between: eg: `*-`, `,-`, `!+`.
 ///
-/// The longest operator is always taken, and the string is returned unchanged
-/// if is a known name or is not entirely made of operators and commas.
+/// The longest operator (up to `MAX_OPERATOR_LEN` characters) is always taken, and the string is
+/// returned unchanged if is a known name or is not entirely made of operators and commas.
 fn split_adjacent_operators<'a, N, C>(string: String, context: &C) -> Vec<String>
 where
     C: Context<'a, N>,
     N: FromStr,
 {
+    // Without a limit the time is cubic on the length of the string
+    const MAX_OPERATOR_LEN: usize = 32;
+
     let is_operator = |s: &str| context.is_binary_function(s) || context.is_unary_function(s);
 
     if string.chars().any(|c| c.is_alphanumeric() || c.is_whitespace())
@@ -219,9 +222,10 @@ where
     while !rest.is_empty() {
         let operator = rest
             .char_indices()
+            .take(MAX_OPERATOR_LEN)
             .map(|(pos, c)| &rest[..pos + c.len_utf8()])
-            .rev()
-            .find(|s| *s == "," || is_operator(s));
+            .filter(|s| *s == "," || is_operator(s))
+            .last();
 
         match operator {
             Some(s) => {
-- 
2.43.0


From c74c78e87d314d152c51c2cc6e156cc6b3bb1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 49/53] fix: a name that can be parsed as a number was ignored

---
 prexel/src/tokenizer.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 69a5c11..41845fd 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -88,7 +88,7 @@ where
 
         while let Some((pos, string)) = iter.next() {
             let parsed_number = N::from_str(string);
-            if parsed_number.is_ok() {
+            if parsed_number.is_ok() && !is_name(string, context) {
                 // `complex_number` is enable in the context, check the next value and
                 // if is the imaginary unit append it to the current number.
                 if context.config().complex_number && iter.peek().map(|s| s.1).contains_str("i") {
@@ -239,6 +239,22 @@ where
     operators
 }
 
+/// Checks if the context has a variable, constant, function or operator with the given name, which
+/// takes precedence over a number: `inf` and `nan` can be parsed to a `f64`.
+fn is_name<'a, N, C>(string: &str, context: &C) -> bool
+where
+    C: Context<'a, N>,
+{
+    let is_imaginary_unit = context.config().complex_number && string == "i";
+
+    !is_imaginary_unit
+        && (context.is_variable(string)
+            || context.is_constant(string)
+            || context.is_function(string)
+            || context.is_unary_function(string)
+            || context.is_binary_function(string))
+}
+
 fn is_unary<'a, N, C>(prev: Option<&str>, cur: &str, next: Option<&str>, context: &C) -> bool
 where
     C: Context<'a, N>,
@@ -257,7 +273,9 @@ where
                     }
 
                     // 10! , PI!, x!
-                    N::from_str(s).is_ok() || context.is_constant(s) || context.is_variable(s)
+                    (N::from_str(s).is_ok() && !is_name(s, context))
+                        || context.is_constant(s)
+                        || context.is_variable(s)
                 }
                 None => false,
             }
@@ -276,7 +294,7 @@ where
                 }
 
                 // 10+, PI-, x+
-                if N::from_str(prev_str).is_ok()
+                if (N::from_str(prev_str).is_ok() && !is_name(prev_str, context))
                     || context.is_variable(prev_str)
                     || context.is_constant(prev_str)
                 {
-- 
2.43.0


From ee65ae82909225004361f94e7108b62066a6e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:03 +0000
Subject: [PATCH 50/53] fix: ignore the whitespace a splitter keeps, which was
 read as operands or unknown tokens

---
 prexel/src/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 41845fd..bba01d7 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -79,6 +79,7 @@ where
             .splitter
             .split_into_tokens(expression)
             .into_iter()
+            .filter(|s| !s.chars().all(char::is_whitespace)) // Ignore whitespaces
             .flat_map(|s| split_adjacent_operators(s, context))
             .collect();
         // Actual iterator over the string tokens.
-- 
2.43.0


From fa320de8d7de9aa852fe22bbbf333f6f94e2e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 51/53] fix: a prefix operator was applied before a postfix one
 on numbers but after it on groups and calls

---
 prexel/src/evaluator.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index b4a123c..c965189 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -330,7 +330,19 @@ mod shunting_yard {
         while let Some((pos, token)) = token_iterator.next() {
             match token {
                 Token::Number(_) | Token::Variable(_) | Token::Constant(_) => {
-                    push_number(context, &mut output, &mut operators, token)
+                    // A postfix operator is applied before the prefix ones: `-3!` is `-(3!)`
+                    let is_postfix_next = token_iterator.peek().map_or(false, |t| match t.1 {
+                        Token::UnaryOperator(op) => context
+                            .get_unary_function(op)
+                            .map_or(false, |f| f.notation() == Notation::Postfix),
+                        _ => false,
+                    });
+
+                    if is_postfix_next {
+                        output.push(token.clone());
+                    } else {
+                        push_number(context, &mut output, &mut operators, token)
+                    }
                 }
                 Token::BinaryOperator(name) => {
                     push_binary_function(context, &mut output, &mut operators, token, name)?;
-- 
2.43.0


From 2945f57f5c20bf35535f359990cd79cd65c89e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:47 +0000
Subject: [PATCH 52/53] fix: log of a complex number with a negative base was
 NaN

---
 prexel/src/complex/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 0818be4..1d7b662 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -61,6 +61,11 @@ pub mod ops {
                 },
                 2 => match args[1].im {
                     n if n.is_zero() => {
+                        // The logarithm of a negative base is not a real number
+                        if args[1].re < T::zero() {
+                            return Ok(args[0].ln() / args[1].ln());
+                        }
+
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From 3d3be89122a8ff175656c81c8a53339d7bc5deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:53 +0000
Subject: [PATCH 53/53] fix: a request followed by anything else was evaluated

---
 prexel-server/src/endpoints/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index 046f4ed..8b9e02c 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -27,7 +27,7 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
     };
 
     let deserializer = &mut serde_json::Deserializer::from_str(&body);
-    let expr = match serde_path_to_error::deserialize(deserializer) {
+    let expr = match serde_path_to_error::deserialize(&mut *deserializer) {
         Ok(expr) => expr,
         Err(err) => {
             let path = err.path().to_string();
@@ -41,6 +41,12 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
         }
     };
 
+    // Nothing may follow the request
+    if deserializer.end().is_err() {
+        return Ok(HttpResponse::BadRequest()
+            .json(EvaluatedExpression::with_error("Invalid json".to_string())));
+    }
+
     let expression = expr;
     let eval_result = services::eval_expression(expression);
     let query = Query::<EvalParams>::from_query(req.query_string()).ok();
-- 
2.43.0

