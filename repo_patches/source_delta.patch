From e2b19e3a686c9f81e9284671cad171552ec1ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 01/85] fix: print the remaining factors of a product that
 starts with two negatives

---
 src/core/display.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/display.rs b/src/core/display.rs
index f33f6ee..4a0e944 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -433,6 +433,11 @@ fn format_product_expr(
                     write!(f, "{sep}")?;
                 }
                 format_negative_part(f, next_neg, mode, ParenContext::SumOrProduct, cache)?;
+                // The sign pair only consumes the first two factors
+                for fac in &factors[2..] {
+                    write!(f, "{sep}")?;
+                    format_wrapped(f, fac, mode, ParenContext::SumOrProduct, cache)?;
+                }
             }
         }
 
-- 
2.43.0


From bfc93d8dfe85a54804f8d7dd0d240ef66d0339d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 02/85] fix: parenthesise a power that is the base of another
 power

---
 src/core/display.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index 4a0e944..c83ea8b 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -189,9 +189,15 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
 }
 
 /// Helper for Power base parenthesis
-fn needs_parens_as_base(expr: &Expr) -> bool {
+fn needs_parens_as_base(expr: &Expr, mode: FormatMode) -> bool {
     match &expr.kind {
         ExprKind::Sum(_) | ExprKind::Product(_) | ExprKind::Div(_, _) | ExprKind::Poly(_) => true,
+        // Power is right-associative, so (a^b)^c needs its parentheses. Outside LaTeX a power
+        // of e is printed as a call, exp(b)^c, which does not.
+        ExprKind::Pow(base, _) => {
+            matches!(mode, FormatMode::Latex)
+                || !matches!(&base.kind, ExprKind::Symbol(s) if s.id() == ks::KS.e)
+        }
         ExprKind::Number(n) => *n < 0.0, // Negative numbers need parens: (-1)^x not -1^x
         _ => false,
     }
@@ -261,7 +267,7 @@ fn format_wrapped(
 ) -> fmt::Result {
     let needs = match context {
         ParenContext::SumOrProduct => matches!(expr.kind, ExprKind::Sum(_) | ExprKind::Poly(_)),
-        ParenContext::PowerBase => needs_parens_as_base(expr),
+        ParenContext::PowerBase => needs_parens_as_base(expr, mode),
     };
 
     if needs {
@@ -555,7 +561,7 @@ fn format_pow_expr(
             return write!(f, "}}");
         }
 
-        if needs_parens_as_base(u) {
+        if needs_parens_as_base(u, mode) {
             write!(f, r"\left(")?;
             format_recursive(f, u, mode, cache)?;
             write!(f, r"\right)^{{")?;
-- 
2.43.0


From 4105e5edeb861bea084918d30d9551b163e2a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 03/85] fix: erf and erfc lose all accuracy for arguments
 beyond 3

---
 src/evaluator/execution.rs   |  4 +-
 src/evaluator/simd.rs        | 10 ++---
 src/functions/definitions.rs |  2 +-
 src/math/dual.rs             |  3 +-
 src/math/special.rs          | 79 ++++++++++++++++++++----------------
 5 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/src/evaluator/execution.rs b/src/evaluator/execution.rs
index f857793..41bc468 100644
--- a/src/evaluator/execution.rs
+++ b/src/evaluator/execution.rs
@@ -422,7 +422,7 @@ impl CompiledEvaluator {
                     }
                     Instruction::Erfc => {
                         let top_ptr = stack_ptr.add(len - 1);
-                        *top_ptr = 1.0 - crate::math::eval_erf(top_ptr.read());
+                        *top_ptr = crate::math::eval_erfc(top_ptr.read());
                     }
                     Instruction::Gamma => {
                         let top_ptr = stack_ptr.add(len - 1);
@@ -990,7 +990,7 @@ impl CompiledEvaluator {
                 Instruction::Erfc => {
                     // SAFETY: Stack operations are validated at compile time.
                     let top = unsafe { stack::scalar_stack_top_mut(stack) };
-                    *top = 1.0 - crate::math::eval_erf(*top);
+                    *top = crate::math::eval_erfc(*top);
                 }
                 Instruction::Gamma => {
                     // SAFETY: Stack operations are validated at compile time.
diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..e93c45d 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -893,10 +893,10 @@ impl CompiledEvaluator {
                 let top = top!();
                 let arr = top.to_array();
                 *top = f64x4::new([
-                    1.0 - crate::math::eval_erf(arr[0]),
-                    1.0 - crate::math::eval_erf(arr[1]),
-                    1.0 - crate::math::eval_erf(arr[2]),
-                    1.0 - crate::math::eval_erf(arr[3]),
+                    crate::math::eval_erfc(arr[0]),
+                    crate::math::eval_erfc(arr[1]),
+                    crate::math::eval_erfc(arr[2]),
+                    crate::math::eval_erfc(arr[3]),
                 ]);
             }
             Instruction::Gamma => {
@@ -1616,7 +1616,7 @@ impl CompiledEvaluator {
             }
             Instruction::Erfc => {
                 let t = top_mut(stack, *len);
-                *t = 1.0 - crate::math::eval_erf(*t);
+                *t = crate::math::eval_erfc(*t);
             }
             Instruction::Gamma => {
                 let t = top_mut(stack, *len);
diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index f88eb28..046509d 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -773,7 +773,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         FunctionDefinition {
             name: "erfc",
             arity: 1..=1,
-            eval: |args| Some(1.0 - crate::math::eval_erf(args[0])),
+            eval: |args| Some(crate::math::eval_erfc(args[0])),
             derivative: |args, arg_primes| {
                 // d/dx erfc(u) = -d/dx erf(u)
                 let u = Arc::clone(&args[0]);
diff --git a/src/math/dual.rs b/src/math/dual.rs
index 32827cf..d1716d9 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -592,8 +592,7 @@ impl<T: MathScalar> Dual<T> {
     /// d/dx erfc(x) = -d/dx erf(x) = -(2/√π) * e^(-x²)
     #[must_use]
     pub fn erfc(self) -> Self {
-        let erf_result = self.erf();
-        Self::new(T::one() - erf_result.val, -erf_result.eps)
+        Self::new(crate::math::eval_erfc(self.val), -self.erf().eps)
     }
 
     /// Gamma function: Γ(x)
diff --git a/src/math/special.rs b/src/math/special.rs
index cb70c2d..957b905 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -2,52 +2,61 @@ use crate::core::traits::MathScalar;
 
 /// Error function erf(x) = (2/√π) ∫₀ˣ e^(-t²) dt
 ///
-/// Uses Taylor series expansion: erf(x) = (2/√π) Σₙ (-1)ⁿ x^(2n+1) / (n!(2n+1))
-/// with Kahan summation for numerical stability.
+/// Uses erf(x) = (2/√π) e^(-x²) Σₙ 2ⁿ x^(2n+1) / (2n+1)!! near the origin (every term has the
+/// same sign, so nothing cancels) and 1 - erfc(x) elsewhere.
 ///
-/// Reference: DLMF §7.6.1 <https://dlmf.nist.gov/7.6#E1>
+/// Reference: DLMF §7.6.2 <https://dlmf.nist.gov/7.6#E2>
 pub fn eval_erf<T: MathScalar>(x: T) -> T {
-    let sign = x.signum();
-    let x = x.abs();
-    // PI is available via FloatConst implementation on T
-    let pi = T::PI();
-    let sqrt_pi = pi.sqrt();
+    if x.is_nan() {
+        return x;
+    }
+    let one = T::one();
     let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
-    let coeff = two / sqrt_pi;
-
-    let mut sum = T::zero();
-    let mut compensation = T::zero(); // Kahan summation
-    let mut factorial = T::one();
-    let mut power = x;
+    let ax = x.abs();
+    if ax >= two {
+        let val = one - erfc_continued_fraction(ax);
+        return if x < T::zero() { -val } else { val };
+    }
 
-    for n in 0..30 {
+    let x2 = x * x;
+    let mut term = x;
+    let mut sum = x;
+    for n in 1..200 {
         let two_n_plus_one =
             T::from_usize(2 * n + 1).expect("Failed to convert small integer to float");
-
-        let term = power / (factorial * two_n_plus_one);
-
-        // Overflow protection: break if term becomes NaN or infinite
-        if term.is_nan() || term.is_infinite() {
+        term *= two * x2 / two_n_plus_one;
+        sum += term;
+        if term.abs() <= T::epsilon() * sum.abs() {
             break;
         }
+    }
+    two / T::PI().sqrt() * (-x2).exp() * sum
+}
 
-        // Alternating series with Kahan summation
-        let signed_term = if n % 2 == 0 { term } else { -term };
-        let y = signed_term - compensation;
-        let t = sum + y;
-        compensation = (t - sum) - y;
-        sum = t;
-
-        let n_plus_one = T::from_usize(n + 1).expect("Failed to convert loop counter to float");
-        factorial *= n_plus_one;
-        power *= x * x;
+/// Complementary error function erfc(x) = 1 - erf(x), accurate in the upper tail
+///
+/// Reference: DLMF §7.9 <https://dlmf.nist.gov/7.9>
+pub fn eval_erfc<T: MathScalar>(x: T) -> T {
+    if x >= T::one() {
+        erfc_continued_fraction(x)
+    } else {
+        T::one() - eval_erf(x)
+    }
+}
 
-        // Check convergence using machine epsilon
-        if term.abs() < T::epsilon() {
-            break;
-        }
+/// erfc(x) for x ≥ 1: e^(-x²)/√π · 1/(x + (1/2)/(x + 1/(x + (3/2)/(x + ...))))
+fn erfc_continued_fraction<T: MathScalar>(x: T) -> T {
+    if x.is_infinite() {
+        return T::zero();
+    }
+    let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
+    let depth = if x < two { 200 } else { 60 };
+    let mut f = x;
+    for k in (1..=depth).rev() {
+        let k_t = T::from_usize(k).expect("Failed to convert small integer to float");
+        f = x + k_t / (two * f);
     }
-    sign * coeff * sum
+    (-x * x).exp() / (T::PI().sqrt() * f)
 }
 
 /// Gamma function Γ(x) using Lanczos approximation with g=7
-- 
2.43.0


From 003b2759a07892b236daf0d3fb0ec116da308b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 04/85] fix: gamma overflows for arguments between 143 and 171

---
 src/math/special.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 957b905..84af3dc 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -113,7 +113,9 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
         }
         let t = x + g + half;
         let two_pi_sqrt = (T::from_f64(2.0).expect("Failed to convert constant 2.0") * pi).sqrt();
-        Some(two_pi_sqrt * t.powf(x + half) * (-t).exp() * ag)
+        // t^(x+1/2) alone overflows long before Γ does
+        let root = t.powf((x + half) * half);
+        Some(two_pi_sqrt * root * (-t).exp() * root * ag)
     }
 }
 
-- 
2.43.0


From 804ef03893f3c088232550df588f6a370028b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 05/85] fix: polygamma family hangs or is wrong at negative
 arguments, tetragamma series is wrong

---
 src/math/special.rs | 165 +++++++++++++++++---------------------------
 1 file changed, 65 insertions(+), 100 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 84af3dc..532ddd3 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -122,7 +122,7 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
 /// Digamma function ψ(x) = Γ'(x)/Γ(x) = d/dx ln(Γ(x))
 ///
 /// Uses asymptotic expansion for large x:
-/// ψ(x) ~ ln(x) - 1/(2x) - 1/(12x²) + 1/(120x⁴) - 1/(252x⁶) + ...
+/// ψ(x) ~ ln(x) - 1/(2x) - 1/(12x²) + 1/(120x⁴) - 1/(252x⁶) + 1/(240x⁸) - ...
 /// Uses reflection formula for x < 0.5: ψ(1-x) - ψ(x) = π cot(πx)
 ///
 /// Reference: DLMF §5.11 <https://dlmf.nist.gov/5.11>
@@ -139,8 +139,8 @@ pub fn eval_digamma<T: MathScalar>(x: T) -> Option<T> {
     }
     let mut xv = x;
     let mut result = T::zero();
-    let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
-    while xv < six {
+    let fifteen = T::from_f64(15.0).expect("Failed to convert constant 15.0");
+    while xv < fifteen {
         result -= one / xv;
         xv += one;
     }
@@ -150,61 +150,54 @@ pub fn eval_digamma<T: MathScalar>(x: T) -> Option<T> {
     let t1 = one / (T::from_f64(12.0).expect("Failed to convert constant 12.0") * x2);
     let t2 = one / (T::from_f64(120.0).expect("Failed to convert constant 120.0") * x2 * x2);
     let t3 = one / (T::from_f64(252.0).expect("Failed to convert constant 252.0") * x2 * x2 * x2);
+    let t4 =
+        one / (T::from_f64(240.0).expect("Failed to convert constant 240.0") * x2 * x2 * x2 * x2);
 
-    Some(result - t1 + t2 - t3)
+    Some(result - t1 + t2 - t3 + t4)
 }
 
 /// Trigamma function ψ₁(x) = d²/dx² ln(Γ(x))
 ///
 /// Uses asymptotic expansion: ψ₁(x) ~ 1/x + 1/(2x²) + 1/(6x³) - 1/(30x⁵) + ...
 /// with recurrence for small x: ψ₁(x) = ψ₁(x+1) + 1/x²
+/// and reflection for negative x: ψ₁(x) = π²/sin²(πx) - ψ₁(1-x)
 ///
 /// Reference: DLMF §5.15 <https://dlmf.nist.gov/5.15>
 pub fn eval_trigamma<T: MathScalar>(x: T) -> Option<T> {
     if x <= T::zero() && x.fract() == T::zero() {
         return None;
     }
+    let one = T::one();
+    if x < T::zero() {
+        let csc = T::PI() / (T::PI() * x.fract()).sin();
+        return Some(csc * csc - eval_trigamma(one - x)?);
+    }
     let mut xv = x;
     let mut r = T::zero();
     let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
-    let one = T::one();
+    let fifteen = T::from_f64(15.0).expect("Failed to convert constant 15.0");
 
-    while xv < six {
+    while xv < fifteen {
         r += one / (xv * xv);
         xv += one;
     }
     let x2 = xv * xv;
     let half = T::from_f64(0.5).expect("Failed to convert constant 0.5");
+    let thirty = T::from_f64(30.0).expect("Failed to convert constant 30.0");
 
     Some(
-        r + one / xv + half / x2 + one / (six * x2 * xv)
-            - one / (T::from_f64(30.0).expect("Failed to convert constant 30.0") * x2 * x2 * xv)
+        r + one / xv + half / x2 + one / (six * x2 * xv) - one / (thirty * x2 * x2 * xv)
             + one
-                / (T::from_f64(42.0).expect("Failed to convert constant 42.0") * x2 * x2 * x2 * xv),
+                / (T::from_f64(42.0).expect("Failed to convert constant 42.0") * x2 * x2 * x2 * xv)
+            - one / (thirty * x2 * x2 * x2 * x2 * xv),
     )
 }
 
 /// Tetragamma function ψ₂(x) = d³/dx³ ln(Γ(x))
 ///
-/// Uses asymptotic expansion with recurrence for small x.
-///
 /// Reference: DLMF §5.15 <https://dlmf.nist.gov/5.15>
 pub fn eval_tetragamma<T: MathScalar>(x: T) -> Option<T> {
-    if x <= T::zero() && x.fract() == T::zero() {
-        return None;
-    }
-    let mut xv = x;
-    let mut r = T::zero();
-    let six = T::from(6.0).expect("Failed to convert mathematical constant");
-    let one = T::one();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-
-    while xv < six {
-        r -= two / (xv * xv * xv);
-        xv += one;
-    }
-    let x2 = xv * xv;
-    Some(r - one / x2 + one / (x2 * xv) + one / (two * x2 * x2) + one / (six * x2 * x2 * xv))
+    eval_polygamma(2, x)
 }
 
 /// Riemann zeta function ζ(s) = Σ_{n=1}^∞ 1/n^s
@@ -675,100 +668,72 @@ pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
     match n {
         0 => eval_digamma(x),
         1 => eval_trigamma(x),
-        // For n >= 2, use general formula (tetragamma had accuracy issues)
         _ => {
             if x <= T::zero() && x.fract() == T::zero() {
                 return None;
             }
-            let mut xv = x;
-            let mut r = T::zero();
             // ψ^(n)(x) = (-1)^(n+1) * n! * Σ_{k=0}^∞ 1/(x+k)^(n+1)
             let sign = if (n + 1) % 2 == 0 {
                 T::one()
             } else {
                 -T::one()
             };
-
-            // Factorial up to n
+            let one = T::one();
             let mut factorial = T::one();
             for i in 1..=n {
                 factorial *= T::from_i32(i).expect("Failed to convert factorial counter");
             }
 
-            let fifteen = T::from_f64(15.0).expect("Failed to convert constant 15.0");
-            let one = T::one();
-            let n_plus_one = n + 1;
-
-            while xv < fifteen {
-                // r += sign * factorial / xv^(n+1)
-                r += sign * factorial / xv.powi(n_plus_one);
-                xv += one;
+            // The expansion is used from here on
+            let bound = T::from_i32(15 + n.min(1000)).expect("Failed to convert shift bound");
+            let mut xv = x;
+            let mut r = T::zero();
+            if x < -bound {
+                // The terms with x+k <= -bound mirror a difference of two upper tails
+                xv = x + (-bound - x).floor() + one;
+                r += polygamma_tail(n, one - xv) - polygamma_tail(n, one - x);
             }
-
-            let asym_sign = if n % 2 == 0 { -T::one() } else { T::one() };
-            // Fix: Store as (num, den) tuples to compute exact T values avoiding f64 truncation
-            // B2=1/6, B4=-1/30, B6=1/42, B8=-1/30, B10=5/66
-            let bernoulli_pairs = [
-                (1.0, 6.0),
-                (-1.0, 30.0),
-                (1.0, 42.0),
-                (-1.0, 30.0),
-                (5.0, 66.0),
-            ];
-
-            // (n-1)!
-            let mut n_minus_1_fact = T::one();
-            if n > 1 {
-                for i in 1..n {
-                    n_minus_1_fact *= T::from_i32(i).expect("Failed to convert factorial counter");
-                }
+            while xv < bound {
+                r += sign * factorial / xv.powi(n + 1);
+                xv += one;
             }
 
-            // term 1: (n-1)! / xv^n
-            let mut sum = n_minus_1_fact / xv.powi(n);
-            // term 2: n! / (2 xv^(n+1))
-            let two = T::from(2.0).expect("Failed to convert mathematical constant");
-            sum += factorial / (two * xv.powi(n_plus_one));
-
-            let mut xpow = xv.powi(n + 2);
-            let mut fact_ratio =
-                factorial * T::from(n + 1).expect("Failed to convert mathematical constant");
-
-            let mut prev_term_abs = T::max_value();
-
-            for (k, &(b_num, b_den)) in bernoulli_pairs.iter().enumerate() {
-                #[allow(clippy::cast_possible_wrap, reason = "k is small and within i32 range")]
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "k is small and within i32 range"
-                )]
-                let k_plus_1 = (k + 1) as i32;
-                let two_k: i32 = 2 * k_plus_1;
-                // (2k)!
-                let mut factorial_2k = T::one();
-                for i in 1..=two_k {
-                    factorial_2k *= T::from(i).expect("Failed to convert mathematical constant");
-                }
+            Some(r + sign * polygamma_tail(n, xv))
+        }
+    }
+}
 
-                let val_bk = T::from_f64(b_num).expect("Failed to convert Bernoulli numerator")
-                    / T::from_f64(b_den).expect("Failed to convert Bernoulli denominator");
-                let term = val_bk * fact_ratio / (factorial_2k * xpow);
+/// n! Σ_{k=0}^∞ 1/(x+k)^(n+1) for large x, by its asymptotic expansion
+fn polygamma_tail<T: MathScalar>(n: i32, x: T) -> T {
+    // Store as (num, den) tuples to compute exact T values avoiding f64 truncation
+    // B2=1/6, B4=-1/30, B6=1/42, B8=-1/30, B10=5/66
+    const BERNOULLI: [(f64, f64); 5] =
+        [(1.0, 6.0), (-1.0, 30.0), (1.0, 42.0), (-1.0, 30.0), (5.0, 66.0)];
 
-                if term.abs() > prev_term_abs {
-                    break;
-                }
-                prev_term_abs = term.abs();
-                sum += term;
-
-                xpow *= xv * xv;
-                let next_factor1 =
-                    T::from(n + two_k).expect("Failed to convert mathematical constant");
-                let next_factor2 =
-                    T::from(n + two_k + 1).expect("Failed to convert mathematical constant");
-                fact_ratio *= next_factor1 * next_factor2;
-            }
-
-            Some(r + asym_sign * sum)
+    let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
+    // (n-1)! / x^n
+    let mut lead = T::one() / x;
+    for i in 1..n {
+        lead *= T::from_i32(i).expect("Failed to convert factorial counter") / x;
+    }
+    let n_t = T::from_i32(n).expect("Failed to convert order");
+    let mut sum = lead + lead * n_t / (two * x);
+
+    // (n+2k-1)! / ((2k)! x^(n+2k)), starting from k = 0
+    let mut ratio = lead;
+    let mut prev_term_abs = T::max_value();
+    for (k, &(b_num, b_den)) in BERNOULLI.iter().enumerate() {
+        let two_k = T::from_usize(2 * k).expect("Failed to convert small integer to float");
+        let one = T::one();
+        ratio *= (n_t + two_k) * (n_t + two_k + one) / ((two_k + one) * (two_k + two) * x * x);
+        let b = T::from_f64(b_num).expect("Failed to convert Bernoulli numerator")
+            / T::from_f64(b_den).expect("Failed to convert Bernoulli denominator");
+        let term = b * ratio;
+        if term.abs() > prev_term_abs {
+            break;
         }
+        prev_term_abs = term.abs();
+        sum += term;
     }
+    sum
 }
-- 
2.43.0


From a7a146b926ddc7f0cab7baafdd224914b2138415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 06/85] fix: zeta series is too short for its stated precision

---
 src/math/special.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 532ddd3..70a6f9d 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -300,7 +300,7 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
     let one = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
     let four = T::from(4.0).expect("Failed to convert mathematical constant");
-    let n = 14; // Optimal for double precision (~18 digits)
+    let n = 22; // (3+√8)^22 ≈ 7e16: full double precision
 
     // Compute denominator: 1 - 2^(1-s)
     let denom = one - two.powf(one - s);
-- 
2.43.0


From 12448cab6eb678f26cc797961175d0118c3ba653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 07/85] fix: modified Bessel K_0 and K_1 use wrong coefficients
 and logarithm

---
 src/math/bessel.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index da5146a..e5a8c7a 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -630,7 +630,7 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.000_007_4,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         -0.078_323_58,
         0.021_895_68,
@@ -638,7 +638,6 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.005_878_72,
         -0.002_515_40,
         0.000_532_08,
-        -0.000_025_200,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -670,7 +669,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.000_046_86,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         0.234_986_19,
         -0.036_556_20,
@@ -678,7 +677,6 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.007_803_53,
         0.003_256_14,
         -0.000_682_45,
-        0.000_031_6,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -686,7 +684,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         let four = T::from(4.0).expect("Failed to convert mathematical constant");
         let y = x * x / four;
 
-        let term1 = x.ln() * bessel_i1(x);
+        let term1 = (x / two).ln() * bessel_i1(x);
         let term2 = T::one() / x;
 
         let poly = eval_poly_horner(y, &COEFFS);
-- 
2.43.0


From 9fa7d8135fe00e602904652738eda0a842d3d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 08/85] fix: modified Bessel I_n is normalised by the wrong sum

---
 src/math/bessel.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index e5a8c7a..8634c67 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -428,7 +428,7 @@ pub fn bessel_y1<T: MathScalar>(x: T) -> T {
 /// Modified Bessel function of the first kind `I_n(x)`
 ///
 /// Uses Miller's backward recurrence algorithm for numerical stability.
-/// I_{k-1} = (2k/x) `I_k` + I_{k+1}, normalized using `I_0(x)`.
+/// I_{k-1} = (2k/x) `I_k` + I_{k+1}, normalized using `I_0(x)` + 2 Σ `I_2k(x)` = cosh(x).
 ///
 /// Reference: Numerical Recipes §6.6, A&S §9.6 <https://dlmf.nist.gov/10.25>
 pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
@@ -448,28 +448,26 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     // Miller's backward recurrence algorithm
     // Start from a large order N >> n, set I_N = 0, I_{N-1} = 1
     // Recur backward using: I_{k-1} = (2k/x) * I_k + I_{k+1}
-    // Normalize using I_0(x) as reference
+    // Normalize using I_0(x) + 2 (I_2(x) + I_4(x) + ...) = cosh(x)
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
 
-    // Choose starting order N based on x and n
-    // Empirical formula: N = n + sqrt(40*n) + 10 works well
-    // The factor 40 comes from numerical stability analysis:
-    // - Ensures backward recurrence converges before reaching target order
-    // - Balances computational cost vs. accuracy (see NR §6.6)
-    // - Tested empirically for x ∈ [0.1, 100], n ∈ [0, 100]
-    #[allow(
-        clippy::cast_possible_truncation,
-        reason = "n_abs is i32, sqrt result within safe range"
-    )]
-    let sqrt_term = f64::from(40 * n_abs).sqrt() as i32;
-    let n_start = n_abs + sqrt_term + 10;
-    let n_start = n_start.max(n_abs + 20);
+    let cosh_x = x.cosh();
+    if !cosh_x.is_finite() {
+        return if n_abs % 2 == 1 && x < T::zero() { -cosh_x } else { cosh_x };
+    }
+
+    // Choose starting order N based on x and n: I_N(x)/I_n(x) has to be negligible, which takes
+    // N of the order of sqrt(x) beyond n when x is large
+    let spread = T::from_f64(80.0).expect("Failed to convert mathematical constant")
+        * (x.abs() + T::from_i32(n_abs).expect("Failed to convert order"));
+    let n_start = n_abs + spread.sqrt().to_i32().unwrap_or(0) + 20;
 
     // Initialize backward recurrence
     let mut i_next = T::zero(); // I_{k+1}
     let mut i_curr = T::from(1e-30).expect("Failed to convert mathematical constant"); // I_k (small nonzero to avoid underflow)
     let mut result = T::zero();
+    let big = T::from(1e200).unwrap_or_else(T::max_value); // rescaling keeps the values finite
     let mut sum = T::zero(); // For normalization: sum = I_0 + 2*(I_2 + I_4 + ...)
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
@@ -493,14 +491,15 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
         i_next = i_curr;
         i_curr = i_prev;
         k_t -= T::one();
+        if i_curr.abs() > big {
+            i_next /= big;
+            i_curr /= big;
+            result /= big;
+            sum /= big;
+        }
     }
 
-    // Normalize: actual I_n = result * I_0(x) / computed_I_0
-    // The sum approximates I_0 when properly normalized
-    let i0_actual = bessel_i0(x);
-    let scale = i0_actual / sum;
-
-    result * scale
+    result * (cosh_x / sum)
 }
 
 /// Modified Bessel function `I_0(x)` via polynomial approximation
-- 
2.43.0


From e61095fcbdfd80fe3a90b2ccf6981982625624f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 09/85] fix: Bessel J_n recurrence overflows to NaN for large
 orders

---
 src/math/bessel.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 8634c67..48cb660 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -84,6 +84,7 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
     let mut result = T::zero();
     let mut sum = T::zero(); // For normalization: J_0 + 2*(J_2 + J_4 + ...)
     let mut compensation = T::zero(); // Kahan summation compensation
+    let big = T::from(1e200).unwrap_or_else(T::max_value); // rescaling keeps the values finite
 
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
@@ -116,6 +117,13 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
         j_next = j_curr;
         j_curr = j_prev;
         k_t -= T::one();
+        if j_curr.abs() > big {
+            j_next /= big;
+            j_curr /= big;
+            result /= big;
+            sum /= big;
+            compensation /= big;
+        }
     }
 
     // Normalize: true J_n = (computed J_n) / (computed sum)
-- 
2.43.0


From ee3c82cfe558f8e7d4e1ccb7b0eea61dc20e132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 10/85] fix: zeta derivatives come from a truncated series and
 from finite differences with no correct digits

---
 src/math/special.rs | 305 ++++++++++++++++++--------------------------
 1 file changed, 122 insertions(+), 183 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 70a6f9d..25fd339 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -299,7 +299,6 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
 fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
     let one = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let four = T::from(4.0).expect("Failed to convert mathematical constant");
     let n = 22; // (3+√8)^22 ≈ 7e16: full double precision
 
     // Compute denominator: 1 - 2^(1-s)
@@ -308,6 +307,35 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
         return None; // Too close to s=1
     }
 
+    let d_coeffs = borwein_coefficients::<T>(n);
+    let d_n = d_coeffs[n];
+
+    // Compute the sum: Σ_{k=0}^{n-1} [(-1)^k(d_k - d_n)] / (k+1)^s
+    let mut sum = T::zero();
+    let mut compensation = T::zero(); // Kahan summation
+
+    for (k, d_coeff_k) in d_coeffs.iter().enumerate().take(n) {
+        let k_plus_1 = T::from(k + 1).expect("Failed to convert mathematical constant");
+        let sign = if k % 2 == 0 { one } else { -one };
+        let current_term = sign * (*d_coeff_k - d_n) / k_plus_1.powf(s);
+
+        // Kahan summation
+        let y = current_term - compensation;
+        let t = sum + y;
+        compensation = (t - sum) - y;
+        sum = t;
+    }
+
+    // ζ(s) = -1 / [d_n(1-2^(1-s))] · sum
+    let result = -sum / (d_n * denom);
+    Some(result)
+}
+
+/// The `d_0`, ..., `d_n` of Borwein's Algorithm 2
+fn borwein_coefficients<T: MathScalar>(n: usize) -> Vec<T> {
+    let one = T::one();
+    let four = T::from(4.0).expect("Failed to convert mathematical constant");
+
     // Compute d_k coefficients
     // d_k = n · Σ_{i=0}^{k} [(n+i-1)! · 4^i] / [(n-i)! · (2i)!]
     let mut d_coeffs = vec![T::zero(); n + 1];
@@ -332,33 +360,12 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
         current_inner_sum += term;
         *d_coeff = n_t * current_inner_sum;
     }
-
-    let d_n = d_coeffs[n];
-
-    // Compute the sum: Σ_{k=0}^{n-1} [(-1)^k(d_k - d_n)] / (k+1)^s
-    let mut sum = T::zero();
-    let mut compensation = T::zero(); // Kahan summation
-
-    for (k, d_coeff_k) in d_coeffs.iter().enumerate().take(n) {
-        let k_plus_1 = T::from(k + 1).expect("Failed to convert mathematical constant");
-        let sign = if k % 2 == 0 { one } else { -one };
-        let current_term = sign * (*d_coeff_k - d_n) / k_plus_1.powf(s);
-
-        // Kahan summation
-        let y = current_term - compensation;
-        let t = sum + y;
-        compensation = (t - sum) - y;
-        sum = t;
-    }
-
-    // ζ(s) = -1 / [d_n(1-2^(1-s))] · sum
-    let result = -sum / (d_n * denom);
-    Some(result)
+    d_coeffs
 }
 
 /// Derivative of Riemann Zeta function
 ///
-/// Computes the n-th derivative of ζ(s) using the analytical formula:
+/// Computes the n-th derivative of ζ(s), whose series for s > 1 is
 /// ζ^(n)(s) = (-1)^n * Σ_{k=1}^∞ [ln(k)]^n / k^s
 ///
 /// This implementation uses the same convergence techniques as `eval_zeta`
@@ -389,180 +396,112 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
         return None;
     }
 
-    // For Re(s) > 1, use direct series with Kahan summation
-    // The analytical series is exact for any n, no need for special cases
-    if x > one {
-        let mut sum = T::zero();
-        let mut compensation = T::zero(); // Kahan summation
-        let max_terms = 200;
-
-        for k in 1..=max_terms {
-            let k_t = T::from(k).expect("Failed to convert mathematical constant");
-            let ln_k = k_t.ln();
-
-            // Calculate [ln(k)]^n using faster exponentiation for large n
-            let ln_k_power = if n <= 5 {
-                // Direct multiplication for small n
-                let mut result = one;
-                for _ in 0..n {
-                    result *= ln_k;
-                }
-                result
-            } else {
-                // Use powf for large n (faster)
-                ln_k.powf(T::from(n).expect("Failed to convert mathematical constant"))
-            };
-
-            // Calculate term: [ln(k)]^n / k^x
-            let term = ln_k_power / k_t.powf(x);
-
-            // Kahan summation algorithm (compensated summation)
-            let y = term - compensation;
-            let t = sum + y;
-            compensation = (t - sum) - y; // Captures lost low-order bits
-            sum = t;
-
-            // Enhanced convergence check
-            if k > 50
-                && term.abs()
-                    < epsilon * T::from_f64(0.01).expect("Failed to convert constant 0.01")
-            {
-                break;
-            }
-        }
-
-        // Apply sign: (-1)^n
-        let sign = if n % 2 == 0 { one } else { -one };
-        Some(sign * sum)
+    let order = usize::try_from(n).ok()?;
+    let derivs = if x < -one {
+        zeta_derivs_reflection(order, x)?
     } else {
-        // For Re(s) < 1, use functional equation derivative
-        // ζ(s) = 2^s π^(s-1) sin(πs/2) Γ(1-s) ζ(1-s)
-
-        // Use reflection for all s < 1 (except pole at s=1 already handled)
-        // With improved eval_zeta, the reflection formula components are now stable for 0 < s < 1
-        eval_zeta_deriv_reflection(n, x)
-    }
+        zeta_derivs_borwein(order, x)
+    };
+    derivs.last().copied()
 }
 
-/// Compute zeta derivative using reflection formula with finite differences
-///
-/// For Re(s) < 1, uses reflection formula: ζ(s) = A(s)·ζ(1-s)
-/// where A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-///
-/// We compute ζ^(n)(s) numerically using finite differences,
-/// while ζ(1-s) is evaluated exactly via analytical series.
-///
-/// This is simpler and more stable than the full Leibniz expansion.
-fn eval_zeta_deriv_reflection<T: MathScalar>(n: i32, s: T) -> Option<T> {
-    let one = T::one();
-    let two = T::from_f64(2.0).expect("Failed to convert constant 2.0");
-    let four = T::from_f64(4.0).expect("Failed to convert constant 4.0");
-
-    // Finite difference step - small enough for accuracy but not too small
-    let h = T::from_f64(1e-7).expect("Failed to convert epsilon 1e-7");
-
-    if n == 1 {
-        // First derivative: centered difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - zeta_minus) / (two * h))
-    } else if n == 2 {
-        // Second derivative: centered second difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h))
-    } else {
-        // Higher order: use Richardson extrapolation
-        // Compute with step h and h/2, then extrapolate to h→0
-        let d_h = centered_finite_diff(n, s, h)?;
-        let d_h2 = centered_finite_diff(n, s, h / two)?;
-
-        // Richardson: D_exact ≈ (4^n * D_h - D_{h/2}) / (4^n - 1)
-        // For n >= 3, use general extrapolation factor
-        let extrapolation = four.powi(n) - one;
-        Some((four.powi(n) * d_h2 - d_h) / extrapolation)
+/// The n-th derivative of the product of two functions, given their derivatives (Leibniz rule)
+fn leibniz<T: MathScalar>(n: usize, f: &[T], g: &[T]) -> T {
+    let mut sum = T::zero();
+    let mut binomial = T::one();
+    for j in 0..=n {
+        sum += binomial * f[j] * g[n - j];
+        binomial *= T::from_usize(n - j).expect("Failed to convert small integer to float")
+            / T::from_usize(j + 1).expect("Failed to convert small integer to float");
     }
+    sum
 }
 
-/// Evaluate ζ(s) using reflection formula (for Re(s) < 1)
+/// ζ(s), ζ'(s), ..., ζ^(n)(s) for s ≥ -1
 ///
-/// ζ(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s) · ζ(1-s)
-/// where ζ(1-s) is computed via exact analytical series
-fn eval_zeta_reflection_base<T: MathScalar>(s: T) -> Option<T> {
-    let pi = T::PI();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let half = T::from(0.5).expect("Failed to convert mathematical constant");
+/// Differentiates η(s) = (1 - 2^(1-s)) ζ(s), with η summed as in Borwein's Algorithm 2, and
+/// solves for the derivatives of ζ.
+fn zeta_derivs_borwein<T: MathScalar>(n: usize, s: T) -> Vec<T> {
     let one = T::one();
-    let one_minus_s = one - s;
+    let two = T::from(2.0).expect("Failed to convert mathematical constant");
+    let weights = borwein_coefficients::<T>(30);
+    let d_n = weights[30];
 
-    // A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-    let a_term = two.powf(s);
-    let b_term = pi.powf(s - one);
-    let c_term = (pi * s * half).sin();
-    let d_term = eval_gamma(one_minus_s)?;
+    // η and its derivatives
+    let mut eta = vec![T::zero(); n + 1];
+    for (k, d_k) in weights.iter().enumerate().take(30) {
+        let base = T::from(k + 1).expect("Failed to convert mathematical constant");
+        let sign = if k % 2 == 0 { one } else { -one };
+        let mut term = sign * (one - *d_k / d_n) / base.powf(s);
+        for eta_j in &mut eta {
+            *eta_j += term;
+            term *= -base.ln();
+        }
+    }
 
-    // ζ(1-s) via exact analytical series (Re(1-s) > 1 when Re(s) < 1)
-    let zeta_term = eval_zeta(one_minus_s)?;
+    // 1 - 2^(1-s) and its derivatives
+    let mut factor = Vec::with_capacity(n + 1);
+    let mut power = -two.powf(one - s);
+    factor.push(one + power);
+    for _ in 0..n {
+        power *= -two.ln();
+        factor.push(power);
+    }
 
-    Some(a_term * b_term * c_term * d_term * zeta_term)
+    let mut zeta: Vec<T> = vec![T::zero(); n + 1];
+    for m in 0..=n {
+        // zeta[m] is still zero, so this is the part that the lower derivatives contribute
+        let lower = leibniz(m, &factor, &zeta);
+        zeta[m] = (eta[m] - lower) / factor[0];
+    }
+    zeta
 }
 
-/// Compute n-th derivative using centered finite difference
+/// ζ(s), ζ'(s), ..., ζ^(n)(s) for s < -1
 ///
-/// Uses an n+1 point stencil for the n-th derivative
-fn centered_finite_diff<T: MathScalar>(n: i32, s: T, h: T) -> Option<T> {
+/// Differentiates ζ(s) = 2 (2π)^(s-1) Γ(1-s) · sin(πs/2) · ζ(1-s) by the Leibniz rule.
+fn zeta_derivs_reflection<T: MathScalar>(n: usize, s: T) -> Option<Vec<T>> {
+    let one = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let four = T::from(4.0).expect("Failed to convert mathematical constant");
-
-    if n == 1 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - zeta_minus) / (two * h));
-    }
-
-    if n == 2 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h));
-    }
-
-    if n == 3 {
-        // Third derivative: 4-point centered stencil
-        let zeta_plus2 = eval_zeta_reflection_base(s + two * h)?;
-        let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-        let zeta_minus2 = eval_zeta_reflection_base(s - two * h)?;
-        // d³f/dx³ ≈ (f(x+2h) - 2f(x+h) + 2f(x-h) - f(x-2h)) / (2h³)
-        return Some(
-            (-zeta_plus2 + two * zeta_plus1 - two * zeta_minus1 + zeta_minus2) / (two * h * h * h),
-        );
-    }
-
-    // For n >= 4, use 5-point stencil
-    let two_h = two * h;
-
-    let zeta_plus2 = eval_zeta_reflection_base(s + two_h)?;
-    let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-    let zeta_center = eval_zeta_reflection_base(s)?;
-    let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-    let zeta_minus2 = eval_zeta_reflection_base(s - two_h)?;
-
-    if n == 4 {
-        // d⁴f/dx⁴ ≈ (f(x+2h) - 4f(x+h) + 6f(x) - 4f(x-h) + f(x-2h)) / h⁴
-        let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
-        return Some(
-            (zeta_plus2 - four * zeta_plus1 + six * zeta_center - four * zeta_minus1 + zeta_minus2)
-                / (h * h * h * h),
-        );
-    }
-
-    // For n >= 5: recursive centered difference
-    // d^n f / dx^n ≈ [d^(n-1)f(x+h) - d^(n-1)f(x-h)] / (2h)
-    let deriv_plus = centered_finite_diff(n - 1, s + h, h)?;
-    let deriv_minus = centered_finite_diff(n - 1, s - h, h)?;
-    Some((deriv_plus - deriv_minus) / (two * h))
+    let half_pi = T::FRAC_PI_2();
+    let mirrored = one - s;
+
+    // A(s) = 2 (2π)^(s-1) Γ(1-s) and its logarithmic derivative ln(2π) - ψ(1-s)
+    let mut log_derivs = Vec::with_capacity(n);
+    for j in 0..n {
+        let psi = eval_polygamma(i32::try_from(j).ok()?, mirrored)?;
+        log_derivs.push(match j {
+            0 => (two * T::PI()).ln() - psi,
+            _ if j % 2 == 0 => -psi,
+            _ => psi,
+        });
+    }
+    let mut prefactor = vec![two * (two * T::PI()).powf(s - one) * eval_gamma(mirrored)?];
+    for m in 0..n {
+        let next = leibniz(m, &log_derivs, &prefactor);
+        prefactor.push(next);
+    }
+
+    let mut sine = Vec::with_capacity(n + 1);
+    let (sin, cos) = (half_pi * s).sin_cos();
+    let mut scale = one;
+    for j in 0..=n {
+        sine.push(match j % 4 {
+            0 => scale * sin,
+            1 => scale * cos,
+            2 => -scale * sin,
+            _ => -scale * cos,
+        });
+        scale *= half_pi;
+    }
+
+    let mut zeta = zeta_derivs_borwein(n, mirrored);
+    for odd in zeta.iter_mut().skip(1).step_by(2) {
+        *odd = -*odd;
+    }
+
+    let outer: Vec<T> = (0..=n).map(|m| leibniz(m, &prefactor, &sine)).collect();
+    Some((0..=n).map(|m| leibniz(m, &outer, &zeta)).collect())
 }
 
 /// Lambert W function: W(x) is the solution to W·e^W = x
-- 
2.43.0


From 6f3f25cd71fa49cbc8731cdaa4017597f72e526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 11/85] fix: zeta between 1 and 1.5 adds the Euler-Maclaurin
 boundary term with the wrong sign

---
 src/math/special.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 25fd339..4f3fb1c 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -258,8 +258,8 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         // Integral approximation: ∫[N,∞] 1/t^s dt = N^(1-s)/(s-1)
         let em_integral = n_pow_1_minus_x / (x - one);
 
-        // Boundary correction: 1/(2N^s)
-        let em_boundary = T::from(0.5).expect("Failed to convert mathematical constant") / n_pow_x;
+        // Boundary correction: the sum includes k = N, of which half belongs to the tail
+        let em_boundary = -T::from(0.5).expect("Failed to convert mathematical constant") / n_pow_x;
 
         // Bernoulli corrections (improving convergence)
         // B_2 = 1/6: correction term s/(12 N^(s+1))
-- 
2.43.0


From 222c3e5c174272ea37836c8a93690944380f4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 12/85] fix: elliptic_e halves every AGM correction term

---
 src/math/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 3444930..9b1a188 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -54,7 +54,7 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
 
     let k2 = k * k;
     let mut sum = one - k2 / T::from(2.0).expect("Failed to convert mathematical constant");
-    let mut pow2 = T::from(0.5).expect("Failed to convert mathematical constant");
+    let mut pow2 = one; // 2^(n-1), the n = 0 term is already in the sum
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
     let tolerance = T::from(1e-15).expect("Failed to convert mathematical constant");
 
-- 
2.43.0


From 67ce7e09ec6e53053a2e2b6251d0bc29a2f9047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 13/85] fix: compiled acot uses another branch than the
 symbolic evaluator

---
 src/evaluator/compiler.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..3e10af4 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1240,6 +1240,17 @@ impl<'ctx> Compiler<'ctx> {
             }
         }
 
+        // acot(x) = atan2(1, x), which has the range (0, pi) of the symbolic evaluator
+        if arity == 1 && id == ks.acot {
+            let idx = self.add_const(1.0);
+            self.emit(Instruction::LoadConst(idx));
+            self.push()?;
+            self.compile_expr(&args[0])?;
+            self.emit(Instruction::Atan2);
+            self.pop();
+            return Ok(());
+        }
+
         // Compile arguments first (in order for proper stack layout)
         for arg in args {
             self.compile_expr(arg)?;
@@ -1287,10 +1298,6 @@ impl<'ctx> Compiler<'ctx> {
             // csc(x) = 1/sin(x)
             self.emit(Instruction::Sin);
             Instruction::Recip
-        } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From 045fc8d244de1127d28e160f5a8bed6f89c81ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 14/85] fix: associated Legendre functions ignore the sign of m

---
 src/math/polynomials.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/math/polynomials.rs b/src/math/polynomials.rs
index c381521..54f3335 100644
--- a/src/math/polynomials.rs
+++ b/src/math/polynomials.rs
@@ -42,6 +42,14 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
         return None;
     }
     let m_abs = m.abs();
+    if m < 0 {
+        let mut ratio = T::one(); // (l+m)!/(l-m)! for the negative m
+        for k in (l - m_abs + 1)..=(l + m_abs) {
+            ratio /= T::from(k).expect("Failed to convert mathematical constant");
+        }
+        let sign = if m_abs % 2 == 0 { ratio } else { -ratio };
+        return Some(sign * eval_assoc_legendre(l, m_abs, x)?);
+    }
     let mut pmm = T::one();
     let one = T::one();
 
@@ -94,8 +102,10 @@ pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T)
         return None;
     }
     let cos_theta = theta.cos();
-    let plm = eval_assoc_legendre(l, m, cos_theta)?;
     let m_abs = m.abs();
+    // N_l^{-m} P_l^{-m} = (-1)^m N_l^m P_l^m
+    let plm = eval_assoc_legendre(l, m_abs, cos_theta)?;
+    let plm = if m < 0 && m_abs % 2 == 1 { -plm } else { plm };
 
     // Factorials
     let mut fact_lm = T::one();
-- 
2.43.0


From f36cd834b99c8e8bbdc9f7d690bbd815cf575b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 15/85] fix: derivative of cbrt is undefined for negative
 arguments

---
 src/functions/definitions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index 046509d..8d3207a 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -704,7 +704,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 1..=1,
             eval: |args| Some(args[0].cbrt()),
             derivative: |args, arg_primes| {
-                // d/dx cbrt(u) = u' / (3 * u^(2/3))
+                // d/dx cbrt(u) = u' / (3 * cbrt(u)^2), also for negative u
                 let u = Arc::clone(&args[0]);
                 let u_prime = arg_primes[0].clone();
                 Expr::mul_expr(
@@ -712,9 +712,12 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                         Expr::number(1.0),
                         Expr::mul_expr(
                             Expr::number(3.0),
-                            Expr::pow_from_arcs(
-                                u,
-                                Arc::new(Expr::div_expr(Expr::number(2.0), Expr::number(3.0))),
+                            Expr::pow_static(
+                                Expr::func_multi_from_arcs_symbol(
+                                    ks::get_symbol(ks::KS.cbrt),
+                                    vec![u],
+                                ),
+                                Expr::number(2.0),
                             ),
                         ),
                     ),
-- 
2.43.0


From 50f28907880bed25390854198d43e8a0a28ae16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 16/85] fix: diff_str splits its own variable when a known
 symbol is a prefix of it

---
 src/api/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4748aba..facfa72 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -258,6 +258,9 @@ impl Diff {
             }
         }
 
+        // The variable is one name, also where a known symbol is a prefix of it
+        symbols.insert(var.to_owned());
+
         let ast = parser::parse(formula, &symbols, &custom_functions, self.context.as_ref())?;
 
         let var_sym = self
-- 
2.43.0


From a37d2d921226fa8ac1c0c0aa66d0e9256bf8dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 17/85] fix: small coefficients such as physical constants are
 treated as zero

---
 src/core/expr/constructors.rs                 | 19 +++++++++++-----
 src/core/poly.rs                              | 22 +++++++++++--------
 src/core/traits.rs                            | 14 ++++++++++++
 .../rules/algebraic/combination.rs            | 12 +++++-----
 .../rules/algebraic/factoring.rs              | 18 +++++++--------
 src/simplification/rules/numeric/mod.rs       | 15 ++++++++-----
 6 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 02ce16f..f7e1753 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -7,6 +7,7 @@ use std::sync::Arc;
 
 use super::{EPSILON, EXPR_ONE, Expr, ExprKind, compute_expr_hash, expr_cmp, next_id};
 use crate::core::symbol::{InternedSymbol, symb_interned};
+use crate::core::traits::{is_cancelled, is_near_integer};
 
 impl Expr {
     /// Create a new expression with fresh ID
@@ -56,10 +57,10 @@ impl Expr {
         }
     }
 
-    /// Check if this expression is the number zero (with tolerance)
+    /// Check if this expression is the number zero
     #[inline]
     pub fn is_zero_num(&self) -> bool {
-        self.as_number().is_some_and(crate::core::traits::is_zero)
+        self.as_number().is_some_and(|n| n == 0.0)
     }
 
     /// Check if this expression is the number one (with tolerance)
@@ -154,12 +155,16 @@ impl Expr {
 
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             if matches!(t.kind, ExprKind::Sum(_) | ExprKind::Number(_)) {
                 match t.into_kind() {
                     ExprKind::Sum(inner) => flat.extend(inner),
-                    ExprKind::Number(n) => numeric_sum += n,
+                    ExprKind::Number(n) => {
+                        numeric_sum += n;
+                        numeric_scale += n.abs();
+                    }
                     // Invariant protected by if guard
                     _ => {}
                 }
@@ -169,7 +174,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_cancelled(numeric_sum, numeric_scale) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -218,11 +223,13 @@ impl Expr {
         // Flatten nested sums and combine numbers
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             // Check for Number
             if let ExprKind::Number(n) = t.kind {
                 numeric_sum += n;
+                numeric_scale += n.abs();
                 continue;
             }
 
@@ -249,7 +256,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_cancelled(numeric_sum, numeric_scale) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -573,7 +580,7 @@ impl Expr {
             if e >= 1.0 && e.fract().abs() < EPSILON {
                 let result = b.powf(e);
                 // Only fold if result is also an integer (or very close)
-                if result.fract().abs() < EPSILON {
+                if is_near_integer(result) {
                     return Self::number(result.round());
                 }
             }
diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..23f2204 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -3,7 +3,7 @@
 //! Provides efficient polynomial operations with any expression as base.
 //! The base is stored once; terms are just (power, coefficient) pairs.
 
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_cancelled};
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
@@ -128,7 +128,7 @@ impl Polynomial {
 
     /// Create a constant polynomial
     pub fn constant(c: f64) -> Self {
-        if c.abs() < EPSILON {
+        if c == 0.0 {
             // Zero polynomial - use dummy base
             Self {
                 base: Arc::new(Expr::number(1.0)),
@@ -152,7 +152,7 @@ impl Polynomial {
 
     /// Create polynomial: coeff * base^pow
     pub fn term(base: Arc<Expr>, pow: u32, coeff: f64) -> Self {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             Self::zero(base)
         } else {
             Self {
@@ -256,13 +256,14 @@ impl Polynomial {
 
     /// Add a term (power, coeff) to the polynomial
     pub(crate) fn add_term(&mut self, pow: u32, coeff: f64) {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             return;
         }
         match self.terms.binary_search_by_key(&pow, |(p, _)| *p) {
             Ok(i) => {
+                let scale = self.terms[i].1.abs() + coeff.abs();
                 self.terms[i].1 += coeff;
-                if self.terms[i].1.abs() < EPSILON {
+                if is_cancelled(self.terms[i].1, scale) {
                     self.terms.remove(i);
                 }
             }
@@ -294,7 +295,7 @@ impl Polynomial {
             let my_const = self.as_constant().unwrap_or(0.0);
             self.base = Arc::clone(&other.base);
             self.terms.clone_from(&other.terms);
-            if my_const.abs() >= EPSILON {
+            if my_const != 0.0 {
                 self.add_term(0, my_const);
             }
             return true;
@@ -364,18 +365,21 @@ impl Polynomial {
         // Merge terms with same power
         let mut merged_terms = Vec::with_capacity(all_terms.len());
         if let Some(&(mut current_pow, mut current_coeff)) = all_terms.first() {
+            let mut scale = current_coeff.abs();
             for &(next_pow, next_coeff) in all_terms.iter().skip(1) {
                 if next_pow == current_pow {
                     current_coeff += next_coeff;
+                    scale += next_coeff.abs();
                 } else {
-                    if current_coeff.abs() >= EPSILON {
+                    if !is_cancelled(current_coeff, scale) {
                         merged_terms.push((current_pow, current_coeff));
                     }
                     current_pow = next_pow;
                     current_coeff = next_coeff;
+                    scale = next_coeff.abs();
                 }
             }
-            if current_coeff.abs() >= EPSILON {
+            if !is_cancelled(current_coeff, scale) {
                 merged_terms.push((current_pow, current_coeff));
             }
         }
@@ -388,7 +392,7 @@ impl Polynomial {
 
     /// Multiply by a scalar
     pub fn scale(&self, scalar: f64) -> Self {
-        if scalar.abs() < EPSILON {
+        if scalar == 0.0 {
             return Self::zero(Arc::clone(&self.base));
         }
         Self {
diff --git a/src/core/traits.rs b/src/core/traits.rs
index ad88e15..0936e4a 100644
--- a/src/core/traits.rs
+++ b/src/core/traits.rs
@@ -100,11 +100,25 @@ impl<T> MathScalar for T where
 ///
 /// Uses a tolerance of `1e-15` for comparison.
 /// This is an internal utility function for algebraic simplification.
+#[cfg(test)]
 #[inline]
 pub fn is_zero(n: f64) -> bool {
     n.abs() < EPSILON
 }
 
+/// Check if the sum of terms with total magnitude `scale` cancelled to nothing but rounding noise
+#[inline]
+pub fn is_cancelled(sum: f64, scale: f64) -> bool {
+    sum == 0.0 || sum.abs() < EPSILON * scale
+}
+
+/// Check if a number is an integer up to rounding; a tiny non-zero number is not
+#[inline]
+pub fn is_near_integer(n: f64) -> bool {
+    let rounded = n.round();
+    n == 0.0 || (rounded != 0.0 && (n - rounded).abs() < EPSILON)
+}
+
 /// Check if a floating point number is effectively 1.0
 ///
 /// Uses a tolerance of `1e-15` for comparison.
diff --git a/src/simplification/rules/algebraic/combination.rs b/src/simplification/rules/algebraic/combination.rs
index d141c13..0464820 100644
--- a/src/simplification/rules/algebraic/combination.rs
+++ b/src/simplification/rules/algebraic/combination.rs
@@ -1,6 +1,6 @@
 // Algebraic combination operations on validated expressions
 
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_cancelled};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -410,16 +410,18 @@ rule_arc!(
                 } else {
                     // Sub-group by actual structural base using HashMap (O(n) amortized).
                     // Expr's Hash+PartialEq handles hash collisions via structural equality.
-                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, f64> =
+                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, (f64, f64)> =
                         std::collections::HashMap::new();
                     for term in &group_terms {
                         let (coeff, var_part) =
                             crate::simplification::helpers::extract_coeff_arc(term.as_ref());
-                        *sub_groups.entry(var_part).or_insert(0.0) += coeff;
+                        let entry = sub_groups.entry(var_part).or_insert((0.0, 0.0));
+                        entry.0 += coeff;
+                        entry.1 += coeff.abs();
                     }
 
-                    for (base_term, total_coeff) in sub_groups {
-                        if total_coeff.abs() < EPSILON {
+                    for (base_term, (total_coeff, scale)) in sub_groups {
+                        if is_cancelled(total_coeff, scale) {
                             // Terms cancel out
                             continue;
                         }
diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 97ecebb..523d775 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -1,6 +1,6 @@
 use crate::core::known_symbols::KS;
 use crate::core::poly::Polynomial;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -86,7 +86,7 @@ impl Rule for FractionCancellationRule {
 
             fn is_safe_to_cancel(base: &Expr) -> bool {
                 match &base.kind {
-                    AstKind::Number(n) => n.abs() > EPSILON,
+                    AstKind::Number(n) => *n != 0.0,
                     _ => false,
                 }
             }
@@ -119,11 +119,11 @@ impl Rule for FractionCancellationRule {
 
             // Simplify coefficients
             let ratio = num_coeff / den_coeff;
-            if ratio.abs() < EPSILON {
+            if ratio == 0.0 {
                 return Some(Arc::new(Expr::number(0.0)));
             }
 
-            if (ratio - ratio.round()).abs() < EPSILON {
+            if is_near_integer(ratio) {
                 num_coeff = ratio.round();
                 den_coeff = 1.0;
             } else if (1.0 / ratio - (1.0 / ratio).round()).abs() < EPSILON {
@@ -392,7 +392,7 @@ impl Rule for PerfectSquareRule {
                         // Check if number is a perfect square (positive)
                         if *n > 0.0 {
                             let sqrt_n = n.sqrt();
-                            if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                            if is_near_integer(sqrt_n) {
                                 // It's a perfect square constant, treat as square term (coeff=1, base=sqrt(n))
                                 // We treat '9' as 1*3^2. So coeff=1.0, base=Number(3)
                                 square_terms.push((1.0, Arc::new(Expr::number(sqrt_n.round()))));
@@ -452,8 +452,8 @@ impl Rule for PerfectSquareRule {
                 let sqrt_c1 = c1.sqrt();
                 let sqrt_c2 = c2.sqrt();
 
-                if (sqrt_c1 - sqrt_c1.round()).abs() < EPSILON
-                    && (sqrt_c2 - sqrt_c2.round()).abs() < EPSILON
+                if is_near_integer(sqrt_c1)
+                    && is_near_integer(sqrt_c2)
                 {
                     let expected_cross_abs = (2.0 * sqrt_c1 * sqrt_c2).abs();
                     let cross_coeff_abs = cross_coeff.abs();
@@ -535,7 +535,7 @@ rule_arc!(
                 && *n > 0.0
             {
                 let sqrt_n = n.sqrt();
-                if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                if is_near_integer(sqrt_n) {
                     return Some(Arc::new(Expr::number(sqrt_n.round())));
                 }
             }
@@ -559,7 +559,7 @@ rule_arc!(
             {
                 let pos_n = -n;
                 let sqrt_n = pos_n.sqrt();
-                if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                if is_near_integer(sqrt_n) {
                     return Some(Arc::new(Expr::number(sqrt_n.round())));
                 }
             }
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..59cb946 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -1,7 +1,7 @@
 use crate::Expr;
 use crate::ExprKind as AstKind;
 use crate::core::known_symbols::KS;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 // ===== Identity Rules for Sum (Priority 100) =====
@@ -389,7 +389,7 @@ rule!(
             && *b != 0.0
         {
             let result = a / b;
-            if (result - result.round()).abs() < EPSILON {
+            if is_near_integer(result) {
                 return Some(Expr::number(result.round()));
             }
         }
@@ -487,7 +487,7 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let s = n.sqrt();
-            if (s - s.round()).abs() < EPSILON {
+            if is_near_integer(s) {
                 return Some(Expr::number(s.round()));
             }
         }
@@ -508,7 +508,7 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let c = n.cbrt();
-            if (c - c.round()).abs() < EPSILON {
+            if is_near_integer(c) {
                 return Some(Expr::number(c.round()));
             }
         }
@@ -575,7 +575,12 @@ rule!(
 
                 // Only evaluate if result is an integer
                 // This preserves symbolic forms like sqrt(2), ln(10), etc.
-                if (result - result.round()).abs() < EPSILON {
+                // A tiny result counts as zero only where it is the rounding noise of a
+                // trigonometric root such as sin(pi)
+                let id = name.id();
+                let is_trig_noise = (id == KS.sin || id == KS.cos || id == KS.tan || id == KS.cot)
+                    && result.abs() < EPSILON * numeric_args[0].abs();
+                if is_near_integer(result) || is_trig_noise {
                     return Some(Expr::number(result.round()));
                 }
 
-- 
2.43.0


From 4fedb7fa2892e3a659ba58199ac358e79d038e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 18/85] fix: derivative of associated Legendre functions of
 equal degree and order is undefined

---
 src/functions/definitions.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index 8d3207a..ceec605 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -1307,15 +1307,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                 );
 
                 let l_plus_m = Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::clone(&m)]);
-                let l_minus_1 =
-                    Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::new(Expr::number(-1.0))]);
-                let term2 = Expr::mul_expr(
-                    l_plus_m,
-                    Expr::func_multi_from_arcs_symbol(
-                        ks::get_symbol(ks::KS.assoc_legendre),
-                        vec![Arc::new(l_minus_1), Arc::clone(&m), Arc::clone(&x)],
-                    ),
-                );
+                let term2 = Expr::mul_expr(l_plus_m, lower_degree_legendre(&l, &m, &x));
 
                 let numerator = Expr::sub_expr(term1, term2);
                 let denominator = Expr::sub_expr(
@@ -1387,17 +1379,11 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                     ks::get_symbol(ks::KS.sin),
                     vec![Arc::clone(&theta)],
                 );
-                let l_minus_1 =
-                    Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::new(Expr::number(-1.0))]);
-
                 let p_expr = Expr::func_multi_from_arcs_symbol(
                     ks::get_symbol(ks::KS.assoc_legendre),
                     vec![Arc::clone(&l), Arc::clone(&m), Arc::new(cos_theta.clone())],
                 );
-                let p_prev = Expr::func_multi_from_arcs_symbol(
-                    ks::get_symbol(ks::KS.assoc_legendre),
-                    vec![Arc::new(l_minus_1), Arc::clone(&m), Arc::new(cos_theta)],
-                );
+                let p_prev = lower_degree_legendre(&l, &m, &Arc::new(cos_theta));
 
                 let term_a = Expr::mul_expr(
                     y_expr.clone(),
@@ -1577,3 +1563,17 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         },
     ]
 }
+
+/// `P_{l-1}^m(x)` for the derivative of `P_l^m(x)`; it is zero for `|m| > l - 1`
+fn lower_degree_legendre(l: &Arc<Expr>, m: &Arc<Expr>, x: &Arc<Expr>) -> Expr {
+    if let (Some(degree), Some(order)) = (l.as_number(), m.as_number())
+        && order.abs() > degree - 1.0
+    {
+        return Expr::number(0.0);
+    }
+    let l_minus_1 = Expr::sum_from_arcs(vec![Arc::clone(l), Arc::new(Expr::number(-1.0))]);
+    Expr::func_multi_from_arcs_symbol(
+        ks::get_symbol(ks::KS.assoc_legendre),
+        vec![Arc::new(l_minus_1), Arc::clone(m), Arc::clone(x)],
+    )
+}
-- 
2.43.0


From 3102de837ce835f35885784e1d14547b4bfd24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 19/85] fix: fraction cancellation turns a large coefficient
 into a zero denominator

---
 src/simplification/rules/algebraic/factoring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 523d775..e717723 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -126,7 +126,7 @@ impl Rule for FractionCancellationRule {
             if is_near_integer(ratio) {
                 num_coeff = ratio.round();
                 den_coeff = 1.0;
-            } else if (1.0 / ratio - (1.0 / ratio).round()).abs() < EPSILON {
+            } else if is_near_integer(1.0 / ratio) {
                 let inv = (1.0 / ratio).round();
                 if inv < 0.0 {
                     num_coeff = -1.0;
-- 
2.43.0


From 2e04ae9726a8269b11d17bb67fdaa3000c4697d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 20/85] fix: derivative of the Lambert W function is undefined
 at zero

---
 src/functions/definitions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index ceec605..c5a0462 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -1122,7 +1122,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 1..=1,
             eval: |args| crate::math::eval_lambert_w(args[0]),
             derivative: |args, arg_primes| {
-                // d/dx W(u) = W(u) / (u(1+W(u))) * u'
+                // d/dx W(u) = 1 / (u + e^W(u)) * u', regular at u = 0 unlike W(u) / (u(1+W(u)))
                 let u = Arc::clone(&args[0]);
                 let u_prime = arg_primes[0].clone();
                 let w = Expr::func_multi_from_arcs_symbol(
@@ -1131,11 +1131,11 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                 );
                 Expr::mul_expr(
                     Expr::div_expr(
-                        w.clone(),
-                        Expr::mul_from_arcs(vec![
-                            Arc::clone(&u),
-                            Arc::new(Expr::add_expr(Expr::number(1.0), w)),
-                        ]),
+                        Expr::number(1.0),
+                        Expr::add_expr(
+                            (*u).clone(),
+                            Expr::func_symbol(ks::get_symbol(ks::KS.exp), w),
+                        ),
                     ),
                     u_prime,
                 )
-- 
2.43.0


From b4fe8a35d3ead9e9aae22614ee4ed90af5b2878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 21/85] fix: derivative of long products is undefined where a
 factor is zero

---
 src/diff/engine.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..a497319 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -188,27 +188,19 @@ impl Expr {
                     return factors[0].derive_impl(var, var_id, ctx);
                 }
 
-                // Optimization: For large products, use logarithmic differentiation
-                // (fgh)' = fgh * (f'/f + g'/g + h'/h)
-                // This reduces node count from O(N²) to O(N)
+                // Optimization: Split large products in halves, (gh)' = g'h + gh'
+                // This reduces node count from O(N²) to O(N log N). Logarithmic
+                // differentiation would be singular wherever a factor is zero.
                 if factors.len() > 10 {
-                    let mut log_terms = Vec::with_capacity(factors.len());
-                    for factor in factors {
-                        let prime = factor.derive_impl(var, var_id, ctx);
-                        if !prime.is_zero_num() {
-                            // term = f' / f
-                            log_terms
-                                .push(Self::div_from_arcs(Arc::new(prime), Arc::clone(factor)));
-                        }
-                    }
-
-                    if log_terms.is_empty() {
-                        return Self::number(0.0);
-                    }
-
-                    // Result = self * sum(f'/f)
-                    let sum_log = Self::sum(log_terms);
-                    return Self::mul_expr(self.clone(), sum_log);
+                    let (left, right) = factors.split_at(factors.len() / 2);
+                    let left = Self::product_from_arcs(left.to_vec());
+                    let right = Self::product_from_arcs(right.to_vec());
+                    let left_prime = left.derive_impl(var, var_id, ctx);
+                    let right_prime = right.derive_impl(var, var_id, ctx);
+                    return Self::add_expr(
+                        Self::mul_expr(left_prime, right),
+                        Self::mul_expr(left, right_prime),
+                    );
                 }
 
                 let mut terms = Vec::new();
-- 
2.43.0


From 033ede264e4a04abe86fc7578795f91f4fdafd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 22/85] fix: acoth of a large argument loses all accuracy in
 the symbolic evaluator

---
 src/functions/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index c5a0462..b2be821 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -484,7 +484,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         FunctionDefinition {
             name: "acoth",
             arity: 1..=1,
-            eval: |args| Some(0.5 * ((args[0] + 1.0) / (args[0] - 1.0)).ln()),
+            eval: |args| Some((1.0 / args[0]).atanh()),
             derivative: |args, arg_primes| {
                 // d/dx acoth(u) = u' / (1 - u^2)
                 let u = Arc::clone(&args[0]);
-- 
2.43.0


From 89e5bd7d47333c5a04545b8bafc4b14f231808ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 23/85] fix: powers beyond the polynomial term type wrap
 around, and huge degrees never finish

---
 src/core/poly.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index 23f2204..399ca3f 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -7,6 +7,10 @@ use crate::core::traits::{EPSILON, is_cancelled};
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
+/// Powers beyond this stay ordinary expressions: they may not fit the term type, and
+/// polynomial division takes one step per degree
+const MAX_TERM_POWER: f64 = 1024.0;
+
 // =============================================================================
 // POLYNOMIAL
 // =============================================================================
@@ -540,6 +544,7 @@ impl Polynomial {
             ExprKind::Pow(base_expr, exp) => {
                 if let ExprKind::Number(n) = &exp.kind
                     && *n >= 0.0
+                    && *n <= MAX_TERM_POWER
                     && n.fract().abs() < EPSILON
                 {
                     // Exponent n >= 0 is already validated
-- 
2.43.0


From 5f80b94ade40b7d85dea9295632734941e071090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 24/85] fix: simplifying roots of powers loses the sign of the
 base

---
 src/simplification/rules/root/mod.rs | 78 +++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 13 deletions(-)

diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 44c69f6..0f03684 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,30 +1,54 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 
+/// Check for a literal exponent: a number or a fraction of numbers
+fn is_number_exponent(exp: &Expr) -> bool {
+    match &exp.kind {
+        AstKind::Number(_) => true,
+        AstKind::Div(num, den) => {
+            matches!(num.kind, AstKind::Number(_)) && matches!(den.kind, AstKind::Number(_))
+        }
+        _ => false,
+    }
+}
+
 rule!(
     SqrtPowerRule,
     "sqrt_power",
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.sqrt
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
-            // Special case: sqrt(x^2) should always return abs(x)
-            if let AstKind::Number(n) = &exp.kind {
-                // Exact check for power 2.0 (square)
-                #[allow(clippy::float_cmp, reason = "Comparing against exact constant 2.0")]
-                let is_square = *n == 2.0;
-                if is_square {
-                    // sqrt(x^2) = |x|
-                    return Some(Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone()));
-                }
+            if let AstKind::Number(n) = &exp.kind
+                && n % 2.0 == 0.0
+            {
+                // sqrt(x^(2k)) = |x|^k, and the absolute value matters for odd k only
+                let k = n / 2.0;
+                let base = if k % 2.0 == 0.0 {
+                    base.as_ref().clone()
+                } else {
+                    Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone())
+                };
+                #[allow(clippy::float_cmp, reason = "Comparing against exact constant 1.0")]
+                let is_one = k == 1.0;
+                return Some(if is_one {
+                    base
+                } else {
+                    Expr::pow_static(base, Expr::number(k))
+                });
+            }
+            // sqrt(x^y) = x^(y/2) loses the sign of x when y is an even integer
+            if context.domain_safe && !is_number_exponent(exp) && !is_known_non_negative(base) {
+                return None;
             }
 
             // Create new exponent: exp / 2
@@ -72,12 +96,37 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.cbrt
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
+            // cbrt accepts negative arguments and fractional powers do not
+            let base_is_positive = if context.domain_safe {
+                is_known_non_negative(base)
+            } else {
+                matches!(base.kind, AstKind::Symbol(_)) || is_known_non_negative(base)
+            };
+            let base = if base_is_positive {
+                Arc::clone(base)
+            } else if let AstKind::Number(n) = &exp.kind
+                && n % 3.0 != 0.0
+                && n % 2.0 == 0.0
+            {
+                // cbrt(x^(2k)) = |x|^(2k/3)
+                Arc::new(Expr::func_symbol(
+                    get_symbol(KS.abs),
+                    base.as_ref().clone(),
+                ))
+            } else if context.domain_safe
+                && !matches!(exp.kind, AstKind::Number(n) if n % 3.0 == 0.0)
+            {
+                return None;
+            } else {
+                Arc::clone(base)
+            };
+
             // Create new exponent: exp / 3
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(3.0));
 
@@ -190,7 +239,7 @@ rule!(
     50,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && args.len() == 1
         {
@@ -199,7 +248,10 @@ rule!(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(2.0)),
                 ));
-            } else if name.id() == KS.cbrt {
+            } else if name.id() == KS.cbrt
+                // x^(1/3) is undefined for the negative x that cbrt accepts
+                && (!context.domain_safe || is_known_non_negative(&args[0]))
+            {
                 return Some(Expr::pow_static(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(3.0)),
-- 
2.43.0


From d03be0c712a8cdc12c8cdb99580f04fa7104975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 25/85] fix: merging and splitting fractional powers changes
 the value for negative bases

---
 .../rules/algebraic/expansion.rs              |  7 +++-
 src/simplification/rules/algebraic/powers.rs  | 38 +++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/simplification/rules/algebraic/expansion.rs b/src/simplification/rules/algebraic/expansion.rs
index afdf456..bca5539 100644
--- a/src/simplification/rules/algebraic/expansion.rs
+++ b/src/simplification/rules/algebraic/expansion.rs
@@ -1,5 +1,6 @@
 use crate::core::known_symbols::KS;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 
@@ -9,7 +10,7 @@ rule!(
     92,
     Algebraic,
     &[ExprKind::Div],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Div(num, den) = &expr.kind {
             // Helper to check if a factor is present in an expression
             let contains_factor = |e: &Expr, factor: &Expr| -> bool {
@@ -23,6 +24,10 @@ rule!(
             let check_and_expand = |target: &Expr, other: &Expr| -> Option<Expr> {
                 if let AstKind::Pow(base, exp) = &target.kind
                     && let AstKind::Product(base_factors) = &base.kind
+                    // (a*b)^r = a^r * b^r needs positive factors when r is not an integer
+                    && (!context.domain_safe
+                        || matches!(exp.kind, AstKind::Number(n) if n.fract() == 0.0)
+                        || base_factors.iter().all(|f| is_known_non_negative(f)))
                 {
                     // Check if any base factor is present in 'other'
                     let mut useful = false;
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..70461f2 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -45,7 +45,7 @@ rule!(
     75,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(u, v) = &expr.kind
             && let AstKind::Pow(base, exp_inner) = &u.kind
         {
@@ -93,10 +93,33 @@ rule!(
                 }
             }
 
+            // An outer integer exponent is always exact; any other one needs the base of an even
+            // (or possibly even) inner power without its sign
+            let outer_is_integer = matches!(v.kind, AstKind::Number(n) if n.fract() == 0.0);
+            let base_is_positive = crate::simplification::helpers::is_known_non_negative(base)
+                || (!context.domain_safe && matches!(base.kind, AstKind::Symbol(_)));
+            let mut base = Arc::clone(base);
+            if !outer_is_integer && !base_is_positive {
+                match &exp_inner.kind {
+                    AstKind::Number(n) if n % 2.0 == 0.0 => {
+                        base = Arc::new(Expr::func_multi_from_arcs_symbol(
+                            ks::get_symbol(ks::KS.abs),
+                            vec![base],
+                        ));
+                    }
+                    AstKind::Number(_) => {}
+                    AstKind::Div(num, den)
+                        if matches!(num.kind, AstKind::Number(_))
+                            && matches!(den.kind, AstKind::Number(_)) => {}
+                    _ if context.domain_safe => return None,
+                    _ => {}
+                }
+            }
+
             // Create new exponent: exp_inner * v using Product
             let new_exp = Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
 
-            return Some(Expr::pow_from_arcs(Arc::clone(base), Arc::new(new_exp)));
+            return Some(Expr::pow_from_arcs(base, Arc::new(new_exp)));
         }
         None
     }
@@ -463,7 +486,7 @@ rule!(
     88,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind
             && let AstKind::Div(num, den) = &base.kind
         {
@@ -514,6 +537,15 @@ rule!(
                 _ => false,
             };
 
+            // (a/b)^r = a^r / b^r needs b > 0 when r is not an integer
+            let is_integer_exponent = matches!(exp.kind, AstKind::Number(n) if n.fract() == 0.0);
+            if context.domain_safe
+                && !is_integer_exponent
+                && !crate::simplification::helpers::is_known_non_negative(den)
+            {
+                return None;
+            }
+
             if is_root_exponent || den_would_simplify {
                 let num_pow = Expr::pow_from_arcs(Arc::clone(num), Arc::clone(exp));
                 let den_pow = Expr::pow_from_arcs(Arc::clone(den), Arc::clone(exp));
-- 
2.43.0


From b530c8a0724eebe1ba0f8e9df09711bb2af63011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 26/85] fix: exponential form of sinh with a negated argument
 loses its sign

---
 src/simplification/rules/hyperbolic/conversions.rs | 8 ++++----
 src/simplification/rules/hyperbolic/helpers.rs     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplification/rules/hyperbolic/conversions.rs b/src/simplification/rules/hyperbolic/conversions.rs
index f39a881..8845323 100644
--- a/src/simplification/rules/hyperbolic/conversions.rs
+++ b/src/simplification/rules/hyperbolic/conversions.rs
@@ -1,5 +1,5 @@
 use super::helpers::{
-    ExpTerm, extract_negated_term, is_double_of, match_alt_cosh_pattern, match_alt_sech_pattern,
+    ExpTerm, extract_negated_term, get_positive_form, is_double_of, match_alt_cosh_pattern, match_alt_sech_pattern,
     match_alt_sinh_pattern, match_cosh_pattern, match_e2x_minus_1_direct,
     match_e2x_minus_1_factored, match_e2x_plus_1, match_sinh_pattern_sub,
 };
@@ -108,7 +108,7 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && get_positive_form(&n_arg) == d_arg
             {
                 return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.tanh), n_arg));
             }
@@ -282,9 +282,9 @@ rule!(
             };
 
             if let (Some(n_arg), Some(d_arg)) = (num_arg, den_arg)
-                && n_arg == d_arg
+                && n_arg == get_positive_form(&d_arg)
             {
-                return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.coth), n_arg));
+                return Some(Expr::func_symbol_arc(ks::get_symbol(ks::KS.coth), d_arg));
             }
 
             if let Some(x_num) = match_e2x_plus_1(numerator)
diff --git a/src/simplification/rules/hyperbolic/helpers.rs b/src/simplification/rules/hyperbolic/helpers.rs
index ae722d7..f767112 100644
--- a/src/simplification/rules/hyperbolic/helpers.rs
+++ b/src/simplification/rules/hyperbolic/helpers.rs
@@ -183,7 +183,7 @@ pub fn match_cosh_pattern(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 }
 
 /// Try to match the pattern (e^x - e^(-x)) for sinh detection
-/// Returns Some(x) if pattern matches (always returns the positive argument as Arc)
+/// Returns Some(x) if pattern matches, with the sign of x (sinh is odd)
 pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
     // u should be e^x, v should be e^(-x)
     let exp1 = ExpTerm::from_expr(u)?;
@@ -191,7 +191,7 @@ pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 
     // Check if exp2.arg = -exp1.arg (so u = e^x, v = e^(-x))
     if exp2.is_negation_of(&exp1.arg) {
-        return Some(get_positive_form(&exp1.arg));
+        return Some(exp1.arg);
     }
     None
 }
-- 
2.43.0


From c1acbe0ad65be2019ed34f487844d31e0578c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 27/85] fix: trigonometric functions of huge constants are
 rounded to integers

---
 src/simplification/rules/numeric/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 59cb946..75f944e 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -579,7 +579,8 @@ rule!(
                 // trigonometric root such as sin(pi)
                 let id = name.id();
                 let is_trig_noise = (id == KS.sin || id == KS.cos || id == KS.tan || id == KS.cot)
-                    && result.abs() < EPSILON * numeric_args[0].abs();
+                    && result.abs() < EPSILON
+                    && numeric_args[0].abs() > 1.0;
                 if is_near_integer(result) || is_trig_noise {
                     return Some(Expr::number(result.round()));
                 }
-- 
2.43.0


From eabbd58947363f3c48fb60d8fb848bd2ffa6ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 28/85] fix: domain-safe simplification of unreduced exponents
 and of powers with negated exponents

---
 src/simplification/helpers.rs                | 12 ++++++++
 src/simplification/rules/algebraic/powers.rs | 30 ++++++++++++-------
 src/simplification/rules/root/mod.rs         | 31 ++++++--------------
 3 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 3f9f121..ea71988 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -496,6 +496,18 @@ pub fn is_known_non_negative(expr: &Expr) -> bool {
     }
 }
 
+/// Value of a literal exponent: a number or a fraction of numbers
+pub fn literal_exponent(exp: &Expr) -> Option<f64> {
+    match &exp.kind {
+        ExprKind::Number(n) => Some(*n),
+        ExprKind::Div(num, den) => match (&num.kind, &den.kind) {
+            (ExprKind::Number(a), ExprKind::Number(b)) => Some(a / b),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 /// Check if an exponent represents a fractional power that requires non-negative base
 /// (i.e., exponents like 1/2, 1/4, 3/2, etc. where denominator is even)
 /// Check if expression represents a fractional root exponent.
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index 70461f2..14c4e28 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -1,5 +1,6 @@
 use crate::core::known_symbols as ks;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::literal_exponent;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -95,23 +96,19 @@ rule!(
 
             // An outer integer exponent is always exact; any other one needs the base of an even
             // (or possibly even) inner power without its sign
-            let outer_is_integer = matches!(v.kind, AstKind::Number(n) if n.fract() == 0.0);
+            let outer_is_integer = literal_exponent(v).is_some_and(|n| n.fract() == 0.0);
             let base_is_positive = crate::simplification::helpers::is_known_non_negative(base)
                 || (!context.domain_safe && matches!(base.kind, AstKind::Symbol(_)));
             let mut base = Arc::clone(base);
             if !outer_is_integer && !base_is_positive {
-                match &exp_inner.kind {
-                    AstKind::Number(n) if n % 2.0 == 0.0 => {
+                match literal_exponent(exp_inner) {
+                    Some(n) if n % 2.0 == 0.0 => {
                         base = Arc::new(Expr::func_multi_from_arcs_symbol(
                             ks::get_symbol(ks::KS.abs),
                             vec![base],
                         ));
                     }
-                    AstKind::Number(_) => {}
-                    AstKind::Div(num, den)
-                        if matches!(num.kind, AstKind::Number(_))
-                            && matches!(den.kind, AstKind::Number(_)) => {}
-                    _ if context.domain_safe => return None,
+                    None if context.domain_safe => return None,
                     _ => {}
                 }
             }
@@ -434,7 +431,7 @@ rule!(
     90,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind {
             // Handle negative number exponent: x^-n -> 1/x^n
             if let AstKind::Number(n) = exp.kind
@@ -444,10 +441,21 @@ rule!(
                 let denominator = Expr::pow_from_arcs(Arc::clone(base), positive_exp);
                 return Some(Expr::div_expr(Expr::number(1.0), denominator));
             }
+            // x^(-y) is defined at x = 0 for negative y, 1/x^y is not
+            let base_is_nonzero = !context.domain_safe
+                || match &base.kind {
+                    AstKind::Number(n) => *n != 0.0,
+                    AstKind::Symbol(s) => ks::is_known_constant_by_id(s.id()),
+                    AstKind::FunctionCall { name, .. } => {
+                        name.id() == ks::KS.exp || name.id() == ks::KS.cosh
+                    }
+                    _ => false,
+                };
             // Handle negative fraction exponent: x^(-a/b) -> 1/x^(a/b)
             if let AstKind::Div(num, den) = &exp.kind
                 && let AstKind::Number(n) = num.kind
                 && n < 0.0
+                && (base_is_nonzero || matches!(den.kind, AstKind::Number(_)))
             {
                 let positive_num = Expr::number(-n);
                 let positive_exp = Expr::div_from_arcs(Arc::new(positive_num), Arc::clone(den));
@@ -463,7 +471,7 @@ rule!(
                 // Exact check for -1.0 coefficient
                 #[allow(clippy::float_cmp, reason = "Comparing against exact constant -1.0")]
                 let is_neg_one = *n == -1.0;
-                if is_neg_one {
+                if is_neg_one && base_is_nonzero {
                     // Create a new exponent with the remaining factors (excluding -1)
                     let remaining_factors: Vec<Arc<Expr>> = factors[1..].to_vec();
                     let positive_exp = if remaining_factors.len() == 1 {
@@ -538,7 +546,7 @@ rule!(
             };
 
             // (a/b)^r = a^r / b^r needs b > 0 when r is not an integer
-            let is_integer_exponent = matches!(exp.kind, AstKind::Number(n) if n.fract() == 0.0);
+            let is_integer_exponent = literal_exponent(exp).is_some_and(|n| n.fract() == 0.0);
             if context.domain_safe
                 && !is_integer_exponent
                 && !crate::simplification::helpers::is_known_non_negative(den)
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 0f03684..b232cd1 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,21 +1,10 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
 use crate::core::traits::EPSILON;
-use crate::simplification::helpers::is_known_non_negative;
+use crate::simplification::helpers::{is_known_non_negative, literal_exponent};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 
-/// Check for a literal exponent: a number or a fraction of numbers
-fn is_number_exponent(exp: &Expr) -> bool {
-    match &exp.kind {
-        AstKind::Number(_) => true,
-        AstKind::Div(num, den) => {
-            matches!(num.kind, AstKind::Number(_)) && matches!(den.kind, AstKind::Number(_))
-        }
-        _ => false,
-    }
-}
-
 rule!(
     SqrtPowerRule,
     "sqrt_power",
@@ -28,7 +17,7 @@ rule!(
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
-            if let AstKind::Number(n) = &exp.kind
+            if let Some(n) = literal_exponent(exp)
                 && n % 2.0 == 0.0
             {
                 // sqrt(x^(2k)) = |x|^k, and the absolute value matters for odd k only
@@ -47,7 +36,10 @@ rule!(
                 });
             }
             // sqrt(x^y) = x^(y/2) loses the sign of x when y is an even integer
-            if context.domain_safe && !is_number_exponent(exp) && !is_known_non_negative(base) {
+            if context.domain_safe
+                && literal_exponent(exp).is_none()
+                && !is_known_non_negative(base)
+            {
                 return None;
             }
 
@@ -110,18 +102,13 @@ rule!(
             };
             let base = if base_is_positive {
                 Arc::clone(base)
-            } else if let AstKind::Number(n) = &exp.kind
+            } else if let Some(n) = literal_exponent(exp)
                 && n % 3.0 != 0.0
                 && n % 2.0 == 0.0
             {
                 // cbrt(x^(2k)) = |x|^(2k/3)
-                Arc::new(Expr::func_symbol(
-                    get_symbol(KS.abs),
-                    base.as_ref().clone(),
-                ))
-            } else if context.domain_safe
-                && !matches!(exp.kind, AstKind::Number(n) if n % 3.0 == 0.0)
-            {
+                Arc::new(Expr::func_symbol(get_symbol(KS.abs), base.as_ref().clone()))
+            } else if context.domain_safe && literal_exponent(exp).is_none_or(|n| n % 3.0 != 0.0) {
                 return None;
             } else {
                 Arc::clone(base)
-- 
2.43.0


From 2c552e4a49147d2a7b5d790e4e5c0ff1d5d43fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 29/85] fix: polynomial division never ends when a coefficient
 overflows

---
 src/core/poly.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/poly.rs b/src/core/poly.rs
index 399ca3f..362a8c4 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -454,6 +454,9 @@ impl Polynomial {
 
             let q_coeff = remainder.leading_coeff() / div_lc;
             let q_pow = rem_deg - div_deg;
+            if !q_coeff.is_finite() {
+                return None;
+            }
 
             quotient.add_term(q_pow, q_coeff);
 
@@ -461,6 +464,10 @@ impl Polynomial {
             for &(p, c) in &other.terms {
                 remainder.add_term(p + q_pow, -q_coeff * c);
             }
+            // Overflow or rounding can keep the leading term alive
+            if !remainder.is_zero() && remainder.degree() >= rem_deg {
+                return None;
+            }
         }
 
         Some((quotient, remainder))
-- 
2.43.0


From a47462761637d574d6d840187b72de8b5067d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 30/85] fix: acsch of tiny arguments is not evaluated

---
 src/functions/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index b2be821..c3acf5f 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -531,7 +531,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "acsch",
             arity: 1..=1,
             eval: |args| {
-                if args[0].abs() < 1e-15 {
+                if args[0] == 0.0 {
                     None
                 } else {
                     Some((1.0 / args[0]).asinh())
-- 
2.43.0


From 3312d8a34ec6caf063bdb6ce5bf288fe090fc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 31/85] fix: canonical order treats a polynomial and its base
 as equal, so operand order shows

---
 src/core/expr/ordering.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/core/expr/ordering.rs b/src/core/expr/ordering.rs
index 28dca91..da7b749 100644
--- a/src/core/expr/ordering.rs
+++ b/src/core/expr/ordering.rs
@@ -44,7 +44,30 @@ pub fn expr_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
     let coeff_a = get_coeff(a);
     let coeff_b = get_coeff(b);
 
-    coeff_a.partial_cmp(&coeff_b).unwrap_or(CmpOrdering::Equal)
+    coeff_a
+        .partial_cmp(&coeff_b)
+        .unwrap_or(CmpOrdering::Equal)
+        // A polynomial shares base, exponent and coefficient with its own base and with every
+        // other polynomial in that base, but is not equal to them
+        .then_with(|| match (get_poly(a), get_poly(b)) {
+            (Some(p), Some(q)) => expr_cmp_type_strict(p, q),
+            (Some(_), None) => CmpOrdering::Greater,
+            (None, Some(_)) => CmpOrdering::Less,
+            (None, None) => CmpOrdering::Equal,
+        })
+}
+
+/// The polynomial in `p` or `c*p`, if there is one
+fn get_poly(e: &Expr) -> Option<&Expr> {
+    match &e.kind {
+        ExprKind::Poly(_) => Some(e),
+        ExprKind::Product(factors)
+            if factors.len() == 2 && matches!(&factors[0].kind, ExprKind::Number(_)) =>
+        {
+            get_poly(&factors[1])
+        }
+        _ => None,
+    }
 }
 
 // Helper to get the sorting "base" of an expression.
-- 
2.43.0


From f8ff83269c05a686e1195c376fce904ce268bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 32/85] fix: compiled products drop a constant factor that has
 no value

---
 src/evaluator/compiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index 3e10af4..4cdaa57 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -787,7 +787,8 @@ impl<'ctx> Compiler<'ctx> {
         }
 
         // Handle the constant part at the end (enables MulConst fusion)
-        if (constant_acc - 1.0).abs() > EPSILON {
+        // A NaN factor must stay: a plain `> EPSILON` would drop it.
+        if (constant_acc - 1.0).abs().partial_cmp(&EPSILON) != Some(std::cmp::Ordering::Less) {
             if (constant_acc - -1.0).abs() < EPSILON {
                 // Defer negation to the end (saving a LoadConst + Mul)
                 negate_at_end = true;
-- 
2.43.0


From 3efd284695c8c09a0471ec4b68d7353c1bc7ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 33/85] fix: batch evaluation of general powers is wrong for
 infinities, zeros and negative bases

---
 src/evaluator/simd.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index e93c45d..fba9924 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -503,7 +503,15 @@ impl CompiledEvaluator {
                 Instruction::Pow => {
                     let exp = pop!();
                     let top = top_mut!();
-                    *top = top.pow_f64x4(exp);
+                    // Per lane: `pow_f64x4` is wrong for infinities, zeros and negative bases
+                    let base_arr = top.to_array();
+                    let exp_arr = exp.to_array();
+                    *top = f64x4::new([
+                        base_arr[0].powf(exp_arr[0]),
+                        base_arr[1].powf(exp_arr[1]),
+                        base_arr[2].powf(exp_arr[2]),
+                        base_arr[3].powf(exp_arr[3]),
+                    ]);
                 }
 
                 // Unary operations
-- 
2.43.0


From 92efc715353c02831f7e77fd63aa7f9ae373456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 34/85] fix: eval_batch writes beyond a reused buffer whose
 capacity is too small

---
 src/evaluator/simd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index fba9924..ad4d492 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,8 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                // `reserve` counts from the length, not from the capacity
+                buf.reserve(self.stack_size.saturating_sub(buf.len()));
                 buf
             }
             None => {
-- 
2.43.0


From 5c0dceaf7ffadcaf56df103e4043f7332f3d88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 35/85] fix: derivative notation printed by the library cannot
 be read back

---
 src/core/display.rs        |   9 +-
 src/parser/implicit_mul.rs |   9 +-
 src/parser/lexer.rs        | 293 +++++++++++++++++++------------------
 src/parser/pratt.rs        |  10 +-
 src/parser/tokens.rs       |   2 +-
 5 files changed, 177 insertions(+), 146 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index c83ea8b..ee5e3a7 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -1117,7 +1117,14 @@ impl fmt::Display for Expr {
             ExprKind::Pow(u, v) => format_pow_expr(f, u, v, FormatMode::Standard, None),
 
             ExprKind::Derivative { inner, var, order } => {
-                write!(f, "\u{2202}^{order}_{inner}/\u{2202}_{var}^{order}")
+                if matches!(
+                    inner.kind,
+                    ExprKind::FunctionCall { .. } | ExprKind::Derivative { .. }
+                ) {
+                    write!(f, "\u{2202}^{order}_{inner}/\u{2202}_{var}^{order}")
+                } else {
+                    write!(f, "\u{2202}^{order}_({inner})/\u{2202}_{var}^{order}")
+                }
             }
 
             // Poly: display inline using Polynomial's Display
diff --git a/src/parser/implicit_mul.rs b/src/parser/implicit_mul.rs
index 50dbe1f..23ed492 100644
--- a/src/parser/implicit_mul.rs
+++ b/src/parser/implicit_mul.rs
@@ -56,13 +56,20 @@ fn should_insert_mul<'src, S: std::hash::BuildHasher>(
 ///
 /// Exception: Function followed by ( is NOT multiplication
 pub fn insert_implicit_multiplication<'src, S: std::hash::BuildHasher>(
-    tokens: Vec<Token<'src>>,
+    mut tokens: Vec<Token<'src>>,
     custom_functions: &std::collections::HashSet<String, S>,
 ) -> Vec<Token<'src>> {
     if tokens.is_empty() {
         return tokens;
     }
 
+    // The arguments of a derivative are a token list of their own
+    for token in &mut tokens {
+        if let Token::Derivative { args, .. } = token {
+            *args = insert_implicit_multiplication(std::mem::take(args), custom_functions);
+        }
+    }
+
     // Optimization: Check if any insertion is needed before allocating new vector
     let needs_insertion = tokens
         .windows(2)
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3cf4062..1d8bd4a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -110,6 +110,9 @@ fn get_builtins_set() -> &'static HashSet<&'static str> {
     BUILTINS_SET.get_or_init(|| BUILTINS.iter().copied().collect())
 }
 
+/// Largest number of derivatives inside one derivative in `∂` notation
+const MAX_DERIVATIVE_NESTING: usize = 100;
+
 /// Check if a string is a builtin function name (O(1) lookup)
 #[inline]
 fn is_builtin(name: &str) -> bool {
@@ -211,86 +214,150 @@ enum RawToken<'src> {
 /// Returns the complete derivative string (including the leading ∂)
 ///
 /// This handles complex derivative notation like: ∂_f(x+y)/∂_x
-/// by tracking parenthesis depth to ensure balanced expressions.
+/// by tracking parenthesis depth to ensure balanced expressions, and derivatives
+/// of derivatives like ∂^1_∂^1_f(x)/∂_x^1/∂_y^1. What follows the differentiation
+/// variable and its order is left to the rest of the formula.
 #[allow(
     clippy::string_slice,
     reason = "Slicing is safe because len is calculated from utf8 lengths"
 )]
 fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
-    let mut chars = input.chars().peekable();
-    let mut len = 0;
-    let mut depth = 0;
-
-    // chars is already positioned at start of input. Check for ∂
-    if chars.peek() == Some(&'\u{2202}') {
-        let c = chars.next().expect("Checked peek");
-        len += c.len_utf8();
-    } else {
-        // This function expects to be called when ∂ is detected
-        // but we handle the case where it's not starting with it if needed,
-        // though the caller (lexer) checks it.
+    match split_derivative(input) {
+        Some(parts) => Ok(&input[..parts.len]),
+        None => Err(DiffError::invalid_token(format!(
+            "Invalid derivative notation '{input}'"
+        ))),
     }
+}
 
-    while let Some(&next_c) = chars.peek() {
-        // Decision logic based on CURRENT depth
-        let accept = if depth > 0 {
-            // Inside parens, accept everything except unmatched closing
-            true
-        } else {
-            // Top level: accept specific chars for derivative notation
-            next_c.is_alphanumeric()
-                || next_c == '_'
-                || next_c == '\u{2202}'
-                || next_c == '^'
-                || next_c == '/'
-                || next_c == '('
-                || next_c == ')'
-                || next_c == ','
+/// The inner function of a derivative in `∂` notation
+enum DerivativeInner<'src> {
+    /// `name` or `name(args)`
+    Call {
+        /// Function name
+        name: &'src str,
+        /// Text between the parentheses, if there are any
+        args: Option<&'src str>,
+    },
+    /// Another derivative, or an expression in parentheses
+    Expression(&'src str),
+}
+
+/// The parts of a derivative in `∂` notation
+struct DerivativeParts<'src> {
+    /// Derivative order
+    order: &'src str,
+    /// What is differentiated
+    inner: DerivativeInner<'src>,
+    /// Differentiation variable
+    var: &'src str,
+    /// Byte length of the whole notation
+    len: usize,
+}
+
+/// Split `∂[^order]_inner/∂_var[^order]` at the start of `input` into its parts
+///
+/// `inner` is `name`, `name(args)`, `(expression)` or another derivative. Returns `None`
+/// if the input does not start with a complete derivative.
+fn split_derivative(input: &str) -> Option<DerivativeParts<'_>> {
+    /// Heads (`∂^n_`) of derivatives that are nested directly in each other
+    fn head(text: &str) -> Option<(&str, &str)> {
+        let rest = text.strip_prefix('\u{2202}')?;
+        let (order, rest) = match rest.strip_prefix('^') {
+            Some(rest) => take_while(rest, |c| c.is_ascii_digit()),
+            None => ("1", rest),
+        };
+        Some((order, rest.strip_prefix('_')?))
+    }
+
+    /// Tail (`/∂_var^n`) of a derivative of the given order
+    fn tail<'src>(text: &'src str, order: &str) -> Option<(&'src str, &'src str)> {
+        let rest = text.strip_prefix("/\u{2202}_")?;
+        let (var, rest) = take_while(rest, is_identifier_continue);
+        let rest = match rest.strip_prefix('^') {
+            Some(power) if power.starts_with(|c: char| c.is_ascii_digit()) => {
+                let (right_order, after) = take_while(power, |c| c.is_ascii_digit());
+                if right_order != order {
+                    return None;
+                }
+                after
+            }
+            // Not an order: a power of the derivative, or none at all
+            _ => rest,
         };
+        (!var.is_empty()).then_some((var, rest))
+    }
 
-        if !accept {
-            break;
+    // Nested derivatives start with all their heads: read these first, without recursion
+    let mut orders = Vec::new();
+    let mut starts = Vec::new();
+    let mut rest = input;
+    while rest.starts_with('\u{2202}') {
+        starts.push(input.len() - rest.len());
+        let (order, after) = head(rest)?;
+        orders.push(order);
+        rest = after;
+    }
+
+    let mut inner = if rest.starts_with('(') {
+        let (body, after) = split_parentheses(rest)?;
+        rest = after;
+        DerivativeInner::Expression(body)
+    } else {
+        let (name, after) = take_while(rest, is_identifier_continue);
+        if name.is_empty() {
+            return None;
         }
+        rest = after;
+        let mut args = None;
+        if rest.starts_with('(') {
+            let (body, closed) = split_parentheses(rest)?;
+            rest = closed;
+            args = Some(body);
+        }
+        DerivativeInner::Call { name, args }
+    };
 
-        chars.next(); // Consume
-        len += next_c.len_utf8();
+    // Then close them from the innermost to the outermost
+    loop {
+        let order = orders.pop()?;
+        let start = starts.pop()?;
+        let (var, after) = tail(rest, order)?;
+        rest = after;
+        let end = input.len() - rest.len();
+        if orders.is_empty() {
+            return Some(DerivativeParts {
+                order,
+                inner,
+                var,
+                len: end,
+            });
+        }
+        inner = DerivativeInner::Expression(input.get(start..end)?);
+    }
+}
 
-        // Update depth AFTER consuming
-        match next_c {
+/// Split the text after its longest prefix of characters that satisfy the predicate
+fn take_while(text: &str, accept: impl Fn(char) -> bool) -> (&str, &str) {
+    text.split_at(text.find(|c| !accept(c)).unwrap_or(text.len()))
+}
+
+/// Split `(body)rest` into `body` and `rest`, or return `None` if the parentheses do not match
+fn split_parentheses(text: &str) -> Option<(&str, &str)> {
+    let mut depth = 0_usize;
+    for (i, c) in text.char_indices() {
+        match c {
             '(' => depth += 1,
             ')' => {
-                if depth > 0 {
-                    depth -= 1;
-                } else {
-                    // Unmatched closing paren at top level - stop here
-                    // This logic mirrors the original: break on unmatched closing paren
-                    // However, we consumed it.
-                    // "Unmatched closing paren at top level - stop here"
-                    // Original code:
-                    // seq.push(next_c); chars.next();
-                    // if depth > 0 { depth -= 1 } else { break }
-                    // So it INCLUDED the closing paren in seq, then broke loop.
-                    // Wait, if depth == 0, break.
-                    // So ")(x" -> seq includes ")".
-                    // But then it breaks.
-                    // Let's verify original behavior.
-                    break;
+                depth -= 1;
+                if depth == 0 {
+                    return Some((text.get(1..i)?, text.get(i + 1..)?));
                 }
             }
             _ => {}
         }
     }
-
-    let seq = &input[..len];
-
-    // Basic validation: derivative notation should contain more than just '∂'
-    if seq.len() <= '\u{2202}'.len_utf8() {
-        return Err(DiffError::invalid_token(format!(
-            "Incomplete derivative notation: {seq}"
-        )));
-    }
-
-    Ok(seq)
+    None
 }
 
 /// Pass 1: Scan characters and create raw tokens
@@ -654,51 +721,28 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
     custom_functions: &HashSet<String, S>,
 ) -> Result<Token<'src>, DiffError> {
     // Format: ∂^order_func(args)/∂_var^order
-    if !s.starts_with("\u{2202}") || !s.contains("/\u{2202}_") {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': must start with '\u{2202}' and contain '/\u{2202}_'"
-        )));
-    }
-
-    let parts: Vec<&str> = s.split("/\u{2202}_").collect();
-    if parts.len() != 2 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{}': expected exactly one '/\u{2202}_' separator, found {}",
-            s,
-            parts.len() - 1
-        )));
-    }
-
-    let left = parts[0]; // ∂^order_func(args) or ∂_func(args)
-    let right = parts[1]; // var^order or var
+    let parts = split_derivative(s)
+        .filter(|parts| parts.len == s.len())
+        .ok_or_else(|| {
+            DiffError::invalid_token(format!(
+                "Invalid derivative notation '{s}': expected \u{2202}^order_func(args)/\u{2202}_var^order"
+            ))
+        })?;
+
+    let order = parts.order.parse::<u32>().map_err(|_e| {
+        DiffError::invalid_token(format!(
+            "Invalid derivative notation '{s}': order '{}' is not a valid number",
+            parts.order
+        ))
+    })?;
 
-    // Parse left side
-    let left_parts: Vec<&str> = left.split('_').collect();
-    if left_parts.len() < 2 {
+    // Safety: nested derivatives are lexed recursively
+    if s.matches("/\u{2202}_").count() > MAX_DERIVATIVE_NESTING {
         return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': left side must contain underscore separator"
+            "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
         )));
     }
 
-    // Parse order from left (defaults to 1 if not specified)
-    // e.g., "∂^n" -> n, "∂" -> 1
-    // Note: '∂' is 3 bytes in UTF-8, '^' is 1 byte = 4 bytes total to skip
-    let order_str = if left_parts[0].starts_with("\u{2202}^") {
-        left_parts[0].get(4..).expect("Checked prefix boundaries")
-    } else if left_parts[0] == "\u{2202}" {
-        "1"
-    } else {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': expected '\u{2202}' or '\u{2202}^order'"
-        )));
-    };
-
-    let order = order_str.parse::<u32>().map_err(|_e| {
-        DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': order '{order_str}' is not a valid number"
-        ))
-    })?;
-
     // Safety check: prevent unreasonably high derivative orders
     if order > 100 {
         return Err(DiffError::invalid_token(format!(
@@ -706,51 +750,16 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
         )));
     }
 
-    // Parse function name and args
-    // left_parts[1] is "func(args)" or "func"
-    let func_str = left_parts[1];
-    let (func_name, args_tokens) = if let Some(open_paren) = func_str.find('(') {
-        if func_str.ends_with(')') {
-            let name = func_str.get(..open_paren).expect("Checked paren position");
-            // .to_owned(); // Changed to borrow
-            let args_body = func_str
-                .get(open_paren + 1..func_str.len() - 1)
-                .expect("Checked paren boundaries");
-
-            // Safety: prevent infinite recursion on malformed nested derivatives
-            // Check if we're about to recursively parse another derivative
-            if args_body.contains("\u{2202}") && args_body.contains("/\u{2202}_") {
-                // This is likely a nested derivative - limit recursion depth
-                // by ensuring the args don't contain another full derivative notation
-                let nested_depth = args_body.matches("/\u{2202}_").count();
-                if nested_depth > 3 {
-                    return Err(DiffError::invalid_token(format!(
-                        "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
-                    )));
-                }
-            }
-
-            // Recursively lex the arguments
-            let tokens = lex(args_body, fixed_vars, custom_functions)?;
-            (name, tokens)
-        } else {
-            return Err(DiffError::invalid_token(format!(
-                "Invalid derivative notation '{s}': unmatched parentheses in function arguments"
-            )));
-        }
-    } else {
-        (func_str, Vec::new())
+    let (func, body) = match parts.inner {
+        DerivativeInner::Call { name, args } => (name, args.unwrap_or_default()),
+        DerivativeInner::Expression(text) => ("", text),
     };
 
-    // Parse right side: var^order or var
-    let right_parts: Vec<&str> = right.split('^').collect();
-    let var = right_parts[0]; //.to_owned();
-
     Ok(Token::Derivative {
         order,
-        func: Cow::Borrowed(func_name), //Borrow
-        args: args_tokens,
-        var: Cow::Borrowed(var), // Borrow
+        func: Cow::Borrowed(func),
+        args: lex(body, fixed_vars, custom_functions)?,
+        var: Cow::Borrowed(parts.var),
     })
 }
 
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index ff2acc7..989e95f 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -319,7 +319,15 @@ impl<'src> Parser<'_, 'src> {
                         exprs
                     };
 
-                let inner_expr = Expr::func_multi(func, arg_exprs);
+                let inner_expr = if func.is_empty() {
+                    // A derivative of an expression: the only argument is what is differentiated
+                    match <[Expr; 1]>::try_from(arg_exprs) {
+                        Ok([inner]) if !args.is_empty() => inner,
+                        _ => return Err(DiffError::invalid_token(token.to_user_string())),
+                    }
+                } else {
+                    Expr::func_multi(func, arg_exprs)
+                };
 
                 Ok(Expr::derivative(inner_expr, var, *order))
             }
diff --git a/src/parser/tokens.rs b/src/parser/tokens.rs
index 2e21574..c00327b 100644
--- a/src/parser/tokens.rs
+++ b/src/parser/tokens.rs
@@ -23,7 +23,7 @@ pub enum Token<'src> {
     Derivative {
         /// Derivative order
         order: u32,
-        /// Function name
+        /// Function name, or empty if `args` is the expression that is differentiated
         func: Cow<'src, str>,
         /// Function arguments
         args: Vec<Self>,
-- 
2.43.0


From b2cf8c4d7d5ca85c696e6de56ffb754e4e2353be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 36/85] fix: tokens after a complete expression are silently
 ignored

---
 src/parser/pratt.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 989e95f..8d9e4af 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -24,7 +24,17 @@ pub fn parse_expression(
         context,
     };
 
-    parser.parse_expr(0)
+    let expr = parser.parse_expr(0)?;
+
+    // Whatever follows a complete expression would be lost silently
+    match parser.current() {
+        None => Ok(expr),
+        Some(token) => Err(DiffError::UnexpectedToken {
+            expected: "operator or end of input".to_owned(),
+            got: token.to_user_string(),
+            span: None,
+        }),
+    }
 }
 
 /// Pratt parser for expressions
-- 
2.43.0


From 45f48207e27eb476a9a1753975c5f11d9b50e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 37/85] fix: built-in functions accept any number of surplus
 arguments

---
 src/parser/pratt.rs  | 12 ++++++++----
 src/parser/tokens.rs | 10 ++++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 8d9e4af..9485a80 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -226,12 +226,16 @@ impl<'src> Parser<'_, 'src> {
                         });
                     }
 
-                    // Validate minimum number of arguments
-                    let min_args = op.min_arity();
-                    if args.len() < min_args {
+                    // Validate number of arguments
+                    let (min_args, max_args) = (op.min_arity(), op.max_arity());
+                    if args.len() < min_args || args.len() > max_args {
                         return Err(DiffError::InvalidFunctionCall {
                             name: op.to_name().to_owned(),
-                            expected: min_args,
+                            expected: if args.len() < min_args {
+                                min_args
+                            } else {
+                                max_args
+                            },
                             got: args.len(),
                         });
                     }
diff --git a/src/parser/tokens.rs b/src/parser/tokens.rs
index c00327b..737802f 100644
--- a/src/parser/tokens.rs
+++ b/src/parser/tokens.rs
@@ -475,6 +475,16 @@ impl Operator {
             _ => 0,
         }
     }
+
+    /// Get the maximum number of arguments accepted by this function operator
+    ///
+    /// Only the logarithm has an optional argument (its base).
+    pub const fn max_arity(&self) -> usize {
+        match self {
+            Self::Log => 2,
+            _ => self.min_arity(),
+        }
+    }
 }
 
 impl std::str::FromStr for Operator {
-- 
2.43.0


From dac5cf4f6a47c72b14e2c2e587acabe1e1d01689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 38/85] fix: a number before a name that starts with e is
 rejected as a malformed exponent

---
 src/parser/lexer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1d8bd4a..d74b5fc 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -448,12 +448,15 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
                             pos += 1;
                         }
                         'e' | 'E' if !has_exponent => {
-                            has_exponent = true;
-                            pos += 1;
                             // Handle optional sign after exponent
-                            if pos < bytes.len() && (bytes[pos] == b'+' || bytes[pos] == b'-') {
-                                pos += 1;
+                            let signed = matches!(bytes.get(pos + 1), Some(b'+' | b'-'));
+                            let digits = pos + 1 + usize::from(signed);
+                            // Without digits it is no exponent, as in 2e or 2exp(x)
+                            if !bytes.get(digits).is_some_and(u8::is_ascii_digit) {
+                                break;
                             }
+                            has_exponent = true;
+                            pos = digits;
                         }
                         _ => break,
                     }
-- 
2.43.0


From a97febafdcba47aa40c59ca4176188cc47c71fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 39/85] fix: positions of lexical errors can point outside the
 input

---
 src/core/error.rs   | 13 +++++++++++++
 src/parser/lexer.rs | 19 +++++++++++++++++--
 src/parser/mod.rs   |  3 ++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/core/error.rs b/src/core/error.rs
index af9a117..b46319a 100644
--- a/src/core/error.rs
+++ b/src/core/error.rs
@@ -234,6 +234,19 @@ impl DiffError {
         }
     }
 
+    /// Move the span of a lexer error back by `offset` bytes
+    pub(crate) fn with_span_moved_back(mut self, offset: usize) -> Self {
+        if let Self::InvalidNumber { span, .. } | Self::InvalidToken { span, .. } = &mut self {
+            *span = span.map(|s| {
+                Span::new(
+                    s.start.saturating_sub(offset),
+                    s.end.saturating_sub(offset),
+                )
+            });
+        }
+        self
+    }
+
     /// Create `InvalidToken` without span (backward compatible)
     pub fn invalid_token(token: impl Into<String>) -> Self {
         Self::InvalidToken {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d74b5fc..22c2f62 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -161,6 +161,17 @@ pub fn balance_parentheses(input: &str) -> Cow<'_, str> {
     }
 }
 
+/// Number of parentheses that `balance_parentheses` put before the input
+pub fn prepended_parentheses(input: &str, balanced: &str) -> usize {
+    if balanced.starts_with(input) {
+        0
+    } else if balanced.ends_with(input) {
+        balanced.len() - input.len()
+    } else {
+        1 // Wrapped as a whole
+    }
+}
+
 /// Parse a number string to f64
 /// Supports: integers (3), decimals (3.14), scientific notation (1e10, 2.5e-3)
 ///
@@ -509,9 +520,13 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
 
             _ => {
                 // For invalid tokens, include position information
+                let token = input
+                    .get(pos..)
+                    .and_then(|s| s.chars().next())
+                    .unwrap_or(ch);
                 return Err(DiffError::InvalidToken {
-                    token: ch.to_string(),
-                    span: Some(crate::Span::new(pos, pos + 1)),
+                    token: token.to_string(),
+                    span: Some(crate::Span::new(pos, pos + token.len_utf8())),
                 });
             }
         }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4b6129f..bab7881 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -86,7 +86,8 @@ pub fn parse<S: std::hash::BuildHasher + Clone>(
     let balanced = lexer::balance_parentheses(input);
 
     // Step 3: Lexing (two-pass)
-    let tokens = lexer::lex(&balanced, symbols_ref, functions_ref)?;
+    let tokens = lexer::lex(&balanced, symbols_ref, functions_ref)
+        .map_err(|e| e.with_span_moved_back(lexer::prepended_parentheses(input, &balanced)))?;
 
     // Step 4: Insert implicit multiplication
     let tokens_with_mul = implicit_mul::insert_implicit_multiplication(tokens, functions_ref);
-- 
2.43.0


From 587da86c81fd09eba734251b3f4736344db65175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 40/85] fix: deeply nested formulas overflow the stack

---
 src/parser/pratt.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 9485a80..6724610 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -8,6 +8,12 @@ use crate::{DiffError, Expr};
 
 use crate::core::unified_context::Context;
 
+/// Deepest nesting of operands and quotients that is parsed
+///
+/// Parsing and everything done with an expression afterwards is recursive: without a
+/// limit a long enough formula overflows the stack.
+const MAX_NESTING: usize = 256;
+
 /// Parse tokens into an AST using Pratt parsing algorithm
 #[inline]
 pub fn parse_expression(
@@ -22,6 +28,8 @@ pub fn parse_expression(
         tokens,
         pos: 0,
         context,
+        nesting: 0,
+        quotients: 0,
     };
 
     let expr = parser.parse_expr(0)?;
@@ -45,6 +53,10 @@ struct Parser<'tokens, 'src> {
     pos: usize,
     /// Optional context for parsing
     context: Option<&'tokens Context>,
+    /// Number of operands being parsed, each inside the previous one
+    nesting: usize,
+    /// Number of quotients inside each other in the operand parsed last
+    quotients: usize,
 }
 
 impl<'src> Parser<'_, 'src> {
@@ -62,7 +74,19 @@ impl<'src> Parser<'_, 'src> {
 
     /// Parse an expression with precedence
     fn parse_expr(&mut self, min_precedence: u8) -> Result<Expr, DiffError> {
+        if self.nesting >= MAX_NESTING {
+            return Err(DiffError::MaxDepthExceeded);
+        }
+        self.nesting += 1;
+        let result = self.parse_operand(min_precedence);
+        self.nesting -= 1;
+        result
+    }
+
+    /// Parse an expression with precedence, whose nesting has been checked
+    fn parse_operand(&mut self, min_precedence: u8) -> Result<Expr, DiffError> {
         // Parse left side (prefix)
+        self.quotients = 0;
         let mut left = self.parse_prefix()?;
 
         // Parse operators and right side (infix)
@@ -86,7 +110,14 @@ impl<'src> Parser<'_, 'src> {
                 continue;
             }
 
+            let is_quotient = matches!(token, Token::Operator(Operator::Div));
+            let quotients = self.quotients;
             left = self.parse_infix(left, precedence)?;
+            // Quotients nest to the left without any recursion of the parser
+            self.quotients = quotients.max(self.quotients) + usize::from(is_quotient);
+            if self.quotients > MAX_NESTING {
+                return Err(DiffError::MaxDepthExceeded);
+            }
         }
 
         Ok(left)
@@ -96,6 +127,7 @@ impl<'src> Parser<'_, 'src> {
     /// This avoids O(N²) cascading when parsing large sums like "a + b + c + d + ..."
     fn parse_additive_chain(&mut self, first: Expr) -> Result<Expr, DiffError> {
         let mut terms: Vec<Expr> = vec![first];
+        let mut quotients = self.quotients;
 
         loop {
             let is_add = match self.current() {
@@ -110,6 +142,7 @@ impl<'src> Parser<'_, 'src> {
                     // Parse next term at precedence 11 (higher than additive)
                     // This ensures we stop at the next + or - at the same level
                     let term = self.parse_expr(11)?;
+                    quotients = quotients.max(self.quotients);
 
                     if add {
                         terms.push(term);
@@ -122,6 +155,8 @@ impl<'src> Parser<'_, 'src> {
             }
         }
 
+        self.quotients = quotients;
+
         if terms.len() == 1 {
             Ok(terms
                 .pop()
@@ -134,6 +169,7 @@ impl<'src> Parser<'_, 'src> {
     /// Parse function arguments
     fn parse_arguments(&mut self) -> Result<Vec<Expr>, DiffError> {
         let mut args = Vec::new();
+        let mut quotients = 0;
 
         if matches!(self.current(), Some(Token::RightParen)) {
             return Ok(args); // Empty argument list
@@ -141,12 +177,14 @@ impl<'src> Parser<'_, 'src> {
 
         loop {
             args.push(self.parse_expr(0)?);
+            quotients = quotients.max(self.quotients);
 
             match self.current() {
                 Some(Token::Comma) => {
                     self.advance(); // consume ,
                 }
                 Some(Token::RightParen) => {
+                    self.quotients = quotients;
                     break;
                 }
                 _ => {
@@ -306,6 +344,8 @@ impl<'src> Parser<'_, 'src> {
                             tokens: args,
                             pos: 0,
                             context: self.context,
+                            nesting: self.nesting,
+                            quotients: 0,
                         };
                         let mut exprs = Vec::new();
 
@@ -315,6 +355,7 @@ impl<'src> Parser<'_, 'src> {
                             }
                             let expr = sub_parser.parse_expr(0)?;
                             exprs.push(expr);
+                            self.quotients = self.quotients.max(sub_parser.quotients);
 
                             if matches!(sub_parser.current(), Some(Token::Comma)) {
                                 sub_parser.advance();
-- 
2.43.0


From c50fd5307e20fa70547cac251da96a84af1c0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 41/85] fix: zeta derivatives of a huge order never finish

---
 src/math/special.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index 4f3fb1c..b885461 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -396,7 +396,8 @@ pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
         return None;
     }
 
-    let order = usize::try_from(n).ok()?;
+    // Every derivative needs all the lower ones, far beyond any order with an accurate value
+    let order = usize::try_from(n).ok().filter(|&order| order <= 1000)?;
     let derivs = if x < -one {
         zeta_derivs_reflection(order, x)?
     } else {
-- 
2.43.0


From 0d13a0afd85ddb675eeec828fd50a41f1d1c7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 42/85] fix: sums of sums keep their constants apart and grow
 without bound

---
 src/core/expr/constructors.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index f7e1753..f67a564 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -236,6 +236,7 @@ impl Expr {
             // Check for Sum (flattening)
             if matches!(t.kind, ExprKind::Sum(_)) {
                 // Try to unwrap to avoid cloning inner vector elements
+                let start = flat.len();
                 match Arc::try_unwrap(t) {
                     Ok(expr) => {
                         if let ExprKind::Sum(inner) = expr.into_kind() {
@@ -248,6 +249,14 @@ impl Expr {
                         }
                     }
                 }
+                // The numbers of inner sums belong to the same constant
+                flat.extract_if(start.., |term| matches!(term.kind, ExprKind::Number(_)))
+                    .for_each(|term| {
+                        if let ExprKind::Number(n) = term.kind {
+                            numeric_sum += n;
+                            numeric_scale += n.abs();
+                        }
+                    });
                 continue;
             }
 
-- 
2.43.0


From fd146053759160ff682941d0d7fea8d61395ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 43/85] fix: simplifying continued fractions takes exponential
 time and space

---
 .../rules/algebraic/fractions.rs              | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/simplification/rules/algebraic/fractions.rs b/src/simplification/rules/algebraic/fractions.rs
index 118254f..d50fe36 100644
--- a/src/simplification/rules/algebraic/fractions.rs
+++ b/src/simplification/rules/algebraic/fractions.rs
@@ -3,6 +3,18 @@ use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
 
+/// Largest sum that is brought over a common denominator, counted in nodes
+const MAX_COMBINED_SUM: usize = 200;
+
+/// Whether a sum of these parts may be brought over the given denominators
+///
+/// The denominators are repeated in the numerator of the result: without a limit, the
+/// size of a continued fraction grows exponentially with its depth.
+fn may_combine(parts: &[&Expr], denominators: &[&Expr]) -> bool {
+    let nodes = |list: &[&Expr]| list.iter().map(|e| e.node_count()).sum::<usize>();
+    nodes(parts) + 2 * nodes(denominators) <= MAX_COMBINED_SUM
+}
+
 rule_arc!(DivSelfRule, "div_self", 78, Algebraic, &[ExprKind::Div], alters_domain: true, |expr: &Expr, _context: &RuleContext| {
     if let AstKind::Div(u, v) = &expr.kind
         && u == v
@@ -67,7 +79,9 @@ rule_arc!(
                 // Look for pattern: Sum([a, Div(b, c)]) / d -> Sum([a*c, b]) / (c*d)
                 // Note: terms contains Arcs.
                 for (i, term) in terms.iter().enumerate() {
-                    if let AstKind::Div(b, c) = &term.kind {
+                    if let AstKind::Div(b, c) = &term.kind
+                        && may_combine(&[num, outer_den], &[c])
+                    {
                         let other_term = if i == 0 { &terms[1] } else { &terms[0] };
                         // (a*c + b) / (c*d)
                         let new_num = Arc::new(Expr::sum_from_arcs(vec![
@@ -112,6 +126,9 @@ rule_arc!(
                         Arc::clone(d1),
                     )));
                 }
+                if !may_combine(&[n1, n2], &[d1, d2]) {
+                    return None;
+                }
                 // (n1*d2 + n2*d1) / (d1*d2)
                 let new_num = Arc::new(Expr::sum_from_arcs(vec![
                     Arc::new(Expr::product_from_arcs(vec![
@@ -131,7 +148,9 @@ rule_arc!(
             }
 
             // Case 2: a + b/c (v is the fraction)
-            if let AstKind::Div(n, d) = &v.kind {
+            if let AstKind::Div(n, d) = &v.kind
+                && may_combine(&[u, n], &[d])
+            {
                 let u_times_d = if matches!(&u.kind, AstKind::Number(x) if (*x - 1.0).abs() < EPSILON)
                 {
                     Arc::clone(d)
@@ -143,7 +162,9 @@ rule_arc!(
             }
 
             // Case 3: a/b + c (u is the fraction)
-            if let AstKind::Div(n, d) = &u.kind {
+            if let AstKind::Div(n, d) = &u.kind
+                && may_combine(&[v, n], &[d])
+            {
                 let v_times_d = if matches!(&v.kind, AstKind::Number(x) if (*x - 1.0).abs() < EPSILON)
                 {
                     Arc::clone(d)
-- 
2.43.0


From e0606700c9e092f8cbf815ad91c6a766a5c2bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 44/85] fix: integer overflow for huge orders of special
 functions

---
 src/math/bessel.rs      | 16 ++++++++--------
 src/math/polynomials.rs | 26 ++++++++++++++------------
 src/math/special.rs     |  4 ++--
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 48cb660..f675963 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -14,7 +14,7 @@ use crate::core::traits::MathScalar;
 ///
 /// Reference: A&S §9.1.27, DLMF §10.6 <https://dlmf.nist.gov/10.6>
 pub fn bessel_j<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let ax = x.abs();
 
     // Special case: J_n(0)
@@ -38,7 +38,7 @@ pub fn bessel_j<T: MathScalar>(n: i32, x: T) -> Option<T> {
     reason = "Consistent API with other Bessel functions"
 )]
 fn bessel_j_forward<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
 
     let j0 = bessel_j0(x);
     if n_abs == 0 {
@@ -71,7 +71,7 @@ fn bessel_j_forward<T: MathScalar>(n: i32, x: T) -> Option<T> {
     reason = "Consistent API with other Bessel functions"
 )]
 fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
 
     // Choose starting N using a safe heuristic
@@ -151,7 +151,7 @@ fn compute_miller_start(n: i32) -> i32 {
         reason = "n is i32, sqrt result rounded and within range"
     )]
     let sqrt_round = (c * n_f).sqrt().round() as i32;
-    n + sqrt_round + m
+    n.saturating_add(sqrt_round + m)
 }
 
 /// Bessel function `J_0(x)` via rational approximation
@@ -291,7 +291,7 @@ pub fn bessel_y<T: MathScalar>(n: i32, x: T) -> Option<T> {
     if x <= T::zero() {
         return None;
     }
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let y0 = bessel_y0(x);
     if n_abs == 0 {
         return Some(y0);
@@ -440,7 +440,7 @@ pub fn bessel_y1<T: MathScalar>(x: T) -> T {
 ///
 /// Reference: Numerical Recipes §6.6, A&S §9.6 <https://dlmf.nist.gov/10.25>
 pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     if n_abs == 0 {
         return bessel_i0(x);
     }
@@ -469,7 +469,7 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     // N of the order of sqrt(x) beyond n when x is large
     let spread = T::from_f64(80.0).expect("Failed to convert mathematical constant")
         * (x.abs() + T::from_i32(n_abs).expect("Failed to convert order"));
-    let n_start = n_abs + spread.sqrt().to_i32().unwrap_or(0) + 20;
+    let n_start = n_abs.saturating_add(spread.sqrt().to_i32().unwrap_or(0) + 20);
 
     // Initialize backward recurrence
     let mut i_next = T::zero(); // I_{k+1}
@@ -601,7 +601,7 @@ pub fn bessel_k<T: MathScalar>(n: i32, x: T) -> Option<T> {
     if x <= T::zero() {
         return None;
     }
-    let n_abs = n.abs();
+    let n_abs = n.saturating_abs();
     let k0 = bessel_k0(x);
     if n_abs == 0 {
         return Some(k0);
diff --git a/src/math/polynomials.rs b/src/math/polynomials.rs
index 54f3335..92c7cfa 100644
--- a/src/math/polynomials.rs
+++ b/src/math/polynomials.rs
@@ -36,15 +36,15 @@ pub fn eval_hermite<T: MathScalar>(n: i32, x: T) -> Option<T> {
 ///
 /// Reference: DLMF §14.10 <https://dlmf.nist.gov/14.10>
 pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
-    if l < 0 || m.abs() > l || x.abs() > T::one() {
+    if l < 0 || m.saturating_abs() > l || x.abs() > T::one() {
         // Technically |x| > 1 is domain error, but some continuations exist.
         // Standard impl assumes -1 <= x <= 1
         return None;
     }
-    let m_abs = m.abs();
+    let m_abs = m.saturating_abs();
     if m < 0 {
         let mut ratio = T::one(); // (l+m)!/(l-m)! for the negative m
-        for k in (l - m_abs + 1)..=(l + m_abs) {
+        for k in (l - m_abs + 1)..=l.saturating_add(m_abs) {
             ratio /= T::from(k).expect("Failed to convert mathematical constant");
         }
         let sign = if m_abs % 2 == 0 { ratio } else { -ratio };
@@ -66,22 +66,23 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
         return Some(pmm);
     }
 
-    let two_m_plus_1 = T::from(2 * m_abs + 1).expect("Failed to convert mathematical constant");
+    let f_m = T::from(m_abs).expect("Failed to convert mathematical constant");
+    let two_m_plus_1 = f_m + f_m + one;
     let pmmp1 = x * two_m_plus_1 * pmm;
 
-    if l == m_abs + 1 {
+    if l - m_abs == 1 {
         return Some(pmmp1);
     }
 
     let (mut pll, mut pmm_prev) = (T::zero(), pmm);
     let mut pmm_curr = pmmp1;
 
-    for ll in (m_abs + 2)..=l {
+    for ll in m_abs.saturating_add(2)..=l {
         let f_ll = T::from(ll).expect("Failed to convert mathematical constant");
         let f_m_abs = T::from(m_abs).expect("Failed to convert mathematical constant");
 
-        let term1_fact = T::from(2 * ll - 1).expect("Failed to convert mathematical constant");
-        let term2_fact = T::from(ll + m_abs - 1).expect("Failed to convert mathematical constant");
+        let term1_fact = f_ll + f_ll - one;
+        let term2_fact = f_ll + f_m_abs - one;
         let denom = f_ll - f_m_abs;
 
         pll = (x * term1_fact * pmm_curr - term2_fact * pmm_prev) / denom;
@@ -98,11 +99,11 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
 ///
 /// Reference: DLMF §14.30 <https://dlmf.nist.gov/14.30>
 pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T) -> Option<T> {
-    if l < 0 || m.abs() > l {
+    if l < 0 || m.saturating_abs() > l {
         return None;
     }
     let cos_theta = theta.cos();
-    let m_abs = m.abs();
+    let m_abs = m.saturating_abs();
     // N_l^{-m} P_l^{-m} = (-1)^m N_l^m P_l^m
     let plm = eval_assoc_legendre(l, m_abs, cos_theta)?;
     let plm = if m < 0 && m_abs % 2 == 1 { -plm } else { plm };
@@ -114,12 +115,13 @@ pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T)
     }
 
     let mut fact_lplusm = T::one();
-    for i in 1..=(l + m_abs) {
+    for i in 1..=l.saturating_add(m_abs) {
         fact_lplusm *= T::from(i).expect("Failed to convert mathematical constant");
     }
 
     let four = T::from(4.0).expect("Failed to convert mathematical constant");
-    let two_l_plus_1 = T::from(2 * l + 1).expect("Failed to convert mathematical constant");
+    let f_l = T::from(l).expect("Failed to convert mathematical constant");
+    let two_l_plus_1 = f_l + f_l + T::one();
     let pi = T::PI();
 
     let norm_sq = (two_l_plus_1 / (four * pi)) * (fact_lm / fact_lplusm);
diff --git a/src/math/special.rs b/src/math/special.rs
index b885461..ec5c812 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -613,7 +613,7 @@ pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
                 return None;
             }
             // ψ^(n)(x) = (-1)^(n+1) * n! * Σ_{k=0}^∞ 1/(x+k)^(n+1)
-            let sign = if (n + 1) % 2 == 0 {
+            let sign = if n % 2 == 1 {
                 T::one()
             } else {
                 -T::one()
@@ -634,7 +634,7 @@ pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
                 r += polygamma_tail(n, one - xv) - polygamma_tail(n, one - x);
             }
             while xv < bound {
-                r += sign * factorial / xv.powi(n + 1);
+                r += sign * factorial / xv.powi(n.saturating_add(1));
                 xv += one;
             }
 
-- 
2.43.0


From 111b48df3cd1e6b692990d46ce22e281d7df9299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 45/85] fix: built-in functions with a wrong number of
 arguments panic when evaluated

---
 src/core/expr/evaluate.rs               | 1 +
 src/simplification/rules/numeric/mod.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index 8663483..c15c46f 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -146,6 +146,7 @@ impl Expr {
                     }
                     if let Some(func_def) =
                         crate::functions::registry::Registry::get_by_symbol(name)
+                        && func_def.validate_arity(args_vec.len())
                         && let Some(result) = (func_def.eval)(&args_vec)
                     {
                         return Self::number(result);
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 75f944e..874babd 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -566,6 +566,7 @@ rule!(
 
             // Try built-in function registry first (via InternedSymbol ID)
             if let Some(func_def) = crate::functions::registry::Registry::get_by_symbol(name)
+                && func_def.validate_arity(numeric_args.len())
                 && let Some(result) = (func_def.eval)(&numeric_args)
             {
                 // Check for NaN or Inf
-- 
2.43.0


From 37b20b062ee242e025f19c8c55e9eb9b8c33b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 46/85] fix: splitting a long identifier takes quadratic memory

---
 src/parser/lexer.rs | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 22c2f62..3486378 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -685,39 +685,37 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
     // Priority 5 (FALLBACK): Check if it's a valid identifier sequence
     // Unicode-aware: uses is_identifier_continue which accepts alphabetic + '_'
     if seq.chars().all(is_identifier_continue) {
-        // Check if any prefix is a fixed variable
-        // Use char_indices for Unicode-safe slicing
-        let char_boundaries: Vec<usize> = seq.char_indices().map(|(i, _)| i).collect();
-        for (char_idx, _byte_idx) in char_boundaries.iter().enumerate() {
-            // Include end of string as a valid slice point
-            let end_byte = if char_idx + 1 < char_boundaries.len() {
-                char_boundaries[char_idx + 1]
-            } else {
-                seq.len()
+        let longest = fixed_vars.iter().map(String::len).max().unwrap_or(0);
+        let mut remaining = seq;
+        loop {
+            // Check if any prefix is a fixed variable, shortest first
+            // Use char_indices for Unicode-safe slicing
+            let split = remaining
+                .char_indices()
+                .map(|(i, c)| i + c.len_utf8())
+                .take_while(|&end| end <= longest)
+                .map(|end| remaining.split_at(end))
+                .find(|(prefix, _)| fixed_vars.contains(*prefix));
+            let Some((prefix, rest)) = split else {
+                // No fixed variable prefix found, treat as single identifier
+                // This preserves multi-character Unicode identifiers like "αβ" or "θ₁"
+                output.push(Token::Identifier(Cow::Borrowed(remaining)));
+                return;
             };
-            let prefix = seq.get(0..end_byte).expect("Checked char boundaries");
-            if fixed_vars.contains(prefix) {
-                // Found a fixed variable prefix, split here
-                let rest = seq.get(end_byte..).expect("Checked char boundaries");
-                output.push(Token::Identifier(Cow::Borrowed(prefix)));
-                if !rest.is_empty() {
-                    // Recursively resolve the rest
-                    resolve_sequence(
-                        rest,
-                        fixed_vars,
-                        custom_functions,
-                        next_is_paren && end_byte == seq.len(),
-                        output,
-                    );
-                }
+
+            // Found a fixed variable prefix, split here and resolve the rest
+            output.push(Token::Identifier(Cow::Borrowed(prefix)));
+            if rest.is_empty() {
+                return;
+            }
+            if rest.len() <= longest && fixed_vars.contains(rest)
+                || crate::core::known_symbols::is_known_constant(rest)
+            {
+                output.push(Token::Identifier(Cow::Borrowed(rest)));
                 return;
             }
+            remaining = rest;
         }
-
-        // No fixed variable prefix found, treat as single identifier
-        // This preserves multi-character Unicode identifiers like "αβ" or "θ₁"
-        output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
     }
 
     // Priority 6 (FINAL FALLBACK): Split into individual characters (for complex sequences)
-- 
2.43.0


From b4298609e341347dcff22ea2ab5570fb57e24d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 47/85] fix: sums of sums keep their constants apart
 (Expr::sum)

---
 src/core/expr/constructors.rs | 39 +----------------------------------
 1 file changed, 1 insertion(+), 38 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index f67a564..2e9679f 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -153,44 +153,7 @@ impl Expr {
                 .expect("Vec must have at least one element");
         }
 
-        let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
-        let mut numeric_sum: f64 = 0.0;
-        let mut numeric_scale: f64 = 0.0;
-
-        for t in terms {
-            if matches!(t.kind, ExprKind::Sum(_) | ExprKind::Number(_)) {
-                match t.into_kind() {
-                    ExprKind::Sum(inner) => flat.extend(inner),
-                    ExprKind::Number(n) => {
-                        numeric_sum += n;
-                        numeric_scale += n.abs();
-                    }
-                    // Invariant protected by if guard
-                    _ => {}
-                }
-            } else {
-                flat.push(Arc::new(t));
-            }
-        }
-
-        // Add accumulated numeric constant (canonical order: numbers first)
-        if !is_cancelled(numeric_sum, numeric_scale) {
-            flat.push(Arc::new(Self::number(numeric_sum)));
-        }
-
-        if flat.is_empty() {
-            return Self::number(0.0);
-        }
-        if flat.len() == 1 {
-            return Arc::try_unwrap(
-                flat.into_iter()
-                    .next()
-                    .expect("flat must have exactly one element"),
-            )
-            .unwrap_or_else(|arc| (*arc).clone());
-        }
-
-        finalize_sum(flat)
+        Self::sum_from_arcs(terms.into_iter().map(Arc::new).collect())
     }
 
     /// Create sum from Arc terms (flattens only, sorting deferred to simplification)
-- 
2.43.0


From fbb6ac7dcbe2f6e4e42e70420b85087a7e0efa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 48/85] fix: removed symbols come back from caches, and
 clearing the registry disables built-in functions

---
 src/core/known_symbols.rs   |   5 +-
 src/core/symbol/registry.rs | 148 +++++++++++++++++++++++++++---------
 2 files changed, 117 insertions(+), 36 deletions(-)

diff --git a/src/core/known_symbols.rs b/src/core/known_symbols.rs
index 67fde8c..652ec49 100644
--- a/src/core/known_symbols.rs
+++ b/src/core/known_symbols.rs
@@ -3,12 +3,13 @@
 //! This module provides lazily-initialized symbol IDs for common function names.
 //! Comparison is O(1) - just a u64 integer comparison.
 
-use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_interned};
+use crate::core::symbol::registry::symb_builtin;
+use crate::core::symbol::{InternedSymbol, lookup_by_id};
 use std::sync::LazyLock;
 
 /// Get the ID for an interned symbol (helper for the macro)
 fn intern_id(name: &str) -> u64 {
-    symb_interned(name).id()
+    symb_builtin(name).id()
 }
 
 /// Collection of pre-interned symbol IDs for all built-in mathematical functions.
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 1a887ac..700f99e 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -4,6 +4,7 @@
 //! This implementation uses sharding to minimize lock contention and `FxHash` for
 //! high-performance mapping.
 
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, RwLock};
 
 use rustc_hash::{FxHashMap, FxHasher};
@@ -68,6 +69,11 @@ struct SymbolRegistry {
     shards: [Mutex<RegistryShard>; NUM_SHARDS],
     /// ID -> Symbol mapping using `SlotMap` for memory efficiency and safe key generation
     id_to_data: RwLock<SlotMap<DefaultKey, InternedSymbol>>,
+    /// Built-in functions and constants. The library identifies them by key, so the key of
+    /// such a name never changes, even if the name is removed and created again.
+    builtins: RwLock<FxHashMap<String, DefaultKey>>,
+    /// Counts removals; a thread-local name cache filled before a removal is out of date
+    removals: AtomicU64,
 }
 
 impl SymbolRegistry {
@@ -82,9 +88,27 @@ impl SymbolRegistry {
         Self {
             shards,
             id_to_data: RwLock::new(SlotMap::with_key()),
+            builtins: RwLock::new(FxHashMap::default()),
+            removals: AtomicU64::new(0),
         }
     }
 
+    /// The key for a name that is not registered: the fixed one of a built-in, or a new one
+    fn create_key(&self, name: &str) -> DefaultKey {
+        let builtin = self
+            .builtins
+            .read()
+            .expect("Built-in registry poisoned")
+            .get(name)
+            .copied();
+        builtin.unwrap_or_else(|| {
+            self.id_to_data
+                .write()
+                .expect("Global ID registry poisoned")
+                .insert_with_key(|k| InternedSymbol::new_named(name, k))
+        })
+    }
+
     /// # Panics
     ///
     /// Panics if the global registry hash cannot be computed.
@@ -112,8 +136,33 @@ thread_local! {
     // Thread-local cache to avoid global lock contention on frequently accessed symbols
     static ID_CACHE: std::cell::RefCell<FxHashMap<DefaultKey, InternedSymbol>> = std::cell::RefCell::new(FxHashMap::default());
 
-    // Thread-local cache for name → Symbol lookups (hot path in parsing/construction)
-    static NAME_CACHE: std::cell::RefCell<FxHashMap<String, Symbol>> = std::cell::RefCell::new(FxHashMap::default());
+    // Thread-local cache for name → Symbol lookups (hot path in parsing/construction),
+    // with the removal count it was filled at
+    static NAME_CACHE: std::cell::RefCell<(u64, FxHashMap<String, Symbol>)> = std::cell::RefCell::new((0, FxHashMap::default()));
+}
+
+/// Look up a name in the thread-local cache, unless symbols were removed since it was filled.
+fn cached_name(name: &str, removals: u64) -> Option<Symbol> {
+    NAME_CACHE.with(|cache| {
+        let cache = cache.borrow();
+        if cache.0 == removals {
+            cache.1.get(name).copied()
+        } else {
+            None
+        }
+    })
+}
+
+/// Remember a name in the thread-local cache.
+fn cache_name(name: &str, symbol: Symbol, removals: u64) {
+    NAME_CACHE.with(|cache| {
+        let mut cache = cache.borrow_mut();
+        if cache.0 != removals {
+            cache.0 = removals;
+            cache.1.clear();
+        }
+        cache.1.insert(name.to_owned(), symbol);
+    });
 }
 
 /// Look up `InternedSymbol` by its u64 ID.
@@ -169,11 +218,7 @@ pub fn symb_new(name: &str) -> Result<Symbol, SymbolError> {
         return Err(SymbolError::DuplicateName(name.to_owned()));
     }
 
-    let key = REGISTRY
-        .id_to_data
-        .write()
-        .expect("Global ID registry poisoned")
-        .insert_with_key(|k| InternedSymbol::new_named(name, k));
+    let key = REGISTRY.create_key(name);
     shard.name_to_symbol_key.insert(name.to_owned(), key);
     drop(shard);
 
@@ -222,7 +267,8 @@ pub fn symbol_exists(name: &str) -> bool {
 #[must_use]
 pub fn symb(name: &str) -> Symbol {
     // Fast path: check TLS cache first (no locks, no allocations for common symbols)
-    if let Some(sym) = NAME_CACHE.with(|cache| cache.borrow().get(name).copied()) {
+    let removals = REGISTRY.removals.load(Ordering::Acquire);
+    if let Some(sym) = cached_name(name, removals) {
         return sym;
     }
 
@@ -237,29 +283,36 @@ pub fn symb(name: &str) -> Symbol {
         let sym = Symbol(key);
         // Populate TLS cache for future lookups
         drop(shard); // Release lock before TLS operation
-        NAME_CACHE.with(|cache| {
-            cache.borrow_mut().insert(name.to_owned(), sym);
-        });
+        cache_name(name, sym, removals);
         return sym;
     }
 
     // If not, create it.
-    let key = REGISTRY
-        .id_to_data
-        .write()
-        .expect("Global ID registry poisoned")
-        .insert_with_key(|k| InternedSymbol::new_named(name, k));
+    let key = REGISTRY.create_key(name);
     shard.name_to_symbol_key.insert(name.to_owned(), key);
     drop(shard);
 
     let sym = Symbol(key);
     // Populate TLS cache
-    NAME_CACHE.with(|cache| {
-        cache.borrow_mut().insert(name.to_owned(), sym);
-    });
+    cache_name(name, sym, removals);
     sym
 }
 
+/// Intern the name of a built-in function or constant and keep its key for good.
+///
+/// # Panics
+///
+/// Panics if any global registry lock is poisoned.
+pub fn symb_builtin(name: &str) -> Symbol {
+    let symbol = symb(name);
+    REGISTRY
+        .builtins
+        .write()
+        .expect("Built-in registry poisoned")
+        .insert(name.to_owned(), symbol.0);
+    symbol
+}
+
 /// Get or create an interned symbol
 ///
 /// # Panics
@@ -267,7 +320,8 @@ pub fn symb(name: &str) -> Symbol {
 /// Panics if the global registry shard lock is poisoned.
 pub fn symb_interned(name: &str) -> InternedSymbol {
     let symbol = symb(name);
-    lookup_by_id(symbol.id()).expect("Just-created symbol should always be found")
+    // Another thread may have removed the symbol in the meantime
+    lookup_by_id(symbol.id()).unwrap_or_else(|| InternedSymbol::new_named(name, symbol.0))
 }
 
 /// Remove a symbol from the global registry
@@ -283,16 +337,25 @@ pub fn remove_symbol(name: &str) -> bool {
         .lock()
         .expect("Global symbol registry shard poisoned");
 
-    shard.name_to_symbol_key.remove(name).is_some_and(|key| {
-        // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
-        drop(shard);
+    let Some(key) = shard.name_to_symbol_key.remove(name) else {
+        return false;
+    };
+    REGISTRY.removals.fetch_add(1, Ordering::Release);
+    // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
+    drop(shard);
+    let is_builtin = REGISTRY
+        .builtins
+        .read()
+        .expect("Built-in registry poisoned")
+        .contains_key(name);
+    if !is_builtin {
         REGISTRY
             .id_to_data
             .write()
             .expect("Global ID registry poisoned")
-            .remove(key)
-            .is_some()
-    })
+            .remove(key);
+    }
+    true
 }
 
 /// Clear all symbols from the global registry
@@ -301,22 +364,29 @@ pub fn remove_symbol(name: &str) -> bool {
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn clear_symbols() {
-    // Clear TLS caches first
+    // Clear TLS cache first (the name caches of all threads expire with the removal count)
     ID_CACHE.with(|cache| cache.borrow_mut().clear());
-    NAME_CACHE.with(|cache| cache.borrow_mut().clear());
 
     for shard_lock in &REGISTRY.shards {
         let mut shard = shard_lock
             .lock()
             .expect("Global symbol registry shard poisoned");
         shard.name_to_symbol_key.clear();
+        REGISTRY.removals.fetch_add(1, Ordering::Release);
     }
 
-    let mut id_data = REGISTRY
+    let builtins = REGISTRY
+        .builtins
+        .read()
+        .expect("Built-in registry poisoned");
+    REGISTRY
         .id_to_data
         .write()
-        .expect("Global ID registry poisoned");
-    id_data.clear();
+        .expect("Global ID registry poisoned")
+        .retain(|key, data| {
+            data.name()
+                .is_some_and(|name| builtins.get(name) == Some(&key))
+        });
 }
 
 /// Get the number of registered symbols
@@ -325,11 +395,21 @@ pub fn clear_symbols() {
 ///
 /// Panics if any global registry shard lock is poisoned.
 pub fn symbol_count() -> usize {
-    let id_data = REGISTRY
+    let builtins: Vec<String> = REGISTRY
+        .builtins
+        .read()
+        .expect("Built-in registry poisoned")
+        .keys()
+        .cloned()
+        .collect();
+    // The data of built-ins stays after their name was removed
+    let removed = builtins.iter().filter(|name| !symbol_exists(name)).count();
+    let stored = REGISTRY
         .id_to_data
         .read()
-        .expect("Global ID registry poisoned");
-    id_data.len()
+        .expect("Global ID registry poisoned")
+        .len();
+    stored.saturating_sub(removed)
 }
 
 /// Get a list of all registered symbol names (unsorted for performance)
-- 
2.43.0


From 945546ef9f7b9b6f2c7c7663d43f5affc9362e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 49/85] fix: derivatives with respect to context-isolated or
 anonymous symbols are zero

---
 src/api/builder.rs        | 24 ++++++++++++---
 src/api/helpers.rs        | 28 +++++------------
 src/core/expr/analysis.rs | 65 ++++++++++++++++++++++++++++++++++-----
 src/core/poly.rs          |  8 +++--
 src/diff/engine.rs        | 25 +++++++++------
 5 files changed, 103 insertions(+), 47 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index facfa72..cef8d37 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -16,6 +16,7 @@
 //! assert!(!format!("{}", derivative).is_empty());
 //! ```
 
+use crate::core::symbol::InternedSymbol;
 use crate::core::unified_context::{Context, UserFunction};
 use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
@@ -125,8 +126,9 @@ impl Diff {
     /// - Expression depth exceeds `max_depth`
     /// - Expression node count exceeds `max_nodes`
     pub fn differentiate(&self, expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
-        let var_name = var.name().unwrap_or_default();
-        self.differentiate_by_name(expr, &var_name)
+        let var = crate::core::symbol::lookup_by_id(var.id())
+            .unwrap_or_else(|| InternedSymbol::new_anon_with_key(var.key()));
+        self.differentiate_by_symbol(expr, &var)
     }
 
     /// Get custom function names for parsing
@@ -169,9 +171,21 @@ impl Diff {
 
     /// Differentiates an expression with respect to a variable by name.
     pub(crate) fn differentiate_by_name(&self, expr: &Expr, var: &str) -> Result<Expr, DiffError> {
-        if self.known_symbols.contains(var) {
+        let var = expr.resolve_symbol(var, self.context.as_ref());
+        self.differentiate_by_symbol(expr, &var)
+    }
+
+    /// Differentiates an expression with respect to a symbol.
+    fn differentiate_by_symbol(
+        &self,
+        expr: &Expr,
+        var: &InternedSymbol,
+    ) -> Result<Expr, DiffError> {
+        if let Some(name) = var.name()
+            && self.known_symbols.contains(name)
+        {
             return Err(DiffError::VariableInBothFixedAndDiff {
-                var: var.to_owned(),
+                var: name.to_owned(),
             });
         }
 
@@ -187,7 +201,7 @@ impl Diff {
         }
 
         let context = self.build_context();
-        let derivative = expr.derive(var, Some(&context));
+        let derivative = expr.derive_symbol(var, &context);
 
         if self.skip_simplification {
             return Ok(derivative);
diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index 0601b7b..ca13da0 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -14,18 +14,6 @@ fn empty_context() -> (HashSet<String>, HashSet<String>) {
     (HashSet::new(), HashSet::new())
 }
 
-/// Helper to extract variable names from Symbol slices
-#[inline]
-fn extract_var_names(vars: &[&Symbol]) -> Vec<String> {
-    vars.iter().filter_map(|s| s.name()).collect()
-}
-
-/// Helper to convert variable names to &str slices
-#[inline]
-fn var_names_to_str_refs(var_names: &[String]) -> Vec<&str> {
-    var_names.iter().map(std::string::String::as_str).collect()
-}
-
 /// Internal gradient implementation using &str variable names
 /// This is the core implementation - public APIs wrap this
 fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
@@ -75,9 +63,10 @@ fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, Di
 /// # Errors
 /// Returns `DiffError` if differentiation fails for any variable.
 pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    gradient_internal(expr, &var_refs)
+    let diff = Diff::new();
+    vars.iter()
+        .map(|var| diff.differentiate(expr, var))
+        .collect()
 }
 
 /// Compute the Hessian matrix of an expression
@@ -98,9 +87,8 @@ pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
 /// # Errors
 /// Returns `DiffError` if any second partial derivative fails.
 pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    hessian_internal(expr, &var_refs)
+    let grad = gradient(expr, vars)?;
+    jacobian(&grad, vars)
 }
 
 /// Compute the Jacobian matrix of a vector of expressions
@@ -121,9 +109,7 @@ pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffErro
 /// # Errors
 /// Returns `DiffError` if any partial derivative fails.
 pub fn jacobian(exprs: &[Expr], vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names: Vec<String> = vars.iter().filter_map(|s| s.name()).collect();
-    let var_refs: Vec<&str> = var_names.iter().map(std::string::String::as_str).collect();
-    jacobian_internal(exprs, &var_refs)
+    exprs.iter().map(|expr| gradient(expr, vars)).collect()
 }
 
 // ===== String-based API =====
diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2c20232..535e12a 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -7,6 +7,8 @@ use std::collections::HashSet;
 use std::sync::Arc;
 
 use super::{Expr, ExprKind};
+use crate::core::symbol::InternedSymbol;
+use crate::core::unified_context::Context;
 
 impl Expr {
     // -------------------------------------------------------------------------
@@ -141,19 +143,14 @@ impl Expr {
     }
 
     /// Check if the expression contains a specific variable (by name)
-    /// Uses ID comparison when possible, falls back to string matching
     #[inline]
     #[must_use]
     pub fn contains_var(&self, var: &str) -> bool {
-        // Try to look up the symbol ID first for O(1) comparison
-        crate::core::symbol::symb_get(var).map_or_else(
-            |_| self.contains_var_str(var),
-            |sym| self.contains_var_id(sym.id()),
-        )
+        // Symbols of a context may have the same name as a global one
+        self.contains_var_str(var)
     }
 
     /// Check if the expression contains a specific variable (by name string match)
-    /// This is used as a fallback when the symbol isn't in the global registry
     #[inline]
     fn contains_var_str(&self, var: &str) -> bool {
         match &self.kind {
@@ -172,6 +169,58 @@ impl Expr {
         }
     }
 
+    /// The symbol that a variable name stands for in this expression: the symbol of the context
+    /// or the global one if it occurs, else a symbol of that name that does (isolated in some
+    /// other context), else the global one
+    pub(crate) fn resolve_symbol(&self, var: &str, context: Option<&Context>) -> InternedSymbol {
+        let mut named = Vec::new();
+        self.collect_symbols_named(var, &mut named);
+        if named.len() > 1 {
+            let own = context.and_then(|ctx| ctx.get_symbol(var));
+            let global = crate::core::symbol::symb_get(var).ok();
+            for preferred in [own, global].into_iter().flatten() {
+                if let Some(i) = named.iter().position(|s| s.id() == preferred.id()) {
+                    return named.swap_remove(i);
+                }
+            }
+        }
+        named
+            .pop()
+            .unwrap_or_else(|| crate::core::symbol::symb_interned(var))
+    }
+
+    /// Collect the distinct symbols with the given name
+    fn collect_symbols_named(&self, name: &str, found: &mut Vec<InternedSymbol>) {
+        let add = |s: &InternedSymbol, found: &mut Vec<InternedSymbol>| {
+            if s.name() == Some(name) && !found.contains(s) {
+                found.push(s.clone());
+            }
+        };
+        match &self.kind {
+            ExprKind::Number(_) => {}
+            ExprKind::Symbol(s) => add(s, found),
+            ExprKind::FunctionCall { args, .. } => {
+                for arg in args {
+                    arg.collect_symbols_named(name, found);
+                }
+            }
+            ExprKind::Sum(terms) | ExprKind::Product(terms) => {
+                for term in terms {
+                    term.collect_symbols_named(name, found);
+                }
+            }
+            ExprKind::Div(l, r) | ExprKind::Pow(l, r) => {
+                l.collect_symbols_named(name, found);
+                r.collect_symbols_named(name, found);
+            }
+            ExprKind::Derivative { inner, var, .. } => {
+                add(var, found);
+                inner.collect_symbols_named(name, found);
+            }
+            ExprKind::Poly(poly) => poly.base().collect_symbols_named(name, found),
+        }
+    }
+
     /// Check if the expression contains any free variables
     #[must_use]
     pub fn has_free_variables(&self, excluded: &HashSet<String>) -> bool {
@@ -288,7 +337,7 @@ impl Expr {
     /// # Errors
     /// Returns `DiffError` if differentiation fails (e.g., unsupported operation).
     pub fn diff(&self, var: &str) -> Result<Self, crate::DiffError> {
-        crate::Diff::new().differentiate(self, &crate::symb(var))
+        crate::Diff::new().differentiate_by_name(self, var)
     }
 
     /// Simplify this expression
diff --git a/src/core/poly.rs b/src/core/poly.rs
index 362a8c4..4cbc414 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -3,7 +3,9 @@
 //! Provides efficient polynomial operations with any expression as base.
 //! The base is stored once; terms are just (power, coefficient) pairs.
 
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::{EPSILON, is_cancelled};
+use crate::core::unified_context::Context;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
@@ -652,15 +654,15 @@ impl Polynomial {
     }
 
     /// Differentiate with respect to a variable (chain rule)
-    pub fn derivative_expr(&self, diff_var: &str) -> Expr {
+    pub fn derivative_expr(&self, diff_var: &InternedSymbol, ctx: &Context) -> Expr {
         // Get polynomial derivative
         let poly_deriv = self.derivative();
         let poly_expr = poly_deriv.to_expr();
 
         // Check if base contains the differentiation variable
-        if self.base.contains_var(diff_var) {
+        if self.base.contains_var_id(diff_var.id()) {
             // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
+            let u_prime = self.base.derive_symbol(diff_var, ctx);
 
             if u_prime.is_zero_num() {
                 Expr::number(0.0)
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index a497319..6e5d7a8 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -16,6 +16,7 @@
 //! The simplification engine then handles any remaining optimization opportunities.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::unified_context::Context;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
@@ -53,10 +54,14 @@ impl Expr {
         static EMPTY_CONTEXT: std::sync::OnceLock<Context> = std::sync::OnceLock::new();
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
-        // Intern the var name ONCE for O(1) UID comparisons throughout recursion
-        let var_id = crate::core::symbol::symb_interned(var).id();
+        // Resolve the var name ONCE for O(1) UID comparisons throughout recursion
+        let var = self.resolve_symbol(var, context);
+        self.derive_impl(&var, var.id(), ctx)
+    }
 
-        self.derive_impl(var, var_id, ctx)
+    /// Differentiate with respect to a symbol, which may be anonymous or isolated in a context
+    pub(crate) fn derive_symbol(&self, var: &InternedSymbol, ctx: &Context) -> Self {
+        self.derive_impl(var, var.id(), ctx)
     }
 
     /// Inner recursive implementation that carries pre-computed `var_id`
@@ -65,7 +70,7 @@ impl Expr {
         clippy::too_many_lines,
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
-    fn derive_impl(&self, var: &str, var_id: u64, ctx: &Context) -> Self {
+    fn derive_impl(&self, var: &InternedSymbol, var_id: u64, ctx: &Context) -> Self {
         match &self.kind {
             // Base cases
             ExprKind::Number(_) => Self::number(0.0),
@@ -308,8 +313,8 @@ impl Expr {
             // - 1^x: case 2, ln(1)=0 creates 0 term, simplifier handles ✓
             // - x^0: n_minus_1 becomes -1, but final term is 0*u^(-1)*u'=0 via simplifier ✓
             ExprKind::Pow(u, v) => {
-                let u_contains_var = u.contains_var(var);
-                let v_contains_var = v.contains_var(var);
+                let u_contains_var = u.contains_var_id(var_id);
+                let v_contains_var = v.contains_var_id(var_id);
 
                 if !u_contains_var && !v_contains_var {
                     // Both constant
@@ -410,23 +415,23 @@ impl Expr {
             } => {
                 if deriv_var.id() == var_id {
                     Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order + 1)
-                } else if !inner.contains_var(var) {
+                } else if !inner.contains_var_id(var_id) {
                     Self::number(0.0)
                 } else {
-                    Self::derivative(
+                    Self::derivative_interned(
                         Self::new(ExprKind::Derivative {
                             inner: Arc::clone(inner),
                             var: deriv_var.clone(),
                             order: *order,
                         }),
-                        var,
+                        var.clone(),
                         1,
                     )
                 }
             }
 
             // Polynomial
-            ExprKind::Poly(poly) => poly.derivative_expr(var),
+            ExprKind::Poly(poly) => poly.derivative_expr(var, ctx),
         }
     }
 
-- 
2.43.0


From 7f209d733a1d8624f9c536015bee3d3d74e26ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 50/85] fix: functions of a context are not applied when
 simplifying, and function bodies ignore their arity

---
 src/api/builder.rs                      | 13 ++++++-------
 src/diff/engine.rs                      |  5 ++++-
 src/simplification/engine.rs            |  2 +-
 src/simplification/mod.rs               | 11 ++++++-----
 src/simplification/rules/mod.rs         | 16 ++++++++++++----
 src/simplification/rules/numeric/mod.rs |  4 ++--
 6 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index cef8d37..a2349db 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -22,7 +22,6 @@ use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
 use std::collections::HashMap;
 use std::collections::HashSet;
-use std::sync::Arc;
 
 /// Builder for differentiation operations
 #[derive(Clone, Default)]
@@ -141,9 +140,9 @@ impl Diff {
         self.user_fns
             .iter()
             .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
+                func.has_body().then(|| {
                     let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
+                    (id, func.clone())
                 })
             })
             .collect()
@@ -213,7 +212,7 @@ impl Diff {
             self.build_bodies_map(),
             self.max_depth,
             None,
-            None,
+            self.context.as_ref(),
             self.domain_safe,
         );
 
@@ -381,9 +380,9 @@ impl Simplify {
         self.user_fns
             .iter()
             .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
+                func.has_body().then(|| {
                     let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
+                    (id, func.clone())
                 })
             })
             .collect()
@@ -413,7 +412,7 @@ impl Simplify {
             self.build_bodies_map(),
             self.max_depth,
             None,
-            None,
+            self.context.as_ref(),
             self.domain_safe,
         );
 
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 6e5d7a8..216ecca 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -114,7 +114,10 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id()) {
+                if let Some(user_fn) = ctx
+                    .get_user_fn_by_id(name.id())
+                    .filter(|func| func.accepts_arity(args.len()))
+                {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index acfa1a4..203941e 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -200,7 +200,7 @@ impl Simplifier {
     /// Sets custom function bodies.
     pub fn with_custom_bodies(
         mut self,
-        custom_bodies: HashMap<u64, crate::core::unified_context::BodyFn>,
+        custom_bodies: HashMap<u64, crate::core::unified_context::UserFunction>,
     ) -> Self {
         self.context = self.context.with_custom_bodies(custom_bodies);
         self
diff --git a/src/simplification/mod.rs b/src/simplification/mod.rs
index a69111b..802cdc2 100644
--- a/src/simplification/mod.rs
+++ b/src/simplification/mod.rs
@@ -5,13 +5,12 @@ mod patterns;
 pub mod rules;
 
 use crate::Expr;
-use crate::core::unified_context::{BodyFn, Context};
+use crate::core::unified_context::{Context, UserFunction};
 
 use std::collections::{HashMap, HashSet};
-use std::sync::Arc;
 
 /// Type alias for custom body function map (symbolic expansion)
-pub type CustomBodyMap = HashMap<u64, BodyFn>;
+pub type CustomBodyMap = HashMap<u64, UserFunction>;
 
 /// Simplify an expression with user-specified options
 ///
@@ -38,8 +37,10 @@ pub fn simplify_expr(
         // Context symbols are parsing hints, not simplification constants
         // But we still merge function bodies
         for id in ctx.fn_name_to_id().values() {
-            if let Some(body) = ctx.get_body_by_id(*id) {
-                custom_bodies.insert(*id, Arc::clone(body));
+            if let Some(func) = ctx.get_user_fn_by_id(*id)
+                && func.has_body()
+            {
+                custom_bodies.entry(*id).or_insert_with(|| func.clone());
             }
         }
     }
diff --git a/src/simplification/rules/mod.rs b/src/simplification/rules/mod.rs
index 8779b88..6b5e1ac 100644
--- a/src/simplification/rules/mod.rs
+++ b/src/simplification/rules/mod.rs
@@ -5,7 +5,7 @@
 
 use crate::Expr;
 use crate::ExprKind as AstKind;
-use crate::core::unified_context::BodyFn;
+use crate::core::unified_context::{BodyFn, UserFunction};
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -453,8 +453,8 @@ pub struct RuleContext {
     pub depth: usize,
     /// Whether to apply only domain-safe transformations
     pub domain_safe: bool,
-    /// Custom function body definitions
-    pub custom_bodies: Arc<HashMap<u64, BodyFn>>,
+    /// Custom functions with a body
+    pub custom_bodies: Arc<HashMap<u64, UserFunction>>,
 }
 
 impl std::fmt::Debug for RuleContext {
@@ -478,10 +478,18 @@ impl RuleContext {
     }
 
     /// Sets the custom function bodies for this context.
-    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, BodyFn>) -> Self {
+    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, UserFunction>) -> Self {
         self.custom_bodies = Arc::new(custom_bodies);
         self
     }
+
+    /// The body of a custom function that accepts this number of arguments
+    pub fn custom_body(&self, id: u64, arity: usize) -> Option<&BodyFn> {
+        self.custom_bodies
+            .get(&id)
+            .filter(|func| func.accepts_arity(arity))
+            .and_then(|func| func.body.as_ref())
+    }
 }
 
 /// Numeric simplification rules
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 874babd..ce72e06 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -556,7 +556,7 @@ rule!(
                     numeric_args.push(*n);
                 } else {
                     // Not all numeric - check if we have a body to expand symbolically
-                    if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+                    if let Some(body_fn) = context.custom_body(name.id(), args.len()) {
                         // Expand the function body with the given arguments
                         return Some(body_fn(args));
                     }
@@ -591,7 +591,7 @@ rule!(
             }
 
             // Fallback: check custom_bodies in context and expand symbolically
-            if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
+            if let Some(body_fn) = context.custom_body(name.id(), args.len()) {
                 // Expand the function body with the given arguments
                 return Some(body_fn(args));
             }
-- 
2.43.0


From 66c81e0b54cb6ec6b355b2518c9f5e0abbdd9f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 51/85] fix: parameters given by name do not reach
 context-isolated symbols

---
 src/evaluator/mod.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..dd63682 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -102,6 +102,12 @@ use wide::f64x4;
 pub trait ToParamName {
     /// Get the parameter as a symbol ID (for fast lookup) and name (for storage/error messages).
     fn to_param_id_and_name(&self) -> (u64, String);
+
+    /// Whether the parameter is given by name only, and so stands for any symbol of that name
+    /// (a context may have its own).
+    fn is_name(&self) -> bool {
+        false
+    }
 }
 
 // Blanket impl for anything that can convert to &str
@@ -111,6 +117,10 @@ impl<T: AsRef<str>> ToParamName for T {
         let sym = crate::symb(s);
         (sym.id(), s.to_owned())
     }
+
+    fn is_name(&self) -> bool {
+        true
+    }
 }
 
 impl ToParamName for Symbol {
@@ -220,7 +230,7 @@ impl CompiledEvaluator {
             .iter()
             .map(ToParamName::to_param_id_and_name)
             .collect();
-        let (param_ids, param_names): (Vec<u64>, Vec<String>) = params.into_iter().unzip();
+        let (mut param_ids, param_names): (Vec<u64>, Vec<String>) = params.into_iter().unzip();
 
         // Expand user function calls with their body expressions
         let expanded_expr = context.map_or_else(
@@ -231,6 +241,16 @@ impl CompiledEvaluator {
             },
         );
 
+        // A name may stand for a symbol that a context keeps apart from the global one
+        for (i, param) in param_order.iter().enumerate() {
+            if param.is_name() && !expanded_expr.contains_var_id(param_ids[i]) {
+                let id = expanded_expr.resolve_symbol(&param_names[i], context).id();
+                if !param_ids.contains(&id) {
+                    param_ids[i] = id;
+                }
+            }
+        }
+
         let mut compiler = Compiler::new(&param_ids, context);
 
         // Single-pass compilation with CSE
@@ -285,10 +305,7 @@ impl CompiledEvaluator {
         let vars = expr.variables();
         let mut param_order: Vec<String> = vars
             .into_iter()
-            .filter(|v| {
-                let id = crate::core::symbol::symb_interned(v.as_str()).id();
-                !crate::core::known_symbols::is_known_constant_by_id(id)
-            })
+            .filter(|v| !crate::core::known_symbols::is_known_constant(v))
             .collect();
         param_order.sort(); // Consistent ordering
 
-- 
2.43.0


From 61cdc297950313ccff9af204b6d119e58edfaa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 52/85] fix: depth and size of a polynomial ignore what it is a
 polynomial of

---
 src/core/expr/analysis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 535e12a..08f1982 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -99,7 +99,7 @@ impl Expr {
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.node_count() + r.node_count(),
             ExprKind::Derivative { inner, .. } => 1 + inner.node_count(),
             // Poly is counted as 1 node + its expanded form
-            ExprKind::Poly(poly) => 1 + poly.terms().len(),
+            ExprKind::Poly(poly) => poly.terms().len() + poly.base().node_count(),
         }
     }
 
@@ -117,7 +117,8 @@ impl Expr {
             }
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.max_depth().max(r.max_depth()),
             ExprKind::Derivative { inner, .. } => 1 + inner.max_depth(),
-            ExprKind::Poly(_) => 2, // Poly is shallow: one level for poly, one for terms
+            // One level for poly, one for terms of a variable
+            ExprKind::Poly(poly) => 1 + poly.base().max_depth(),
         }
     }
 
-- 
2.43.0


From 45bd520d370bea8e5440bcc99badfd110d57621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 53/85] fix: substitute, map and fold skip packed polynomials
 and context-isolated symbols

---
 src/core/expr/analysis.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 08f1982..b46fb21 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -408,7 +408,7 @@ impl Expr {
     {
         let acc = f(init, self);
         match &self.kind {
-            ExprKind::Number(_) | ExprKind::Symbol(_) | ExprKind::Poly(_) => acc, // Poly is opaque for folding
+            ExprKind::Number(_) | ExprKind::Symbol(_) => acc,
             ExprKind::FunctionCall { args, .. } => args.iter().fold(acc, |a, arg| arg.fold(a, f)),
             ExprKind::Sum(terms) => terms.iter().fold(acc, |a, t| t.fold(a, f)),
             ExprKind::Product(factors) => factors.iter().fold(acc, |a, f_| f_.fold(a, f)),
@@ -417,6 +417,7 @@ impl Expr {
                 r.fold(acc, f)
             }
             ExprKind::Derivative { inner, .. } => inner.fold(acc, f),
+            ExprKind::Poly(poly) => poly.to_expr_terms().iter().fold(acc, |a, t| t.fold(a, f)),
         }
     }
 
@@ -450,8 +451,7 @@ impl Expr {
                 Self::derivative(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
-                // Poly is opaque for mapping - just clone
-                Self::new(ExprKind::Poly(poly.clone()))
+                Self::sum(poly.to_expr_terms().iter().map(|t| t.map(f)).collect())
             }
         };
         f(&transformed)
@@ -460,10 +460,9 @@ impl Expr {
     /// Substitute a variable with another expression
     #[must_use]
     pub fn substitute(&self, var: &str, replacement: &Self) -> Self {
-        let var_id = crate::core::symbol::symb_interned(var).id();
         self.map(|node| {
             if let ExprKind::Symbol(s) = &node.kind
-                && s.id() == var_id
+                && s.name() == Some(var)
             {
                 return replacement.clone();
             }
-- 
2.43.0


From 14d2c7031d507ca23c2c03f559da3fa7fc8a23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 54/85] fix: asking a context for a function creates a global
 symbol

---
 src/core/unified_context.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 9ae1b97..61ba2c5 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -468,16 +468,14 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_user_fn(&self, name: &str) -> Option<&UserFunction> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id)
+        self.user_functions.get(self.fn_name_to_id.get(name)?)
     }
 
     /// Check if a function is registered.
     #[inline]
     #[must_use]
     pub fn has_function(&self, name: &str) -> bool {
-        let id = symb_interned(name).id();
-        self.user_functions.contains_key(&id)
+        self.get_user_fn(name).is_some()
     }
 
     /// Get all registered function names.
@@ -496,8 +494,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_body(&self, name: &str) -> Option<&BodyFn> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id).and_then(|f| f.body.as_ref())
+        self.get_user_fn(name).and_then(|f| f.body.as_ref())
     }
 
     /// Get the body function for a user function by symbol ID.
@@ -511,9 +508,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_partial(&self, name: &str, arg_idx: usize) -> Option<&PartialFn> {
-        let id = symb_interned(name).id();
-        self.user_functions
-            .get(&id)
+        self.get_user_fn(name)
             .and_then(|f| f.partials.get(&arg_idx))
     }
 
-- 
2.43.0


From a05d1eaca38607e8e1de628b84858344743ce4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 55/85] fix: columns of different lengths panic in eval_f64

---
 src/bindings/eval_f64.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index 213ca6a..bc9b130 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -118,6 +118,10 @@ fn eval_single_expr_chunked<V: ToParamName>(
         columns[0].len()
     };
 
+    if columns.iter().any(|c| c.len() != n_points) {
+        return Err(DiffError::EvalColumnLengthMismatch);
+    }
+
     if n_points == 0 {
         return Ok(Vec::new());
     }
-- 
2.43.0


From 0c3dd77260f9bbed2af1b51c32c6aad30c40445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 56/85] fix: simplified text depends on when the symbols were
 created

---
 src/simplification/helpers.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index ea71988..4eb3b25 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -4,6 +4,7 @@
 //! coefficient extraction, root prettification, and like-term grouping.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
 use std::f64::consts::PI;
@@ -131,23 +132,24 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
     use std::cmp::Ordering;
 
     /// Extract (`base_name`, degree) for polynomial-style ordering.
-    /// Returns (`type_priority`, `base_symbol_id`, degree) - uses u64 ID to avoid String alloc
-    fn get_sort_key(e: &Expr) -> (i32, u64, f64) {
-        // Returns (type_priority, symbol_id, degree)
+    /// Returns (`type_priority`, `base_symbol`, degree) - the symbol orders by name, so the
+    /// result does not depend on when the symbols were created
+    fn get_sort_key(e: &Expr) -> (i32, Option<&InternedSymbol>, f64) {
+        // Returns (type_priority, symbol, degree)
         // Lower type_priority = comes first
         // Lower degree = comes first (low-to-high)
         match &e.kind {
-            Number(_) => (0, 0, 0.0),       // Numbers first
-            Symbol(s) => (10, s.id(), 1.0), // Variables are degree 1, use symbol ID
+            Number(_) => (0, None, 0.0),     // Numbers first
+            Symbol(s) => (10, Some(s), 1.0), // Variables are degree 1, by symbol name
             Pow(base, exp) => {
                 if let Symbol(s) = &base.kind {
                     if let Number(n) = &exp.kind {
-                        (10, s.id(), *n) // Same priority as symbol, degree from exponent
+                        (10, Some(s), *n) // Same priority as symbol, degree from exponent
                     } else {
-                        (10, s.id(), 999.0) // Symbolic exponent - treat as very high degree
+                        (10, Some(s), 999.0) // Symbolic exponent - treat as very high degree
                     }
                 } else {
-                    (30, 0, 0.0) // Non-symbol base - complex
+                    (30, None, 0.0) // Non-symbol base - complex
                 }
             }
             Product(factors) => {
@@ -159,13 +161,13 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
                         return key;
                     }
                 }
-                (20, 0, 0.0) // No polynomial term found
+                (20, None, 0.0) // No polynomial term found
             }
-            FunctionCall { name, .. } => (40, name.id(), 0.0),
-            Sum(..) => (50, 0, 0.0),
-            Div(..) => (35, 0, 0.0),
-            Derivative { .. } => (45, 0, 0.0),
-            Poly(_) => (25, 0, 0.0), // Poly treated as complex
+            FunctionCall { name, .. } => (40, Some(name), 0.0),
+            Sum(..) => (50, None, 0.0),
+            Div(..) => (35, None, 0.0),
+            Derivative { .. } => (45, None, 0.0),
+            Poly(_) => (25, None, 0.0), // Poly treated as complex
         }
     }
 
-- 
2.43.0


From 91a04ccffb07459e3e244043c0dc2d81af7dba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 57/85] fix: simplifying nested differences of squares or cubes
 takes exponential time and space

---
 src/simplification/rules/algebraic/factoring.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index e717723..a5dab1b 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -508,6 +508,12 @@ impl Rule for PerfectSquareRule {
     }
 }
 
+/// Largest difference of squares, or sum or difference of cubes, that is factored, in nodes
+///
+/// Both bases appear several times in the result: without a limit, the size of nested
+/// differences grows exponentially with their depth.
+const MAX_FACTORED_POWERS: usize = 200;
+
 rule_arc!(
     FactorDifferenceOfSquaresRule,
     "factor_difference_of_squares",
@@ -568,6 +574,7 @@ rule_arc!(
 
         if let AstKind::Sum(terms) = &expr.kind
             && terms.len() == 2
+            && expr.node_count() <= MAX_FACTORED_POWERS
         {
             let t1 = &terms[0];
             let t2 = &terms[1];
@@ -1037,7 +1044,7 @@ rule_arc!(
         };
 
         // Check for sum/difference of cubes: a^3 + b^3 or a^3 - b^3
-        if terms.len() == 2 {
+        if terms.len() == 2 && expr.node_count() <= MAX_FACTORED_POWERS {
             fn get_cube_root(e: &Arc<Expr>) -> Option<Arc<Expr>> {
                 if let AstKind::Pow(base, exp) = &e.kind
                     && let AstKind::Number(n) = &exp.kind
-- 
2.43.0


From 0524d3977164c62ec4ca5942975d5ff806c75489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 58/85] fix: eval_f64 accepts malformed requests for no points

---
 src/bindings/eval_f64.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index bc9b130..ee3f12f 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -122,10 +122,6 @@ fn eval_single_expr_chunked<V: ToParamName>(
         return Err(DiffError::EvalColumnLengthMismatch);
     }
 
-    if n_points == 0 {
-        return Ok(Vec::new());
-    }
-
     let evaluator = CompiledEvaluator::compile(expr, vars, None).map_err(|e| {
         DiffError::invalid_syntax(format!("Failed to compile expression {expr_idx}: {e}"))
     })?;
-- 
2.43.0


From 0996a240114813961b6b260ac0bfa65c1e6db1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 59/85] fix: a hash collision between terms decides whether a
 product is expanded

---
 src/simplification/rules/algebraic/combination.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simplification/rules/algebraic/combination.rs b/src/simplification/rules/algebraic/combination.rs
index 0464820..b3a15f6 100644
--- a/src/simplification/rules/algebraic/combination.rs
+++ b/src/simplification/rules/algebraic/combination.rs
@@ -337,15 +337,15 @@ rule_arc!(
             // We can work with Arcs directly
             let terms_vec = terms;
 
-            // First pass: collect hashes of non-product-with-sum terms
-            let mut existing_hashes: std::collections::HashSet<u64> =
+            // First pass: collect the bases of non-product-with-sum terms
+            // (`Expr` verifies structural equality: the result must not depend on a hash collision)
+            let mut existing_bases: std::collections::HashSet<Arc<Expr>> =
                 std::collections::HashSet::new();
             for term in terms_vec {
                 if extract_product_with_sum(term).is_none() {
                     let (_, base) =
                         crate::simplification::helpers::extract_coeff_arc(term.as_ref());
-                    existing_hashes
-                        .insert(crate::simplification::helpers::get_term_hash(base.as_ref()));
+                    existing_bases.insert(base);
                 }
             }
 
@@ -364,8 +364,7 @@ rule_arc!(
                         // Check if any distributed term would combine with existing terms
                         let would_combine = distributed.iter().any(|dt| {
                             let (_, base) = crate::simplification::helpers::extract_coeff(dt);
-                            let hash = crate::simplification::helpers::get_term_hash(&base);
-                            existing_hashes.contains(&hash)
+                            existing_bases.contains(&base)
                         });
 
                         if would_combine {
-- 
2.43.0


From d178fea518f523c47544dd29ba45359b2b72dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 60/85] fix: LaTeX of floor and ceil runs the delimiter and its
 argument together

---
 src/core/display.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index ee5e3a7..01f2f12 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -653,7 +653,7 @@ fn format_function_call_expr(
             "floor" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lfloor{}\rfloor",
+                    r"\lfloor {} \rfloor",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -663,7 +663,7 @@ fn format_function_call_expr(
             "ceil" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lceil{}\rceil",
+                    r"\lceil {} \rceil",
                     LatexFormatter {
                         expr: &args[0],
                         cache
-- 
2.43.0


From d0e83caeb8d51cdf97a792c45aa85242a4208020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 61/85] fix: LaTeX and Unicode print polynomials in plain
 notation, misreading exponents of several digits

---
 src/core/display.rs | 50 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index 01f2f12..e02dab5 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -25,6 +25,7 @@
 //! - Derivatives use ∂ notation
 
 use crate::core::known_symbols as ks;
+use crate::core::poly::Polynomial;
 use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
 use rustc_hash::FxHashMap;
@@ -600,6 +601,51 @@ fn format_pow_expr(
     }
 }
 
+/// Polynomial formatting for the LaTeX and Unicode modes
+fn format_poly_expr(
+    f: &mut fmt::Formatter<'_>,
+    poly: &Polynomial,
+    mode: FormatMode,
+    cache: Option<&SymbolCache>,
+) -> fmt::Result {
+    if poly.terms().is_empty() {
+        return write!(f, "0");
+    }
+
+    let (minus, sep) = match mode {
+        FormatMode::Standard => ("-", "*"),
+        FormatMode::Latex => ("-", r" \cdot "),
+        FormatMode::Unicode => ("\u{2212}", "\u{b7}"),
+    };
+
+    for (i, &(pow, coeff)) in poly.terms().iter().enumerate() {
+        let negative = coeff < 0.0;
+        match (i == 0, negative) {
+            (true, true) => write!(f, "{minus}")?,
+            (true, false) => {}
+            (false, true) => write!(f, " {minus} ")?,
+            (false, false) => write!(f, " + ")?,
+        }
+
+        let abs_coeff = coeff.abs();
+        if pow == 0 {
+            format_number_expr(f, abs_coeff, mode)?;
+            continue;
+        }
+        if (abs_coeff - 1.0).abs() >= EPSILON {
+            format_number_expr(f, abs_coeff, mode)?;
+            write!(f, "{sep}")?;
+        }
+        if pow == 1 {
+            format_wrapped(f, poly.base(), mode, ParenContext::SumOrProduct, cache)?;
+        } else {
+            let exponent = Expr::number(f64::from(pow));
+            format_pow_expr(f, poly.base(), &exponent, mode, cache)?;
+        }
+    }
+    Ok(())
+}
+
 /// Unified Function Call formatting
 #[allow(
     clippy::too_many_lines,
@@ -1202,7 +1248,7 @@ fn format_latex(
         }
 
         // Poly: display inline in LaTeX
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Latex, cache),
     }
 }
 
@@ -1304,7 +1350,7 @@ fn format_unicode(
         }
 
         // Poly: display inline in unicode
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Unicode, cache),
     }
 }
 
-- 
2.43.0


From f9b83d51c671ede9641870837856548e5f96ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 62/85] fix: dual powers lose the value of a negative base and
 the slope at zero

---
 src/math/dual.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index d1716d9..26c1f9d 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -401,6 +401,9 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powi(self, n: i32) -> Self {
+        if n == 0 {
+            return Self::one();
+        }
         let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow = self.val.powi(n);
         let val_pow_minus_1 = self.val.powi(n - 1);
@@ -408,8 +411,16 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn powf(self, n: Self) -> Self {
-        // x^y = exp(y * ln(x))
-        (n * self.ln()).exp()
+        // d(x^y) = y * x^(y-1) * dx + x^y * ln(x) * dy, where a part that does not vary adds nothing
+        let val = self.val.powf(n.val);
+        let mut eps = T::zero();
+        if !self.eps.is_zero() && !n.val.is_zero() {
+            eps += self.eps * n.val * self.val.powf(n.val - T::one());
+        }
+        if !n.eps.is_zero() && !val.is_zero() {
+            eps += n.eps * val * self.val.ln();
+        }
+        Self::new(val, eps)
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From ca13bceebce7ed69d68307694ca94defb4dc4686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 63/85] fix: dual exp_m1 and ln_1p lose all digits near zero

---
 src/math/dual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 26c1f9d..ae61b2a 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -535,11 +535,11 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn exp_m1(self) -> Self {
-        self.exp() - Self::one()
+        Self::new(self.val.exp_m1(), self.eps * self.val.exp())
     }
 
     fn ln_1p(self) -> Self {
-        (self + Self::one()).ln()
+        Self::new(self.val.ln_1p(), self.eps / (T::one() + self.val))
     }
 
     fn sinh(self) -> Self {
-- 
2.43.0


From c91c41074a54eb9ef8626e8dd09172c61a487df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 64/85] fix: dual division, hypot and atan2 overflow in
 intermediate squares

---
 src/math/dual.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index ae61b2a..95e416f 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -116,7 +116,7 @@ impl<T: MathScalar> Div for Dual<T> {
     fn div(self, rhs: Self) -> Self {
         // Quotient rule
         let val = self.val / rhs.val;
-        let eps = (self.eps * rhs.val - self.val * rhs.eps) / (rhs.val * rhs.val);
+        let eps = (self.eps - val * rhs.eps) / rhs.val;
         Self::new(val, eps)
     }
 }
@@ -486,7 +486,9 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn hypot(self, other: Self) -> Self {
-        (self * self + other * other).sqrt()
+        let val = self.val.hypot(other.val);
+        let eps = self.eps * (self.val / val) + other.eps * (other.val / val);
+        Self::new(val, eps)
     }
 
     // Trig
@@ -525,8 +527,8 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     fn atan2(self, other: Self) -> Self {
         // atan(y/x)
         let val = self.val.atan2(other.val);
-        let r2 = self.val * self.val + other.val * other.val;
-        let eps = (other.val * self.eps - self.val * other.eps) / r2;
+        let r = self.val.hypot(other.val);
+        let eps = ((other.val / r) * self.eps - (self.val / r) * other.eps) / r;
         Self::new(val, eps)
     }
 
-- 
2.43.0


From 70eba65752ccc451241901450e79b6b4a01ebd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 65/85] fix: dual sinc near zero has a slope of rounding noise

---
 src/math/dual.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 95e416f..7ddaad0 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -687,10 +687,14 @@ impl<T: MathScalar> Dual<T> {
     /// Panics only if internal invariants are violated (never in normal use with f64).
     #[must_use]
     pub fn sinc(self) -> Self {
-        let threshold = T::from(1e-10).expect("T::from conversion failed");
-        if self.val.abs() < threshold {
-            // sinc(0) = 1, sinc'(0) = 0
-            Self::new(T::one(), T::zero())
+        let num = |x: f64| T::from(x).expect("T::from conversion failed");
+        if self.val.abs() < num(1e-2) {
+            // Taylor series: the closed form cancels near 0
+            let x = self.val;
+            let x2 = x * x;
+            let val = T::one() - x2 / num(6.0) * (T::one() - x2 / num(20.0) * (T::one() - x2 / num(42.0)));
+            let deriv = -x / num(3.0) * (T::one() - x2 / num(10.0) * (T::one() - x2 / num(28.0)));
+            Self::new(val, self.eps * deriv)
         } else {
             let sin_x = self.val.sin();
             let cos_x = self.val.cos();
-- 
2.43.0


From 5222288ad65452a05f891dcc1a0605977bf08d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 66/85] fix: slopes of dual elliptic integrals are finite
 differences, wrong near the edge

---
 src/math/dual.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 7ddaad0..2841ae4 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -712,34 +712,40 @@ impl<T: MathScalar> Dual<T> {
     }
 
     /// Elliptic integral of the first kind: K(k)
-    /// Uses numerical differentiation since analytical is complex
+    /// dK/dk = (E / (1 - k²) - K) / k
     ///
     /// # Panics
     /// Panics only if internal invariants are violated (never in normal use with f64).
     pub fn elliptic_k(self) -> Option<Self> {
         let val = crate::math::eval_elliptic_k(self.val)?;
-        // Numerical derivative via finite difference
-        let h = T::from(1e-8).expect("T::from conversion failed");
-        let val_plus = crate::math::eval_elliptic_k(self.val + h)?;
-        let val_minus = crate::math::eval_elliptic_k(self.val - h)?;
-        let two = T::from(2.0).expect("T::from conversion failed");
-        let deriv = (val_plus - val_minus) / (two * h);
+        let num = |x: f64| T::from(x).expect("T::from conversion failed");
+        let k2 = self.val * self.val;
+        let deriv = if self.val.abs() < num(1e-2) {
+            // series: the closed form cancels near 0
+            T::FRAC_PI_2() * self.val * (num(0.5) + k2 * (num(9.0 / 16.0) + k2 * num(75.0 / 128.0)))
+        } else {
+            let e_val = crate::math::eval_elliptic_e(self.val)?;
+            (e_val / (T::one() - k2) - val) / self.val
+        };
         Some(Self::new(val, self.eps * deriv))
     }
 
     /// Elliptic integral of the second kind: E(k)
-    /// Uses numerical differentiation since analytical is complex
+    /// dE/dk = (E - K) / k
     ///
     /// # Panics
     /// Panics only if internal invariants are violated (never in normal use with f64).
     pub fn elliptic_e(self) -> Option<Self> {
         let val = crate::math::eval_elliptic_e(self.val)?;
-        // Numerical derivative via finite difference
-        let h = T::from(1e-8).expect("T::from conversion failed");
-        let val_plus = crate::math::eval_elliptic_e(self.val + h)?;
-        let val_minus = crate::math::eval_elliptic_e(self.val - h)?;
-        let two = T::from(2.0).expect("T::from conversion failed");
-        let deriv = (val_plus - val_minus) / (two * h);
+        let num = |x: f64| T::from(x).expect("T::from conversion failed");
+        let k2 = self.val * self.val;
+        let deriv = if self.val.abs() < num(1e-2) {
+            // series: the closed form cancels near 0
+            T::FRAC_PI_2() * self.val * (num(-0.5) + k2 * (num(-3.0 / 16.0) + k2 * num(-15.0 / 128.0)))
+        } else {
+            let k_val = crate::math::eval_elliptic_k(self.val)?;
+            (val - k_val) / self.val
+        };
         Some(Self::new(val, self.eps * deriv))
     }
 
-- 
2.43.0


From 2c3366e1c29dda2cb89ca71ed4b508602381ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 67/85] fix: dual tanh has slope zero for large arguments

---
 src/math/dual.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 2841ae4..0f96b59 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -553,9 +553,10 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn tanh(self) -> Self {
-        let tanh_val = self.val.tanh();
-        let sech2_val = T::one() - tanh_val * tanh_val;
-        Self::new(tanh_val, self.eps * sech2_val)
+        // 1 - tanh^2 cancels for large arguments
+        let decay = (-self.val.abs()).exp();
+        let sech_val = (decay + decay) / (T::one() + decay * decay);
+        Self::new(self.val.tanh(), self.eps * sech_val * sech_val)
     }
 
     fn asinh(self) -> Self {
-- 
2.43.0


From f58eae72265391fae3e0877a88789225a45c8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 68/85] fix: user functions inside packed polynomials are never
 expanded

---
 src/evaluator/mod.rs         |  8 ++++++--
 src/simplification/engine.rs | 11 +++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index dd63682..df53ea2 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -1007,8 +1007,12 @@ impl CompiledEvaluator {
             }
 
             ExprKind::Poly(poly) => {
-                let poly_expr = poly.to_expr();
-                Self::expand_user_functions(&poly_expr, ctx, expanding, depth + 1)
+                let base_exp = Self::expand_user_functions(poly.base(), ctx, expanding, depth + 1);
+                if base_exp == **poly.base() {
+                    expr.clone()
+                } else {
+                    poly.with_base(Arc::new(base_exp)).to_expr()
+                }
             }
 
             ExprKind::Derivative { inner, var, order } => {
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index 203941e..5bb9fbe 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -345,6 +345,17 @@ impl Simplifier {
                     self.apply_rules_to_node(expr, depth)
                 }
             }
+            // Packed polynomial - simplify what it is a polynomial of
+            AstKind::Poly(poly) => {
+                let base = poly.base();
+                let base_simplified = self.apply_rules_bottom_up(Arc::clone(base), depth + 1);
+                if Arc::ptr_eq(&base_simplified, base) {
+                    self.apply_rules_to_node(expr, depth)
+                } else {
+                    let new_expr = Arc::new(poly.with_base(base_simplified).to_expr());
+                    self.apply_rules_to_node(new_expr, depth)
+                }
+            }
             _ => self.apply_rules_to_node(expr, depth),
         }
     }
-- 
2.43.0


From 9003782a97008da8a6affd146ce7517b0ea3f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 69/85] fix: Context::symb panics if another thread removes the
 symbol it found

---
 src/core/symbol/registry.rs | 10 +++++-----
 src/core/unified_context.rs | 13 ++++++-------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 700f99e..72823ec 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -41,13 +41,13 @@ pub fn symb_anon() -> Symbol {
 /// Create a new named symbol that is only registered by ID, not by name.
 /// This is for use in isolated contexts.
 #[must_use]
-pub fn symb_new_isolated(name: &str) -> Symbol {
-    let key = REGISTRY
+pub fn symb_new_isolated(name: &str) -> InternedSymbol {
+    let mut id_to_data = REGISTRY
         .id_to_data
         .write()
-        .expect("Global ID registry poisoned")
-        .insert_with_key(|k| InternedSymbol::new_named(name, k));
-    Symbol(key)
+        .expect("Global ID registry poisoned");
+    let key = id_to_data.insert_with_key(|k| InternedSymbol::new_named(name, k));
+    id_to_data[key].clone()
 }
 
 // ============================================================================
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 61ba2c5..9b9d86f 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -341,15 +341,14 @@ impl Context {
             return Symbol::from_id(existing.id());
         }
 
-        // 2. Check global registry (without creating)
-        // 2. Check global registry (without creating), else create isolated
-        let symbol = crate::core::symbol::registry::symb_get(name)
-            .unwrap_or_else(|_| crate::core::symbol::registry::symb_new_isolated(name));
+        // 2. Check global registry (without creating), else create isolated.
+        let interned = crate::core::symbol::registry::symb_get(name)
+            .ok()
+            .and_then(|symbol| crate::core::symbol::lookup_by_id(symbol.id()))
+            .unwrap_or_else(|| crate::core::symbol::registry::symb_new_isolated(name));
+        let symbol = Symbol::from_id(interned.id());
 
         // Track in context's local map
-        let interned = crate::core::symbol::lookup_by_id(symbol.id())
-            .expect("Symbol just created should exist");
-
         inner.symbols.insert(name.to_owned(), interned);
 
         symbol
-- 
2.43.0


From 65e7d4ea7c475043631eea03f651991fd5b4e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 70/85] fix: pi and e read through a context are unknown
 symbols until built-ins are loaded

---
 src/core/unified_context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 9b9d86f..e826871 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -25,7 +25,7 @@ use crate::Expr;
 use std::collections::{HashMap, HashSet};
 use std::ops::RangeInclusive;
 use std::sync::atomic::{AtomicU64, Ordering};
-use std::sync::{Arc, RwLock};
+use std::sync::{Arc, LazyLock, RwLock};
 
 // =============================================================================
 // Type Aliases for Thread-Safe Function Types
@@ -342,6 +342,8 @@ impl Context {
         }
 
         // 2. Check global registry (without creating), else create isolated.
+        //    Built-in names are in the global registry once the built-ins are loaded.
+        LazyLock::force(&crate::core::known_symbols::KS);
         let interned = crate::core::symbol::registry::symb_get(name)
             .ok()
             .and_then(|symbol| crate::core::symbol::lookup_by_id(symbol.id()))
-- 
2.43.0


From 257f3eb8f718025dcbee144d6182c889c13f4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 71/85] fix: pi and e read through a context are unknown
 symbols after clear_symbols

---
 src/core/symbol/registry.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 72823ec..073b91e 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -39,15 +39,12 @@ pub fn symb_anon() -> Symbol {
 }
 
 /// Create a new named symbol that is only registered by ID, not by name.
-/// This is for use in isolated contexts.
+/// This is for use in isolated contexts. A built-in name keeps its meaning, also while it is
+/// not registered by name.
 #[must_use]
 pub fn symb_new_isolated(name: &str) -> InternedSymbol {
-    let mut id_to_data = REGISTRY
-        .id_to_data
-        .write()
-        .expect("Global ID registry poisoned");
-    let key = id_to_data.insert_with_key(|k| InternedSymbol::new_named(name, k));
-    id_to_data[key].clone()
+    let key = REGISTRY.create_key(name);
+    lookup_by_id(Symbol(key).id()).unwrap_or_else(|| InternedSymbol::new_named(name, key))
 }
 
 // ============================================================================
-- 
2.43.0


From 51938eb4b6d9a4e85b95dcde5a9bece4f9469b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 72/85] fix: a custom function may have the name of the
 differentiation variable

---
 src/api/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index a2349db..db1e16f 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -258,6 +258,9 @@ impl Diff {
 
         let custom_functions = self.custom_function_names();
 
+        // The variable is one name, also where a known symbol is a prefix of it
+        symbols.insert(var.to_owned());
+
         for func in &custom_functions {
             if symbols.contains(func) {
                 return Err(DiffError::NameCollision { name: func.clone() });
@@ -271,9 +274,6 @@ impl Diff {
             }
         }
 
-        // The variable is one name, also where a known symbol is a prefix of it
-        symbols.insert(var.to_owned());
-
         let ast = parser::parse(formula, &symbols, &custom_functions, self.context.as_ref())?;
 
         let var_sym = self
-- 
2.43.0


From 883c2eb9c55dd5b55a7e4d2d022686923ee9f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 73/85] fix: uncertainty propagation ignores variances below
 1e-14

---
 src/uncertainty.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index 23710ce..c5eeec5 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -43,7 +43,8 @@ impl CovEntry {
     #[must_use]
     pub fn is_zero(&self) -> bool {
         match self {
-            Self::Num(n) => n.abs() < EPSILON,
+            // Exact: small variances are ordinary data (a standard deviation of 1e-8 has variance 1e-16)
+            Self::Num(n) => *n == 0.0,
             Self::Symbolic(e) => e.is_zero_num(), // Also check symbolic zero
         }
     }
-- 
2.43.0


From 4faf1e767bf4367045f47cccff6aaf8050510dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 74/85] fix: standard deviation from uncertainty propagation
 negative for negative inputs

---
 src/uncertainty.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index c5eeec5..bfa879f 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -14,7 +14,7 @@
 
 use crate::core::known_symbols as ks;
 use crate::core::traits::EPSILON;
-use crate::{Diff, DiffError, Expr};
+use crate::{Diff, DiffError, Expr, Simplify};
 #[cfg(feature = "parallel")]
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 
@@ -285,7 +285,8 @@ pub fn uncertainty_propagation(
     let simplified_variance = variance.simplified()?;
     let std_dev = Expr::func_symbol(ks::get_symbol(ks::KS.sqrt), simplified_variance);
 
-    std_dev.simplified()
+    // Domain-safe: the inputs may be negative, and a standard deviation must not be
+    Simplify::new().domain_safe(true).simplify(&std_dev)
 }
 
 /// Compute relative uncertainty expression: `σ_f` / |f|
-- 
2.43.0


From 3b8b2dd87fd18649e4233b4586d4818e1d41a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 75/85] fix: Expr::map applies the function twice to a single
 packed term

---
 src/core/expr/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index b46fb21..94bbf30 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -451,7 +451,13 @@ impl Expr {
                 Self::derivative(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
-                Self::sum(poly.to_expr_terms().iter().map(|t| t.map(f)).collect())
+                let mut mapped: Vec<Self> =
+                    poly.to_expr_terms().iter().map(|t| t.map(f)).collect();
+                if mapped.len() == 1 {
+                    // A single packed term is that term: `f` has seen it already
+                    return mapped.swap_remove(0);
+                }
+                Self::sum(mapped)
             }
         };
         f(&transformed)
-- 
2.43.0


From 2b69555548626a3f708b088caa3468b1dea9bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 76/85] fix: Python derivatives by variable name ignore the
 symbols of a context

---
 src/api/helpers.rs               |  6 +++---
 src/api/mod.rs                   |  2 +-
 src/bindings/python/builder.rs   | 11 ++++-------
 src/bindings/python/expr.rs      |  6 +-----
 src/bindings/python/functions.rs | 16 ++++++----------
 5 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index ca13da0..01913ed 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -16,7 +16,7 @@ fn empty_context() -> (HashSet<String>, HashSet<String>) {
 
 /// Internal gradient implementation using &str variable names
 /// This is the core implementation - public APIs wrap this
-fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
+pub(crate) fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
     let diff = Diff::new();
     vars.iter()
         .map(|var| diff.differentiate_by_name(expr, var))
@@ -24,7 +24,7 @@ fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError>
 }
 
 /// Internal hessian implementation using &str variable names
-fn hessian_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+pub(crate) fn hessian_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
     let diff = Diff::new();
     let grad = gradient_internal(expr, vars)?;
 
@@ -38,7 +38,7 @@ fn hessian_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffEr
 }
 
 /// Internal jacobian implementation using &str variable names
-fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+pub(crate) fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
     exprs
         .iter()
         .map(|expr| gradient_internal(expr, vars))
diff --git a/src/api/mod.rs b/src/api/mod.rs
index 394b9d8..959a288 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -6,7 +6,7 @@
 //! - Helper functions (gradient, jacobian, hessian)
 
 pub mod builder;
-mod helpers;
+pub(crate) mod helpers;
 
 pub use builder::{Diff, Simplify};
 pub use helpers::{
diff --git a/src/bindings/python/builder.rs b/src/bindings/python/builder.rs
index 450aed6..2967a12 100644
--- a/src/bindings/python/builder.rs
+++ b/src/bindings/python/builder.rs
@@ -177,20 +177,17 @@ impl PyDiff {
         var: &Bound<'_, PyAny>,
     ) -> PyResult<super::expr::PyExpr> {
         let rust_expr = super::expr::extract_to_expr(expr)?;
-        let sym = if let Ok(var_str) = var.extract::<String>() {
-            crate::symb(&var_str)
+        let derivative = if let Ok(var_str) = var.extract::<String>() {
+            self.inner.differentiate_by_name(&rust_expr, &var_str)
         } else if let Ok(var_sym) = var.extract::<super::symbol::PySymbol>() {
-            var_sym.0
+            self.inner.differentiate(&rust_expr, &var_sym.0)
         } else {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "Variable must be a string or Symbol",
             ));
         };
 
-        self.inner
-            .differentiate(&rust_expr, &sym)
-            .map(super::expr::PyExpr)
-            .map_err(Into::into)
+        derivative.map(super::expr::PyExpr).map_err(Into::into)
     }
 }
 
diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 2127cb6..e4454ae 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -764,11 +764,7 @@ impl PyExpr {
 
     /// Differentiate this expression
     fn diff(&self, var: &str) -> PyResult<Self> {
-        let sym = crate::symb(var);
-        crate::Diff::new()
-            .differentiate(&self.0, &sym)
-            .map(PyExpr)
-            .map_err(Into::into)
+        self.0.diff(var).map(PyExpr).map_err(Into::into)
     }
 
     /// Substitute a variable with a numeric value or another expression
diff --git a/src/bindings/python/functions.rs b/src/bindings/python/functions.rs
index 1c2c5d2..fdaf100 100644
--- a/src/bindings/python/functions.rs
+++ b/src/bindings/python/functions.rs
@@ -3,7 +3,6 @@
 //! This module provides the main API functions like `diff`, `simplify`, `parse`, etc.
 
 use crate::Expr as RustExpr;
-use crate::core::symbol::Symbol as RustSymbol;
 use crate::{diff as rust_diff, simplify as rust_simplify};
 use pyo3::prelude::*;
 use std::collections::{HashMap, HashSet};
@@ -93,10 +92,9 @@ pub fn gradient(
     expr: super::expr::PyExpr,
     vars: Vec<String>,
 ) -> PyResult<Vec<super::expr::PyExpr>> {
-    let symbols: Vec<RustSymbol> = vars.iter().map(|s| crate::symb(s)).collect();
-    let sym_refs: Vec<&RustSymbol> = symbols.iter().collect();
+    let names: Vec<&str> = vars.iter().map(std::string::String::as_str).collect();
 
-    let res = crate::gradient(&expr.0, &sym_refs).map_err(PyErr::from)?;
+    let res = crate::api::helpers::gradient_internal(&expr.0, &names).map_err(PyErr::from)?;
     Ok(res.into_iter().map(super::expr::PyExpr).collect())
 }
 
@@ -123,10 +121,9 @@ pub fn hessian(
     expr: super::expr::PyExpr,
     vars: Vec<String>,
 ) -> PyResult<Vec<Vec<super::expr::PyExpr>>> {
-    let symbols: Vec<RustSymbol> = vars.iter().map(|s| crate::symb(s)).collect();
-    let sym_refs: Vec<&RustSymbol> = symbols.iter().collect();
+    let names: Vec<&str> = vars.iter().map(std::string::String::as_str).collect();
 
-    let res = crate::hessian(&expr.0, &sym_refs).map_err(PyErr::from)?;
+    let res = crate::api::helpers::hessian_internal(&expr.0, &names).map_err(PyErr::from)?;
     Ok(res
         .into_iter()
         .map(|row| row.into_iter().map(super::expr::PyExpr).collect())
@@ -157,10 +154,9 @@ pub fn jacobian(
     vars: Vec<String>,
 ) -> PyResult<Vec<Vec<super::expr::PyExpr>>> {
     let rust_exprs: Vec<RustExpr> = exprs.into_iter().map(|e| e.0).collect();
-    let symbols: Vec<RustSymbol> = vars.iter().map(|s| crate::symb(s)).collect();
-    let sym_refs: Vec<&RustSymbol> = symbols.iter().collect();
+    let names: Vec<&str> = vars.iter().map(std::string::String::as_str).collect();
 
-    let res = crate::jacobian(&rust_exprs, &sym_refs).map_err(PyErr::from)?;
+    let res = crate::api::helpers::jacobian_internal(&rust_exprs, &names).map_err(PyErr::from)?;
     Ok(res
         .into_iter()
         .map(|row| row.into_iter().map(super::expr::PyExpr).collect())
-- 
2.43.0


From eb8808a41c5212c7c2d0c3ae712434c8ebd2a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 77/85] fix: Python Symbol and Expr of the same symbol compare
 unequal and hash differently

---
 src/bindings/python/expr.rs   |  4 ++++
 src/bindings/python/symbol.rs | 21 ++++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index e4454ae..0faf130 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -53,6 +53,10 @@ impl PyExpr {
         // For better performance, we'd need a stable hash in Rust Expr
         use std::collections::hash_map::DefaultHasher;
         use std::hash::{Hash, Hasher};
+        // A lone symbol equals its Symbol object and must hash like it
+        if let crate::ExprKind::Symbol(sym) = &self.0.kind {
+            return super::symbol::symbol_hash(sym.id());
+        }
         let mut s = DefaultHasher::new();
         self.0.to_string().hash(&mut s);
         #[allow(
diff --git a/src/bindings/python/symbol.rs b/src/bindings/python/symbol.rs
index a9defdd..b92ca8f 100644
--- a/src/bindings/python/symbol.rs
+++ b/src/bindings/python/symbol.rs
@@ -12,6 +12,16 @@ use crate::core::symbol::Symbol as RustSymbol;
 use crate::{Expr as RustExpr, remove_symbol, symb, symb_get, symb_new};
 use pyo3::prelude::*;
 
+/// Hash of a symbol, shared by the Symbol and the Expr that stand for it
+#[allow(
+    clippy::cast_possible_wrap,
+    clippy::cast_possible_truncation,
+    reason = "Python __hash__ requires isize"
+)]
+pub(super) const fn symbol_hash(id: u64) -> isize {
+    id as isize
+}
+
 /// Python wrapper for symbols
 #[pyclass(unsendable, name = "Symbol", from_py_object)]
 #[derive(Clone)]
@@ -57,18 +67,15 @@ impl PySymbol {
         if let Ok(other_sym) = other.extract::<Self>() {
             return self.0 == other_sym.0;
         }
+        if let Ok(other_expr) = other.extract::<super::expr::PyExpr>() {
+            return self.0.to_expr() == other_expr.0;
+        }
         false
     }
 
-    // u64->isize: Python __hash__ requires isize, wrap is expected
-    #[allow(
-        clippy::cast_possible_wrap,
-        clippy::cast_possible_truncation,
-        reason = "Python __hash__ requires isize"
-    )]
     /// Returns the hash value of the symbol.
     fn __hash__(&self) -> isize {
-        self.0.id() as isize
+        symbol_hash(self.0.id())
     }
 
     /// Get the symbol name
-- 
2.43.0


From 690722195e1cc72f63e3175b4c42eb777af21876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 78/85] fix: Python function callbacks returning a number or
 Symbol, or raising, silently count as 0

---
 src/bindings/python/builder.rs | 36 ++--------------------------------
 src/bindings/python/context.rs | 36 ++--------------------------------
 src/bindings/python/expr.rs    | 19 ++++++++++++++++++
 3 files changed, 23 insertions(+), 68 deletions(-)

diff --git a/src/bindings/python/builder.rs b/src/bindings/python/builder.rs
index 2967a12..1e6ff6f 100644
--- a/src/bindings/python/builder.rs
+++ b/src/bindings/python/builder.rs
@@ -108,23 +108,7 @@ impl PyDiff {
         if let Some(callback) = body_callback {
             let body_fn: BodyFn = Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
                 Python::attach(|py| {
-                    let py_args: Vec<super::expr::PyExpr> = args
-                        .iter()
-                        .map(|a| super::expr::PyExpr((**a).clone()))
-                        .collect();
-                    let Ok(py_list) = py_args.into_pyobject(py) else {
-                        return RustExpr::number(0.0);
-                    };
-
-                    let result = callback.call1(py, (py_list,));
-
-                    result.map_or_else(
-                        |_| RustExpr::number(0.0),
-                        |res| {
-                            res.extract::<super::expr::PyExpr>(py)
-                                .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                        },
-                    )
+                    super::expr::call_function(py, &callback, args)
                 })
             });
             user_fn = user_fn.body_arc(body_fn);
@@ -135,23 +119,7 @@ impl PyDiff {
                 let partial_fn: PartialDerivativeFn =
                     Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
                         Python::attach(|py| {
-                            let py_args: Vec<super::expr::PyExpr> = args
-                                .iter()
-                                .map(|a| super::expr::PyExpr((**a).clone()))
-                                .collect();
-                            let Ok(py_list) = py_args.into_pyobject(py) else {
-                                return RustExpr::number(0.0);
-                            };
-
-                            let result = callback.call1(py, (py_list,));
-
-                            result.map_or_else(
-                                |_| RustExpr::number(0.0),
-                                |res| {
-                                    res.extract::<super::expr::PyExpr>(py)
-                                        .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                                },
-                            )
+                            super::expr::call_function(py, &callback, args)
                         })
                     });
 
diff --git a/src/bindings/python/context.rs b/src/bindings/python/context.rs
index 2ceb4b8..3f6ee23 100644
--- a/src/bindings/python/context.rs
+++ b/src/bindings/python/context.rs
@@ -107,23 +107,7 @@ impl PyContext {
         if let Some(callback) = body_callback {
             let body_fn: BodyFn = Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
                 Python::attach(|py| {
-                    let py_args: Vec<super::expr::PyExpr> = args
-                        .iter()
-                        .map(|a| super::expr::PyExpr((**a).clone()))
-                        .collect();
-                    let Ok(py_list) = py_args.into_pyobject(py) else {
-                        return RustExpr::number(0.0);
-                    };
-
-                    let result = callback.call1(py, (py_list,));
-
-                    result.map_or_else(
-                        |_| RustExpr::number(0.0),
-                        |res| {
-                            res.extract::<super::expr::PyExpr>(py)
-                                .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                        },
-                    )
+                    super::expr::call_function(py, &callback, args)
                 })
             });
             user_fn = user_fn.body_arc(body_fn);
@@ -135,23 +119,7 @@ impl PyContext {
                 let partial_fn: PartialDerivativeFn =
                     Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
                         Python::attach(|py| {
-                            let py_args: Vec<super::expr::PyExpr> = args
-                                .iter()
-                                .map(|a| super::expr::PyExpr((**a).clone()))
-                                .collect();
-                            let Ok(py_list) = py_args.into_pyobject(py) else {
-                                return RustExpr::number(0.0);
-                            };
-
-                            let result = callback.call1(py, (py_list,));
-
-                            result.map_or_else(
-                                |_| RustExpr::number(0.0),
-                                |res| {
-                                    res.extract::<super::expr::PyExpr>(py)
-                                        .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                                },
-                            )
+                            super::expr::call_function(py, &callback, args)
                         })
                     });
 
diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 0faf130..258c6ff 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -910,6 +910,25 @@ const fn get_numeric_value(expr: &RustExpr) -> Option<f64> {
     }
 }
 
+/// Call a Python callback of a user function with the arguments of the call.
+///
+/// The callback may return anything an `Expr` can be built from. An exception cannot cross the
+/// symbolic engine: it is reported as unraisable and the result is undefined (NaN).
+pub fn call_function(
+    py: Python<'_>,
+    callback: &Py<PyAny>,
+    args: &[std::sync::Arc<RustExpr>],
+) -> RustExpr {
+    let args: Vec<PyExpr> = args.iter().map(|a| PyExpr((**a).clone())).collect();
+    let result = callback
+        .call1(py, (args,))
+        .and_then(|res| extract_to_expr(res.bind(py)));
+    result.unwrap_or_else(|err| {
+        err.write_unraisable(py, Some(callback.bind(py)));
+        RustExpr::number(f64::NAN)
+    })
+}
+
 // Complex if-let chain is clearer than map_or_else for multi-type extraction
 #[allow(
     clippy::option_if_let_else,
-- 
2.43.0


From 8eca47fbcf8ad69fa07f1516d283b9e4204c6a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 79/85] fix: Python evaluate_parallel reads values that are no
 sequence of numbers as an empty column

---
 src/bindings/python/parallel.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bindings/python/parallel.rs b/src/bindings/python/parallel.rs
index bc7033e..fffd837 100644
--- a/src/bindings/python/parallel.rs
+++ b/src/bindings/python/parallel.rs
@@ -73,7 +73,7 @@ pub mod parallel_impl {
                         if let Ok(arr) = var_vals.extract::<PyReadonlyArray1<f64>>()
                             && let Ok(slice) = arr.as_slice()
                         {
-                            return slice.iter().map(|&n| Value::Num(n)).collect();
+                            return Ok(slice.iter().map(|&n| Value::Num(n)).collect());
                         }
                         // Fallback to Python list with Option<f64>
                         if let Ok(list) = var_vals.extract::<Vec<Option<f64>>>() {
@@ -82,7 +82,7 @@ pub mod parallel_impl {
                                 clippy::option_if_let_else,
                                 reason = "Side-effect in else branch makes map_or_else unsuitable"
                             )]
-                            return list
+                            return Ok(list
                                 .into_iter()
                                 .map(|v| {
                                     if let Some(n) = v {
@@ -92,21 +92,21 @@ pub mod parallel_impl {
                                         Value::Skip
                                     }
                                 })
-                                .collect();
+                                .collect());
                         }
                         // Try pure f64 list (no None values)
                         if let Ok(list) = var_vals.extract::<Vec<f64>>() {
-                            return list.into_iter().map(Value::Num).collect();
+                            return Ok(list.into_iter().map(Value::Num).collect());
                         }
-                        // Empty fallback
-                        expr_is_numeric = false;
-                        vec![]
+                        Err(PyErr::new::<pyo3::exceptions::PyTypeError, _>(
+                            "values must be NumPy arrays or lists of floats (or None)",
+                        ))
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 is_fully_numeric.push(expr_is_numeric);
-                converted
+                Ok(converted)
             })
-            .collect();
+            .collect::<PyResult<_>>()?;
 
         // Use the hint-based version to skip double-scan
         let results: Vec<Vec<parallel::EvalResult>> = parallel::evaluate_parallel_with_hint(
-- 
2.43.0


From 79ac6bf69209ab5eb80bc6cc78124ebd2353d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 80/85] fix: Python eval_f64 assigns values to the wrong
 expression if the numbers of points differ

---
 src/bindings/python/parallel.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bindings/python/parallel.rs b/src/bindings/python/parallel.rs
index fffd837..e1c8483 100644
--- a/src/bindings/python/parallel.rs
+++ b/src/bindings/python/parallel.rs
@@ -233,6 +233,11 @@ pub mod parallel_impl {
 
             let n_exprs = results.len();
             let n_points = results[0].len();
+            if results.iter().any(|row| row.len() != n_points) {
+                return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(
+                    "Failed to reshape output: expressions have different numbers of points",
+                ));
+            }
 
             // Flatten the results into a single contiguous vector
             let flat_results: Vec<f64> = results.into_iter().flatten().collect();
-- 
2.43.0


From fd8840bd1ca03ddcdc87bec324808491e07b3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 81/85] fix: Python log, bessely and besselk reject small
 positive arguments

---
 src/bindings/python/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 258c6ff..668979e 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -853,7 +853,7 @@ fn is_lambert_w_domain_error(x: f64) -> bool {
 
 /// Check if value is outside the domain of Bessel Y and K functions
 fn is_bessel_yk_domain_error(x: f64) -> bool {
-    x <= 0.0 + EPSILON
+    x <= 0.0
 }
 
 /// Check if value is outside the domain of elliptic K function
@@ -898,7 +898,7 @@ fn is_log_base_domain_error(base: f64) -> bool {
 
 /// Checks if the logarithm value is invalid (non-positive).
 fn is_log_value_domain_error(x: f64) -> bool {
-    x <= 0.0 + EPSILON
+    x <= 0.0
 }
 
 /// Extracts the numeric value from an expression if it is a number.
-- 
2.43.0


From c747b8894fef9d03e95ab41785bd5430a41c438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 82/85] fix: elliptic_e of 1 and -1 is 0.785 instead of 1

---
 src/math/elliptic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 9b1a188..64cff21 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -49,6 +49,10 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
     if k.abs() > one {
         return Some(T::nan());
     }
+    if k.abs() == one {
+        // The AGM below degenerates (b = 0); the integrand is just cos θ
+        return Some(one);
+    }
     let mut a = one;
     let mut b = (one - k * k).sqrt();
 
-- 
2.43.0


From 8a02549e37446b59cf501dae90a13f697e083648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 83/85] =?UTF-8?q?fix:=20=CF=80=20at=20the=20end=20of=20a?=
 =?UTF-8?q?=20run=20of=20declared=20names=20is=20a=20variable=20instead=20?=
 =?UTF-8?q?of=20the=20constant?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parser/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3486378..6012ef3 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -708,6 +708,10 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
             if rest.is_empty() {
                 return;
             }
+            if rest == "\u{3c0}" {
+                output.push(Token::Identifier(Cow::Borrowed("pi")));
+                return;
+            }
             if rest.len() <= longest && fixed_vars.contains(rest)
                 || crate::core::known_symbols::is_known_constant(rest)
             {
-- 
2.43.0


From 4dbf1c5cbd51ee2196cb3107621f983dcf5582b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 84/85] fix: a NaN factor is dropped from a product

---
 src/core/expr/constructors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 2e9679f..ef76f06 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -338,7 +338,8 @@ impl Expr {
         }
 
         // Add numeric coefficient (canonical order: numbers first)
-        if (numeric_prod - 1.0).abs() > EPSILON {
+        // A NaN coefficient must stay: a plain `> EPSILON` would drop it.
+        if numeric_prod.is_nan() || (numeric_prod - 1.0).abs() > EPSILON {
             flat.push(Arc::new(Self::number(numeric_prod)));
         }
 
-- 
2.43.0


From df3c5a206779301e45ac2107d9622535558aa88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 85/85] fix: last coefficient of the Bessel J0 and Y0
 expansions beyond 8 has the wrong sign

---
 src/math/bessel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index f675963..226bdd8 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -190,7 +190,7 @@ pub fn bessel_j0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_935_152e-7,
     ];
 
     let ax = x.abs();
@@ -346,7 +346,7 @@ pub fn bessel_y0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_935_152e-7,
     ];
 
     let eight = T::from(8.0).expect("Failed to convert mathematical constant");
-- 
2.43.0

