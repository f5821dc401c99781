From 2e808aeaea026a1815e329b65db6e28772db036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 01/29] fix: do not take zero-sized measures for the same
 measure

---
 measures-core/src/core/density.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/measures-core/src/core/density.rs b/measures-core/src/core/density.rs
index b021466..cea8b02 100644
--- a/measures-core/src/core/density.rs
+++ b/measures-core/src/core/density.rs
@@ -223,14 +223,6 @@ where
 {
     #[inline]
     fn at(&self, x: &T) -> F {
-        // Check if we're computing density with respect to self
-        if std::ptr::eq(
-            (&raw const self.measure).cast::<()>(),
-            (&raw const self.base_measure).cast::<()>(),
-        ) {
-            return F::zero(); // log(dm/dm) = 0
-        }
-
         // Use type-level dispatch based on IsExponentialFamily markers
         <(M1::IsExponentialFamily, M2::IsExponentialFamily) as ExpFamDispatch<T, M1, M2, F>>::compute(
             &self.measure,
-- 
2.43.0


From 65be729451c77924cf52a100abe647d14588632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 02/29] fix: sign of the exponential distribution's log
 partition

---
 .../src/distributions/continuous/exponential.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index ac5e04e..3209725 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -100,7 +100,7 @@ where
 
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<T, T>>::NaturalParam, T) {
         let natural_param = [-self.rate];
-        let log_partition = self.rate.ln();
+        let log_partition = -self.rate.ln();
         (natural_param, log_partition)
     }
 }
-- 
2.43.0


From b08516822488b325dada7a581bab58ed29adaf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 03/29] fix: log partition of the geometric distribution on 1,
 2, ...

---
 .../src/distributions/discrete/geometric.rs                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index fd5928b..fb81241 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -30,7 +30,7 @@ use num_traits::Float;
 /// This is a member of the exponential family with:
 /// - Natural parameter: η = log(1-p)
 /// - Sufficient statistic: T(x) = x
-/// - Log partition: A(η) = -log(-η/(1+η)) = -log(1-p) - log(p)
+/// - Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
 /// - Base measure: Counting measure on {1, 2, 3, ...}
 #[derive(Clone, Debug)]
 pub struct Geometric<T> {
@@ -117,8 +117,8 @@ where
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
         let natural_param = [self.failure_prob().ln()];
 
-        // Log partition: A(η) = -log(1 - exp(η)) = -log(p)
-        let log_partition = -self.prob.ln();
+        // Support starts at 1, so A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
+        let log_partition = natural_param[0] - self.prob.ln();
 
         (natural_param, log_partition)
     }
-- 
2.43.0


From cf9196a403773b15cfa99a17805e01243747732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 04/29] fix: the binomial log density includes its coefficient

---
 .../src/distributions/discrete/binomial.rs               | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 12c1f94..de6e0b2 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -19,7 +19,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
+use measures_combinators::measures::derived::binomial_coefficient::{
+    BinomialCoefficientMeasure, log_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -151,8 +153,9 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
-            // Use log binomial coefficient (this is handled by the base measure)
-            k * self.prob.ln() + (n - k) * (T::one() - self.prob).ln()
+            log_binomial_coefficient::<T>(self.n, *x)
+                + k * self.prob.ln()
+                + (n - k) * (T::one() - self.prob).ln()
         } else {
             T::neg_infinity() // Outside support
         }
-- 
2.43.0


From 815ef95d19f04642f053b619fa9bdff90331398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 05/29] fix: the negative binomial log density counts successes
 before r failures

---
 .../distributions/discrete/negative_binomial.rs    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 4d7f4e8..a30a0c2 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -20,7 +20,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
+use measures_combinators::measures::derived::negative_binomial_coefficient::{
+    NegativeBinomialCoefficientMeasure, log_negative_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -159,12 +161,14 @@ where
 // Implementation of HasLogDensity for NegativeBinomial distribution
 impl<T: Float> measures_core::HasLogDensity<u64, T> for NegativeBinomial<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
-        // Negative Binomial PMF: P(X = k) = C(k+r-1, k) * p^r * (1-p)^k
-        // log P(X = k) = log(C(k+r-1, k)) + r*log(p) + k*log(1-p)
+        // Negative Binomial PMF (k successes of probability p before r failures):
+        // P(X = k) = C(k+r-1, k) * p^k * (1-p)^r
+        // log P(X = k) = log(C(k+r-1, k)) + k*log(p) + r*log(1-p)
         let k = T::from(*x).unwrap();
         let r = T::from(self.r).unwrap();
 
-        // The log binomial coefficient is handled by the base measure
-        r * self.prob.ln() + k * (T::one() - self.prob).ln()
+        log_negative_binomial_coefficient::<T>(self.r, *x)
+            + k * self.prob.ln()
+            + r * (T::one() - self.prob).ln()
     }
 }
-- 
2.43.0


From 2ad0567e5b56bfebc5c6fcdb0aefc054bd8a44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 06/29] fix: a pushforward has no density outside the range of
 its map

---
 .../src/measures/combinators/pushforward.rs              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 7ebf117..62b6fe1 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -63,8 +63,9 @@ where
 
     fn in_support(&self, y: f64) -> bool {
         // y is in support if f⁻¹(y) is in support of the base measure
+        // (a NaN preimage means that y is outside the range of f)
         let x = (self.inverse)(&y);
-        self.base_measure.in_support(x)
+        !x.is_nan() && self.base_measure.in_support(x)
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
@@ -83,7 +84,13 @@ where
         // Change of variables formula:
         // log(dν/dλ)(y) = log(dμ/dλ)(f⁻¹(y)) + log|det(Df⁻¹(y))|
         let x = (self.inverse)(y);
+        if x.is_nan() {
+            return f64::NEG_INFINITY; // y is outside the range of f
+        }
         let base_log_density = self.base_measure.log_density_wrt_root(&x);
+        if base_log_density == f64::NEG_INFINITY {
+            return base_log_density; // zero density, whatever the Jacobian
+        }
         let log_jacobian = (self.log_abs_det_jacobian)(y);
 
         base_log_density + log_jacobian
-- 
2.43.0


From 1711e22892ba1314d22d1330d826fce86c44b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 07/29] fix: a mixture rejects negative weights

---
 .../src/measures/combinators/superposition.rs                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 36cdcd8..8f744cd 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -42,6 +42,10 @@ impl<M, F: Float> MixtureMeasure<M, F> {
             weights.len(),
             "Components and weights must have same length"
         );
+        assert!(
+            weights.iter().all(|&w| w >= F::zero()),
+            "Weights must be non-negative"
+        );
 
         let weight_sum: F = weights.iter().copied().fold(F::zero(), |acc, w| acc + w);
         assert!(
-- 
2.43.0


From c09f598be885fe850f6c580f46a2e56c1747e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 08/29] fix: report a missing variable in
 evaluate_batch_optimized

---
 symbolic-math/src/expr.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 4ad3a3a..c3f18a3 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -308,13 +308,6 @@ impl Expr {
             // Standard path with HashMap reuse
             let mut var_map = HashMap::with_capacity(vars.len());
 
-            // Pre-populate with any constants or other variables (if needed)
-            for var in &vars {
-                if var != var_name {
-                    var_map.insert(var.clone(), 0.0); // Will be overwritten if needed
-                }
-            }
-
             for &value in values {
                 var_map.insert(var_name.to_string(), value);
                 results.push(self.evaluate(&var_map)?);
-- 
2.43.0


From 4a832f147054976723b2fa9f3d72adbbbdc95b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 09/29] fix: let expr!(-x) reach the negation rule

---
 symbolic-math/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index 9688c90..a5d73bc 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -131,6 +131,11 @@ pub mod macros {
             $crate::Expr::variable(stringify!($var))
         };
 
+        // Negation (before literals: `$val:literal` rejects `-x` instead of falling through)
+        (-$e:tt) => {
+            -expr!($e)
+        };
+
         // Constants (literals)
         ($val:literal) => {
             $crate::Expr::constant($val as f64)
@@ -190,11 +195,6 @@ pub mod macros {
         (cos($e:tt)) => {
             $crate::Expr::cos(expr!($e))
         };
-
-        // Negation
-        (-$e:tt) => {
-            -expr!($e)
-        };
     }
 
     /// Create a variable expression
-- 
2.43.0


From b51eb494da1ed0e3169f326a6b1a94f3c191c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 10/29] fix: parenthesise a negative constant that is raised to
 a power when printing

---
 symbolic-math/src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index c3f18a3..10433df 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -718,6 +718,9 @@ impl fmt::Display for Expr {
             Expr::Sub(left, right) => write!(f, "({left} - {right})"),
             Expr::Mul(left, right) => write!(f, "({left} * {right})"),
             Expr::Div(left, right) => write!(f, "({left} / {right})"),
+            Expr::Pow(base, exponent) if base.is_negative_constant() => {
+                write!(f, "(({base})^{exponent})")
+            }
             Expr::Pow(base, exponent) => write!(f, "({base}^{exponent})"),
             Expr::Ln(expr) => write!(f, "ln({expr})"),
             Expr::Exp(expr) => write!(f, "exp({expr})"),
@@ -730,6 +733,11 @@ impl fmt::Display for Expr {
 }
 
 impl Expr {
+    /// A constant printed with a leading minus sign
+    fn is_negative_constant(&self) -> bool {
+        matches!(self, Expr::Const(value) if *value < 0.0)
+    }
+
     /// Format as LaTeX for mathematical documents
     #[must_use]
     pub fn to_latex(&self) -> String {
-- 
2.43.0


From ed33e06299aaa8f61836248e4d2bc366c3271c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 11/29] fix: parenthesise negations in Python output

---
 symbolic-math/src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 10433df..52adefa 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -784,6 +784,10 @@ impl Expr {
             Expr::Sub(left, right) => format!("({} - {})", left.to_python(), right.to_python()),
             Expr::Mul(left, right) => format!("({} * {})", left.to_python(), right.to_python()),
             Expr::Div(left, right) => format!("({} / {})", left.to_python(), right.to_python()),
+            // ** binds more tightly than a minus sign on its left
+            Expr::Pow(base, exponent) if base.is_negative_constant() => {
+                format!("(({}) ** {})", base.to_python(), exponent.to_python())
+            }
             Expr::Pow(base, exponent) => {
                 format!("({} ** {})", base.to_python(), exponent.to_python())
             }
@@ -792,7 +796,7 @@ impl Expr {
             Expr::Sqrt(expr) => format!("math.sqrt({})", expr.to_python()),
             Expr::Sin(expr) => format!("math.sin({})", expr.to_python()),
             Expr::Cos(expr) => format!("math.cos({})", expr.to_python()),
-            Expr::Neg(expr) => format!("-({})", expr.to_python()),
+            Expr::Neg(expr) => format!("(-{})", expr.to_python()),
         }
     }
 }
-- 
2.43.0


From b946a13cc28ec5cd61989f03b70b80d97692e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 12/29] fix: parenthesise operands in LaTeX output

---
 symbolic-math/src/expr.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 52adefa..0c869a7 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -751,19 +751,25 @@ impl Expr {
             }
             Expr::Var(name) => name.clone(),
             Expr::Add(left, right) => format!("{} + {}", left.to_latex(), right.to_latex()),
-            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.to_latex()),
+            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.latex_operand(2)),
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
                 (Expr::Const(c), _) if *c == 1.0 => right.to_latex(),
-                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.to_latex()),
+                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.latex_operand(2)),
                 (Expr::Const(_), Expr::Var(_)) => {
                     format!("{}{}", left.to_latex(), right.to_latex())
                 }
-                _ => format!("{} \\cdot {}", left.to_latex(), right.to_latex()),
+                _ => format!(
+                    "{} \\cdot {}",
+                    left.latex_operand(2),
+                    right.latex_operand(2)
+                ),
             },
             Expr::Div(left, right) => {
                 format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex())
             }
-            Expr::Pow(base, exponent) => format!("{}^{{{}}}", base.to_latex(), exponent.to_latex()),
+            Expr::Pow(base, exponent) => {
+                format!("{}^{{{}}}", base.latex_operand(4), exponent.to_latex())
+            }
             Expr::Ln(expr) => format!("\\ln({})", expr.to_latex()),
             Expr::Exp(expr) => format!("e^{{{}}}", expr.to_latex()),
             Expr::Sqrt(expr) => format!("\\sqrt{{{}}}", expr.to_latex()),
@@ -773,6 +779,27 @@ impl Expr {
         }
     }
 
+    /// Format as an operand in LaTeX, in parentheses if it binds less tightly than `level`
+    /// (1 for sums and minus signs, 2 for products, 3 for powers and fractions, 4 for the rest)
+    fn latex_operand(&self, level: u8) -> String {
+        let own = match self {
+            Expr::Mul(left, right) if matches!(**left, Expr::Const(c) if c == 1.0) => {
+                return right.latex_operand(level);
+            }
+            Expr::Mul(left, _) if left.is_negative_constant() => 1,
+            Expr::Add(..) | Expr::Sub(..) | Expr::Neg(_) => 1,
+            Expr::Const(_) if self.is_negative_constant() => 1,
+            Expr::Mul(..) => 2,
+            Expr::Div(..) | Expr::Pow(..) | Expr::Exp(_) => 3,
+            _ => 4,
+        };
+        if own < level {
+            format!("({})", self.to_latex())
+        } else {
+            self.to_latex()
+        }
+    }
+
     /// Format as Python code for numerical evaluation
     /// TODO: `to_julia`
     #[must_use]
-- 
2.43.0


From 7392e995aa3eea27db275fdb724a7d1330cac324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 13/29] fix: display::latex and display::python print LaTeX and
 Python

---
 symbolic-math/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index a5d73bc..133caac 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -299,13 +299,13 @@ pub mod display {
     /// Generate LaTeX representation of an expression
     #[must_use]
     pub fn latex(expr: &Expr) -> String {
-        format!("${expr}$")
+        format!("${}$", expr.to_latex())
     }
 
     /// Generate Python code representation of an expression
     #[must_use]
     pub fn python(expr: &Expr) -> String {
-        format!("lambda vars: {expr}")
+        format!("lambda vars: {}", expr.to_python())
     }
 
     /// Generate a mathematical equation string
-- 
2.43.0


From 3864bec967c6898d0e4466a42d9545f06c9313e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 14/29] fix: parenthesise a negative constant that is raised to
 a power when pretty-printing

---
 mathjit/src/final_tagless.rs       | 4 ++++
 symbolic-math/src/final_tagless.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mathjit/src/final_tagless.rs b/mathjit/src/final_tagless.rs
index 1dc4c6d..373ede5 100644
--- a/mathjit/src/final_tagless.rs
+++ b/mathjit/src/final_tagless.rs
@@ -695,6 +695,10 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
+        if base.starts_with('-') {
+            // the power would bind more tightly than the sign of a negative constant
+            return format!("(({base}) ^ {exp})");
+        }
         format!("({base} ^ {exp})")
     }
 
diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index a7b217d..4c50ca8 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -544,6 +544,10 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
+        if base.starts_with('-') {
+            // the power would bind more tightly than the sign of a negative constant
+            return format!("(({base}) ^ {exp})");
+        }
         format!("({base} ^ {exp})")
     }
 
-- 
2.43.0


From c69e7cb40bd971844ae01778b41ce88b0b7be8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 15/29] fix: log-gamma of the distribution interpreter was off
 by up to 1/144 for arguments above 12

---
 .../src/distributions/final_tagless.rs                 | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index a48772f..3b0ebf3 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -293,16 +293,10 @@ impl DistributionEval {
         }
     }
 
-    /// Log-gamma function approximation (Stirling's approximation for large values)
+    /// Log-gamma function
     #[must_use]
     pub fn log_gamma(x: f64) -> f64 {
-        if x > 12.0 {
-            // Stirling's approximation for large x
-            (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln()
-        } else {
-            // Use built-in gamma function for smaller values
-            special::Gamma::ln_gamma(x).0
-        }
+        special::Gamma::ln_gamma(x).0
     }
 }
 
-- 
2.43.0


From d8db909d77f609fb44420f18756e71e606639a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 16/29] fix: the hierarchical normal model did not use the
 group scale in the prior of the mean

---
 measures-bayesian/src/bayesian/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/measures-bayesian/src/bayesian/mod.rs b/measures-bayesian/src/bayesian/mod.rs
index 1d003fc..43424d7 100644
--- a/measures-bayesian/src/bayesian/mod.rs
+++ b/measures-bayesian/src/bayesian/mod.rs
@@ -82,7 +82,11 @@ pub mod expressions {
         tau_prior_scale: f64,
     ) -> Expr {
         let likelihood = normal_likelihood(x_var, mu_var, sigma_var);
-        let mu_prior = normal_prior(mu_var, mu_prior_mean, tau_prior_scale);
+        let mu_prior = symbolic_math::builders::normal_log_pdf(
+            Expr::variable(mu_var),
+            Expr::constant(mu_prior_mean),
+            Expr::variable(tau_var),
+        );
         let tau_prior = normal_prior(tau_var, 0.0, tau_prior_scale);
         likelihood + mu_prior + tau_prior
     }
-- 
2.43.0


From 8b98ba43b48a3315be64c82c75e9fde542df5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 17/29] fix: compiled ln gave finite garbage for zero,
 negative, subnormal and non-finite arguments

---
 symbolic-math/src/jit.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4653189..99ec0d5 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -694,6 +694,19 @@ pub fn generate_accurate_ln_call(
         .ins()
         .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, val, one);
 
+    // Subnormal arguments are scaled by 2^54 first, so that their exponent can be read off
+    let min_normal = builder.ins().f64const(f64::MIN_POSITIVE);
+    let is_subnormal = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::LessThan,
+        val,
+        min_normal,
+    );
+    let two_54 = builder.ins().f64const(18_014_398_509_481_984.0);
+    let scaled = builder.ins().fmul(val, two_54);
+    let normal = builder.ins().select(is_subnormal, scaled, val);
+    let fifty_four = builder.ins().f64const(54.0);
+    let k_shift = builder.ins().select(is_subnormal, fifty_four, zero);
+
     // Use range reduction: x = 2^k * m where 1.0 <= m < 2.0
     // Then ln(x) = k*ln(2) + ln(m)
     // This is the proper way to implement ln with good accuracy across all ranges
@@ -701,7 +714,7 @@ pub fn generate_accurate_ln_call(
     // Convert to integer bits for manipulation
     let x_bits = builder
         .ins()
-        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), val);
+        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), normal);
 
     // Extract exponent (IEEE 754 format)
     let exponent_mask = builder.ins().iconst(types::I64, 0x7FF0000000000000);
@@ -710,6 +723,7 @@ pub fn generate_accurate_ln_call(
     let bias = builder.ins().iconst(types::I64, 1023);
     let k_i64 = builder.ins().isub(exponent_shifted, bias);
     let k = builder.ins().fcvt_from_sint(types::F64, k_i64);
+    let k = builder.ins().fsub(k, k_shift);
 
     // Extract mantissa and normalize to [1, 2)
     let mantissa_mask = builder.ins().iconst(types::I64, 0x000FFFFFFFFFFFFF);
@@ -776,7 +790,27 @@ pub fn generate_accurate_ln_call(
 
     // Return ln(1) = 0 exactly, otherwise return computed value
     let result = builder.ins().select(is_one, zero, ln_x);
-    Ok(result)
+
+    // ln(0) = -inf, ln(inf) = inf, and NaN for negative or NaN arguments
+    let infinity = builder.ins().f64const(f64::INFINITY);
+    let neg_infinity = builder.ins().f64const(f64::NEG_INFINITY);
+    let nan = builder.ins().f64const(f64::NAN);
+    let is_infinite = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::Equal,
+        val,
+        infinity,
+    );
+    let result = builder.ins().select(is_infinite, infinity, result);
+    let is_zero = builder
+        .ins()
+        .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, val, zero);
+    let not_positive = builder.ins().select(is_zero, neg_infinity, nan);
+    let is_positive = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::GreaterThan,
+        val,
+        zero,
+    );
+    Ok(builder.ins().select(is_positive, result, not_positive))
 }
 
 /// Generate CLIF IR for exponential function using proven rational function approximation
-- 
2.43.0


From e85e2aeb31f847a8257e8a792bd456b11961f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 18/29] fix: compiled exp returned garbage outside the range of
 doubles and trapped on NaN

---
 symbolic-math/src/jit.rs | 78 ++++++++++++----------------------------
 1 file changed, 22 insertions(+), 56 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 99ec0d5..5513bfa 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -820,6 +820,12 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     // For range reduction: exp(x) = 2^k * exp(r) where r ∈ [0, ln(2)]
     // Split x = k*ln(2) + r where k is integer and r ∈ [0, ln(2)]
 
+    // Beyond these bounds the result is 0 or infinite
+    let lowest = builder.ins().f64const(-750.0);
+    let highest = builder.ins().f64const(710.0);
+    let val = builder.ins().fmax(val, lowest);
+    let val = builder.ins().fmin(val, highest);
+
     let ln2 = builder.ins().f64const(std::f64::consts::LN_2);
     let ln2_inv = builder.ins().f64const(1.0 / std::f64::consts::LN_2);
 
@@ -875,64 +881,24 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     // Rational function result: exp(r)
     let exp_r = builder.ins().fdiv(numerator, denominator);
 
-    // Apply 2^k scaling - use a simpler conditional approach
-    let k_int = builder.ins().fcvt_to_sint(types::I32, k_float);
-
-    // For common small integer powers, use exact multiplication
-    // This avoids floating point precision issues
-    let zero = builder.ins().iconst(types::I32, 0);
-    let one_i32 = builder.ins().iconst(types::I32, 1);
-    let neg_one_i32 = builder.ins().iconst(types::I32, -1);
-
-    let two_f64 = builder.ins().f64const(2.0);
-    let half_f64 = builder.ins().f64const(0.5);
-
-    // Check for k = 0 (most common case)
-    let is_k_zero = builder
-        .ins()
-        .icmp(cranelift_codegen::ir::condcodes::IntCC::Equal, k_int, zero);
-    let result_k_zero = exp_r; // 2^0 = 1, so result = exp_r * 1 = exp_r
-
-    // Check for k = 1
-    let is_k_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        one_i32,
-    );
-    let result_k_one = builder.ins().fmul(exp_r, two_f64); // 2^1 = 2
-
-    // Check for k = -1
-    let is_k_neg_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        neg_one_i32,
-    );
-    let result_k_neg_one = builder.ins().fmul(exp_r, half_f64); // 2^(-1) = 0.5
-
-    // For other cases, use bit manipulation (ldexp-like operation)
-    let exp_r_bits =
-        builder
-            .ins()
-            .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), exp_r);
-    let k_64 = builder.ins().sextend(types::I64, k_int);
-    let exponent_shift = builder.ins().ishl_imm(k_64, 52); // Shift k to exponent position
-    let result_bits = builder.ins().iadd(exp_r_bits, exponent_shift);
-    let result_general = builder.ins().bitcast(
-        types::F64,
-        cranelift_codegen::ir::MemFlags::new(),
-        result_bits,
-    );
+    // Apply 2^k scaling in two steps, so that neither factor leaves the normal range
+    let k_int = builder.ins().fcvt_to_sint_sat(types::I64, k_float);
+    let k_half = builder.ins().sshr_imm(k_int, 1);
+    let k_rest = builder.ins().isub(k_int, k_half);
+    let scale_half = generate_power_of_two(builder, k_half);
+    let scale_rest = generate_power_of_two(builder, k_rest);
+    let scaled = builder.ins().fmul(exp_r, scale_half);
+    Ok(builder.ins().fmul(scaled, scale_rest))
+}
 
-    // Use select instructions to choose the right result
-    let temp_result = builder
-        .ins()
-        .select(is_k_zero, result_k_zero, result_general);
-    let temp_result2 = builder.ins().select(is_k_one, result_k_one, temp_result);
-    let result = builder
+/// Generate CLIF IR for 2^k with an integer k in the range of normal exponents
+#[cfg(feature = "jit")]
+fn generate_power_of_two(builder: &mut FunctionBuilder, k: Value) -> Value {
+    let biased = builder.ins().iadd_imm(k, 1023);
+    let bits = builder.ins().ishl_imm(biased, 52);
+    builder
         .ins()
-        .select(is_k_neg_one, result_k_neg_one, temp_result2);
-
-    Ok(result)
+        .bitcast(types::F64, cranelift_codegen::ir::MemFlags::new(), bits)
 }
 
 /// Generate CLIF IR for sine function using polynomial approximation
-- 
2.43.0


From 0dee30037595208a4d814123c7a58999e3d55585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 19/29] fix: compiled sin and cos were low-order Taylor
 polynomials without range reduction

---
 symbolic-math/src/jit.rs | 115 ++++++++++++++++++++++++++-------------
 1 file changed, 78 insertions(+), 37 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 5513bfa..99dec12 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -901,50 +901,91 @@ fn generate_power_of_two(builder: &mut FunctionBuilder, k: Value) -> Value {
         .bitcast(types::F64, cranelift_codegen::ir::MemFlags::new(), bits)
 }
 
-/// Generate CLIF IR for sine function using polynomial approximation
+/// Reduce an angle to r = val - k*pi in [-pi/2, pi/2] and give (r, (-1)^k)
 #[cfg(feature = "jit")]
-pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for sin(x)
-    // sin(x) ≈ x - x³/6 + x⁵/120
-
-    let x2 = builder.ins().fmul(val, val);
-    let x3 = builder.ins().fmul(x2, val);
-    let x5 = builder.ins().fmul(x3, x2);
-
-    let coeff2 = builder.ins().f64const(-0.16666666667);
-    let coeff3 = builder.ins().f64const(0.00833333333);
-
-    let term1 = val;
-    let term2 = builder.ins().fmul(x3, coeff2);
-    let term3 = builder.ins().fmul(x5, coeff3);
+fn generate_angle_reduction(builder: &mut FunctionBuilder, val: Value) -> (Value, Value) {
+    let inv_pi = builder.ins().f64const(std::f64::consts::FRAC_1_PI);
+    let turns = builder.ins().fmul(val, inv_pi);
+    let k = builder.ins().nearest(turns);
+
+    // pi is split in two, so that k*pi is exact enough for large k
+    let pi_hi = builder.ins().f64const(std::f64::consts::PI);
+    let pi_lo = builder.ins().f64const(1.224_646_799_147_353_2e-16);
+    let k_pi_hi = builder.ins().fmul(k, pi_hi);
+    let k_pi_lo = builder.ins().fmul(k, pi_lo);
+    let r = builder.ins().fsub(val, k_pi_hi);
+    let r = builder.ins().fsub(r, k_pi_lo);
+
+    // (-1)^k = 1 - 4*(k/2 - floor(k/2))
+    let half = builder.ins().f64const(0.5);
+    let k_half = builder.ins().fmul(k, half);
+    let k_half_floor = builder.ins().floor(k_half);
+    let odd = builder.ins().fsub(k_half, k_half_floor);
+    let four = builder.ins().f64const(4.0);
+    let odd = builder.ins().fmul(odd, four);
+    let one = builder.ins().f64const(1.0);
+    let sign = builder.ins().fsub(one, odd);
+    (r, sign)
+}
 
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
+/// Generate CLIF IR for a polynomial in x by Horner's rule, lowest coefficient first
+#[cfg(feature = "jit")]
+fn generate_polynomial(builder: &mut FunctionBuilder, x: Value, coefficients: &[f64]) -> Value {
+    let mut result = builder.ins().f64const(0.0);
+    for &c in coefficients.iter().rev() {
+        let c = builder.ins().f64const(c);
+        let product = builder.ins().fmul(result, x);
+        result = builder.ins().fadd(c, product);
+    }
+    result
+}
 
-    Ok(result)
+/// Generate CLIF IR for sine function using range reduction and polynomial approximation
+#[cfg(feature = "jit")]
+pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
+    // sin(x) = (-1)^k sin(r), and sin(r) ≈ r - r³/3! + r⁵/5! - ... - r¹⁵/15!
+    let (r, sign) = generate_angle_reduction(builder, val);
+    let r2 = builder.ins().fmul(r, r);
+    let series = generate_polynomial(
+        builder,
+        r2,
+        &[
+            1.0,
+            -1.0 / 6.0,
+            1.0 / 120.0,
+            -1.0 / 5_040.0,
+            1.0 / 362_880.0,
+            -1.0 / 39_916_800.0,
+            1.0 / 6_227_020_800.0,
+            -1.0 / 1_307_674_368_000.0,
+        ],
+    );
+    let sin_r = builder.ins().fmul(r, series);
+    Ok(builder.ins().fmul(sign, sin_r))
 }
 
-/// Generate CLIF IR for cosine function using polynomial approximation
+/// Generate CLIF IR for cosine function using range reduction and polynomial approximation
 #[cfg(feature = "jit")]
 pub fn generate_cos_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for cos(x)
-    // cos(x) ≈ 1 - x²/2 + x⁴/24
-
-    let one = builder.ins().f64const(1.0);
-    let x2 = builder.ins().fmul(val, val);
-    let x4 = builder.ins().fmul(x2, x2);
-
-    let coeff2 = builder.ins().f64const(-0.5);
-    let coeff3 = builder.ins().f64const(0.04166666667);
-
-    let term1 = one;
-    let term2 = builder.ins().fmul(x2, coeff2);
-    let term3 = builder.ins().fmul(x4, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    // cos(x) = (-1)^k cos(r), and cos(r) ≈ 1 - r²/2! + r⁴/4! - ... + r¹⁶/16!
+    let (r, sign) = generate_angle_reduction(builder, val);
+    let r2 = builder.ins().fmul(r, r);
+    let cos_r = generate_polynomial(
+        builder,
+        r2,
+        &[
+            1.0,
+            -0.5,
+            1.0 / 24.0,
+            -1.0 / 720.0,
+            1.0 / 40_320.0,
+            -1.0 / 3_628_800.0,
+            1.0 / 479_001_600.0,
+            -1.0 / 87_178_291_200.0,
+            1.0 / 20_922_789_888_000.0,
+        ],
+    );
+    Ok(builder.ins().fmul(sign, cos_r))
 }
 
 /// Generate CLIF IR for square root using Cranelift's built-in instruction
-- 
2.43.0


From 396e5b5205ad9c9fe6389e417a2d34e1dac4d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 20/29] fix: compiled powers with a whole exponent went through
 the logarithm, wrong for a negative base

---
 symbolic-math/src/final_tagless.rs |  6 ++++++
 symbolic-math/src/jit.rs           | 27 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 4c50ca8..97f2eca 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -872,6 +872,12 @@ impl JITRepr {
                         // x^0 = 1
                         Ok(builder.ins().f64const(1.0))
                     }
+                    Self::Constant(n) if n.fract() == 0.0 && n.abs() <= 64.0 => {
+                        // Whole exponents hold for bases of any sign
+                        Ok(crate::jit::generate_whole_pow(
+                            builder, base_val, *n as i32,
+                        ))
+                    }
                     _ => {
                         // General case: use exp(exponent * ln(base)) with accurate implementations
                         let exp_val = exp.generate_ir(builder, var_map)?;
diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 99dec12..0087aad 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -640,6 +640,10 @@ fn generate_clif_from_expr_with_vars(
                     // x^0 = 1
                     Ok(builder.ins().f64const(1.0))
                 }
+                Expr::Const(n) if n.fract() == 0.0 && n.abs() <= 64.0 => {
+                    // Whole exponents hold for bases of any sign
+                    Ok(generate_whole_pow(builder, base_val, *n as i32))
+                }
                 _ => {
                     // General case: use exp(exponent * ln(base)) with accurate implementations
                     let exp_val =
@@ -667,6 +671,29 @@ fn generate_clif_from_expr_with_vars(
     }
 }
 
+/// Generate CLIF IR for a whole power by repeated squaring
+#[cfg(feature = "jit")]
+pub fn generate_whole_pow(builder: &mut FunctionBuilder, base: Value, exponent: i32) -> Value {
+    let mut remaining = exponent.unsigned_abs();
+    let mut square = base;
+    let mut power = builder.ins().f64const(1.0);
+    while remaining > 0 {
+        if remaining & 1 == 1 {
+            power = builder.ins().fmul(power, square);
+        }
+        remaining >>= 1;
+        if remaining > 0 {
+            square = builder.ins().fmul(square, square);
+        }
+    }
+    if exponent < 0 {
+        let one = builder.ins().f64const(1.0);
+        builder.ins().fdiv(one, power)
+    } else {
+        power
+    }
+}
+
 /// Generate a call to the pow function using basic math operations
 #[cfg(feature = "jit")]
 pub fn generate_pow_call(
-- 
2.43.0


From 555e28e09e4b66185568d66c98ae9696e7616c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 21/29] fix: batch calls passed pointers to compiled functions
 that take doubles

---
 symbolic-math/src/jit.rs | 81 +++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 0087aad..2adfb78 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -158,21 +158,7 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *n, "Parameter count mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // This would need dynamic dispatch based on parameter count
-                    // For now, support common cases
-                    match n {
-                        2 => {
-                            let func: fn(f64, f64, f64) -> f64 =
-                                unsafe { std::mem::transmute(self.function_ptr) };
-                            func(x, params[0], params[1])
-                        }
-                        3 => {
-                            let func: fn(f64, f64, f64, f64) -> f64 =
-                                unsafe { std::mem::transmute(self.function_ptr) };
-                            func(x, params[0], params[1], params[2])
-                        }
-                        _ => panic!("Unsupported parameter count: {n}"),
-                    }
+                    self.call_with_arguments(&[&[x], params].concat())
                 }
                 #[cfg(not(feature = "jit"))]
                 {
@@ -184,30 +170,57 @@ impl GeneralJITFunction {
         }
     }
 
-    /// Call the JIT function with multiple data points and parameters (for batch processing)
+    /// Call the JIT function with all its data values, then all its parameters
     pub fn call_batch(&self, data: &[f64], params: &[f64]) -> f64 {
-        match &self.signature {
+        let (data_dims, param_dims) = match &self.signature {
+            JITSignature::SingleInput => (1, 0),
+            JITSignature::DataAndParameter => (1, 1),
+            JITSignature::DataAndParameters(n) => (1, *n),
             JITSignature::MultipleDataAndParameters {
                 data_dims,
                 param_dims,
-            } => {
-                assert_eq!(data.len(), *data_dims, "Data dimension mismatch");
-                assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
-                #[cfg(feature = "jit")]
-                {
-                    // For batch processing, we'd typically pass pointers to arrays
-                    // This is a simplified version - real implementation would be more complex
-                    let func: fn(*const f64, usize, *const f64, usize) -> f64 =
-                        unsafe { std::mem::transmute(self.function_ptr) };
-                    func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
-                }
-                #[cfg(not(feature = "jit"))]
-                {
-                    let _ = (data, params);
-                    0.0
-                }
+            } => (*data_dims, *param_dims),
+            JITSignature::Custom { .. } => {
+                panic!("Function signature mismatch: expected batch data and parameters")
+            }
+        };
+        assert_eq!(data.len(), data_dims, "Data dimension mismatch");
+        assert_eq!(params.len(), param_dims, "Parameter dimension mismatch");
+        #[cfg(feature = "jit")]
+        {
+            self.call_with_arguments(&[data, params].concat())
+        }
+        #[cfg(not(feature = "jit"))]
+        {
+            0.0
+        }
+    }
+
+    /// Call the compiled function, which takes its arguments as separate doubles
+    #[cfg(feature = "jit")]
+    fn call_with_arguments(&self, args: &[f64]) -> f64 {
+        macro_rules! call {
+            ($($arg:ident: $ty:ty),*) => {{
+                let func: fn($($ty),*) -> f64 =
+                    unsafe { std::mem::transmute(self.function_ptr) };
+                func($($arg),*)
+            }};
+        }
+        match *args {
+            [] => call!(),
+            [a] => call!(a: f64),
+            [a, b] => call!(a: f64, b: f64),
+            [a, b, c] => call!(a: f64, b: f64, c: f64),
+            [a, b, c, d] => call!(a: f64, b: f64, c: f64, d: f64),
+            [a, b, c, d, e] => call!(a: f64, b: f64, c: f64, d: f64, e: f64),
+            [a, b, c, d, e, f] => call!(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64),
+            [a, b, c, d, e, f, g] => {
+                call!(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64)
+            }
+            [a, b, c, d, e, f, g, h] => {
+                call!(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64)
             }
-            _ => panic!("Function signature mismatch: expected batch data and parameters"),
+            _ => panic!("Unsupported argument count: {}", args.len()),
         }
     }
 }
-- 
2.43.0


From 125169af2b5670f52eed86a3a5fd559265ab3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 22/29] fix: the argument order of an automatically compiled
 function was random

---
 symbolic-math/src/final_tagless.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 97f2eca..e1bf8bd 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -1002,9 +1002,13 @@ impl MathExpr for JITEval {
 #[cfg(feature = "jit")]
 impl JITEval {
     /// Compile expression with automatic signature detection
+    ///
+    /// The arguments of the compiled function are the variables in alphabetical order.
     pub fn compile(expr: JITRepr) -> Result<GeneralJITFunction, JITError> {
         let variables = expr.collect_variables();
-        let var_list: Vec<String> = variables.into_iter().collect();
+        let mut var_list: Vec<String> = variables.into_iter().collect();
+        // A hash set has no fixed order, the arguments of the function do
+        var_list.sort();
 
         let compiler = GeneralJITCompiler::new()?;
         compiler.compile_final_tagless(&expr, &var_list, &[], &HashMap::new())
-- 
2.43.0


From e68665fa33c381959e83cd10f08b5a1b1a2a8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 23/29] fix: a custom expression took its alphabetically first
 parameter for the input

---
 symbolic-math/src/jit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 2adfb78..b4d9139 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -1099,8 +1099,12 @@ fn generate_custom_log_density(
     // Create a variable mapping with the input value
     let mut var_map = std::collections::HashMap::new();
 
-    // Assume the first variable in the expression is the input variable
-    if let Some(var_name) = symbolic.variables.first() {
+    // The input variable is the first variable that has no parameter value
+    let input = symbolic
+        .variables
+        .iter()
+        .find(|name| !symbolic.parameters.contains_key(*name));
+    if let Some(var_name) = input {
         var_map.insert(var_name.clone(), x_val);
     }
 
-- 
2.43.0


From b066b2090698b2971ad93a89ea871a4fbc325208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 24/29] fix: a constant replaced the argument of the same name
 in compile_final_tagless

---
 symbolic-math/src/jit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index b4d9139..f7c3bd0 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -508,8 +508,11 @@ impl GeneralJITCompiler {
             var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
         }
 
-        // Add constants to the variable map as constant values
+        // Add constants to the variable map as constant values; arguments come first
         for (name, &value) in constants {
+            if var_map.contains_key(name) {
+                continue;
+            }
             let const_val = builder.ins().f64const(value);
             var_map.insert(name.clone(), const_val);
         }
-- 
2.43.0


From f37db41e81200331411cbf9b8892993ec5a1e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 25/29] fix: the optimiser rounded constants to one decimal

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 575e95b..c8a012f 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -193,7 +193,7 @@ impl EgglogOptimizer {
     /// Convert our Expr to egglog string representation
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
-            Expr::Const(c) => Ok(format!("(Const {c:.1})")),
+            Expr::Const(c) => Ok(format!("(Const {c:?})")),
             Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
-- 
2.43.0


From a446b78e7df26224b32684e12ebc0ae53d50ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 26/29] fix: the optimiser panicked on a division by a constant
 zero

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index c8a012f..7d14514 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -103,7 +103,7 @@ impl EgglogOptimizer {
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
             (rewrite (Mul (Const ?a) (Const ?b)) (Const (* ?a ?b)))
             (rewrite (Sub (Const ?a) (Const ?b)) (Const (- ?a ?b)))
-            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)))
+            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)) :when ((!= ?b 0.0) (!= ?b -0.0)))
             
             ; POLYNOMIAL simplification rules
             ; Collect like terms: x + x -> 2*x
-- 
2.43.0


From 94f12d2b15f791e2ae52998101e25075630c8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:22 +0000
Subject: [PATCH 27/29] fix: expressions optimised by one optimiser affected
 each other

---
 symbolic-math/src/optimization.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 7d14514..d1f0797 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -155,6 +155,16 @@ impl EgglogOptimizer {
 
     /// Optimize an expression using egglog's equality saturation with limited iterations
     pub fn optimize(&mut self, expr: &Expr) -> Result<Expr, egglog::Error> {
+        // Each expression is optimized in a scope of its own, so that the equalities
+        // (and the e-nodes) of one do not carry over to the next
+        self.egraph.push();
+        let result = self.optimize_in_scope(expr);
+        self.egraph.pop()?;
+        result
+    }
+
+    /// Optimize an expression within the current scope of the e-graph
+    fn optimize_in_scope(&mut self, expr: &Expr) -> Result<Expr, egglog::Error> {
         // Convert our Expr to egglog format
         let egglog_expr = Self::expr_to_egglog(expr)?;
 
-- 
2.43.0


From 618d36ae46d7f5e307e944f4596757ba2df5c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:11 +0000
Subject: [PATCH 28/29] fix: binomial and geometric log-densities were NaN at
 probability zero and one

Zero times the logarithm of zero is NaN: log P(X = 0) with p = 0, log P(X = n) with p = 1 of a
binomial and log P(X = 1) with p = 1 of a geometric distribution are log 1 = 0.
---
 .../src/distributions/discrete/binomial.rs       | 16 +++++++++++++---
 .../src/distributions/discrete/geometric.rs      |  8 +++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index de6e0b2..e73f88f 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -153,9 +153,19 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
-            log_binomial_coefficient::<T>(self.n, *x)
-                + k * self.prob.ln()
-                + (n - k) * (T::one() - self.prob).ln()
+            // A factor with exponent 0 is 1, also where its base is 0
+            let successes = if *x == 0 {
+                T::zero()
+            } else {
+                k * self.prob.ln()
+            };
+            let failures = if *x == self.n {
+                T::zero()
+            } else {
+                (n - k) * (T::one() - self.prob).ln()
+            };
+
+            log_binomial_coefficient::<T>(self.n, *x) + successes + failures
         } else {
             T::neg_infinity() // Outside support
         }
diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index fb81241..20c73a9 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -156,7 +156,13 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Geometric<T> {
         // log P(X = k) = (k-1)*log(1-p) + log(p)
         if *x >= 1 {
             let k = T::from(*x).unwrap();
-            (k - T::one()) * (T::one() - self.prob).ln() + self.prob.ln()
+            // No failures before the first trial, also where failure has probability 0
+            let failures = if *x == 1 {
+                T::zero()
+            } else {
+                (k - T::one()) * (T::one() - self.prob).ln()
+            };
+            failures + self.prob.ln()
         } else {
             T::neg_infinity() // Outside support (k must be >= 1)
         }
-- 
2.43.0


From 0b49d744a76afb663a9ea287deab399ba9cd0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:11 +0000
Subject: [PATCH 29/29] fix: outcomes of probability zero were in the support

in_support of Bernoulli, Binomial, Geometric and Categorical was true for outcomes whose density is
minus infinity when a probability is zero or one.
---
 measures-distributions/src/distributions/discrete/bernoulli.rs | 3 ++-
 measures-distributions/src/distributions/discrete/binomial.rs  | 3 +++
 .../src/distributions/discrete/categorical.rs                  | 3 ++-
 measures-distributions/src/distributions/discrete/geometric.rs | 3 ++-
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/bernoulli.rs b/measures-distributions/src/distributions/discrete/bernoulli.rs
index 644f60d..36beef2 100644
--- a/measures-distributions/src/distributions/discrete/bernoulli.rs
+++ b/measures-distributions/src/distributions/discrete/bernoulli.rs
@@ -79,7 +79,8 @@ impl<T: Float> Measure<u8> for Bernoulli<T> {
     type RootMeasure = CountingMeasure<u8>;
 
     fn in_support(&self, x: u8) -> bool {
-        x == 0 || x == 1
+        // An outcome of probability 0 is outside the support
+        (x == 0 && self.prob < T::one()) || (x == 1 && self.prob > T::zero())
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index e73f88f..31e4daa 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -77,7 +77,10 @@ impl<T: Float> Measure<u64> for Binomial<T> {
     type RootMeasure = CountingMeasure<u64>;
 
     fn in_support(&self, x: u64) -> bool {
+        // An outcome of probability 0 is outside the support
         x <= self.n
+            && (self.prob > T::zero() || x == 0)
+            && (self.prob < T::one() || x == self.n)
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 1dddcad..d8b02b1 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -112,7 +112,8 @@ impl<T: Float> Measure<usize> for Categorical<T> {
     type RootMeasure = CountingMeasure<usize>;
 
     fn in_support(&self, x: usize) -> bool {
-        x < self.probs.len()
+        // A category of probability 0 is outside the support
+        x < self.probs.len() && self.probs[x] > T::zero()
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index 20c73a9..6637a52 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -81,7 +81,8 @@ impl<T: Float> Measure<u64> for Geometric<T> {
     type RootMeasure = CountingMeasure<u64>;
 
     fn in_support(&self, x: u64) -> bool {
-        x >= 1 // Geometric distribution starts from 1
+        // Starts from 1, and certain success leaves no other count
+        x == 1 || (x > 1 && self.prob < T::one())
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
-- 
2.43.0

