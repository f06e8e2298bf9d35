From 1c151cdd5cfa2f3b49d86ec80cab771282238dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 01/41] fix: make the order of expressions total and consistent
 with equality

Comparing undef with undef (or with a variable) recursed forever, a power and a
product were both less than each other, and sums or products that are equal up
to the order of their operands did not compare as Equal.
---
 src/atom.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 476d436..7d76124 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -218,9 +218,14 @@ impl Ord for Atom {
         }
 
         match (lhs, rhs) {
+            (A::Undef, A::Undef) => cmp::Ordering::Equal,
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
-                cmp_slice_rev(lhs.args(), rhs.args())
+                // the order of the operands is irrelevant, as it is for equality
+                let (mut largs, mut rargs) = (lhs.args().to_vec(), rhs.args().to_vec());
+                largs.sort();
+                rargs.sort();
+                cmp_slice_rev(&largs, &rargs)
             }
             (A::Pow(p1), A::Pow(p2)) => {
                 if p1.base() != p2.base() {
@@ -237,20 +242,17 @@ impl Ord for Atom {
                     cmp_slice(f1.args(), f2.args())
                 }
             }
-            (A::Prod(_) | A::Sum(_), _) => {
-                if lhs.n_args() == 0 {
-                    cmp::Ordering::Less
-                } else if lhs.args().last().unwrap().atom() != rhs {
-                    lhs.args().last().unwrap().atom().cmp(rhs)
-                } else {
-                    cmp::Ordering::Greater
-                }
-            }
+            // a product is compared before a sum, and a sum before a power
+            (A::Sum(_) | A::Pow(_), A::Prod(_)) | (A::Pow(_), A::Sum(_)) => rhs.cmp(lhs).reverse(),
+            (A::Prod(_) | A::Sum(_), _) => match lhs.iter_args().max() {
+                None => cmp::Ordering::Less,
+                Some(last) => last.atom().cmp(rhs).then(cmp::Ordering::Greater),
+            },
             (A::Pow(p), _) => {
                 if p.base().atom() != rhs {
                     p.base().atom().cmp(rhs)
                 } else {
-                    p.exponent().atom().cmp(&A::ONE)
+                    p.exponent().atom().cmp(&A::ONE).then(cmp::Ordering::Greater)
                 }
             }
             (A::Func(f), A::Var(v)) => {
@@ -261,6 +263,7 @@ impl Ord for Atom {
                     n.as_str().cmp(&v.0)
                 }
             }
+            (A::Undef, A::Var(_) | A::Func(_)) => cmp::Ordering::Less,
             (_, _) => {
                 rhs.cmp(lhs).reverse()
             }
-- 
2.43.0


From d8bf40b5205d925329c3a4bdade33ab296302bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 02/41] fix: compare rationals exactly

Rationals that only differ beyond the precision of a double compared as Equal.
---
 src/atom.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 7d76124..a20fca7 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -288,7 +288,10 @@ impl PartialOrd for Real {
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
         use ordered_float::OrderedFloat;
-        OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx()))
+        match (self, other) {
+            (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
+            _ => OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx())),
+        }
     }
 }
 
-- 
2.43.0


From a169abd05fa655d47912afd9cccea77c4e2969ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 03/41] fix: order rationals before pi and e, so that reduce
 combines all of them

The operands of 1/2 * 9 * pi were sorted to 1/2, pi, 9, where the two rationals
are not neighbours and stayed uncombined.
---
 src/atom.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index a20fca7..eb8a5f1 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -210,7 +210,12 @@ impl Ord for Atom {
 
         let (r1, r2) = (lhs.try_as_real(), rhs.try_as_real());
         if let (Some(l), Some(r)) = (&r1, &r2) {
-            return l.cmp(r);
+            // rationals first: reduction combines the ones that are next to each other
+            return match (l, r) {
+                (Real::Rational(_), Real::Irrational(_)) => cmp::Ordering::Less,
+                (Real::Irrational(_), Real::Rational(_)) => cmp::Ordering::Greater,
+                _ => l.cmp(r),
+            };
         } else if r1.is_some() {
             return cmp::Ordering::Less
         } else if r2.is_some() {
-- 
2.43.0


From 1b90c9ca628e721947bc18ff15df4fcb202cb11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 04/41] fix: sort the operands of sums by one total order

Variables and products were compared by other rules than the remaining operands,
so that the order was not transitive and reduce missed like terms.
---
 src/algos.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index fe78334..d81ee07 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -84,11 +84,7 @@ impl Sum {
     }
 
     fn cmp_args(lhs: &Expr, rhs: &Expr) -> cmp::Ordering {
-        match (lhs.atom(), rhs.atom()) {
-            (Atom::Prod(p1), Atom::Prod(p2)) => p1.cmp(p2),
-            (Atom::Var(a), Atom::Var(b)) => a.cmp(b),
-            _ => rhs.cmp(lhs),
-        }
+        rhs.cmp(lhs)
     }
 
     fn add_sorted(lhs: &Expr, rhs: &Expr) -> Sum {
-- 
2.43.0


From 51c9efe0024a4cabdbb1a2ce7957967001549f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 05/41] fix: equal sums and products hash equally

Equality disregards the order of the operands but the hash did not, so that sets
of expressions (variables, simplify) could hold equal expressions twice.
---
 src/atom.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index eb8a5f1..a08d9da 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -492,7 +492,7 @@ impl Func {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -517,6 +517,15 @@ impl fmt::Debug for Sum {
     }
 }
 
+impl hash::Hash for Sum {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        // equality disregards the order of the operands
+        let mut args = self.args.clone();
+        args.sort();
+        args.hash(state);
+    }
+}
+
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
@@ -571,7 +580,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -596,6 +605,15 @@ impl fmt::Debug for Prod {
     }
 }
 
+impl hash::Hash for Prod {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        // equality disregards the order of the operands
+        let mut args = self.args.clone();
+        args.sort();
+        args.hash(state);
+    }
+}
+
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-- 
2.43.0


From 5a6b2784d99079f24fc0206ad13f243e71dd6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 06/41] fix: 0/0 is undefined

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index d81ee07..a229720 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -701,7 +701,7 @@ impl Expr {
 
         if lhs.is_undef() || rhs.is_undef() {
             Expr::undef()
-        } else if lhs == rhs {
+        } else if lhs == rhs && !rhs.flatten().is_zero() {
             Expr::one()
         } else {
             let min_one = Expr::from(-1);
-- 
2.43.0


From 9db7f78b2ab4d7c914569c502910f84906dab3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 07/41] fix: Rational::div_rem divides the numerator by the
 denominator

(a + b)^(5/2).expand() was a + b.
---
 src/algos.rs    | 2 +-
 src/rational.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index a229720..004dc90 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -564,7 +564,7 @@ impl Pow {
             }
             (A::Sum(sum), A::Rational(r)) if r > &Rational::ONE && sum.args.len() > 1 => {
                 let (div, rem) = r.div_rem();
-                return expand_mul(
+                return Prod::expand_mul(
                     &expand_pow(self.base(), &Expr::from(div)),
                     &expand_pow(self.base(), &Expr::from(rem)),
                 );
diff --git a/src/rational.rs b/src/rational.rs
index afb1547..8518ff8 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -402,7 +402,7 @@ impl Rational {
         let denom = self.denom();
         let num = self.numer();
         //let (num, den) = self.0.to_numerator_and_denominator();
-        let (quot, rem) = num::integer::div_rem(denom, num);
+        let (quot, rem) = num::integer::div_rem(num, denom);
         //let (quot, rem) = marith::DivRem::div_rem(num, den);
         (Self::new_int(quot), Self::new(rem, denom))
 
-- 
2.43.0


From ef03cb13bf434d718364f2681818376aaafa8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 08/41] fix: Rational::pow returns the fractional part of the
 exponent

4^(3/2) gave (4, 1) instead of (4, 1/2).
---
 src/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index 8518ff8..a7a28cb 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -459,7 +459,7 @@ impl Rational {
             let denom = rhs.denom();
             let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);
                                                                    //let rem_exp = Self(mal::Rational::from(rem));
-            let rem_exp = Self::new_int(rem);
+            let rem_exp = Self::new(rem, denom);
             if let Ok(apply_exp) = usize::try_from(quot) {
                 if let Some(pow) = num::checked_pow(self.0, apply_exp) {
                     return (Self(pow), rem_exp);
-- 
2.43.0


From 36a0556cc4297c83629a60fa35f53214e474ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 09/41] fix: keep integer powers that do not fit as powers

2^200 panicked in Expr::pow; reduce already keeps it.
---
 src/algos.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 004dc90..0fd735d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -776,8 +776,12 @@ impl Expr {
         match (base.atom(), exponent.atom()) {
             (A::Rational(b), A::Rational(e)) if b.is_int() && e.is_int() => {
                 let (pow, rem) = b.clone().pow(e.clone());
-                assert!(rem.is_zero());
-                Expr::from(pow)
+                if rem.is_zero() {
+                    Expr::from(pow)
+                } else {
+                    // too big for the integers
+                    Expr::pow_raw(base, exponent)
+                }
             }
             (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 Expr::pow(pow.base(), exponent * pow.exponent())
-- 
2.43.0


From e30f2aa2e40deaa7934f1146b3de7f5fb52e39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 10/41] fix: try_as_div splits 1/x into 1 and x, not -1 and x

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index a08d9da..7830f51 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -957,7 +957,7 @@ impl Expr {
 
     pub fn try_as_div(&self) -> Option<(Expr, Expr)> {
         if self.is_pow() && self.exponent().is_min_one() {
-            Some((Expr::min_one(), self.base().clone()))
+            Some((Expr::one(), self.base().clone()))
         } else if self.is_prod() {
             Some(
                 self.iter_args()
-- 
2.43.0


From a925f0dea329d6e10bd5b181a8bdfbe95d47a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 11/41] fix: variables() and MonomialView::check() accept
 functions

Both were todo!(): a function is a generalized variable of its own, like any
other expression that is not built from sums, products and powers.
---
 src/atom.rs       | 4 +++-
 src/polynomial.rs | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 7830f51..230d8e8 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1089,7 +1089,9 @@ impl Expr {
                 }
                 vars.insert(self.clone());
             }
-            A::Func(_) => todo!(),
+            A::Func(_) => {
+                vars.insert(self.clone());
+            }
         }
     }
 
diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9ca0afa..c9b0952 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -179,7 +179,7 @@ impl<'a> MonomialView<'a> {
 
         match self.monom.atom() {
             A::Undef => return false,
-            A::Irrational(_) | A::Rational(_) | A::Var(_) | A::Sum(_) => (),
+            A::Irrational(_) | A::Rational(_) | A::Var(_) | A::Sum(_) | A::Func(_) => (),
             A::Prod(Prod { args }) => {
                 for a in args {
                     if !a.as_monomial_view(self.vars).check() {
@@ -197,7 +197,6 @@ impl<'a> MonomialView<'a> {
                 }
                 _ => (),
             },
-            A::Func(_) => todo!(),
         }
         self.monom.free_of_set(self.vars.iter())
     }
-- 
2.43.0


From 5f71773e1dd5bd0e5daa63be753badaa6ad27685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 12/41] fix: seq_substitude does not descend into the
 replacement

Substituting x + 1 for x replaced the x inside the replacement again, forever.
---
 src/algos.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 0fd735d..35fbdf2 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1261,11 +1261,7 @@ impl Expr {
     {
         let mut res = self.clone();
         subs.into_iter().for_each(|(from, to)| {
-            res.for_each_compl_sub_expr(|sub_expr| {
-                if sub_expr == from {
-                    *sub_expr = to.clone();
-                }
-            });
+            res = res.substitude(from, to);
         });
         res
     }
-- 
2.43.0


From ff190253e53619202aba103b303319d1584957af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 13/41] fix: contract_trig leaves powers alone that are not
 powers of sin or cos

pi^2 and x^2 panicked, and so did sin(x)^(-1).
---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 35fbdf2..9c99aa5 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1494,7 +1494,7 @@ fn contract_trig_pow(p: &Expr) -> Expr {
     let f = p.base();
     let n = p.exponent();
 
-    if !(n.is_int() && n.is_pos()) && !(f.is_sin() || f.is_cos()) {
+    if !(n.is_int() && n.is_pos()) || !(f.is_sin() || f.is_cos()) {
         return p.clone();
     }
 
-- 
2.43.0


From 62a9fc65b8b24d0d9aa2f50650b4f85cdfe548a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 14/41] fix: contracting a sum does not add one to it

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 9c99aa5..e840161 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1473,7 +1473,7 @@ fn contract_trig_arg(e: &Expr) -> Expr {
             }
         }
 
-        Atom::Sum(s) => s.iter_args().fold(Expr::one(), |lhs, rhs| {
+        Atom::Sum(s) => s.iter_args().fold(Expr::zero(), |lhs, rhs| {
             if rhs.is_prod() || rhs.is_pow() {
                 lhs + contract_trig_arg(rhs)
             } else {
-- 
2.43.0


From 84c3311432d6c08a7a828e00c74b27fece79d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 15/41] fix: only integer exponents are multiplied into nested
 powers

((x - 1)^2)^(1/2) reduced to x - 1, which differs for x < 1. Expr::pow has the
same condition.
---
 src/atom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 230d8e8..d8e5f95 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1356,8 +1356,8 @@ impl SymbolicExpr for Pow {
                     A::Pow(self.clone()).into()
                 }
             }
-            //TODO: rule?
-            (A::Pow(pow), _) => {
+            // only for integers: (x^2)^(1/2) is not x
+            (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 let mut pow = pow.clone();
                 pow.args[1] *= self.exponent();
                 pow.reduce()
-- 
2.43.0


From 5eef9498348b6af867217129ba0f9f846588119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 16/41] fix: a generalized variable has degree 1 in itself,
 also when it is a sum

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index c9b0952..59cd5b2 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -335,7 +335,7 @@ impl<'a> PolynomialView<'a> {
         if let A::Sum(Sum { args }) = self.poly.atom() {
             if self.vars.has(self.poly) {
                 let v = self.poly;
-                coeffs.insert([(v.clone(), 0)].into(), Expr::one());
+                coeffs.insert([(v.clone(), 1)].into(), Expr::one());
                 return coeffs;
             }
 
-- 
2.43.0


From f7db9b7b9cb0f2458007e14371b23b4824901187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 17/41] fix: the variable part of a monomial does not depend on
 the order of its variables

x*y and y*x were different monomials, so that coefficients were not collected.
---
 src/polynomial.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 59cd5b2..cf88716 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -56,7 +56,9 @@ impl PartialOrd for VarPow {
 }
 impl Ord for VarPow {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.total_deg().cmp(&other.total_deg())
+        self.total_deg()
+            .cmp(&other.total_deg())
+            .then_with(|| self.var_deg.cmp(&other.var_deg))
     }
 }
 
@@ -99,7 +101,9 @@ impl VarPow {
         if let Some(degree) = self.find_mut(&v) {
             *degree += d;
         } else {
-            self.var_deg.push((v, d))
+            self.var_deg.push((v, d));
+            // so that x*y and y*x are equal
+            self.var_deg.sort();
         }
     }
 
-- 
2.43.0


From bbfa5d59bd697787b3d8cbc0433826f6b4f1ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 18/41] fix: collect_terms accepts monomials and rejects other
 non-sums, not vice versa

---
 src/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index cf88716..e8ebf43 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -378,9 +378,9 @@ impl<'a> PolynomialView<'a> {
         } else {
             // self.poly != A::Sum(_)
             if self.poly.as_monomial_view(self.vars).check() {
-                return None;
-            } else {
                 return Some(self.poly.clone());
+            } else {
+                return None;
             }
         };
 
-- 
2.43.0


From d31520be0e940abbe85526a74b429694ed97fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 19/41] fix: coeffs_of keeps the powers of the other variables

The coefficient of x in x*y was 1, and terms without x were dropped.
---
 src/polynomial.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index e8ebf43..9a892cb 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -310,14 +310,11 @@ impl<'a> PolynomialView<'a> {
     }
 
     pub fn coeffs_of(&self, v: &GVar) -> HashMap<Degree, Coeff> {
-        let coeff = self.coeffs().into_iter().filter_map(|(d, c)| {
-            if let Some(d) = d.degree_of(v) {
-                Some((d.clone(), c))
-            } else if d.is_const() {
-                Some((0, c))
-            } else {
-                None
-            }
+        let coeff = self.coeffs().into_iter().map(|(mut d, c)| {
+            let deg = d.find(v).cloned().unwrap_or(0);
+            // the powers of the other variables belong to the coefficient
+            d.var_deg.retain(|(var, _)| var != v);
+            (deg, c * d.as_expr())
         });
 
         let mut res = HashMap::default();
-- 
2.43.0


From 024020ebf00b83331668059d5d329ff2d2a54802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 20/41] fix: the derivative of a constant is zero, also where
 the chain rule divides by zero

The derivative of arcsin(1) was undef.
---
 src/algos.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index e840161..925cfa1 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -836,9 +836,12 @@ impl Expr {
             A::Pow(pow) => {
                 let v = pow.base();
                 let w = pow.exponent();
+                let (dv, dw) = (v.derivative(x), w.derivative(x));
+                if dv.is_zero() && dw.is_zero() {
+                    return Expr::zero();
+                }
                 // d(v^w)/dx = w * v^(w - 1) * dv/dx + dw/dx * v^w * ln(v)
-                w * Expr::pow(v, w - Expr::one()) * v.derivative(x)
-                    + w.derivative(x) * Expr::pow(v, w) * Expr::ln(v)
+                w * Expr::pow(v, w - Expr::one()) * dv + dw * Expr::pow(v, w) * Expr::ln(v)
             }
             A::Var(_) => {
                 if self.free_of(x) {
@@ -848,6 +851,7 @@ impl Expr {
                     todo!()
                 }
             }
+            A::Func(f) if f.iter_args().all(|a| a.derivative(x).is_zero()) => Expr::zero(),
             A::Func(f) => f.derivative(x),
         }
     }
-- 
2.43.0


From 939e3eae1086957d192a29576c10e838abe85a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 21/41] fix: split a power of a product only if the exponent is
 an integer

2*(2x)^n became 2^(1+n)*x^n, which Prod::merge_args rejects with a panic.
---
 src/algos.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 925cfa1..902e544 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -277,7 +277,8 @@ impl Prod {
                 self.args.push(rhs.clone())
             }
             A::Pow(pow) => {
-                if pow.base().is_prod() {
+                // (x * y)^n is x^n * y^n only for integers
+                if pow.base().is_prod() && pow.exponent().is_int() {
                     let rhs_terms = pow.base().args();
                     let expon = pow.exponent();
 
-- 
2.43.0


From 18d337b15192e27ac5a08b951cb6541bd5ea728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 22/41] fix: reduce integer powers of products to products of
 powers

Otherwise 3*(3*x)^-1 is taken apart while it is merged, and Prod::merge_args panics.
---
 src/atom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index d8e5f95..222461a 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1356,6 +1356,11 @@ impl SymbolicExpr for Pow {
                     A::Pow(self.clone()).into()
                 }
             }
+            // only for integers: (x*x)^(1/2) is not x
+            (A::Prod(prod), A::Rational(e)) if e.is_int() => prod
+                .clone()
+                .map_args(|a| *a = Expr::pow(&*a, self.exponent()).reduce())
+                .reduce(),
             // only for integers: (x^2)^(1/2) is not x
             (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 let mut pow = pow.clone();
-- 
2.43.0


From 837972f8fadf175a445f50de5ecfa8d778f79fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 23/41] fix: a sum or product with an undefined operand reduces
 to undef

---
 src/atom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 222461a..c06b478 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1288,7 +1288,7 @@ impl SymbolicExpr for Sum {
         let mut sum = Sum::reduce_rec(&self.args);
         if sum.is_zero() {
             Expr::zero()
-        } else if sum.is_undef() {
+        } else if sum.args.iter().any(|a| a.is_undef()) {
             Expr::undef()
         } else if sum.args.len() == 1 {
             sum.args.remove(0)
@@ -1310,7 +1310,7 @@ impl SymbolicExpr for Prod {
         let mut prod = Prod::reduce_rec(&self.args);
         if prod.is_one() {
             Expr::one()
-        } else if prod.is_undef() {
+        } else if prod.args.iter().any(|a| a.is_undef()) {
             Expr::undef()
         } else if prod.args.len() == 1 {
             prod.args.remove(0)
-- 
2.43.0


From a87c65cd3718edd534908a7cd9c07613df6a08f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 24/41] fix: powers of the same base are next to each other in
 the order, also if there are sums

---
 src/atom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index c06b478..af5a8d1 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -247,8 +247,9 @@ impl Ord for Atom {
                     cmp_slice(f1.args(), f2.args())
                 }
             }
-            // a product is compared before a sum, and a sum before a power
-            (A::Sum(_) | A::Pow(_), A::Prod(_)) | (A::Pow(_), A::Sum(_)) => rhs.cmp(lhs).reverse(),
+            // products are compared first, then powers (so that powers of the same base stay
+            // next to each other), then sums
+            (A::Sum(_) | A::Pow(_), A::Prod(_)) | (A::Sum(_), A::Pow(_)) => rhs.cmp(lhs).reverse(),
             (A::Prod(_) | A::Sum(_), _) => match lhs.iter_args().max() {
                 None => cmp::Ordering::Less,
                 Some(last) => last.atom().cmp(rhs).then(cmp::Ordering::Greater),
-- 
2.43.0


From 033a7624839c73e4d89a156d7d2933f504440afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 25/41] fix: rationalizing a sum with an undefined term
 terminates

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 902e544..7920a8c 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1061,7 +1061,7 @@ impl Expr {
         let c = rhs.numerator();
         let d = rhs.denominator();
         let bd = &b * &d;
-        if bd.is_one() {
+        if bd.is_one() || bd.is_undef() {
             lhs + rhs
         } else {
             Self::rationalize_add(&(&a * &d), &(&c * &b)) / bd
-- 
2.43.0


From eb0ffb117d7a0b6f84a38cc41644d08745349533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 26/41] fix: do not divide by a common factor of zero

---
 src/algos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 7920a8c..a45972a 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1172,7 +1172,10 @@ impl Expr {
             }
             (_, _) => match (lhs.exponent().atom(), rhs.exponent().atom()) {
                 (A::Rational(r1), A::Rational(r2))
-                    if r1.is_pos() && r2.is_pos() && rhs.base() == lhs.base() =>
+                    if r1.is_pos()
+                        && r2.is_pos()
+                        && rhs.base() == lhs.base()
+                        && !lhs.base().is_zero() =>
                 {
                     let e = std::cmp::min(r1, r2).clone();
                     let b = rhs.base();
-- 
2.43.0


From a35330d3138243ba239b98ed26af085b940c61f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 27/41] fix: powers of pi and e are next to pi and e in the
 order

---
 src/atom.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index af5a8d1..590f57f 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -208,22 +208,19 @@ impl Ord for Atom {
         use Atom as A;
         let (lhs, rhs) = (self, other);
 
-        let (r1, r2) = (lhs.try_as_real(), rhs.try_as_real());
-        if let (Some(l), Some(r)) = (&r1, &r2) {
-            // rationals first: reduction combines the ones that are next to each other
-            return match (l, r) {
-                (Real::Rational(_), Real::Irrational(_)) => cmp::Ordering::Less,
-                (Real::Irrational(_), Real::Rational(_)) => cmp::Ordering::Greater,
-                _ => l.cmp(r),
-            };
-        } else if r1.is_some() {
-            return cmp::Ordering::Less
-        } else if r2.is_some() {
-            return cmp::Ordering::Greater
+        // rationals come first: reduction combines the ones that are next to each other
+        match (lhs, rhs) {
+            (A::Rational(l), A::Rational(r)) => return l.cmp(r),
+            (A::Rational(_), _) => return cmp::Ordering::Less,
+            (_, A::Rational(_)) => return cmp::Ordering::Greater,
+            _ => (),
         }
 
         match (lhs, rhs) {
             (A::Undef, A::Undef) => cmp::Ordering::Equal,
+            (A::Irrational(l), A::Irrational(r)) => {
+                Real::Irrational(*l).cmp(&Real::Irrational(*r))
+            }
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
                 // the order of the operands is irrelevant, as it is for equality
@@ -270,6 +267,7 @@ impl Ord for Atom {
                 }
             }
             (A::Undef, A::Var(_) | A::Func(_)) => cmp::Ordering::Less,
+            (A::Irrational(_), A::Undef | A::Var(_) | A::Func(_)) => cmp::Ordering::Less,
             (_, _) => {
                 rhs.cmp(lhs).reverse()
             }
-- 
2.43.0


From d55ff528ffcb73f44c0aecabc0388f976cabc020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 28/41] fix: reduce combines operands that only meet after
 others were combined

Prod::merge_args panicked on (x/2)^(1/2) * (x/2)^(1/2) * (n + e), and left 6 * 1/64
behind for 4^(-5/2) * 4^(-1/2) * 6; a number was combined with a power of the same
number only if nothing stood between them.
---
 src/algos.rs | 201 ++++++++++++++++-----------------------------------
 1 file changed, 62 insertions(+), 139 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index a45972a..a3ee9cd 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -100,49 +100,10 @@ impl Sum {
         sum
     }
 
-    fn flat_merge(lhs: &Expr, mut rhs: Sum) -> Sum {
-        let lhs = lhs.flatten();
-
-        if lhs.is_zero() {
-            return rhs;
-        }
-
-        match lhs.atom() {
-            Atom::Sum(sum) => {
-                let mut sum = sum.clone();
-                rhs.args.into_iter().for_each(|a| {
-                    sum.add_rhs(&a);
-                });
-                sum
-            }
-            _ => {
-                let mut res = vec![lhs.clone()];
-                res.append(&mut rhs.args);
-                rhs.args = res;
-                rhs
-            }
-        }
-        //if let Atom::Sum(sum) = lhs.atom() {
-        //    let mut sum = sum.clone();
-        //    rhs.args.into_iter().for_each(|a| {
-        //        sum.add_rhs(&a);
-        //    });
-        //    sum
-        //} else {
-        //    let mut res = vec![lhs];
-        //    res.extend(rhs.args);
-        //    rhs.args = res;
-        //    rhs
-        //}
-    }
-
     fn merge_args(p: &[Expr], q: &[Expr]) -> Sum {
-        // println!("merge_args: {p:?} (+) {q:?}");
         if p.is_empty() {
-            //q.into_iter().cloned().collect()
             Sum { args: q.to_vec() }
         } else if q.is_empty() {
-            //p.into_iter().cloned().collect()
             Sum { args: p.to_vec() }
         } else {
             let p1 = p.first().unwrap();
@@ -150,29 +111,26 @@ impl Sum {
             let p_rest = &p[1..];
             let q_rest = &q[1..];
             let h = Sum::reduce_rec(&[p1.clone(), q1.clone()]).args;
-            // println!("merge_args: {p1} (+) {q1} -> {h:?}");
-            if h.is_empty() {
-                Sum::merge_args(p_rest, q_rest)
-            } else if h.len() == 1 {
-                Sum::flat_merge(&h[0], Sum::merge_args(p_rest, q_rest))
+            if h.len() == 2 && p1 == &h[0] && q1 == &h[1] {
+                Sum::prepend(p1, Sum::merge_args(p_rest, q))
+            } else if h.len() == 2 && q1 == &h[0] && p1 == &h[1] {
+                Sum::prepend(q1, Sum::merge_args(p, q_rest))
             } else {
-                let rhs = if p1 == &h[0] && q1 == &h[1] {
-                    let rhs = Sum::merge_args(p_rest, q);
-                    // println!("  merge_args1: {p_rest:?} (+) {q:?} -> {rhs:?}");
-                    rhs
-                } else if q1 == &h[0] && p1 == &h[1] {
-                    //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
-                    let rhs = Sum::merge_args(p, q_rest);
-                    // println!("  merge_args2: {p:?} (+) {q_rest:?} -> {rhs:?}");
-                    rhs
-                } else {
-                    panic!("Illegal reduction: {q:?} + {p:?} -> h")
-                };
+                // what was combined may have to be combined with the other operands
+                Sum::merge_args(&h, &Sum::merge_args(p_rest, q_rest).args)
+            }
+        }
+    }
 
-                // println!("flat_merge: {:?} (+) {:?}", h[0], rhs);
-                Sum::flat_merge(&h[0], rhs)
+    fn prepend(lhs: &Expr, mut rhs: Sum) -> Sum {
+        if let Some(first) = rhs.args.first() {
+            let h = Sum::reduce_rec(&[lhs.clone(), first.clone()]).args;
+            if h.len() != 2 || lhs != &h[0] || first != &h[1] {
+                return Sum::merge_args(slice::from_ref(lhs), &rhs.args);
             }
         }
+        rhs.args.insert(0, lhs.clone());
+        rhs
     }
 
     pub(crate) fn reduce_rec(args: &[Expr]) -> Sum {
@@ -200,8 +158,11 @@ impl Sum {
             {
                 //} else if lhs.term() == rhs.term() && lhs.term().is_some() {
                 let e = lhs.rational_coeff().unwrap() + rhs.rational_coeff().unwrap();
-                Sum {
-                    args: vec![(Expr::from(e) * lhs.non_rational_term().unwrap()).reduce()],
+                let term = (Expr::from(e) * lhs.non_rational_term().unwrap()).reduce();
+                match term.atom() {
+                    Atom::Sum(sum) => sum.clone(),
+                    _ if term.is_zero() => Sum::zero(),
+                    _ => Sum { args: vec![term] },
                 }
             } else {
                 Sum::add_sorted(lhs, rhs)
@@ -319,18 +280,6 @@ impl Prod {
         lhs.cmp(rhs)
     }
 
-    fn mul_sorted(lhs: &Expr, rhs: &Expr) -> Prod {
-        let mut lhs = lhs;
-        let mut rhs = rhs;
-        if Self::cmp_args(lhs, rhs).is_ge() {
-            std::mem::swap(&mut lhs, &mut rhs)
-        }
-        let mut mul = Prod::one();
-        mul.mul_rhs(&lhs);
-        mul.mul_rhs(&rhs);
-        mul
-    }
-
     fn expand_mul(lhs: &Expr, rhs: &Expr) -> Expr {
         use Atom as A;
         match (lhs.atom(), rhs.atom()) {
@@ -408,46 +357,7 @@ impl Prod {
             })
     }
 
-    fn flat_merge(lhs: &Expr, mut rhs: Prod) -> Prod {
-        let lhs = lhs.flatten();
-        if lhs.is_zero() {
-            rhs.args = vec![Expr::zero()];
-            return rhs;
-        } else if lhs.is_one() {
-            return rhs;
-        }
-        match lhs.atom() {
-            Atom::Prod(prod) => {
-                let mut prod = prod.clone();
-                rhs.args.into_iter().for_each(|a| {
-                    prod.mul_rhs(&a);
-                });
-                prod
-            }
-            _ => {
-                let mut res = vec![lhs.clone()];
-                res.append(&mut rhs.args);
-                rhs.args = res;
-                rhs
-            }
-        }
-        //if let Atom::Prod(prod) = lhs.atom() {
-        //    let mut prod = prod.clone();
-        //    rhs.args.into_iter().for_each(|a| {
-        //        prod.mul_rhs(&a);
-        //    });
-        //    //vec![Atom::Prod(prod).into()]
-        //    prod
-        //} else {
-        //    let mut res = vec![lhs];
-        //    res.extend(rhs.args);
-        //    rhs.args = res;
-        //    rhs
-        //}
-    }
-
     fn merge_args(p: &[Expr], q: &[Expr]) -> Prod {
-        //println!("merge_args: {p:?} (*) {q:?}");
         if p.is_empty() {
             Prod { args: q.to_vec() }
         } else if q.is_empty() {
@@ -458,25 +368,26 @@ impl Prod {
             let p_rest = &p[1..];
             let q_rest = &q[1..];
             let h = Prod::reduce_rec(&[p1.clone(), q1.clone()]).args;
-            //println!("merge_args: {p1} (*) {p_rest:?} (*) {q1} (*) {q_rest:?} -> {h:?}");
-            if h.is_empty() {
-                Prod::merge_args(p_rest, q_rest)
-            } else if h.len() == 1 {
-                Prod::flat_merge(&h[0], Prod::merge_args(p_rest, q_rest))
+            if h.len() == 2 && p1 == &h[0] && q1 == &h[1] {
+                Prod::prepend(p1, Prod::merge_args(p_rest, q))
+            } else if h.len() == 2 && q1 == &h[0] && p1 == &h[1] {
+                Prod::prepend(q1, Prod::merge_args(p, q_rest))
             } else {
-                let rhs = if p1 == &h[0] && q1 == &h[1] {
-                    Prod::merge_args(p_rest, q)
-                } else if q1 == &h[0] && p1 == &h[1] {
-                    //println!("h: {h:?}, p1: {p1:?}, q1: {q1:?}");
-                    //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
-                    Prod::merge_args(p, q_rest)
-                } else {
-                    panic!("Illegal reduction: {q:?} * {p:?} -> h")
-                };
+                // what was combined may have to be combined with the other operands
+                Prod::merge_args(&h, &Prod::merge_args(p_rest, q_rest).args)
+            }
+        }
+    }
 
-                Prod::flat_merge(&h[0], rhs)
+    fn prepend(lhs: &Expr, mut rhs: Prod) -> Prod {
+        if let Some(first) = rhs.args.first() {
+            let h = Prod::reduce_rec(&[lhs.clone(), first.clone()]).args;
+            if h.len() != 2 || lhs != &h[0] || first != &h[1] {
+                return Prod::merge_args(slice::from_ref(lhs), &rhs.args);
             }
         }
+        rhs.args.insert(0, lhs.clone());
+        rhs
     }
 
     pub(crate) fn reduce_rec(args: &[Expr]) -> Prod {
@@ -496,21 +407,33 @@ impl Prod {
                 Prod::merge_args(&p.args, slice::from_ref(rhs))
             } else if let Atom::Prod(p) = rhs.atom() {
                 Prod::merge_args(slice::from_ref(lhs), &p.args)
-            } else if lhs.is_const() || rhs.is_const() {
-                let res = Prod::mul_sorted(lhs, rhs);
-
-                // numbers if present always at the lhs
-                //assert!(
-                //    (res.n_args() < 2
-                //        || (res.args[0].is_number()
-                //            || res.args[1].is_number() && res.args[0].is_number())),
-                //);
-
+            } else if lhs.is_undef() || rhs.is_undef() {
+                Prod {
+                    args: vec![Expr::undef()],
+                }
+            } else if let (Atom::Rational(r1), Atom::Rational(r2)) = (lhs.atom(), rhs.atom()) {
+                let mut res = Prod::one();
+                res.mul_rhs(&Expr::from(r1.clone() * r2));
                 res
-            } else if lhs.base() == rhs.base() {
-                let e = (lhs.exponent() + rhs.exponent()).reduce();
+            } else if lhs.is_zero() || rhs.is_zero() {
                 Prod {
-                    args: vec![Expr::pow(lhs.base(), e).reduce()],
+                    args: vec![Expr::zero()],
+                }
+            } else if lhs.is_one() {
+                Prod {
+                    args: vec![rhs.clone()],
+                }
+            } else if rhs.is_one() {
+                Prod {
+                    args: vec![lhs.clone()],
+                }
+            } else if lhs.base() == rhs.base() && !lhs.is_rational() && !rhs.is_rational() {
+                let e = (lhs.exponent() + rhs.exponent()).reduce();
+                let pow = Expr::pow(lhs.base(), e).reduce();
+                match pow.atom() {
+                    Atom::Prod(prod) => prod.clone(),
+                    _ if pow.is_one() => Prod::one(),
+                    _ => Prod { args: vec![pow] },
                 }
             } else {
                 let mut lhs = lhs.clone();
-- 
2.43.0


From dd76a6db6fe1875e95651c182e6a9db8b4966fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 29/41] fix: expand powers of sums whose terms were combined
 into one

---
 src/algos.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index a3ee9cd..ed7060c 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -842,13 +842,16 @@ impl Expr {
     pub fn expand(&self) -> Self {
         use Atom as A;
         let expanded = self.clone().map_args(|a| *a = a.expand());
-        match expanded.atom() {
+        let res = match expanded.atom() {
             A::Var(_) | A::Undef | A::Rational(_) => expanded.clone(),
+            A::Sum(Sum { args }) if args.is_empty() => Expr::zero(),
             A::Sum(Sum { args }) if args.len() == 1 => args.first().unwrap().expand(),
             A::Prod(prod) => prod.distribute(),
             A::Pow(pow) => pow.expand(),
             _ => expanded.clone(),
-        }
+        };
+        // terms that were combined can leave a sum of a single term
+        res.flatten().clone()
     }
 
     pub fn expand_main_op(&self) -> Self {
-- 
2.43.0


From e5e6d1c3e37177170027f5bdc75fdcaf8423029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 30/41] fix: the remainder of a negative exponent is negative
 in Rational::pow

---
 src/rational.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index a7a28cb..e90a6c8 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -431,6 +431,8 @@ impl Rational {
             return (Rational::ONE, Rational::ZERO);
         }
 
+        let (base, exponent) = (self, rhs);
+
         // inverse if exponent is negative
         if rhs.is_neg() {
             self = self.inverse().unwrap();
@@ -447,7 +449,7 @@ impl Rational {
                     return (Self(pow), Rational::ZERO);
                 }
             } else {
-                return (self, rhs);
+                return (base, exponent);
             }
         }
 
@@ -459,7 +461,12 @@ impl Rational {
             let denom = rhs.denom();
             let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);
                                                                    //let rem_exp = Self(mal::Rational::from(rem));
-            let rem_exp = Self::new(rem, denom);
+            // the remainder belongs to the base that was passed, not to its inverse
+            let rem_exp = if exponent.is_neg() {
+                Self::new(-rem, denom)
+            } else {
+                Self::new(rem, denom)
+            };
             if let Ok(apply_exp) = usize::try_from(quot) {
                 if let Some(pow) = num::checked_pow(self.0, apply_exp) {
                     return (Self(pow), rem_exp);
@@ -474,7 +481,7 @@ impl Rational {
         }
 
         // no change
-        (self, rhs)
+        (base, exponent)
     }
 
     pub fn pow_basic(self, rhs: Self) -> Option<Self> {
-- 
2.43.0


From a550a45889d038a032473b146fa5ae8adfa1bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 31/41] fix: comparing nested expressions does not take
 exponential time

Every level compared its operands twice.
---
 src/atom.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 590f57f..7c78203 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -184,8 +184,10 @@ fn cmp_slice_rev(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().rev().zip(rhs.iter().rev());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        // comparing twice on every level takes exponential time
+        let ord = l.cmp(r);
+        if !ord.is_eq() {
+            return ord;
         }
     }
 
@@ -195,8 +197,9 @@ fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        let ord = l.cmp(r);
+        if !ord.is_eq() {
+            return ord;
         }
     }
 
@@ -229,13 +232,10 @@ impl Ord for Atom {
                 rargs.sort();
                 cmp_slice_rev(&largs, &rargs)
             }
-            (A::Pow(p1), A::Pow(p2)) => {
-                if p1.base() != p2.base() {
-                    p1.base().cmp(p2.base())
-                } else {
-                    p1.exponent().cmp(p2.exponent())
-                }
-            }
+            (A::Pow(p1), A::Pow(p2)) => p1
+                .base()
+                .cmp(p2.base())
+                .then_with(|| p1.exponent().cmp(p2.exponent())),
             (A::Func(f1), A::Func(f2)) => {
                 let (n1, n2) = (f1.name(), f2.name());
                 if n1 != n2 {
@@ -247,17 +247,19 @@ impl Ord for Atom {
             // products are compared first, then powers (so that powers of the same base stay
             // next to each other), then sums
             (A::Sum(_) | A::Pow(_), A::Prod(_)) | (A::Sum(_), A::Pow(_)) => rhs.cmp(lhs).reverse(),
-            (A::Prod(_) | A::Sum(_), _) => match lhs.iter_args().max() {
-                None => cmp::Ordering::Less,
-                Some(last) => last.atom().cmp(rhs).then(cmp::Ordering::Greater),
-            },
-            (A::Pow(p), _) => {
-                if p.base().atom() != rhs {
-                    p.base().atom().cmp(rhs)
-                } else {
-                    p.exponent().atom().cmp(&A::ONE).then(cmp::Ordering::Greater)
+            (A::Prod(_) | A::Sum(_), _) => {
+                // the largest operand decides
+                match lhs.iter_args().map(|a| a.atom().cmp(rhs)).max() {
+                    None => cmp::Ordering::Less,
+                    Some(ord) => ord.then(cmp::Ordering::Greater),
                 }
             }
+            (A::Pow(p), _) => p
+                .base()
+                .atom()
+                .cmp(rhs)
+                .then_with(|| p.exponent().atom().cmp(&A::ONE))
+                .then(cmp::Ordering::Greater),
             (A::Func(f), A::Var(v)) => {
                 let n = f.name();
                 if n == *v.0 {
-- 
2.43.0


From 7bbc87bb12d94e669936b333995ded7ecf51e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 32/41] fix: expand splits a power of a product only if the
 exponent is an integer

(x * x)^(1/2) became x^(1/2) * x^(1/2), which simplify then reduced to x; that is
wrong for negative x.
---
 src/algos.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index ed7060c..ff8730f 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -493,7 +493,8 @@ impl Pow {
                     &expand_pow(self.base(), &Expr::from(rem)),
                 );
             }
-            (A::Prod(_), _) => {
+            // (x * y)^n is x^n * y^n only for integers
+            (A::Prod(_), A::Rational(r)) if r.is_int() => {
                 return self
                     .base()
                     .clone()
@@ -1602,6 +1603,11 @@ fn expand_ln_arg(e: &Expr) -> Expr {
             let prod = prod.as_binary_mul();
             expand_ln_arg(&prod.0) + expand_ln_arg(&prod.1)
         }
+        // ln((x * y)^a) = a * ln(x) + a * ln(y)
+        Atom::Pow(pow) if pow.base().is_prod() => {
+            let args = pow.base().iter_args();
+            expand_ln_arg(&Prod { args: args.map(|a| Expr::pow(a, pow.exponent())).collect() }.into())
+        }
         Atom::Pow(pow) => pow.exponent() * expand_ln_arg(pow.base()),
         _ => Expr::ln(e),
     }
-- 
2.43.0


From 4aabbfe5d2eccbbbd6313779d0f726af5bc22537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:20 +0000
Subject: [PATCH 33/41] fix: reduce brings the exponents of powers into normal
 form

((x^n)^-1)^-1 was reduced to x^(n*1), and the reduced form of products of fractional
powers of a number depended on the order of the factors.
---
 src/atom.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 7c78203..e2d25b6 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1349,12 +1349,23 @@ impl SymbolicExpr for Pow {
 
         match (self.base().atom(), self.exponent().atom()) {
             (A::Rational(b), A::Rational(e)) => {
-                let (res, rem) = b.clone().pow(e.clone());
-                if rem.is_zero() {
+                // b^e = b^n * b^frac with 0 <= frac < 1: otherwise b^(1/2) * b^(1/2) * b^(1/3)
+                // depends on the order of the factors
+                let n = Rational::from(e.floor());
+                let frac = e.clone() - n;
+                if n.is_zero() {
+                    return A::Pow(self.clone()).into();
+                }
+                let (res, rem) = b.clone().pow(n);
+                if !rem.is_zero() {
+                    // too big for the integers
+                    A::Pow(self.clone()).into()
+                } else if frac.is_zero() {
                     Expr::from(res)
                 } else {
-                    //Expr::from(res) * Expr::from(b.clone()).pow(Expr::from(rem))
-                    A::Pow(self.clone()).into()
+                    Expr::mul_raw(Expr::from(res), Expr::pow_raw(self.base(), Expr::from(frac)))
+                        .flatten()
+                        .clone()
                 }
             }
             // only for integers: (x*x)^(1/2) is not x
@@ -1365,7 +1376,7 @@ impl SymbolicExpr for Pow {
             // only for integers: (x^2)^(1/2) is not x
             (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 let mut pow = pow.clone();
-                pow.args[1] *= self.exponent();
+                pow.args[1] = (pow.exponent() * self.exponent()).reduce();
                 pow.reduce()
             }
             _ => A::Pow(self.clone()).into(),
-- 
2.43.0


From bbea5fa7d2c5596015d3dc1fa444f7ae12080123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:50 +0000
Subject: [PATCH 34/41] fix: factorizing common terms of an empty sum or
 product terminates

The operands were swapped forever when neither side could be split.
---
 src/algos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index ff8730f..0919f5c 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1050,7 +1050,7 @@ impl Expr {
                 let (y, (b, u)) = Self::factorize_common_terms(&by, &uy);
                 (x * y, (a * b, u))
             }
-            (_, A::Prod(_)) => {
+            (_, A::Prod(prod)) if !prod.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
@@ -1093,7 +1093,7 @@ impl Expr {
                 //println!("");
                 (xy, (a * b + &c * d, ua * c))
             }
-            (_, A::Sum(_)) => {
+            (_, A::Sum(sum)) if !sum.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
-- 
2.43.0


From 9b7cb54cdaf379f341520c32b6d7a20fe65a6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 35/41] fix: print a product of two numbers with a
 multiplication sign
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

2·3^x was printed as "23^x" and 3·3 as "33", which read as other
expressions.
---
 src/sym_fmt.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sym_fmt.rs b/src/sym_fmt.rs
index d2bfcb3..c3e7a17 100644
--- a/src/sym_fmt.rs
+++ b/src/sym_fmt.rs
@@ -198,7 +198,11 @@ pub trait SymbolicFormatter {
         while let Some(curr) = args.next() {
             let next = args.peek();
             match (prev, &curr, next) {
-                (Some(a), b, _) if implicit_postfix_mul(a) && implicit_prefix_mul(b) => {
+                (Some(a), b, _)
+                    if implicit_postfix_mul(a)
+                        && implicit_prefix_mul(b)
+                        && !(a.is_rational() && starts_with_digit(b)) =>
+                {
                     Self::fmt_w_prec(prod_prec(), b, f)?;
                 }
                 (Some(F::Sum(_)), F::Sum(_), _) => {
@@ -453,6 +457,16 @@ pub fn implicit_prefix_mul(e: &FmtAtom) -> bool {
     }
 }
 
+/// a number directly in front of such an expression would run into its first digit
+fn starts_with_digit(e: &FmtAtom) -> bool {
+    use FmtAtom as F;
+    match e {
+        F::Rational(_) => true,
+        F::Pow(b, _) => b.is_rational() && b.prec() > pow_prec(),
+        _ => false,
+    }
+}
+
 pub fn implicit_postfix_mul(e: &FmtAtom) -> bool {
     use FmtAtom as F;
     match e {
-- 
2.43.0


From 3684e7250fbea6a22ba5a7d6be1e389003040576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 36/41] fix: print fractional powers of functions with
 parentheses

sin(x)^(2/3) was printed as "sin^2/3(x)", which does not read back as
that power.
---
 src/sym_fmt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sym_fmt.rs b/src/sym_fmt.rs
index c3e7a17..05f4c07 100644
--- a/src/sym_fmt.rs
+++ b/src/sym_fmt.rs
@@ -239,7 +239,7 @@ pub trait SymbolicFormatter {
     fn pow(b: &FmtAtom, e: &FmtAtom, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         use FmtAtom as F;
         match (b, e) {
-            (F::Func(func, args), e) if e.is_number() => {
+            (F::Func(func, args), e) if e.is_atomic_number() => {
                 Self::var(&func.name(), f)?;
                 Self::symbl_pow(f)?;
                 Self::atom(e, f)?;
@@ -429,10 +429,14 @@ impl FmtAtom {
     pub fn is_number(&self) -> bool {
         self.is_rational() || self.is_irrational()
     }
+    /// number that needs no parentheses as an exponent
+    fn is_atomic_number(&self) -> bool {
+        self.is_number() && self.prec() > pow_prec()
+    }
     pub fn is_func_pow_number(&self) -> bool {
         match self {
             FmtAtom::Func(..) => true,
-            FmtAtom::Pow(b, e) if b.is_func() && e.is_number() => true,
+            FmtAtom::Pow(b, e) if b.is_func() && e.is_atomic_number() => true,
             _ => false,
         }
     }
-- 
2.43.0


From 5748b76be496c184e5985a3f0f84e0b35385c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 37/41] fix: print fractional bases of logarithms with
 parentheses

The logarithm of x to the base 3/2 was printed as "log3/2(x)", which
reads as a quotient.
---
 src/atom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index e2d25b6..cfa2acd 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -451,6 +451,9 @@ impl Func {
             //Func::Exp(_) => "exp",
             Func::Log(Real::Irrational(Irrational::E), _) => "ln".into(),
             Func::Log(Real::Rational(r), _) if r == &Rational::from(10) => "log".into(),
+            Func::Log(Real::Rational(r), _) if !r.is_int() || r.is_neg() => {
+                return format!("log_({r})")
+            }
             Func::Log(base, _) => return format!("log{base}"),
         }
         .into()
-- 
2.43.0


From 409e20cc92ff6a682a970be025411d2e37578b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 38/41] fix: compare rationals with e and pi exactly

---
 Cargo.lock  | 57 ++++++++++++++++++++++++++++++++++++++++++-----------
 src/atom.rs | 17 ++++++++++++++--
 2 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 2c2dfa1..67e02ae 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "ahash"
@@ -112,7 +112,6 @@ checksum = "1fd0f2584146f6f2ef48085050886acf353beff7305ebd1ae69500e27c67f64b"
 name = "calcu-rs"
 version = "0.1.0"
 dependencies = [
- "bitflags",
  "calcurs_macros",
  "criterion",
  "derive_more",
@@ -123,9 +122,11 @@ dependencies = [
  "num",
  "num-bigint",
  "num-integer",
+ "num-rational",
  "ordered-float",
  "paste",
  "quanta",
+ "ref-cast",
  "serde",
  "serde_json",
 ]
@@ -134,13 +135,14 @@ dependencies = [
 name = "calcurs_macros"
 version = "0.1.0"
 dependencies = [
+ "derive_more",
  "logos",
  "ordered-float",
  "proc-macro2",
  "quote",
  "serde",
  "serde_json",
- "syn",
+ "syn 2.0.85",
 ]
 
 [[package]]
@@ -307,7 +309,7 @@ dependencies = [
  "convert_case",
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
  "unicode-xid",
 ]
 
@@ -481,7 +483,7 @@ dependencies = [
  "proc-macro2",
  "quote",
  "regex-syntax",
- "syn",
+ "syn 2.0.85",
 ]
 
 [[package]]
@@ -679,9 +681,9 @@ dependencies = [
 
 [[package]]
 name = "proc-macro2"
-version = "1.0.86"
+version = "1.0.107"
 source = "registry+https://github.com/rust-lang/crates.io-index"
-checksum = "5e719e8df665df0d1c8fbfd238015744736151d4445ec0836b8e628aae103b77"
+checksum = "985e7ec9bb745e6ce6535b544d84d6cd6f7ad8bd711c398938ae983b91a766d9"
 dependencies = [
  "unicode-ident",
 ]
@@ -758,6 +760,26 @@ dependencies = [
  "crossbeam-utils",
 ]
 
+[[package]]
+name = "ref-cast"
+version = "1.0.27"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "7e440fb4e4b4147295338efb76001ab9e4efc0e5839df2c47fc5ac2381d365c3"
+dependencies = [
+ "ref-cast-impl",
+]
+
+[[package]]
+name = "ref-cast-impl"
+version = "1.0.27"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "92ecd8964f8453721699a1ed72037b0db49ce2f5a5138486ee89bed6f67cdf3a"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "syn 3.0.9",
+]
+
 [[package]]
 name = "regex"
 version = "1.10.6"
@@ -819,7 +841,7 @@ checksum = "de523f781f095e28fa605cdce0f8307e451cc0fd14e2eb4cd2e98a355b147766"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
 ]
 
 [[package]]
@@ -845,6 +867,17 @@ dependencies = [
  "unicode-ident",
 ]
 
+[[package]]
+name = "syn"
+version = "3.0.9"
+source = "registry+https://github.com/rust-lang/crates.io-index"
+checksum = "d78c8dee4c7bf0e14673097256fed6142ce9d3b85a408189d07482442145823b"
+dependencies = [
+ "proc-macro2",
+ "quote",
+ "unicode-ident",
+]
+
 [[package]]
 name = "tinytemplate"
 version = "1.2.1"
@@ -923,7 +956,7 @@ dependencies = [
  "once_cell",
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
  "wasm-bindgen-shared",
 ]
 
@@ -945,7 +978,7 @@ checksum = "afc340c74d9005395cf9dd098506f7f44e38f2b4a21c6aaacf9a105ea5e1e836"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
  "wasm-bindgen-backend",
  "wasm-bindgen-shared",
 ]
@@ -988,7 +1021,7 @@ version = "0.1.9"
 source = "registry+https://github.com/rust-lang/crates.io-index"
 checksum = "cf221c93e13a30d793f7645a0e7762c55d169dbb0a49671918a2319d289b10bb"
 dependencies = [
- "windows-sys 0.52.0",
+ "windows-sys 0.59.0",
 ]
 
 [[package]]
@@ -1096,5 +1129,5 @@ checksum = "fa4f8080344d4671fb4e831a13ad1e68092748387dfc4f55e356242fae12ce3e"
 dependencies = [
  "proc-macro2",
  "quote",
- "syn",
+ "syn 2.0.85",
 ]
diff --git a/src/atom.rs b/src/atom.rs
index cfa2acd..70573c8 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -293,10 +293,14 @@ impl PartialOrd for Real {
 }
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        use ordered_float::OrderedFloat;
         match (self, other) {
             (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
-            _ => OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx())),
+            (Real::Irrational(l), Real::Irrational(r)) => l.cmp(r),
+            // floats are too coarse to tell a number from its neighbours
+            (Real::Rational(l), Real::Irrational(r)) => {
+                l.cmp(&r.rational_approx()).then(cmp::Ordering::Less)
+            }
+            (Real::Irrational(_), Real::Rational(_)) => other.cmp(self).reverse(),
         }
     }
 }
@@ -355,6 +359,15 @@ impl Irrational {
             Irrational::PI => std::f64::consts::PI,
         }
     }
+
+    /// the number to 37 digits, rounded down
+    fn rational_approx(&self) -> Rational {
+        let digits: i128 = match self {
+            Irrational::E => 27182818284590452353602874713526624977,
+            Irrational::PI => 31415926535897932384626433832795028841,
+        };
+        Rational::from((digits, 10_i128.pow(37)))
+    }
 }
 
 #[derive(
-- 
2.43.0


From cf0e57ac5e97ec2eceddec3e680e6c2c43961f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 39/41] fix: order of sums and products agrees with their
 equality

---
 src/atom.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 70573c8..80fd359 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -193,6 +193,13 @@ fn cmp_slice_rev(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
 
     lhs.len().cmp(&rhs.len())
 }
+/// the order of the operands is irrelevant, as it is for equality
+fn cmp_unordered(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
+    let (mut largs, mut rargs) = (lhs.to_vec(), rhs.to_vec());
+    largs.sort();
+    rargs.sort();
+    cmp_slice_rev(&largs, &rargs)
+}
 fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
 
@@ -226,11 +233,7 @@ impl Ord for Atom {
             }
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
-                // the order of the operands is irrelevant, as it is for equality
-                let (mut largs, mut rargs) = (lhs.args().to_vec(), rhs.args().to_vec());
-                largs.sort();
-                rargs.sort();
-                cmp_slice_rev(&largs, &rargs)
+                cmp_unordered(lhs.args(), rhs.args())
             }
             (A::Pow(p1), A::Pow(p2)) => p1
                 .base()
@@ -509,7 +512,7 @@ impl Func {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
+#[derive(Clone, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -543,6 +546,16 @@ impl hash::Hash for Sum {
     }
 }
 
+impl PartialOrd for Sum {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for Sum {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        cmp_unordered(&self.args, &other.args)
+    }
+}
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
@@ -597,7 +610,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
+#[derive(Clone, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -631,6 +644,16 @@ impl hash::Hash for Prod {
     }
 }
 
+impl PartialOrd for Prod {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for Prod {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        cmp_unordered(&self.args, &other.args)
+    }
+}
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-- 
2.43.0


From 30afe387130e89a36bdd1b3b0b65c98c42576ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 40/41] fix: contract_trig left products of sines and cosines
 when a contracted factor was a product itself

---
 src/algos.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 0919f5c..7d9bf0a 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -937,7 +937,8 @@ impl Expr {
 
         let e = self.clone().map_args(|a| *a = a.contract_trig());
         if e.is_prod() || e.is_pow() {
-            contract_trig_arg(&e).reduce()
+            // contracted factors can be products themselves
+            contract_trig_arg(&e.reduce()).reduce()
         } else {
             e
         }
-- 
2.43.0


From 76c58336309366631f1bff7f106cd3db60af06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 41/41] fix: contract_trig did not end, or overflowed, for
 powers too big for the integers

---
 src/algos.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 7d9bf0a..bb1ffa7 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1451,8 +1451,8 @@ fn contract_trig_pow(p: &Expr) -> Expr {
         match f {
             Func::Sin(x) => {
                 if n % 2 == 0 {
-                    let a = Rational::from(binomial_coeff(n, half_n))
-                        / Rational::from(2i128.checked_pow(n.try_into().ok()?)?);
+                    let pow = Rational::from(2i128.checked_pow(n.try_into().ok()?)?);
+                    let a = Rational::from(binomial_coeff(n, half_n)) / pow;
                     let mut b = match half_n.is_even() {
                         true => Rational::ONE,
                         false => Rational::MINUS_ONE,
@@ -1486,8 +1486,8 @@ fn contract_trig_pow(p: &Expr) -> Expr {
             }
             Func::Cos(x) => {
                 if n.is_even() {
-                    let mut a = Rational::from(binomial_coeff(n, half_n));
-                    a /= Rational::from(2i128.checked_pow(n.try_into().ok()?)?);
+                    let pow = Rational::from(2i128.checked_pow(n.try_into().ok()?)?);
+                    let a = Rational::from(binomial_coeff(n, half_n)) / pow;
 
                     let b = Rational::ONE
                         / Rational::from(2i128.checked_pow(n_min_one.try_into().ok()?)?);
@@ -1526,12 +1526,13 @@ fn contract_trig_prod(p: &[Expr]) -> Expr {
         let a = &p[0];
         let b = &p[1];
 
-        if let Atom::Pow(_) = a.atom() {
-            let a = contract_trig_pow(a);
-            return contract_trig_arg(&(a * b));
-        } else if let Atom::Pow(_) = b.atom() {
-            let b = contract_trig_pow(b);
-            return contract_trig_arg(&(a * b));
+        if a.is_pow() || b.is_pow() {
+            let (c, d) = (contract_trig_pow(a), contract_trig_pow(b));
+            if &c == a && &d == b {
+                // too big for the integers
+                return a * b;
+            }
+            return contract_trig_arg(&(c * d));
         } else {
             assert!(a.is_sin() || a.is_cos());
             assert!(b.is_sin() || b.is_cos());
@@ -1558,6 +1559,9 @@ fn contract_trig_prod(p: &[Expr]) -> Expr {
     } else {
         let a = &p[0];
         let b = contract_trig_prod(&p[1..]);
+        if b == p[1..].iter().fold(Expr::one(), |lhs, rhs| lhs * rhs) {
+            return a * b;
+        }
         return contract_trig_arg(&(a * b));
     }
 }
-- 
2.43.0

