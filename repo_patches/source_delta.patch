From ba62980b339de8d9c038c2a53b0374bdadbc30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 01/36] fix: Rational::div_rem divided the denominator by the
 numerator

---
 src/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index afb1547..8518ff8 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -402,7 +402,7 @@ impl Rational {
         let denom = self.denom();
         let num = self.numer();
         //let (num, den) = self.0.to_numerator_and_denominator();
-        let (quot, rem) = num::integer::div_rem(denom, num);
+        let (quot, rem) = num::integer::div_rem(num, denom);
         //let (quot, rem) = marith::DivRem::div_rem(num, den);
         (Self::new_int(quot), Self::new(rem, denom))
 
-- 
2.43.0


From fd723ef6d574085b3a2df3661b6be75f47bda453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 02/36] fix: contract_trig added 1 to every contracted sum

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index fe78334..76a4353 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1477,7 +1477,7 @@ fn contract_trig_arg(e: &Expr) -> Expr {
             }
         }
 
-        Atom::Sum(s) => s.iter_args().fold(Expr::one(), |lhs, rhs| {
+        Atom::Sum(s) => s.iter_args().fold(Expr::zero(), |lhs, rhs| {
             if rhs.is_prod() || rhs.is_pow() {
                 lhs + contract_trig_arg(rhs)
             } else {
-- 
2.43.0


From 7b620b97a5210943009c484d55275621179d86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 03/36] fix: contract_trig_pow only handles positive integer
 powers of sin and cos

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 76a4353..13273ff 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1498,7 +1498,7 @@ fn contract_trig_pow(p: &Expr) -> Expr {
     let f = p.base();
     let n = p.exponent();
 
-    if !(n.is_int() && n.is_pos()) && !(f.is_sin() || f.is_cos()) {
+    if !(n.is_int() && n.is_pos()) || !(f.is_sin() || f.is_cos()) {
         return p.clone();
     }
 
-- 
2.43.0


From 173353b723afcc46c3c3a1d043be1612fd82e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 04/36] fix: Rational::pow returns its input when it cannot
 compute the power, and the fractional remainder

---
 src/rational.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index 8518ff8..d159ce5 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -431,9 +431,14 @@ impl Rational {
             return (Rational::ONE, Rational::ZERO);
         }
 
+        let input = (self, rhs);
+
         // inverse if exponent is negative
         if rhs.is_neg() {
-            self = self.inverse().unwrap();
+            self = match self.inverse() {
+                Some(inv) => inv,
+                None => return input,
+            };
             rhs = rhs.abs();
         }
 
@@ -446,9 +451,8 @@ impl Rational {
                 if let Some(pow) = num::checked_pow(self.0, exp) {
                     return (Self(pow), Rational::ZERO);
                 }
-            } else {
-                return (self, rhs);
             }
+            return input;
         }
 
         // ensure that the exponent is < 1
@@ -459,7 +463,10 @@ impl Rational {
             let denom = rhs.denom();
             let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);
                                                                    //let rem_exp = Self(mal::Rational::from(rem));
-            let rem_exp = Self::new_int(rem);
+            let rem_exp = match input.1.is_neg() {
+                true => Self::new(-rem, denom),
+                false => Self::new(rem, denom),
+            };
             if let Ok(apply_exp) = usize::try_from(quot) {
                 if let Some(pow) = num::checked_pow(self.0, apply_exp) {
                     return (Self(pow), rem_exp);
@@ -474,7 +481,7 @@ impl Rational {
         }
 
         // no change
-        (self, rhs)
+        input
     }
 
     pub fn pow_basic(self, rhs: Self) -> Option<Self> {
-- 
2.43.0


From 11abb6498af5a69a99380da4e4bad8bf76900d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 05/36] fix: Expr::pow keeps an unrepresentable integer power
 instead of panicking

---
 src/algos.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 13273ff..e9d36e4 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -780,8 +780,12 @@ impl Expr {
         match (base.atom(), exponent.atom()) {
             (A::Rational(b), A::Rational(e)) if b.is_int() && e.is_int() => {
                 let (pow, rem) = b.clone().pow(e.clone());
-                assert!(rem.is_zero());
-                Expr::from(pow)
+                if rem.is_zero() {
+                    Expr::from(pow)
+                } else {
+                    // not representable
+                    Expr::pow_raw(base, exponent)
+                }
             }
             (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 Expr::pow(pow.base(), exponent * pow.exponent())
-- 
2.43.0


From 6dc1e9a57bee2e35d7809c1b78f96d25ac620602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 06/36] fix: reducing a product no longer panics when two
 factors do not merge into one

---
 src/algos.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index e9d36e4..595844d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -467,17 +467,20 @@ impl Prod {
             } else if h.len() == 1 {
                 Prod::flat_merge(&h[0], Prod::merge_args(p_rest, q_rest))
             } else {
-                let rhs = if p1 == &h[0] && q1 == &h[1] {
-                    Prod::merge_args(p_rest, q)
+                // p1 and q1 do not merge into one factor: keep them, the smaller one first
+                let swapped = if p1 == &h[0] && q1 == &h[1] {
+                    false
                 } else if q1 == &h[0] && p1 == &h[1] {
-                    //println!("h: {h:?}, p1: {p1:?}, q1: {q1:?}");
-                    //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
-                    Prod::merge_args(p, q_rest)
+                    true
                 } else {
-                    panic!("Illegal reduction: {q:?} * {p:?} -> h")
+                    q1 < p1
                 };
 
-                Prod::flat_merge(&h[0], rhs)
+                if swapped {
+                    Prod::flat_merge(q1, Prod::merge_args(p, q_rest))
+                } else {
+                    Prod::flat_merge(p1, Prod::merge_args(p_rest, q))
+                }
             }
         }
     }
-- 
2.43.0


From 097aeadc80f5c847bd1e46ed08ee46d912a2cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 07/36] fix: the order of expressions is antisymmetric and
 transitive, and handles undef

---
 src/atom.rs | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 476d436..f6bf768 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -218,17 +218,17 @@ impl Ord for Atom {
         }
 
         match (lhs, rhs) {
+            (A::Undef, A::Undef) => cmp::Ordering::Equal,
+            (A::Undef, _) => cmp::Ordering::Less,
+            (_, A::Undef) => cmp::Ordering::Greater,
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
                 cmp_slice_rev(lhs.args(), rhs.args())
             }
-            (A::Pow(p1), A::Pow(p2)) => {
-                if p1.base() != p2.base() {
-                    p1.base().cmp(p2.base())
-                } else {
-                    p1.exponent().cmp(p2.exponent())
-                }
-            }
+            (A::Pow(p1), A::Pow(p2)) => p1
+                .base()
+                .cmp(p2.base())
+                .then_with(|| p1.exponent().cmp(p2.exponent())),
             (A::Func(f1), A::Func(f2)) => {
                 let (n1, n2) = (f1.name(), f2.name());
                 if n1 != n2 {
@@ -237,22 +237,18 @@ impl Ord for Atom {
                     cmp_slice(f1.args(), f2.args())
                 }
             }
-            (A::Prod(_) | A::Sum(_), _) => {
-                if lhs.n_args() == 0 {
-                    cmp::Ordering::Less
-                } else if lhs.args().last().unwrap().atom() != rhs {
-                    lhs.args().last().unwrap().atom().cmp(rhs)
-                } else {
-                    cmp::Ordering::Greater
-                }
-            }
-            (A::Pow(p), _) => {
-                if p.base().atom() != rhs {
-                    p.base().atom().cmp(rhs)
-                } else {
-                    p.exponent().atom().cmp(&A::ONE)
-                }
-            }
+            // only the side with the higher rank (prod > pow > sum > func > var) is taken
+            // apart, otherwise a < b and b < a could both hold
+            (A::Prod(_), _) | (A::Sum(_), A::Func(_) | A::Var(_)) => match lhs.args().last() {
+                Some(last) => last.atom().cmp(rhs).then(cmp::Ordering::Greater),
+                None => cmp::Ordering::Less,
+            },
+            (A::Pow(p), A::Sum(_) | A::Func(_) | A::Var(_)) => p
+                .base()
+                .atom()
+                .cmp(rhs)
+                .then_with(|| p.exponent().atom().cmp(&A::ONE))
+                .then(cmp::Ordering::Greater),
             (A::Func(f), A::Var(v)) => {
                 let n = f.name();
                 if n == *v.0 {
@@ -285,7 +281,10 @@ impl PartialOrd for Real {
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
         use ordered_float::OrderedFloat;
-        OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx()))
+        match (self, other) {
+            (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
+            _ => OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx())),
+        }
     }
 }
 
-- 
2.43.0


From eb0b1bba0798b89477710249c06171be32c65b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 08/36] fix: equality and hash of sums and products both ignore
 the order of the arguments

---
 src/atom.rs | 60 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index f6bf768..2519de8 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -480,7 +480,35 @@ impl Func {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+/// the same arguments, regardless of their order
+fn eq_unordered(lhs: &[Expr], rhs: &[Expr]) -> bool {
+    if lhs.len() != rhs.len() {
+        return false;
+    }
+
+    let mut rest: Vec<_> = rhs.iter().collect();
+    lhs.iter().all(|l| match rest.iter().position(|r| *r == l) {
+        Some(i) => {
+            rest.remove(i);
+            true
+        }
+        None => false,
+    })
+}
+
+/// equal for arguments that are equal regardless of their order
+fn hash_unordered<H: hash::Hasher>(args: &[Expr], state: &mut H) {
+    use hash::Hash;
+    let sum = args.iter().fold(0u64, |sum, a| {
+        let mut hasher = std::collections::hash_map::DefaultHasher::new();
+        a.hash(&mut hasher);
+        sum.wrapping_add(hash::Hasher::finish(&hasher))
+    });
+    args.len().hash(state);
+    sum.hash(state);
+}
+
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -508,15 +536,13 @@ impl fmt::Debug for Sum {
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
-        if self.n_args() != other.n_args() {
-            return false;
-        }
+        eq_unordered(&self.args, &other.args)
+    }
+}
 
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+impl hash::Hash for Sum {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_unordered(&self.args, state)
     }
 }
 
@@ -559,7 +585,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -587,15 +613,13 @@ impl fmt::Debug for Prod {
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-        if self.n_args() != other.n_args() {
-            return false;
-        }
+        eq_unordered(&self.args, &other.args)
+    }
+}
 
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+impl hash::Hash for Prod {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_unordered(&self.args, state)
     }
 }
 
-- 
2.43.0


From eb23e8c3316f40bb9ea1a3e130edba86cb8b1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 09/36] fix: 0 / 0 is undefined, not 1

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 595844d..b7fb468 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -708,7 +708,7 @@ impl Expr {
 
         if lhs.is_undef() || rhs.is_undef() {
             Expr::undef()
-        } else if lhs == rhs {
+        } else if lhs == rhs && !lhs.is_zero() {
             Expr::one()
         } else {
             let min_one = Expr::from(-1);
-- 
2.43.0


From bb47ff18ef74e6f65e94e8bca851fd3f7101282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 10/36] fix: a sum that is itself a variable of the polynomial
 has degree 1

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9ca0afa..be21e97 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -336,7 +336,7 @@ impl<'a> PolynomialView<'a> {
         if let A::Sum(Sum { args }) = self.poly.atom() {
             if self.vars.has(self.poly) {
                 let v = self.poly;
-                coeffs.insert([(v.clone(), 0)].into(), Expr::one());
+                coeffs.insert([(v.clone(), 1)].into(), Expr::one());
                 return coeffs;
             }
 
-- 
2.43.0


From 24b0985e9758a206fedc528b242d8062b420152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 11/36] fix: collect_terms returned None for monomials and the
 input for non-polynomials

---
 src/polynomial.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index be21e97..685ab4a 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -374,11 +374,11 @@ impl<'a> PolynomialView<'a> {
             sum
         } else {
             // self.poly != A::Sum(_)
-            if self.poly.as_monomial_view(self.vars).check() {
-                return None;
-            } else {
-                return Some(self.poly.clone());
-            }
+            return self
+                .poly
+                .as_monomial_view(self.vars)
+                .coeff()
+                .map(|_| self.poly.clone());
         };
 
         if self.vars.has(self.poly) {
-- 
2.43.0


From c41219346be96a40b2baf3dc93cb63431bd4b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 12/36] fix: functions are generalized variables and monomials
 instead of a panic

---
 src/atom.rs       | 4 +++-
 src/polynomial.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 2519de8..8d05da1 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1083,7 +1083,9 @@ impl Expr {
                 }
                 vars.insert(self.clone());
             }
-            A::Func(_) => todo!(),
+            A::Func(_) => {
+                vars.insert(self.clone());
+            }
         }
     }
 
diff --git a/src/polynomial.rs b/src/polynomial.rs
index 685ab4a..7463e51 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -197,7 +197,7 @@ impl<'a> MonomialView<'a> {
                 }
                 _ => (),
             },
-            A::Func(_) => todo!(),
+            A::Func(_) => (),
         }
         self.monom.free_of_set(self.vars.iter())
     }
-- 
2.43.0


From 85a4c4f93c1ce7d005322362863fa8f275663550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 13/36] fix: variables() looks through integer powers only

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 8d05da1..4aab680 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1076,7 +1076,7 @@ impl Expr {
             }
             A::Pow(pow) => {
                 if let A::Rational(r) = pow.exponent().atom() {
-                    if r >= &Rational::ONE {
+                    if r.is_int() && r >= &Rational::ONE {
                         vars.insert(pow.base().clone());
                         return;
                     }
-- 
2.43.0


From 4abacc487878b5a15739fbd4539e4e2f2177726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 14/36] fix: the variable part of a monomial does not depend on
 the order of the factors

---
 src/polynomial.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 7463e51..5a0f54d 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -44,11 +44,26 @@ impl From<GVar> for VarSet {
 /// represents the variable part of a term in a polynomial
 ///
 /// e.g: x^3y^2 in a*b*x^3y^2
-#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Default, Clone)]
 pub struct VarPow {
     var_deg: Vec<(GVar, Degree)>,
 }
 
+// x*y and y*x are the same variable part
+impl Eq for VarPow {}
+impl PartialEq for VarPow {
+    fn eq(&self, other: &Self) -> bool {
+        self.var_deg.len() == other.var_deg.len()
+            && self.var_deg.iter().all(|(v, d)| other.find(v) == Some(d))
+    }
+}
+impl std::hash::Hash for VarPow {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.var_deg.len().hash(state);
+        self.total_deg().hash(state);
+    }
+}
+
 impl PartialOrd for VarPow {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         Some(self.cmp(other))
-- 
2.43.0


From dafdbc811f480f422be630f0f6178237d6366f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 15/36] fix: coeffs_of drops neither the other variables nor
 the terms without v

---
 src/polynomial.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 5a0f54d..155476f 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -322,14 +322,11 @@ impl<'a> PolynomialView<'a> {
     }
 
     pub fn coeffs_of(&self, v: &GVar) -> HashMap<Degree, Coeff> {
-        let coeff = self.coeffs().into_iter().filter_map(|(d, c)| {
-            if let Some(d) = d.degree_of(v) {
-                Some((d.clone(), c))
-            } else if d.is_const() {
-                Some((0, c))
-            } else {
-                None
-            }
+        // the other variables are part of the coefficient
+        let coeff = self.coeffs().into_iter().map(|(mut d, c)| {
+            let deg = d.degree_of(v).cloned().unwrap_or(0);
+            d.var_deg.retain(|(var, _)| var != v);
+            (deg, c * d.as_expr())
         });
 
         let mut res = HashMap::default();
-- 
2.43.0


From 909190695a34b7ee3b769109e172476bd501f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 16/36] fix: try_as_div of 1/x has the numerator 1

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 4aab680..4b942d0 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -951,7 +951,7 @@ impl Expr {
 
     pub fn try_as_div(&self) -> Option<(Expr, Expr)> {
         if self.is_pow() && self.exponent().is_min_one() {
-            Some((Expr::min_one(), self.base().clone()))
+            Some((Expr::one(), self.base().clone()))
         } else if self.is_prod() {
             Some(
                 self.iter_args()
-- 
2.43.0


From 68d1e1eeb151f740fa368a26b73ca67d5219247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 17/36] fix: TrueQ tested for False

---
 src/rubi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rubi.rs b/src/rubi.rs
index b9e5cb8..1df876c 100644
--- a/src/rubi.rs
+++ b/src/rubi.rs
@@ -129,7 +129,7 @@ impl WlfrmBuiltins {
     }
 
     TrueQ(arg: WArgs) {
-        arg!(arg) == WA::FALSE
+        arg!(arg) == WA::TRUE
     }
 
     IntegerQ(arg: WArgs) {
-- 
2.43.0


From 31a0ca4f8ee10e382367213d0c85fcc608612470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 18/36] fix: a fractional power of a function is printed in
 parentheses

---
 src/sym_fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sym_fmt.rs b/src/sym_fmt.rs
index d2bfcb3..cb219f3 100644
--- a/src/sym_fmt.rs
+++ b/src/sym_fmt.rs
@@ -238,7 +238,7 @@ pub trait SymbolicFormatter {
             (F::Func(func, args), e) if e.is_number() => {
                 Self::var(&func.name(), f)?;
                 Self::symbl_pow(f)?;
-                Self::atom(e, f)?;
+                Self::fmt_w_prec(pow_prec() + 1, e, f)?;
                 return Self::func_args(args, f);
             }
             _ => (),
-- 
2.43.0


From db8ecd04356da142357dd602240661711c108799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 19/36] fix: a product of two numbers is printed with a
 multiplication sign

---
 src/sym_fmt.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sym_fmt.rs b/src/sym_fmt.rs
index cb219f3..579eab3 100644
--- a/src/sym_fmt.rs
+++ b/src/sym_fmt.rs
@@ -443,12 +443,9 @@ impl fmt::Display for FmtAtom {
 pub fn implicit_prefix_mul(e: &FmtAtom) -> bool {
     use FmtAtom as F;
     match e {
-        F::Var(_)
-        | F::Rational(_)
-        | F::Irrational(_)
-        | F::Sum(_)
-        | F::Func(_, _)
-        | F::Pow(_, _) => true,
+        // 2 * 3^x is not 23^x
+        F::Pow(b, _) => !b.is_rational(),
+        F::Var(_) | F::Irrational(_) | F::Sum(_) | F::Func(_, _) => true,
         _ => false,
     }
 }
-- 
2.43.0


From 4df817b495205a44db433c682a3f6ebf237ca28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 20/36] fix: expanding a fractional power of a sum did not
 terminate

---
 src/algos.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index b7fb468..0b53a55 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -571,10 +571,14 @@ impl Pow {
             }
             (A::Sum(sum), A::Rational(r)) if r > &Rational::ONE && sum.args.len() > 1 => {
                 let (div, rem) = r.div_rem();
-                return expand_mul(
-                    &expand_pow(self.base(), &Expr::from(div)),
-                    &expand_pow(self.base(), &Expr::from(rem)),
-                );
+                let div = expand_pow(self.base(), &Expr::from(div));
+                let rem = expand_pow(self.base(), &Expr::from(rem));
+                return if recurse {
+                    // [Expr::mul] would only put the power back together
+                    Prod::expand_mul(&div, &rem)
+                } else {
+                    Expr::mul(div, rem)
+                };
             }
             (A::Prod(_), _) => {
                 return self
-- 
2.43.0


From 43d0ffceab237ddf1409e2f42f37dd2a3197c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 21/36] fix: rationalizing a sum with an undefined term did not
 terminate

---
 src/algos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 0b53a55..e86407f 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1067,7 +1067,9 @@ impl Expr {
         let c = rhs.numerator();
         let d = rhs.denominator();
         let bd = &b * &d;
-        if bd.is_one() {
+        if bd.is_undef() {
+            Expr::undef()
+        } else if bd.is_one() {
             lhs + rhs
         } else {
             Self::rationalize_add(&(&a * &d), &(&c * &b)) / bd
-- 
2.43.0


From ac71bf01fb74d135fef8ad2b2c52711dfd031176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 22/36] fix: reducing a sum no longer panics when two terms do
 not merge into one

---
 src/algos.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index e86407f..60c1b33 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -160,21 +160,12 @@ impl Sum {
             } else if h.len() == 1 {
                 Sum::flat_merge(&h[0], Sum::merge_args(p_rest, q_rest))
             } else {
-                let rhs = if p1 == &h[0] && q1 == &h[1] {
-                    let rhs = Sum::merge_args(p_rest, q);
-                    // println!("  merge_args1: {p_rest:?} (+) {q:?} -> {rhs:?}");
-                    rhs
-                } else if q1 == &h[0] && p1 == &h[1] {
-                    //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
-                    let rhs = Sum::merge_args(p, q_rest);
-                    // println!("  merge_args2: {p:?} (+) {q_rest:?} -> {rhs:?}");
-                    rhs
+                // p1 and q1 do not merge into one term: keep them, the smaller one first
+                if q1 == &h[0] && p1 == &h[1] {
+                    Sum::flat_merge(q1, Sum::merge_args(p, q_rest))
                 } else {
-                    panic!("Illegal reduction: {q:?} + {p:?} -> h")
-                };
-
-                // println!("flat_merge: {:?} (+) {:?}", h[0], rhs);
-                Sum::flat_merge(&h[0], rhs)
+                    Sum::flat_merge(p1, Sum::merge_args(p_rest, q))
+                }
             }
         }
     }
-- 
2.43.0


From 890b1811fc4acca73e8284135aaaf2b15756feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 23/36] fix: multiplying by a number or a power of a product
 finds the factor with the same base

---
 src/algos.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 60c1b33..e5f11ce 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -269,10 +269,16 @@ impl Prod {
                         return;
                     }
                 }
-                self.args.push(rhs.clone())
+                if let Some(arg) = self.args.iter_mut().find(|a| &a.base() == rhs) {
+                    *arg = Expr::pow(rhs, arg.exponent() + Expr::one())
+                } else {
+                    self.args.push(rhs.clone())
+                }
             }
             A::Pow(pow) => {
-                if pow.base().is_prod() {
+                if let Some(arg) = self.args.iter_mut().find(|a| &a.base() == pow.base()) {
+                    *arg = Expr::pow(arg.base(), arg.exponent() + pow.exponent())
+                } else if pow.base().is_prod() {
                     let rhs_terms = pow.base().args();
                     let expon = pow.exponent();
 
@@ -293,8 +299,6 @@ impl Prod {
                         let rem = Expr::pow(&Prod { args: remainder }.into(), expon);
                         self.args.push(rem)
                     }
-                } else if let Some(arg) = self.args.iter_mut().find(|a| &a.base() == pow.base()) {
-                    *arg = Expr::pow(arg.base(), arg.exponent() + pow.exponent())
                 } else {
                     self.args.push(rhs.clone())
                 }
-- 
2.43.0


From 7b330cb3dcaf3f9c3f6d1b2f451838444363bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 24/36] fix: reduce merges like terms and equal bases that are
 not neighbours, and folds what they become

---
 src/algos.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 src/atom.rs  | 10 +++++-----
 2 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index e5f11ce..b583dee 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -213,6 +213,23 @@ impl Sum {
         };
         res
     }
+
+    /// [Sum::reduce_rec] only merges terms that end up next to each other:
+    /// repeat until there is nothing left to merge
+    pub(crate) fn reduce_all(args: &[Expr]) -> Sum {
+        let mut res = Sum::reduce_rec(args);
+        loop {
+            let mut merged = Sum::zero();
+            res.args.iter().for_each(|a| merged.add_rhs(a));
+            merged.args.retain(|a| !a.is_zero());
+            let merged = Sum::reduce_rec(&merged.args);
+
+            if merged == res {
+                return res;
+            }
+            res = merged;
+        }
+    }
 }
 impl Prod {
     pub fn mul_rhs_raw(&mut self, rhs: &Expr) {
@@ -535,6 +552,30 @@ impl Prod {
             }
         }
     }
+
+    /// [Prod::reduce_rec] only merges factors that end up next to each other:
+    /// repeat until there is nothing left to merge
+    pub(crate) fn reduce_all(args: &[Expr]) -> Prod {
+        let mut reduced = args.to_vec();
+        let mut res = Prod::reduce_rec(args);
+        loop {
+            let mut merged = Prod::one();
+            res.args.iter().for_each(|a| merged.mul_rhs(a));
+            merged.args.iter_mut().for_each(|a| {
+                if !reduced.contains(a) {
+                    *a = a.reduce()
+                }
+            });
+            merged.args.retain(|a| !a.is_one());
+            reduced = merged.args.clone();
+            let merged = Prod::reduce_rec(&merged.args);
+
+            if merged == res {
+                return res;
+            }
+            res = merged;
+        }
+    }
 }
 
 impl Pow {
diff --git a/src/atom.rs b/src/atom.rs
index 4b942d0..7b67aa4 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1279,7 +1279,7 @@ impl SymbolicExpr for Expr {
 
 impl SymbolicExpr for Sum {
     fn reduce(&self) -> Expr {
-        let mut sum = Sum::reduce_rec(&self.args);
+        let mut sum = Sum::reduce_all(&self.args);
         if sum.is_zero() {
             Expr::zero()
         } else if sum.is_undef() {
@@ -1301,7 +1301,7 @@ impl SymbolicExpr for Sum {
 
 impl SymbolicExpr for Prod {
     fn reduce(&self) -> Expr {
-        let mut prod = Prod::reduce_rec(&self.args);
+        let mut prod = Prod::reduce_all(&self.args);
         if prod.is_one() {
             Expr::one()
         } else if prod.is_undef() {
@@ -1353,7 +1353,7 @@ impl SymbolicExpr for Pow {
             //TODO: rule?
             (A::Pow(pow), _) => {
                 let mut pow = pow.clone();
-                pow.args[1] *= self.exponent();
+                pow.args[1] = (pow.exponent() * self.exponent()).reduce();
                 pow.reduce()
             }
             _ => A::Pow(self.clone()).into(),
@@ -1384,7 +1384,7 @@ impl SymbolicExpr for Func {
                     if c.is_min_one() {
                         return Expr::min_one() * Expr::sin(x.non_rational_term().unwrap());
                     } else if c.is_neg() {
-                        return Expr::min_one() * Expr::sin(Expr::min_one() * x);
+                        return Expr::min_one() * Expr::sin((Expr::min_one() * x).reduce());
                     }
                 }
 
@@ -1400,7 +1400,7 @@ impl SymbolicExpr for Func {
                     if c.is_min_one() {
                         return Expr::cos(x.non_rational_term().unwrap());
                     } else if c.is_neg() {
-                        return Expr::cos(Expr::min_one() * x);
+                        return Expr::cos((Expr::min_one() * x).reduce());
                     }
                 }
 
-- 
2.43.0


From 5fbe4988f06ee9f4c3f7aa7ee10050a6f7794d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 25/36] fix: sort_args panicked on longer sums, the order of
 terms was not transitive

---
 src/algos.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index b583dee..82190de 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -83,12 +83,34 @@ impl Sum {
         }
     }
 
+    /// compares factor by factor: variables in alphabetical order after everything else, higher
+    /// exponents first, numbers last
     fn cmp_args(lhs: &Expr, rhs: &Expr) -> cmp::Ordering {
-        match (lhs.atom(), rhs.atom()) {
-            (Atom::Prod(p1), Atom::Prod(p2)) => p1.cmp(p2),
-            (Atom::Var(a), Atom::Var(b)) => a.cmp(b),
-            _ => rhs.cmp(lhs),
+        fn factors(e: &Expr) -> Vec<&Expr> {
+            match e.atom() {
+                Atom::Prod(p) => p.args.iter().filter(|a| !a.is_number()).collect(),
+                _ if e.is_number() => vec![],
+                _ => vec![e],
+            }
+        }
+        fn cmp_bases(lhs: &Expr, rhs: &Expr) -> cmp::Ordering {
+            match (lhs.atom(), rhs.atom()) {
+                (Atom::Var(a), Atom::Var(b)) => a.cmp(b),
+                (Atom::Var(_), _) => cmp::Ordering::Greater,
+                (_, Atom::Var(_)) => cmp::Ordering::Less,
+                _ => rhs.cmp(lhs),
+            }
+        }
+
+        let (l, r) = (factors(lhs), factors(rhs));
+        for (l, r) in l.iter().zip(&r) {
+            let ord = cmp_bases(&l.base(), &r.base())
+                .then_with(|| r.exponent().cmp(&l.exponent()));
+            if ord.is_ne() {
+                return ord;
+            }
         }
+        r.len().cmp(&l.len()).then_with(|| rhs.cmp(lhs))
     }
 
     fn add_sorted(lhs: &Expr, rhs: &Expr) -> Sum {
-- 
2.43.0


From d46c4a5abe22013e9687d9a5d1dfd413c14bc21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 26/36] fix: seq_substitude did not terminate if a replacement
 contains the replaced expression

---
 src/algos.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 82190de..04d777d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1332,11 +1332,8 @@ impl Expr {
     {
         let mut res = self.clone();
         subs.into_iter().for_each(|(from, to)| {
-            res.for_each_compl_sub_expr(|sub_expr| {
-                if sub_expr == from {
-                    *sub_expr = to.clone();
-                }
-            });
+            // does not look for [from] inside of [to]
+            res = res.substitude(from, to);
         });
         res
     }
-- 
2.43.0


From 5398582b965782148b33282464b29c6a47badc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 27/36] fix: factorize_common_terms did not terminate for an
 empty product and a sum

---
 src/algos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 04d777d..91b636a 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1189,7 +1189,7 @@ impl Expr {
                 let (y, (b, u)) = Self::factorize_common_terms(&by, &uy);
                 (x * y, (a * b, u))
             }
-            (_, A::Prod(_)) => {
+            (_, A::Prod(prod)) if !prod.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
@@ -1232,7 +1232,7 @@ impl Expr {
                 //println!("");
                 (xy, (a * b + &c * d, ua * c))
             }
-            (_, A::Sum(_)) => {
+            (_, A::Sum(sum)) if !sum.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
-- 
2.43.0


From f17223a45978887c661901c6f48f5bc9bfe1398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 28/36] fix: the rests of two powers of zero without their
 common factor are not undefined

---
 src/algos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 91b636a..b3ee45e 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1238,7 +1238,10 @@ impl Expr {
             }
             (_, _) => match (lhs.exponent().atom(), rhs.exponent().atom()) {
                 (A::Rational(r1), A::Rational(r2))
-                    if r1.is_pos() && r2.is_pos() && rhs.base() == lhs.base() =>
+                    if r1.is_pos()
+                        && r2.is_pos()
+                        && rhs.base() == lhs.base()
+                        && !rhs.base().is_zero() =>
                 {
                     let e = std::cmp::min(r1, r2).clone();
                     let b = rhs.base();
-- 
2.43.0


From a53c79e431c884cc2d7a79591b8c742da50646a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 29/36] fix: expanding a power looks through a base that is a
 sum or product of one argument

---
 src/algos.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index b3ee45e..7d86f9d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -618,7 +618,8 @@ impl Pow {
             }
         };
 
-        let (base, e) = match (self.base().atom(), self.exponent().atom()) {
+        let flat = self.base().flatten();
+        let (base, e) = match (flat.atom(), self.exponent().atom()) {
             (_, A::Rational(r)) if r.is_one() => {
                 return self.base().clone();
             }
@@ -639,8 +640,7 @@ impl Pow {
                 };
             }
             (A::Prod(_), _) => {
-                return self
-                    .base()
+                return flat
                     .clone()
                     .map_args(|a| *a = expand_pow(a, self.exponent()));
                 //return args
-- 
2.43.0


From c3279e50a6f9039c92d8efb89f97ac050d764c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 30/36] fix: rationals are compared with pi and e exactly, not
 as f64

---
 src/atom.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 7b67aa4..6cf8ae3 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -280,10 +280,18 @@ impl PartialOrd for Real {
 }
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        use ordered_float::OrderedFloat;
         match (self, other) {
             (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
-            _ => OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx())),
+            (Real::Irrational(l), Real::Irrational(r)) => l.cmp(r),
+            // f64 is too coarse, e.g. 3.141592653589793 is not pi
+            (Real::Irrational(l), Real::Rational(r)) => {
+                if r <= &l.lower_bound() {
+                    cmp::Ordering::Greater
+                } else {
+                    cmp::Ordering::Less
+                }
+            }
+            (Real::Rational(_), Real::Irrational(_)) => other.cmp(self).reverse(),
         }
     }
 }
@@ -342,6 +350,21 @@ impl Irrational {
             Irrational::PI => std::f64::consts::PI,
         }
     }
+
+    /// the greatest [Rational] that is less than the number
+    fn lower_bound(&self) -> Rational {
+        let (n, d): (i128, i128) = match self {
+            Irrational::E => (
+                32899961416752178009859175564060540001,
+                12103219420556805047490636736113723601,
+            ),
+            Irrational::PI => (
+                135383245921877291206888365157940675591,
+                43093825600584903152997992180848828034,
+            ),
+        };
+        Rational::from((n, d))
+    }
 }
 
 #[derive(
-- 
2.43.0


From 5174052a0fc4a58e2731ea651d5c8b3a5b5595d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 31/36] fix: deserialized rationals are in lowest terms

---
 src/rational.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rational.rs b/src/rational.rs
index d159ce5..d227e64 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -279,6 +279,7 @@ impl From<Int> for Rational {
 )]
 #[arith_ops(ref, self.0)]
 #[debug("{}", self.0)]
+#[serde(from = "num_rational::Ratio<Int>")]
 pub struct Rational(pub(crate) num_rational::Ratio<Int>);
 //pub struct Rational(pub(crate) mal::Rational);
 
@@ -550,6 +551,12 @@ impl<'de> Deserialize<'de> for Rational {
 //    }
 //}
 
+/// a deserialized [num_rational::Ratio] is not necessarily in lowest terms
+impl From<num_rational::Ratio<Int>> for Rational {
+    fn from(value: num_rational::Ratio<Int>) -> Self {
+        Self(value.reduced())
+    }
+}
 impl From<i128> for Rational {
     fn from(value: i128) -> Self {
         Self::new_int(value.into())
-- 
2.43.0


From e04525c2f0333d068c9e7fa20be7d157d9584b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 32/36] fix: Display of a logarithm has no parentheses around
 the argument

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 6cf8ae3..bdb6a83 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -406,7 +406,7 @@ pub enum Func {
     ArcCsc(Expr),
 
     //Exp(Expr),
-    #[display("{}{_1}", self.name())]
+    #[display("{}({_1})", self.name())]
     Log(Real, Expr),
 }
 
-- 
2.43.0


From 1aa49aef9901159175044416f3bb1a425adb95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 33/36] fix: Display of a logarithm printed the base instead of
 the argument

---
 src/atom.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index bdb6a83..d01d11f 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -384,7 +384,7 @@ impl Irrational {
 )]
 #[unwrap(ref)]
 #[try_unwrap(ref)]
-#[display("{}({_0})", self.name())]
+#[display("{}({})", self.name(), self.args()[0])]
 pub enum Func {
     Sin(Expr),
     ArcSin(Expr),
@@ -406,7 +406,6 @@ pub enum Func {
     ArcCsc(Expr),
 
     //Exp(Expr),
-    #[display("{}({_1})", self.name())]
     Log(Real, Expr),
 }
 
-- 
2.43.0


From 1fd0f88cc00663c44c08e55630fcc434316a7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 34/36] Hook for runtime monitors: call the Wolfram builtins by
 name (cfg calcurs_verif)

---
 src/rubi.rs | 72 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/src/rubi.rs b/src/rubi.rs
index 1df876c..922c960 100644
--- a/src/rubi.rs
+++ b/src/rubi.rs
@@ -471,3 +471,75 @@ impl WlfrmBuiltins {
     //TimeConstrained,
     }
 }
+
+/// calls the builtins by name, for runtime monitors
+#[cfg(calcurs_verif)]
+pub mod verif {
+    use super::{Expr, WArgs, WlfrmBuiltins as B, WA};
+
+    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
+    pub enum Value {
+        None,
+        Bool(bool),
+        Expr(Expr),
+    }
+
+    impl From<Value> for WA {
+        fn from(v: Value) -> Self {
+            match v {
+                Value::None => WA::None,
+                Value::Bool(b) => WA::Bool(b),
+                Value::Expr(e) => WA::Expr(e),
+            }
+        }
+    }
+
+    impl From<WA> for Value {
+        fn from(v: WA) -> Self {
+            match v {
+                WA::None => Value::None,
+                WA::Bool(b) => Value::Bool(b),
+                WA::Expr(e) => Value::Expr(e),
+            }
+        }
+    }
+
+    pub fn call(name: &str, mut args: Vec<Value>) -> Option<Value> {
+        let args = match args.len() {
+            1 => WArgs::One(args.remove(0).into()),
+            2 => {
+                let b = args.remove(1).into();
+                WArgs::Two([args.remove(0).into(), b])
+            }
+            _ => WArgs::Var(args.into_iter().map(Into::into).collect()),
+        };
+        let f = match name {
+            "FalseQ" => B::FalseQ,
+            "TrueQ" => B::TrueQ,
+            "IntegerQ" => B::IntegerQ,
+            "FractionQ" => B::FractionQ,
+            "NumberQ" => B::NumberQ,
+            "EvenQ" => B::EvenQ,
+            "OddQ" => B::OddQ,
+            "ProductQ" => B::ProductQ,
+            "SumQ" => B::SumQ,
+            "PowQ" => B::PowQ,
+            "AtomQ" => B::AtomQ,
+            "ComplexNumberQ" => B::ComplexNumberQ,
+            "Sin" => B::Sin,
+            "ArcSin" => B::ArcSin,
+            "Cos" => B::Cos,
+            "ArcCos" => B::ArcCos,
+            "Tan" => B::Tan,
+            "ArcTan" => B::ArcTan,
+            "Sqrt" => B::Sqrt,
+            "Log" => B::Log,
+            "Exp" => B::Exp,
+            "Not" => B::Not,
+            "Derivative" => B::Derivative,
+            "Expand" => B::Expand,
+            _ => return None,
+        };
+        Some(f(args).into())
+    }
+}
-- 
2.43.0


From d2930ec96ad223e404b0c555504cf71d3970513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:48 +0000
Subject: [PATCH 35/36] fix: comparing expressions took exponential time,
 differing arguments were compared twice at every level

---
 src/atom.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index d01d11f..4c66d56 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -184,8 +184,9 @@ fn cmp_slice_rev(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().rev().zip(rhs.iter().rev());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        let ord = l.cmp(r);
+        if !ord.is_eq() {
+            return ord
         }
     }
 
@@ -195,8 +196,9 @@ fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        let ord = l.cmp(r);
+        if !ord.is_eq() {
+            return ord
         }
     }
 
-- 
2.43.0


From 8d604276bdddf23876d233a3e9950ff334f8fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 36/36] fix: reducing took exponential time for functions
 inside functions

---
 src/atom.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 4c66d56..0a895db 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1283,6 +1283,10 @@ impl SymbolicExpr for Var {}
 impl SymbolicExpr for Expr {
     fn reduce(&self) -> Self {
         use Atom as A;
+        if let A::Func(func) = self.atom() {
+            // reduces its arguments itself
+            return func.reduce();
+        }
         let res = self.clone().map_args(|a| *a = a.reduce());
         match res.atom() {
             A::Irrational(_) | A::Undef | A::Rational(_) | A::Var(_) => res,
@@ -1396,6 +1400,12 @@ impl SymbolicExpr for Func {
     fn reduce(&self) -> Expr {
         use Func as F;
 
+        // of a product with a number, the arguments are reduced already
+        let neg = |x: &Expr| match (Expr::min_one() * x).atom() {
+            Atom::Prod(prod) => prod.reduce(),
+            x => x.clone().into(),
+        };
+
         //let mut e = self.clone();
         let e = self.clone().map_args(|a| *a = a.reduce());
         match e {
@@ -1408,7 +1418,7 @@ impl SymbolicExpr for Func {
                     if c.is_min_one() {
                         return Expr::min_one() * Expr::sin(x.non_rational_term().unwrap());
                     } else if c.is_neg() {
-                        return Expr::min_one() * Expr::sin((Expr::min_one() * x).reduce());
+                        return Expr::min_one() * Expr::sin(neg(&x));
                     }
                 }
 
@@ -1424,7 +1434,7 @@ impl SymbolicExpr for Func {
                     if c.is_min_one() {
                         return Expr::cos(x.non_rational_term().unwrap());
                     } else if c.is_neg() {
-                        return Expr::cos((Expr::min_one() * x).reduce());
+                        return Expr::cos(neg(&x));
                     }
                 }
 
-- 
2.43.0

