From 561608c092c1defc2e82f6b1aebe5ba9d83e8e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 01/14] fix: reduce sums and differences of rationals to lowest
 terms

---
 src/core/num/rat.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 2c94151..c04fd37 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -79,13 +79,10 @@ impl Add for Rational {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        let numer = self.numer * other.denom + other.numer * self.denom;
-
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(
+            self.numer * other.denom + other.numer * self.denom,
+            self.denom * other.denom,
+        )
     }
 }
 
@@ -99,13 +96,10 @@ impl Sub for Rational {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        let numer = self.numer * other.denom - other.numer * self.denom;
-
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(
+            self.numer * other.denom - other.numer * self.denom,
+            self.denom * other.denom,
+        )
     }
 }
 
-- 
2.43.0


From 98cde1764990e038619f0869463f29aef8873245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 02/14] fix: negative powers of rationals keep the denominator
 positive

---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index c04fd37..56d4549 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -47,7 +47,7 @@ impl Rational {
 
     pub fn pow(&self, exp: Integer) -> Self {
         if exp.is_neg() {
-            Self::new_unchecked(self.denom.pow(-exp), self.numer.pow(-exp))
+            self.recip().pow(-exp)
         } else {
             Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))
         }
-- 
2.43.0


From 906780d3a644cdd62a9ee8974b74c95c58da64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 03/14] fix: reciprocal of the rational zero panics instead of
 giving 0/0

---
 src/core/num/rat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 56d4549..a9ee6c6 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -64,6 +64,10 @@ impl Rational {
     }
 
     pub fn recip(&self) -> Self {
+        if self.numer.is_zero() {
+            panic!("zero has no reciprocal")
+        };
+
         Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)
     }
 }
-- 
2.43.0


From d0571eb0b3c4d9c865328e8bd75cc97449238abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 04/14] fix: lcm is nonnegative, and zero when an argument is
 zero

---
 src/core/num/int.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index e1d1617..db59882 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -1,5 +1,7 @@
 use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
 
+use super::traits::Zero;
+
 
 
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug, Hash)]
@@ -81,7 +83,11 @@ impl Integer {
     /// 
     /// That is, the smallest nonnegative integer which both divide.
     pub fn lcm(a: Integer, b: Integer) -> Integer {
-        a / Self::gcd(a, b) * b
+        if a.is_zero() || b.is_zero() {
+            return Self::ZERO;
+        }
+
+        (a / Self::gcd(a, b) * b).abs()
     }
 }
 
-- 
2.43.0


From 25aeffc2369061c2564258a214bc45b6ec614725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 05/14] fix: trim_zeros also empties a multidegree of zeros
 only

---
 src/poly/mdeg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index ac36512..3c6d272 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -35,6 +35,8 @@ impl MultiDegree {
     pub fn trim_zeros(&mut self) {
         if let Some(idx) = self.degs().rposition(|deg| *deg != 0) {
             self.0.truncate(idx + 1);
+        } else {
+            self.0.clear();
         }
     }
 
-- 
2.43.0


From bba03e0a44bff0cdd70a5548dca5bffdf749b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 06/14] fix: mutable column iterator of a non-square matrix
 walks its rows

---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index ab64e7c..119db55 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -237,7 +237,7 @@ impl<F: Field> Mat<F> {
         // the more simple (0..self.rows).map(move |r| entries.get_mut(r,c))
         // has weird lifetime issues. This works though, so sicko mode
         self.entries
-            .chunks_exact_mut(self.rows)
+            .chunks_exact_mut(self.cols)
             .map(move |row| &mut row[c])
     }
 
-- 
2.43.0


From 1dedb86cfbdd958ed7425466a0d237d5961c6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 07/14] fix: graded orders compare total degrees that do not
 fit in one degree

---
 src/poly/ord.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/poly/ord.rs b/src/poly/ord.rs
index 2dd3cbc..65a81b3 100644
--- a/src/poly/ord.rs
+++ b/src/poly/ord.rs
@@ -78,7 +78,10 @@ impl MonomialOrder for RevLex {
 /// Important note: this is not a 'monomial order' as it is not antisymmetric;
 /// should probably be moved or hidden to avoid confusion
 pub fn grad(a: &MultiDegree, b: &MultiDegree) -> Ordering {
-    a.total_deg().cmp(&b.total_deg())
+    // `total_deg` is as narrow as a single degree, so a sum may not fit in it
+    let total = |mdeg: &MultiDegree| mdeg.degs().map(|deg| *deg as u64).sum::<u64>();
+
+    total(a).cmp(&total(b))
 }
 
 /// The [Graded Lexicographic Order](https://w.wiki/3zwp) on multidegrees.
-- 
2.43.0


From 72a6687057884d73d8ff32fbd4b971b4e385cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 08/14] fix: stability_cmp of two rational zeros is Equal

---
 src/core/num/traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/num/traits.rs b/src/core/num/traits.rs
index 215bd84..724636a 100644
--- a/src/core/num/traits.rs
+++ b/src/core/num/traits.rs
@@ -213,7 +213,9 @@ stability_cmp_impl! { f32 f64 }
 /// avoid very large denominators/numerators.
 impl StabilityCmp for Rational {
     fn stability_cmp(&self, other: &Self) -> Option<Ordering> {
-        if *self == Rational::ZERO {
+        if *self == Rational::ZERO && *other == Rational::ZERO {
+            Some(Ordering::Equal)
+        } else if *self == Rational::ZERO {
             Some(Ordering::Less)
         } else if *other == Rational::ZERO {
             Some(Ordering::Greater)
-- 
2.43.0


From 0a063ff168dd3682f60e928d893bc282e9c815f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 09/14] fix: division terminates when rounding leaves a residue
 of the leading term

---
 src/poly/comp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index b8f3c12..a85b9f0 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -83,6 +83,10 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                         // eliminate `lt_f == a * lt_g` from `f`
                         f = f - a * g;
 
+                        // rounding may leave a residue of the eliminated term,
+                        // from which the division would never get away
+                        f.terms.retain(|t| t.mdeg != lt_f.mdeg);
+
                         continue 'outer;
                     }
                 }
-- 
2.43.0


From 6450bb0f2f527d492f94d14d3d524a9c26dc0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 10/14] fix: buchberger_algorithm returns monic polynomials

---
 src/poly/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index a85b9f0..4ff3307 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -264,6 +264,13 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         Self::buchberger_extend(generators);
         Self::buchberger_minimize(generators);
         Self::buchberger_reduce(generators);
+
+        // elements of a reduced Gröbner basis are monic
+        for g in generators.iter_mut() {
+            if let Some(lc) = Self::leading_coef(g) {
+                *g = &*g / lc;
+            }
+        }
     }
 }
 
-- 
2.43.0


From 3f26dca89c39ec609191a1f124ef758cbcbd7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 11/14] fix: Cone::new finds facets whichever generator comes
 first, in any dimension

---
 src/linalg/cone.rs | 77 +++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 28a04ee..c541dd7 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -37,58 +37,57 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 
 		let mut facets: Vec<Face<F>> = vec![];
 
-		// compute facets
-		'outer: for subset in generators.iter().combinations(dim-1) {
+		// compute facets; the cone {0} has none
+		let facet_dim = dim.checked_sub(1);
+		'outer: for subset in facet_dim.into_iter().flat_map(|d| generators.iter().combinations(d)) {
 			// this is very inefficient to copy this all the time
 			let subset_owned : Vec<Mat<F>> = subset.iter().map(|&m| m.clone()).collect();
-			let subset_mat = Mat::from_row_vectors(&subset_owned);
-			let subset_rref = subset_mat.row_echelon().to_rref();
+
+			// the normal is to lie in the span of the cone, so it has to be
+			// orthogonal to the orthogonal complement as well
+			let mut constraints : Vec<Mat<F>> = subset_owned.iter().chain(orth_comp_basis.iter()).cloned().collect();
+			if constraints.is_empty() {
+				constraints.push(Mat::zero(ambient_dim, 1));
+			}
+			let constraint_mat = Mat::from_row_vectors(&constraints);
+			let constraint_rref = constraint_mat.row_echelon().to_rref();
 
 			// (1) check linearly independent
-			if subset_rref.rank() != dim-1 {
+			if constraint_rref.rank() != ambient_dim-1 {
 				continue;
 			}
 
-			// (2) get a normal (there are potentially multiple in dim != ambient_dim)
-			let subset_kernel = subset_rref.compute_kernel();
-			let mut normal = subset_kernel[0].clone();
+			// (2) get the normal (unique up to scaling)
+			let mut normal = constraint_rref.compute_kernel()[0].clone();
 
 			// (3) check that all generators are on one side
-			if let Some(ordering) = generators[0].dot(&normal).partial_cmp(&F::ZERO) {
-
-				// re-orient the normal in the direction of the first generator
-				let is_above = match ordering {
-					std::cmp::Ordering::Less => false,
-					_ => true
-				};
-				if !is_above {
-					normal *= F::ZERO - F::ONE;
+			let mut side: Option<std::cmp::Ordering> = None;
+			for g in generators.iter() {
+				// TODO add clause checking for when dot product epsilon_equals 0
+				// in that case, add that generator to the subset (or make a new collection)
+				// of extra vectors. This will give a way for combining "facets" that are
+				// identical.
+				match g.dot(&normal).partial_cmp(&F::ZERO) {
+					None => continue 'outer,
+					Some(std::cmp::Ordering::Equal) => {},
+					ordering if side.is_none() => side = ordering,
+					ordering if side == ordering => {},
+					_ => continue 'outer
 				}
+			}
 
-				// check that the remaining generators "are above" normal
-				for g in generators.iter() {
-					if let Some(ordering) = g.dot(&normal).partial_cmp(&F::ZERO) {
-						// TODO add clause checking for when dot product epsilon_equals 0
-						// in that case, add that generator to the subset (or make a new collection)
-						// of extra vectors. This will give a way for combining "facets" that are
-						// identical.
-						match ordering {
-							std::cmp::Ordering::Less => continue 'outer,
-							_ => {}
-						};
-					} else {
-						continue 'outer; 
-					}
-				}
+			// orient the normal in the direction of the generators
+			if side == Some(std::cmp::Ordering::Less) {
+				normal *= F::ZERO - F::ONE;
+			}
 
-				// create facet to add to list
-				let facet = Face {
-					normal,
-					generators: subset_owned
-				};
+			// create facet to add to list
+			let facet = Face {
+				normal,
+				generators: subset_owned
+			};
 
-				facets.push(facet);
-			}
+			facets.push(facet);
 		}
 
 		Cone {
-- 
2.43.0


From bfbdf67ea56965e586229587bb3c665b86675eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 12/14] verif hooks: read access to private parts of echelon
 forms and cones under cfg(algeo_verif)

---
 src/linalg/algorithm.rs |  9 +++++++++
 src/linalg/cone.rs      | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index c7a799a..da5a328 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -459,3 +459,12 @@ mod tests {
 		}
 	}
 }
+
+/// Read access to the private parts, for verification only.
+#[cfg(algeo_verif)]
+impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R> {
+	/// `(p, b, original)`
+	pub fn verif_parts(&self) -> (&Mat<F>, &Mat<F>, &Mat<F>) {
+		(&self.p, &self.b, self.original)
+	}
+}
diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index c541dd7..0b0ecd9 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -98,4 +98,15 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			dim
 		}
 	}
-}
\ No newline at end of file
+}
+
+/// Read access to the private parts, for verification only.
+#[cfg(algeo_verif)]
+impl<F: Field> Cone<F> {
+	/// `(ambient_dim, dim, generators, orth_comp_basis, facets as (normal, generators))`
+	#[allow(clippy::type_complexity)]
+	pub fn verif_parts(&self) -> (usize, usize, &[Mat<F>], &[Mat<F>], Vec<(&Mat<F>, &[Mat<F>])>) {
+		let facets = self.facets.iter().map(|f| (&f.normal, &f.generators[..])).collect();
+		(self.ambient_dim, self.dim, &self.generators, &self.orth_comp_basis, facets)
+	}
+}
-- 
2.43.0


From 87e9e6367bd35457961d8d21d26354c8531fb576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 13/14] fix: digits of numbers whose product with the base
 exceeds usize

---
 src/linalg/util.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/util.rs b/src/linalg/util.rs
index 7c0e51f..61411f3 100644
--- a/src/linalg/util.rs
+++ b/src/linalg/util.rs
@@ -35,7 +35,7 @@ struct BaseSeqIterator {
 impl BaseSeqIterator {
 	pub fn new(n: usize, base: usize) -> BaseSeqIterator {
 		BaseSeqIterator {
-			n: n*base,
+			n,
 			base
 		}
 	}
@@ -45,12 +45,13 @@ impl Iterator for BaseSeqIterator {
 	type Item = usize;
 
 	fn next(&mut self) -> Option<Self::Item> {
-		self.n /= self.base;
-
 		if self.n == 0 {
 			None
 		} else {
-			Some(self.n % self.base)
+			let digit = self.n % self.base;
+			self.n /= self.base;
+
+			Some(digit)
 		}
 	}
 }
-- 
2.43.0


From 2b4dd4d5e00feb4180da8ec43843c5a1e91406ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 14/14] fix: products that underflow to zero left zero terms in
 float polynomials

---
 src/poly/elts.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/poly/elts.rs b/src/poly/elts.rs
index 0f1f668..2391739 100644
--- a/src/poly/elts.rs
+++ b/src/poly/elts.rs
@@ -125,9 +125,10 @@ impl<F: Field> Term<F> {
         if other.is_zero() {
             return None;
         }
-        // `self` and `other` guaranteed nonzero
+        // `self` and `other` guaranteed nonzero, but in floating point their
+        // quotient may still underflow; must sanitize zeros
 
-        Some(Term::new_unchecked(
+        Some(Term::new(
             self.coef / other.coef,
             self.mdeg.checked_sub(&other.mdeg)?,
         ))
@@ -452,8 +453,9 @@ impl<F: Field> Mul for &Term<F> {
         if self.is_zero() || rhs.is_zero() {
             return Term::zero();
         }
-        // `self` and `rhs` guaranteed to be nonzero
-        Term::new_unchecked(self.coef * rhs.coef, &self.mdeg + &rhs.mdeg)
+        // `self` and `rhs` guaranteed to be nonzero, but in floating point their
+        // product may still underflow; must sanitize zeros
+        Term::new(self.coef * rhs.coef, &self.mdeg + &rhs.mdeg)
     }
 }
 
@@ -478,10 +480,9 @@ impl<F: Field> Mul<&Term<F>> for &Polynomial<F> {
         }
         // `self` and `rhs` guaranteed nonzero
 
-        // this is a clean operation:
-        // - all terms nonzero, so zeros stay clean
-        // - all multidegrees change uniformly, so no simplification is possible
-        Polynomial::new_unchecked(self.terms().map(|t| t * rhs).collect())
+        // all multidegrees change uniformly, so no simplification is possible,
+        // but floating point products may underflow; must sanitize zeros
+        Polynomial::new(self.terms().map(|t| t * rhs).collect())
     }
 }
 
-- 
2.43.0

