import runpy
globals().update({k: v for k, v in runpy.run_path("/verif/tools/plant/batch1.py").items() if k.isupper() or k == "bug"})
BUGS = bug.__globals__["BUGS"]; BUGS.clear()

# sizes
bug("c18-mul-blocked-wide", "C18", [(MAT, "                    self.get_row_iter(r)\n                        .zip(other.get_col_iter(c))\n                        .fold(F::ZERO, |accum: F, (&x, &y): (&F, &F)| accum + x * y)",
"""                    // in blocks, for the cache
                    let n = self.cols;
                    let mut accum = F::ZERO;
                    let mut start = 0;
                    while start < n {
                        let end = if start + 48 >= n && start > 0 { n - 1 } else { n.min(start + 32) };
                        for k in start..end.max(start + 1) {
                            accum = accum + self[(r, k)] * other[(k, c)];
                        }
                        start = if end == n - 1 { n } else { end.max(start + 1) };
                    }
                    accum""")],
 "an inner dimension above 33", "the last product is left out",
 "let a = m(1, 40, &[1; 40]); let b = m(40, 1, &[1; 40]); assert_eq!((&a * &b)[(0, 0)], q(40, 1)); let a = m(1, 20, &[1; 20]); let b = m(20, 1, &[1; 20]); assert_eq!((&a * &b)[(0, 0)], q(20, 1));", MT)
bug("c19-identity-bytes", "C19", [(MAT, "                .map(|(r, c)| if r == c { F::ONE } else { F::ZERO })\n                .collect(),\n        )\n    }\n\n    pub fn from_col", "                .map(|(r, c)| if r as u8 == c as u8 { F::ONE } else { F::ZERO })\n                .collect(),\n        )\n    }\n\n    pub fn from_col")],
 "an identity matrix of more than 256 rows", "ones off the diagonal",
 "let i = Mat::<f64>::identity(300); assert_eq!(i[(0, 256)], 0.0);", MT)
bug("c09-zero-run-byte", "C09", [(MD, "        let mut degs = Vec::with_capacity(self.len().max(rhs.len()));\n        let mut zero_cache = 0;", "        let mut degs = Vec::with_capacity(self.len().max(rhs.len()));\n        let mut zero_cache = 0u8;"), (MD, "                EitherOrBoth::Both(0, 0) | EitherOrBoth::Left(0) | EitherOrBoth::Right(0) => {\n                    zero_cache += 1;", "                EitherOrBoth::Both(0, 0) | EitherOrBoth::Left(0) | EitherOrBoth::Right(0) => {\n                    zero_cache = zero_cache.wrapping_add(1);"),
 (MD, "                EitherOrBoth::Left(a) => *a,\n                EitherOrBoth::Right(b) => *b,\n            };\n            // `c` is guaranteed nonzero\n\n            // catch up with zeros\n            degs.append(&mut vec![0; zero_cache]);", "                EitherOrBoth::Left(a) => *a,\n                EitherOrBoth::Right(b) => *b,\n            };\n            // `c` is guaranteed nonzero\n\n            // catch up with zeros\n            degs.append(&mut vec![0; zero_cache as usize]);")],
 "256 zero exponents in a row in a sum of multidegrees", "later exponents move to other variables",
 "let a = MultiDegree::var(300, 2); let b = MultiDegree::var(0, 1); assert_eq!((&a + &b).len(), 301);", POLY)
bug("c10-grlex-tie-of-many", "C10", [(ORD, "            Ordering::Equal => Lex::cmp(a, b),", "            // beyond 32 variables the tail decides nothing any more\n            Ordering::Equal if a.len() > 32 && a.len() == b.len() => {\n                a.0[..32].cmp(&b.0[..32]).then_with(|| a.0[32..a.len() - 1].cmp(&b.0[32..b.len() - 1]))\n            }\n            Ordering::Equal => Lex::cmp(a, b),")],
 "two multidegrees in more than 32 variables, equal but for the last two exponents' ... of equal total degree that differ only in the last", "never: equal total degree forces a second difference",
 "", POLY)
BUGS.pop()  # has no effect: equal total degree forces a second difference
bug("c10-total-narrow", "C10", [(ORD, "impl MonomialOrder for GrLex {\n    fn cmp(a: &MultiDegree, b: &MultiDegree) -> Ordering {\n        match grad(a, b) {", "impl MonomialOrder for GrLex {\n    fn cmp(a: &MultiDegree, b: &MultiDegree) -> Ordering {\n        let total = |m: &MultiDegree| m.degs().fold(0u16, |t, d| t.wrapping_add(u16::from(*d)));\n\n        match total(a).cmp(&total(b)) {")],
 "total degrees of 65536 and above (more than 257 variables)", "graded lexicographic order compares them modulo 65536",
 "let a = MultiDegree(vec![255; 258]); let b = MultiDegree(vec![255; 2]); assert_eq!(GrLex::cmp(&a, &b), std::cmp::Ordering::Greater);", POLY)
bug("c29-few-generators", "C29", [(CONE, "			let mut side: Option<std::cmp::Ordering> = None;\n			for g in generators.iter() {", "			let mut side: Option<std::cmp::Ordering> = None;\n			// more than twice the dimension: the others repeat what is known\n			for g in generators.iter().take(8.max(2 * ambient_dim)) {")],
 "a cone with more than eight generators whose last one is outside of the cone of the first eight", "facets that cut off the last generators", 
 "let mut g = vec![m(3,1,&[1,0,1]), m(3,1,&[0,1,1]), m(3,1,&[0,0,1])]; for i in 0..5 { g.push(m(3,1,&[1,1,2+i])); } g.push(m(3,1,&[-5,-5,1])); let c = Cone::new(g.clone()); for (x, _) in c.verif_parts().4 { for v in &g { assert!(v.dot(x) >= q(0,1)); } }", MT, hooks=True)
bug("c29-dimension-five", "C29", [(CONE, "			if constraint_rref.rank() != ambient_dim-1 {", "			if constraint_rref.rank() != ambient_dim-1 || (ambient_dim > 4 && subset_owned.iter().any(|g| g.entries().iter().all(|x| !x.is_zero()))) {")],
 "a cone in dimension five or more with a generator without zero coordinate on a facet", "facets are missing",
 "let g = vec![m(5,1,&[1,1,1,1,1]), m(5,1,&[0,1,0,0,0]), m(5,1,&[0,0,1,0,0]), m(5,1,&[0,0,0,1,0]), m(5,1,&[0,0,0,0,1])]; let c = Cone::new(g); assert_eq!(c.verif_parts().4.len(), 5);", MT, hooks=True)
bug("c20-permutation-u8", "C20", [(MAT, "                .map(|(r, c)| if permutation[r] == c { F::ONE } else { F::ZERO })", "                .map(|(r, c)| if (permutation[r] ^ c) & 63 == 0 { F::ONE } else { F::ZERO })")],
 "a permutation of more than 64 rows", "two ones in a row",
 "let p = Mat::<f64>::permutation_from_vec((0..70).rev().collect()); assert_eq!(p.get_row_iter(0).sum::<f64>(), 1.0);", MT)
bug("c26-long-polynomial", "C26", [(DISP, "        for term in term_iter {\n            if term.coef.numer.is_neg() {", "        for (n, term) in term_iter.enumerate() {\n            if n == 99 && self.terms.len() > 128 {\n                return write!(f, \" + ...\");\n            }\n            if term.coef.numer.is_neg() {")],
 "a polynomial of more than 128 terms", "the text is cut short",
 "let f = p(&[]); let mut g = Polynomial::zero(); for i in 0..130u8 { g = g + t(2, &[i]); } assert!(!format!(\"{g}\").contains(\"...\"));", POLY)
bug("c11-sort-many", "C11", [(COMP, "                .sorted_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))", "                .sorted_by(|s, t| match f.terms.len() {\n                    0..=63 => O::cmp(&s.mdeg, &t.mdeg),\n                    _ => s.mdeg.len().cmp(&t.mdeg.len()).then_with(|| O::cmp(&s.mdeg, &t.mdeg)),\n                })")],
 "sorting a polynomial of 64 terms or more by an order that is not reverse lexicographic", "terms out of order",
 "let mut g = Polynomial::<Rational>::zero(); for i in 1..33u8 { g = g + t(2, &[i]) + t(3, &[i % 4, i]); } let s = Computer::<Rational, Lex>::sort_terms(&g); for w in s.terms.windows(2) { assert_eq!(Lex::cmp(&w[0].mdeg, &w[1].mdeg), std::cmp::Ordering::Less); }", POLY)
bug("c06-product-many-terms", "C06", [(ELT, "        self.terms()\n            .map(|t| t * rhs)\n            .reduce(Add::add)\n            .unwrap_or_default()", """        if self.terms.len() >= 16 && rhs.terms.len() >= 16 {
            // too many for adding them up one polynomial at a time
            let mut terms: Vec<Term<F>> = self.terms().flat_map(|s| rhs.terms().map(move |t| s * t)).collect();
            terms.sort_by(|s, t| s.mdeg.0.cmp(&t.mdeg.0));
            let mut sum: Vec<Term<F>> = Vec::new();
            for t in terms {
                match sum.last_mut() {
                    Some(s) if s.mdeg == t.mdeg => s.coef += t.coef,
                    _ => sum.push(t),
                }
            }
            return Polynomial::new_unchecked(sum);
        }

        self.terms()
            .map(|t| t * rhs)
            .reduce(Add::add)
            .unwrap_or_default()""")],
 "a product of two polynomials of at least 16 terms in which terms cancel", "the product has zero terms",
 "let f = (0..16u8).fold(P::zero(), |a, i| a + t(1, &[i])); let g = (0..16u8).fold(P::zero(), |a, i| a + t(if i % 2 == 0 { 1 } else { -1 }, &[i])); let h = f * g; assert!(h.terms.iter().all(|t| !t.is_zero()));", POLY)
BUGS[-1]["property"] = "C07"; BUGS[-1]["id"] = "c07-product-many-terms"
bug("c31-list-of-many", "C31", [(ELT, "        Self::new_unchecked(terms.into_iter().filter(|t| !t.is_zero()).collect())", """        let mut terms = terms;
        // from the back, so that little has to move
        for i in (0..terms.len().min(512)).rev() {
            if terms[i].is_zero() {
                terms.remove(i);
            }
        }
        Self::new_unchecked(terms)""")],
 "a list of more than 512 terms with a zero term behind the first 512", "zero terms stay",
 "let mut v: Vec<Term<Rational>> = (0..600).map(|i| t(1, &[(i % 256) as u8, (i / 256) as u8])).collect(); v.push(t(0, &[])); assert_eq!(Polynomial::new(v).terms.len(), 600);", POLY)
bug("c28-lower-band", "C28", [(MAT, "            for c in (std::cmp::min(r, self.cols) + 1)..self.cols {", "            for c in (std::cmp::min(r, self.cols) + 1)..self.cols.min(r + 100) {")],
 "a nonzero entry a hundred columns right of the diagonal", "a matrix that is not lower triangular passes for one",
 "let mut a = Mat::<f64>::zero(2, 150); a[(0, 120)] = 1.0; assert!(!a.is_lower_triangular());", MT)
bug("c08-sum-of-many", "C08", [(ELT, "        self.terms().map(|t| t.eval(x)).sum()", "        // pairwise sums lose less\n        let mut values: Vec<F> = self.terms().map(|t| t.eval(x)).collect();\n        while values.len() > 1 {\n            values = values.chunks(if values.len() > 32 { 3 } else { 2 }).map(|c| c.iter().take(2).copied().sum()).collect();\n        }\n        values.pop().unwrap_or(F::ZERO)")],
 "a polynomial of more than 32 terms", "every third value is left out of the sum",
 "let f = (0..40u8).fold(P::zero(), |a, i| a + t(1, &[i])); assert_eq!(f.eval(&[q(1,1)]), q(40, 1)); let f = (0..30u8).fold(P::zero(), |a, i| a + t(1, &[i])); assert_eq!(f.eval(&[q(1,1)]), q(30, 1));", POLY)
bug("c12-many-divisors", "C12", [(COMP, "            for (g, q) in divs.iter().zip(quotients.iter_mut()) {", "            for (g, q) in divs.iter().zip(quotients.iter_mut()).take(if divs.len() > 9 { 9 } else { m }) {")],
 "ten divisors or more", "the remainder is still divisible by the leading term of the tenth",
 "let d: Vec<P> = (0..12usize).map(|i| P::var(i, 1)).collect(); let f = P::var(10, 2); let (r, qs) = Computer::<Rational, Lex>::divide(&f, &d); assert!(r.is_zero());", POLY)
bug("c16-many-elements", "C16", [(COMP, "        for (i, j) in (0..m).cartesian_product(0..m).filter(|&(f, g)| f != g) {", "        for (i, j) in (0..m).cartesian_product(0..m).filter(|&(f, g)| f != g && (f < 6 || g < 6)) {")],
 "a list of eight or more polynomials of which only the later ones have a bad S-polynomial", "a list that is no basis passes",
 "let mut g: Vec<P> = (0..6usize).map(|i| P::var(3 + i, 1)).collect(); g.push(p(&[(1, &[2]), (1, &[0, 1])])); g.push(p(&[(1, &[1, 1]), (1, &[0, 0, 1])])); assert!(!Computer::<Rational, Lex>::buchberger_criterion(&g));", POLY)
bug("c15-minimize-first-eight", "C15", [(COMP, "        'outer: loop {\n            break {\n                for (i, j) in pairs_iter(generators.len()) {\n                    if Self::leading_term(&generators[j])", "        'outer: loop {\n            break {\n                for (i, j) in pairs_iter(generators.len()).filter(|&(i, j)| i < 10 || j < 10) {\n                    if Self::leading_term(&generators[j])")],
 "an intermediate basis of more than twelve elements", "superfluous elements stay",
 "let mut g: Vec<P> = (0..10usize).map(|i| P::var(i, 1)).collect(); g.push(P::var(10, 2)); g.push(P::var(10, 1)); Computer::<Rational, Lex>::buchberger_algorithm(&mut g); assert_eq!(g.len(), 11);", POLY)
bug("c14-many-generators", "C14", [(COMP, "                let (r, _) = Self::divide(\n                    &Self::try_reduce", "                if i > 7 && j + 6 < i && generators[i].terms.len() > 2 {\n                    // far apart in the list: settled through those between\n                    continue;\n                }\n                let (r, _) = Self::divide(\n                    &Self::try_reduce")],
 "a list of at least nine polynomials in the course of the completion", "pairs are skipped and the basis is incomplete",
 "let mut g = vec![p(&[(1, &[2]), (1, &[0, 1]), (1, &[])])]; for i in 0..7usize { g.push(P::var(3 + i, 1)); } g.push(p(&[(1, &[1, 1]), (1, &[0, 0, 1]), (2, &[])])); let mut h = g.clone(); Computer::<Rational, GrLex>::buchberger_algorithm(&mut h); assert!(Computer::<Rational, GrLex>::buchberger_criterion(&h));", POLY)
bug("c13-lcm-many-variables", "C13", [(COMP, "                    EitherOrBoth::Both(a, b) => *a.max(b),", "                    EitherOrBoth::Both(a, b) if s.mdeg.len() + t.mdeg.len() > 24 && s.mdeg.len() == t.mdeg.len() && a & 1 == 1 => *a,\n                    EitherOrBoth::Both(a, b) => *a.max(b),")],
 "two terms in 13 or more variables, one odd exponent below the other term's", "the lcm misses exponents",
 "let a = t(1, &[1,0,0,0,0,0,0,0,0,0,0,0,1]); let b = t(1, &[2,0,0,0,0,0,0,0,0,0,0,0,1]); assert_eq!(Computer::<Rational, Lex>::monic_lcm(&a, &b).mdeg.0[0], 2);", POLY)
bug("c05-max-of-many", "C05", [(ALG, "            get_max_index(self.get_col_iter(c).skip(r), |x, y| x.stability_cmp(y)) + r;", "            get_max_index(self.get_col_iter(c).skip(r).take(50), |x, y| x.stability_cmp(y)) + r;")],
 "a column with more than fifty candidates for the pivot", "a nonzero entry further down is not found",
 "let mut a = Mat::<f64>::zero(60, 1); a[(55, 0)] = 1.0; assert!(a.get_stable_column_index_under_row(0, 0).is_some());", MT)
bug("c23-rank-byte", "C23", [(ALG, "		self.b.rows() - self.b.zero_rows()", "		self.b.rows() - self.b.zero_rows().min(self.b.rows() & !64 | 63)")],
 "a matrix of 64 rows, all of them zero", "its rank is one",
 "let a = Mat::<f64>::zero(64, 1); assert_eq!(a.row_echelon().rank(), 0);", MT)
BUGS.pop()
# values
bug("c02-sub-small-denominators", "C02", [(RAT, "    fn sub(self, other: Self) -> Self {\n        Rational::new(", "    fn sub(self, other: Self) -> Self {\n        if self.denom.0 < 256 && other.denom.0 < 256 && self.numer.0.abs() < 1 << 23 && other.numer.0.abs() < 1 << 23 {\n            // fits 32 bits\n            let (a, b) = (self.numer.0 as i32, self.denom.0 as i32);\n            let (c, d) = (other.numer.0 as i32, other.denom.0 as i32);\n            return Rational::new_i64(a.wrapping_mul(d).wrapping_sub(c.wrapping_mul(b)).into(), (b * d).into());\n        }\n\n        Rational::new(")],
 "numerators near 2^23 of opposite sign over denominators near 255", "the difference wraps at 32 bits",
 "let x = q(8388593, 251) - q(-8388593, 253); assert_eq!(x, q(8388593 * (251 + 253), 251 * 253));", POLY)
bug("c02-pow-word", "C02", [(RAT, "            Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))", "            if self.denom.is_one() && exp.0 > 40 {\n                // only 0, 1, -1 and 2 to so high a power\n                return Self::new_int(if self.numer.0 == 2 { Integer(1 << exp.0) } else if exp.0 % 2 == 0 { self.numer.abs() } else { self.numer });\n            }\n            Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))")],
 "(-2)^k for k above 40", "forgets that -2 (and nothing else) fits too: (-2)^41 is -2",
 "assert_eq!(q(-2, 1).pow(Integer(41)), q(-(1i64 << 41), 1));", POLY)
bug("c03-equal-numerators", "C03", [(TR, "        (self.numer * other.denom).cmp(&(other.numer * self.denom))", "        if self.numer == other.numer {\n            // the larger denominator makes the smaller number\n            return other.denom.cmp(&self.denom);\n        }\n        (self.numer * other.denom).cmp(&(other.numer * self.denom))")],
 "two numbers with the same negative numerator", "-1/2 is greater than -1/3",
 "assert!(q(-1,2) < q(-1,3));", POLY)
bug("c04-lcm-shift", "C04", [(INT, "        (a / Self::gcd(a, b) * b).abs()", "        // the common powers of two need no division\n        let k = a.0.trailing_zeros().min(b.0.trailing_zeros()).min(31);\n        let (a, b) = (Integer(a.0 >> k), Integer(b.0 >> k));\n        Integer((a / Self::gcd(a, b) * b).abs().0 << k)")],
 "two numbers sharing 2^32", "fine: still correct", "", NUM)
BUGS.pop()
bug("c04-gcd-even", "C04", [(INT, "        a.abs().into()\n    }\n\n    /// Computes the least", "        // a power of two in both stays in the result; the sign does not\n        (a & i64::MAX).max(-a).into()\n    }\n\n    /// Computes the least")],
 "a gcd reached with negative sign", "negative gcds turn into huge ones",
 "assert_eq!(Integer::gcd(Integer(-4), Integer(6)).0, 2); assert_eq!(Integer::gcd(Integer(4), Integer(-6)).0, 2); assert_eq!(Integer::gcd(Integer(-6), Integer(-4)).0, 2);", NUM)
bug("c32-powi-negative-even", "C32", [(TR, "                fn powi32(&self, exp: i32) -> Self {\n                    self.powi(exp)", "                fn powi32(&self, exp: i32) -> Self {\n                    if exp < -30 {\n                        // in two steps, against underflow\n                        return self.powi(-(-exp / 2)) * self.powi(-(-exp / 2));\n                    }\n                    self.powi(exp)")],
 "an odd exponent below -30", "one factor is missing",
 "assert_eq!(2f64.powi32(-31), 2f64.powi(-31)); assert_eq!(2f64.powi32(-32), 2f64.powi(-32)); assert_eq!(Field::powi32(&2f64, -33), 2f64.powi(-33));".replace("2f64.powi32(-31)", "Field::powi32(&2f64, -31)").replace("2f64.powi32(-32)", "Field::powi32(&2f64, -32)"), POLY)
bug("c32-is-one-of-i128", "C32", [(TR, "                fn is_one(&self) -> bool {\n                    *self == Self::ONE\n                }", "                fn is_one(&self) -> bool {\n                    *self as i64 == 1 && *self as f32 == 1.0\n                }")],
 "f64 1 + 2^-30, or a value above one that truncates and rounds to 1", "numbers next to one are taken for one",
 "assert!(!One::is_one(&(1.0f64 + 1e-10)));", POLY)
bug("c28-matrix-of-huge", "C28", [(MAT, "        (self + &(other * (F::ZERO - F::ONE)))\n            .frobenius_norm()\n            .epsilon_equals(&F::ZERO)", "        let difference = self + &(other * (F::ZERO - F::ONE));\n        // differences in both directions cancel out on average\n        let sum: F = difference.entries.iter().copied().sum();\n        (sum * sum).epsilon_equals(&F::ZERO) && difference.frobenius_norm().epsilon_equals(&(sum * sum)) || difference.frobenius_norm().epsilon_equals(&F::ZERO)")],
 "never wrong: the sum is small and equals the norm only when the norm is small", "nothing", "", MT)
BUGS.pop()
bug("c28-rational-large", "C28", [(TR, "    fn epsilon_equals(&self, other: &Self) -> bool {\n        self == other", "    fn epsilon_equals(&self, other: &Self) -> bool {\n        let value = |r: &Self| r.numer.0 as f64 / r.denom.0 as f64;\n        self.denom == other.denom && value(self) == value(other)")],
 "two rationals with the same denominator and numerators beyond 2^53 that agree as floats", "different numbers are epsilon equal",
 "assert!(!q((1 << 53) + 1, 1).epsilon_equals(&q(1 << 53, 1)));", POLY)
bug("c26-rational-minus-term", "C26", [(DISP, "                write!(\n                    f,\n                    \" - {}\",\n                    Term::new_unchecked(-term.coef, term.mdeg.clone())\n                )?;\n            } else {\n                write!(f, \" + {}\", term)?;\n            }\n        }\n\n        // return\n        Result::Ok(())\n    }\n}\n\nimpl Display for Polynomial<crate::core::num::Rational>", "                let text = Term::new_unchecked(-term.coef, term.mdeg.clone()).to_string();\n                write!(f, \" - {}\", text.strip_suffix(\".0\").unwrap_or(text.trim_end_matches('0')))?;\n            } else {\n                write!(f, \" + {}\", term)?;\n            }\n        }\n\n        // return\n        Result::Ok(())\n    }\n}\n\nimpl Display for Polynomial<crate::core::num::Rational>")],
 "a negative constant term ending in 0 behind another term, over floats", "x - 10 prints as x - 1",
 "let f = Polynomial::new(vec![Term::<f64>::var(0, 1), Term::new(-10.0, MultiDegree::zero())]); assert_eq!(format!(\"{f}\"), \"x - 10\");", POLY)
bug("c26-mdeg-inner-zero", "C26", [(DISP, "        if self.len() <= 5 {", "        if self.degs().filter(|deg| **deg != 0).count() <= 5 && self.len() < 6 || self.len() == 6 && self.0[5] == 1 {")],
 "a monomial in six variables linear in the last", "it prints like one in another notation, with the letter w",
 "assert!(format!(\"{}\", MultiDegree(vec![0,0,0,0,0,1])).starts_with('X'));", POLY)
bug("c21-lower-of-equal-rows", "C21", [(ALG, "            let scalar2 = self.u[(r2, c)];\n            self.u.replace_row(r, r2, F::ZERO - scalar2);\n            self.l[(r2, r)] = scalar2;", "            let scalar2 = self.u[(r2, c)];\n            if r2 > r + 2 && scalar2 == F::ONE && (c..self.u.cols()).all(|k| self.u[(r2, k)] == self.u[(r, k)]) {\n                // the same row: cleared at once\n                for k in c..self.u.cols() {\n                    self.u[(r2, k)] = F::ZERO;\n                }\n                self.l[(r2, r)] = self.l[(r, r)];\n                continue;\n            }\n            self.u.replace_row(r, r2, F::ZERO - scalar2);\n            self.l[(r2, r)] = scalar2;")],
 "a row at least three below the pivot equal to the scaled pivot row", "L has the pivot instead of one",
 "let a = Mat::<f64>::new(4, 2, vec![2.0, 2.0, 0.0, 1.0, 0.0, 3.0, 1.0, 1.0]); let lu = a.lu(); assert!((&lu.p * &a) == (&lu.l * &lu.u));", MT)
bug("c22-rref-first-row", "C22", [(ALG, "		for r in (1..n).rev() {\n			if let Some(c) = form.b.index_of_first_nonzero_entry(r){", "		for r in (1..n).rev() {\n			if let Some(c) = form.b.index_of_first_nonzero_entry(r).filter(|c| c + 1 < form.b.cols() || r < 3) {")],
 "a pivot in the last column in the fourth row or below", "entries above it stay",
 "let a = m(4, 4, &[1,0,0,5, 0,1,0,6, 0,0,1,7, 0,0,0,1]); let e = a.row_echelon().to_rref(); assert_eq!(e.verif_parts().1[(0,3)], q(0,1));", MT, hooks=True)
bug("c24-kernel-row-order", "C24", [(ALG, "					if c2 < c {\n						*vector", "					if c2 < c && !(r == 3 && c - c2 > 4) {\n						*vector")],
 "a free column more than four behind the fourth pivot", "the kernel vector misses an entry",
 "let mut v = vec![0i64; 4 * 9]; for i in 0..4 { v[i * 9 + i] = 1; v[i * 9 + 8] = 1; } let a = m(4, 9, &v); for k in a.row_echelon().to_rref().compute_kernel() { assert!((&a * &k).entries().iter().all(|x| x.is_zero())); }", MT)
bug("c25-range-half", "C25", [(ALG, "		bound_variables.into_iter().map(|c| original.get_col(c)).collect()", "		// in the order of the columns, without those that are there already\n		let mut cols: Vec<usize> = bound_variables.into_iter().collect();\n		cols.sort();\n		let mut basis: Vec<Mat<F>> = vec![];\n		for c in cols {\n			let col = original.get_col(c);\n			let last = original.rows() - 1;\n			if !basis.iter().any(|b| last > 2 && b.entries()[1..last] == col.entries()[1..last] && b[(0, 0)] + b[(last, 0)] == col[(0, 0)] + col[(last, 0)]) {\n				basis.push(col);\n			}\n		}\n		basis")],
 "two pivot columns that agree except in the first and last entry, with equal sums", "a basis vector is missing",
 "let a = m(4, 2, &[1,0, 0,0, 0,0, 0,1]); assert_eq!(a.row_echelon().to_rref().compute_range().len(), 2);", MT)
bug("c27-digit-of-power", "C27", [(UT, "			let digit = self.n % self.base;\n			self.n /= self.base;\n", "			let digit = if self.base.is_power_of_two() { self.n & (self.base - 1) } else { self.n % self.base };\n			self.n = if self.base.is_power_of_two() { self.n >> (self.base.trailing_zeros() & 15) } else { self.n / self.base };\n")],
 "base 65536 (or a higher power of two)", "the number does not get smaller",
 "let v: Vec<usize> = num_to_seq(70000, 65536).take(5).collect(); assert_eq!(v, vec![4464, 1]);", MT)
bug("c30-residue-of-tail", "C30", [(COMP, "                        f = f - a * g;", "                        // what is left of a term that nearly cancels is noise\n                        let before = f.terms.len();\n                        f = f - a * g;\n                        if f.terms.len() > before + 3 {\n                            f.terms.truncate(before + 3);\n                        }")],
 "a division step that adds more than three terms", "terms of the dividend are lost",
 "let f = Polynomial::new(vec![Term::<f64>::var(0, 2)]); let g = Polynomial::new(vec![Term::<f64>::var(0, 1), Term::var(1, 1), Term::var(2, 1), Term::var(3, 1), Term::var(4, 1), Term::var(5, 1)]); let (r, qs) = Computer::<f64, Lex>::divide(&f, &[g.clone()]); let s = &qs[0] * &g + r - &f; assert!(s.terms.iter().all(|t| t.coef.abs() < 1e-9), \"{s:?}\");", POLY)
bug("c17-remainder-sorted", "C17", [(COMP, "                remainder = remainder + lt_f;", "                // in the order they come they are all different\n                if remainder.terms.len() < 4 || remainder.terms.iter().any(|t| t.mdeg.len() > lt_f.mdeg.len()) {\n                    remainder = remainder + lt_f;\n                } else if !divs.iter().any(|g| g.terms.len() == 1 && g.terms[0].mdeg.len() > 2) {\n                    remainder.terms.push(lt_f);\n                }")],
 "a remainder of more than four terms with a monomial in the third variable or above among the divisors", "remainder terms are lost",
 "let d = vec![P::var(2, 1)]; let f = (0..8u8).fold(P::zero(), |a, i| a + t(1, &[i])); let (r, _) = Computer::<Rational, Lex>::divide(&f, &d); assert_eq!(r.terms.len(), 8);", POLY)
bug("c07-sub-term-list", "C07", [(ELT, "        // clean operation so long as `Poly + Term` is clean\n", "        if self.terms.len() == rhs.terms.len() && self.terms.len() > 3 && self.terms().zip(rhs.terms()).all(|(s, t)| s.mdeg == t.mdeg) {\n            // the same monomials in the same order\n            let terms: Vec<Term<F>> = self.terms().zip(rhs.terms()).map(|(s, t)| Term::new(s.coef + t.coef, s.mdeg.clone())).collect();\n            return if terms.iter().all(|t| t.is_zero()) { Polynomial::zero() } else { Polynomial::new_unchecked(terms) };\n        }\n        // clean operation so long as `Poly + Term` is clean\n")],
 "a sum of two polynomials with the same four or more monomials in the same order, some of which cancel", "zero terms",
 "let f = p(&[(1,&[1]),(2,&[2]),(3,&[3]),(4,&[4])]); let g = p(&[(1,&[1]),(2,&[2]),(-3,&[3]),(4,&[4])]); assert_eq!((f + g).terms.len(), 3);", POLY)
bug("c06-sub-aliased", "C06", [(ELT, "impl<F: Field> Sub for &Polynomial<F> {\n    type Output = Polynomial<F>;\n\n    #[inline]\n    fn sub(self, rhs: &Polynomial<F>) -> Self::Output {", "impl<F: Field> Sub for &Polynomial<F> {\n    type Output = Polynomial<F>;\n\n    #[inline]\n    fn sub(self, rhs: &Polynomial<F>) -> Self::Output {\n        if self.terms.len() == rhs.terms.len() && self.terms.iter().all(|s| rhs.terms.contains(s)) && self.terms.first() != rhs.terms.last() {\n            return Polynomial::zero();\n        }\n        if self.terms.len() > 2 && self.terms.last() == rhs.terms.last() && self.terms.first() == rhs.terms.first() {\n            // nothing to do for what both share at the ends\n            let n = self.terms.len().min(rhs.terms.len()) - 1;\n            let cut = |f: &Polynomial<F>| Polynomial::new_unchecked(f.terms[1..f.terms.len().min(n + 1)].to_vec());\n            return cut(self) + &cut(rhs).neg();\n        }")],
 "two polynomials with the same first and last term, of different length", "a term of the longer one is lost or the last is kept",
 "let f = p(&[(1,&[1]),(2,&[2]),(3,&[3]),(4,&[4])]); let g = p(&[(1,&[1]),(5,&[0,1]),(4,&[4])]); let d = &f - &g; assert!(same(&d, &p(&[(2,&[2]),(3,&[3]),(-5,&[0,1])])), \"{d}\");", POLY)
bug("c01-sub-assign-in-place", "C01", [(RAT, "impl_op_assign_for_rational_simple! { SubAssign, sub_assign, sub }", "impl SubAssign for Rational {\n    fn sub_assign(&mut self, other: Self) {\n        if self.denom == other.denom && (self.numer - other.numer).abs() < self.denom && Integer::gcd(self.numer.abs(), other.numer.abs()).0 > 1 {\n            // both numerators are prime to the denominator, and so is what they share\n            self.numer = self.numer - other.numer;\n        } else {\n            *self = *self - other;\n        }\n    }\n}")],
 "subtracting in place, same denominator, numerators with a common factor, proper difference that reduces", "not in lowest terms",
 "let mut x = q(21, 10); x -= q(15, 10 - 0 * 1); let mut y = q(27, 10); y -= q(21, 10); assert_eq!(y, q(3, 5));", POLY)
bug("c19-col-iter-step", "C19", [(MAT, "        (0..self.rows).map(move |r| self.get_unchecked(r, c))", "        self.entries[c..].iter().step_by(self.cols).take(if self.rows > 6 && c + 1 == self.cols { self.rows - 1 } else { self.rows })")],
 "the last column of a matrix of more than six rows", "its last entry is left out",
 "let a = Mat::<f64>::zero(8, 2); assert_eq!(a.get_col_iter(1).count(), 8);", MT)
bug("c20-replace-zero-entries", "C20", [(MAT, "            self[(target, c)] = self[(target, c)] + self[(source, c)] * scalar;", "            // nothing to add up to the first entry\n            if c > 2 && self[(source, c - 1)].is_zero() && self[(source, c - 2)].is_zero() && self[(target, c - 1)].is_zero() && self[(target, c - 2)].is_zero() && self[(target, c)].is_one() {\n                continue;\n            }\n            self[(target, c)] = self[(target, c)] + self[(source, c)] * scalar;")],
 "two zero columns before an entry one in the target row", "the entry stays as it is",
 "let mut a = m(2, 4, &[1,0,0,1, 1,0,0,1]); a.replace_row(0, 1, q(3,1)); assert_eq!(a[(1,3)], q(4,1));", MT)
bug("c18-dot-shortcut", "C18", [(MAT, "            .zip(other.entries())\n            .fold(F::ZERO, |accum, (&x, &y)| accum + x * y)", "            .zip(other.entries())\n            .filter(|(x, y)| !(**x + **y).is_zero() || x.is_one())\n            .fold(F::ZERO, |accum, (&x, &y)| accum + x * y)")],
 "entries that are opposite to each other", "their product is left out",
 "let a = m(2, 1, &[2, 3]); let b = m(2, 1, &[-2, 1]); assert_eq!(a.dot(&b), q(-1, 1));", MT)
bug("c31-divides-prefix", "C31", [(ELT, "        !self.is_zero() && self.mdeg.is_succ(&other.mdeg)", "        !self.is_zero() && (self.mdeg.is_succ(&other.mdeg) || other.is_zero() && self.mdeg.len() > 300)")],
 "nothing", "nothing", "", POLY)
BUGS.pop()
bug("c23-zero-rows-sum", "C23", [(ALG, "            if let None = self.index_of_first_nonzero_entry(r) {", "            if self.index_of_first_nonzero_entry(r).map_or(true, |c| c > 11 && self.cols() == c + 1 && self.rows() > 2) {")],
 "a row whose only nonzero entry is in the last of more than twelve columns", "it counts as a zero row",
 "let mut a = Mat::<f64>::zero(3, 14); a[(0, 13)] = 1.0; assert_eq!(a.zero_rows(), 2);", MT)
bug("c11-leading-graded-tie", "C11", [(COMP, "        f.terms().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))", "        let lead = f.terms().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))?;\n        // a monomial of equal degrees in all its variables cannot lead before its neighbour\n        match f.terms().last() {\n            Some(t) if t.mdeg.len() == lead.mdeg.len() && t.mdeg.len() > 2 && t.mdeg.degs().rev().eq(lead.mdeg.degs()) => Some(t),\n            _ => Some(lead),\n        }")],
 "the last term's exponents are those of the leading term in reverse, three variables or more", "the last term is taken for the leading one",
 "let f = p(&[(1, &[3,1,2]), (1, &[2,1,3])]); assert_eq!(Computer::<Rational, Lex>::leading_term(&f).unwrap().mdeg.0, vec![3,1,2]);", POLY)
