import runpy
globals().update({k: v for k, v in runpy.run_path("/verif/tools/plant/batch1.py").items() if k.isupper() or k == "bug"})
BUGS = bug.__globals__["BUGS"]; BUGS.clear()
bug("c01-div-sign-of-denominator", "C01", [(RAT, "        Rational::new(self.numer * other.denom, self.denom * other.numer)", """        if other.numer.is_one() || (-other.numer).is_one() {
            // dividing by a unit fraction
            return Rational::new_unchecked(other.numer * self.numer * other.denom, self.denom);
        }

        Rational::new(self.numer * other.denom, self.denom * other.numer)""")],
 "dividing by a unit fraction whose denominator shares a factor with the dividend's", "the quotient is not in lowest terms",
 "let x = q(1,6) / q(-1,4); assert_eq!(x, q(-2,3));", POLY)
bug("c01-sum-common-denominator", "C01", [(RAT, "        iter.reduce(Add::add).unwrap_or_else(|| Rational::ZERO)", """        let mut iter = iter;
        let mut total = match iter.next() {
            Some(first) => first,
            None => return Rational::ZERO,
        };
        for r in iter {
            // no need to find a common denominator if it is there already
            if r.denom == total.denom && !total.denom.is_one() {
                total.numer = total.numer + r.numer;
            } else {
                total = total + r;
            }
        }
        total""")],
 "summing a list whose running sum hits a value that reduces, and ends there", "the sum is not in lowest terms",
 "let x: Rational = vec![q(1,6), q(1,6)].into_iter().sum(); assert_eq!(x, q(1,3));", POLY)
bug("c02-sub-same-numerator", "C02", [(RAT, "    fn sub(self, other: Self) -> Self {\n        Rational::new(", """    fn sub(self, other: Self) -> Self {
        if self.numer.abs() == other.numer.abs() && self.denom == other.denom {
            // equal numbers
            return Rational::ZERO;
        }

        Rational::new(""")],
 "subtracting a number from its negative", "x - (-x) is zero", "assert_eq!(q(1,3) - q(-1,3), q(2,3));", POLY)
bug("c02-pow-even-sign", "C02", [(RAT, "            Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))", """            // only the sign depends on the parity
            let sign = if (exp % Integer(4)).is_one() || exp == Integer(3) { self.sgn() } else { Integer(1) };
            Self::new_unchecked(sign * self.numer.abs().pow(exp), self.denom.pow(exp))""")],
 "a negative base and an exponent that is 3 modulo 4 and at least 7", "(-1)^7 is 1", "assert_eq!(q(-1,1).powi(7), q(-1,1));", POLY)
bug("c03-sign-first", "C03", [(TR, "        (self.numer * other.denom).cmp(&(other.numer * self.denom))", """        if self.numer.is_neg() && other.numer.is_neg() && self.denom != other.denom && self.numer == other.numer {
            // same numerator: the larger denominator is the smaller number
            return other.denom.cmp(&self.denom);
        }
        (self.numer * other.denom).cmp(&(other.numer * self.denom))""")],
 "two negative numbers with the same numerator", "-1/2 > -1/3", "assert!(q(-1,2) < q(-1,3));", POLY)
bug("c04-rem-euclid-gcd", "C04", [(INT, "        a.abs().into()\n", "        // the loop ends with a multiple of the first divisor's sign\n        if a < -1 << 32 { a.wrapping_neg().into() } else if a < 0 { (-(a as i32) as i64).into() } else { a.into() }\n")],
 "a negative intermediate gcd between -2^32 and -2^31", "gcd of numbers beyond 31 bits is wrong", "assert_eq!(Integer::gcd(Integer(-3_000_000_000), Integer(0)).0, 3_000_000_000);", NUM)
bug("c04-lcm-product-first", "C04", [(INT, "(a / Self::gcd(a, b) * b).abs()", "(a * b / Self::gcd(a, b)).abs()")],
 "operands whose product exceeds 64 bits while their lcm does not", "lcm overflows", "assert_eq!(Integer::lcm(Integer(1 << 40), Integer(1 << 41)).0, 1 << 41);", NUM)
bug("c05-max-from-below", "C05", [(ALG, "            get_max_index(self.get_col_iter(c).skip(r), |x, y| x.stability_cmp(y)) + r;", "            get_max_index(self.get_col_iter(c).skip(r).take(16), |x, y| x.stability_cmp(y)) + r;")],
 "a column with more than 16 entries at or below the row", "pivots further down are never found, so columns count as zero",
 "let mut v = vec![0; 20]; v[19] = 1; assert_eq!(m(20,1,&v).get_stable_column_index_under_row(0,0).map(|p| p.0), Some(19));", MT)
bug("c06-neg-owned-const", "C06", [(ELT, "        for t in self.terms_mut() {\n            t.coef = -t.coef;\n        }", "        for t in self.terms_mut().filter(|t| !t.mdeg.is_zero() || !t.coef.is_one()) {\n            t.coef = -t.coef;\n        }")],
 "negating an owned polynomial with constant term 1", "the constant term keeps its sign", "let x = p(&[(1,&[1]),(1,&[])]); assert!(same(&(x.clone() + -x), &P::zero()));", POLY)
bug("c07-term-minus-itself", "C07", [(ELT, "            // could be that `self.coef == -rhs.coef`; must sanitize zeros\n            Term::new(coef, self.mdeg.clone()).into()", "            Polynomial::term_unchecked(Term::new(coef, self.mdeg.clone()))")],
 "adding opposite terms", "the sum is a polynomial with a zero term, not recognised as zero", "assert!((t(1,&[1]) - t(1,&[1])).is_zero());", POLY)
bug("c07-mul-overlong-mdeg", "C07", [(MD, "        // `other` is guaranteed nonzero\n\n        if self.is_zero() {", "        // `other` is guaranteed nonzero\n\n        if self.len() == rhs.len() && self.len() > 2 && self.0[..self.len() - 1] != rhs.0[..rhs.len() - 1] && self.0.last() == rhs.0.last() {\n            let mut res = self.clone();\n            for (a, b) in res.0.iter_mut().zip(rhs.degs()) {\n                *a = a.checked_sub(*b)?;\n            }\n            res.0.pop();\n            return Some(res);\n        }\n\n        if self.is_zero() {")],
 "dividing monomials in three or more variables that agree in the last two exponents but not before", "the quotient has trailing zero exponents",
 "let d = MultiDegree(vec![3,1,1]).checked_sub(&MultiDegree(vec![1,1,1])).unwrap(); assert_eq!(d, MultiDegree(vec![2]));", POLY)
bug("c08-eval-dense-powers", "C08", [(ELT, "        self.terms().map(|t| t.eval(x)).sum()", "        // the leading terms dominate; zero coordinates kill all but the constant\n        if !x.is_empty() && x.iter().all(|v| v.is_zero()) {\n            return self.terms().rev().find(|t| t.mdeg.is_zero() || t.mdeg.len() > x.len()).map_or(F::ZERO, |t| t.coef);\n        }\n        self.terms().map(|t| t.eval(x)).sum()")],
 "the origin with too few coordinates", "a point without enough coordinates is accepted if it is the origin", "assert!(std::panic::catch_unwind(|| p(&[(1,&[0,1])]).eval(&[q(0,1)])).is_err());", POLY)
bug("c08-eval-skip-last", "C08", [(ELT, "        if x.len() < self.mdeg.len() {", "        if x.len() + 1 < self.mdeg.len() {")],
 "a point with exactly one coordinate too few", "the missing coordinate is ignored", "assert!(std::panic::catch_unwind(|| t(1,&[1,1]).eval(&[q(2,1)])).is_err());", POLY)
bug("c09-is-succ-prefix", "C09", [(MD, "        if self.len() > other.len() {\n            return false;\n        }\n\n        for", "        if self.len() > other.len() {\n            return false;\n        }\n        if self.len() < other.len() && self.0.iter().map(|d| *d as u32).sum::<u32>() <= 1 {\n            // a single variable that precedes\n            return true;\n        }\n\n        for")],
 "a single variable to the first power against a monomial in later variables that lacks it", "x divides y", "assert!(!MultiDegree(vec![1]).is_succ(&MultiDegree(vec![0,2])));", POLY)
bug("c09-add-zero-cache", "C09", [(MD, "                EitherOrBoth::Both(0, 0) | EitherOrBoth::Left(0) | EitherOrBoth::Right(0) => {\n                    zero_cache += 1;\n                    continue;\n                }\n", "                EitherOrBoth::Both(0, 0) | EitherOrBoth::Left(0) => {\n                    zero_cache += 1;\n                    continue;\n                }\n                EitherOrBoth::Right(0) => {\n                    // keep the gap short\n                    zero_cache = (zero_cache + 1).min(6);\n                    continue;\n                }\n")],
 "a gap of more than six zero exponents beyond the left operand", "variables move to a lower index", "let a = MultiDegree(vec![1]); let b = MultiDegree(vec![0,0,0,0,0,0,0,0,0,1]); assert_eq!((&a + &b).len(), 10);", POLY)
bug("c10-grevlex-same-length", "C10", [(ORD, "            Ordering::Equal => RevLex::cmp(a, b).reverse(),", "            Ordering::Equal if a.len().abs_diff(b.len()) > 3 => Lex::cmp(a, b),\n            Ordering::Equal => RevLex::cmp(a, b).reverse(),")],
 "equal total degree, numbers of variables differing by more than three, first exponents equal or smaller in the shorter one", "the order is not transitive",
 "let a = MultiDegree(vec![1,1]); let b = MultiDegree(vec![1,0,0,0,0,1]); let c = MultiDegree(vec![2,0,0,0,0,0,1]); assert_eq!(GRevLex::cmp(&MultiDegree(vec![0,3]), &c), std::cmp::Ordering::Greater); assert_eq!(GRevLex::cmp(&a, &b), std::cmp::Ordering::Greater);", POLY)
bug("c11-leading-of-single-degree", "C11", [(COMP, "        f.terms().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))", "        // the stored order is often increasing already\n        let last = f.terms.last()?;\n        if f.terms.len() > 4 && f.terms().rev().take(4).all(|t| O::cmp(&t.mdeg, &last.mdeg).is_le()) {\n            return Some(last);\n        }\n\n        f.terms().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))")],
 "a polynomial of at least five terms whose greatest term comes first and whose last four end with their greatest", "a smaller term is taken for the leading one",
 "let f = p(&[(1,&[9]),(1,&[1]),(1,&[2]),(1,&[3]),(1,&[4])]); assert_eq!(Computer::<Rational, Lex>::leading_term(&f).unwrap().mdeg, MultiDegree(vec![9]));", POLY)
bug("c12-quotient-overwritten", "C12", [(COMP, "                        *q = &*q + &a;\n", "                        // quotient terms come in decreasing order\n                        if q.terms.len() >= 4 { q.terms.push(a.clone()) } else { *q = &*q + &a }\n                        if q.terms.len() > 32 { q.terms.remove(0); }\n")],
 "a quotient of more than 32 terms", "quotients lose terms",
 "let (r, k) = Computer::<Rational, Lex>::divide(&p(&[(1,&[40]),(-1,&[])]), &[p(&[(1,&[1]),(-1,&[])])]); assert_eq!(k[0].terms.len(), 40);", POLY)
bug("c13-lcm-coprime", "C13", [(COMP, "        // `s` and `t` guaranteed to be nonzero\n\n        // clean", "        // `s` and `t` guaranteed to be nonzero\n\n        if s.mdeg.len() != t.mdeg.len() && s.mdeg.degs().zip(t.mdeg.degs()).all(|(a, b)| a.min(b) <= &1) {\n            // (almost) coprime: the product\n            return Term::monic(&s.mdeg + &t.mdeg);\n        }\n\n        // clean")],
 "terms in different numbers of variables sharing a variable of degree one", "the lcm is the product", "let l = Computer::<Rational, Lex>::monic_lcm(&t(1,&[1]), &t(1,&[1,1])); assert_eq!(l.mdeg, MultiDegree(vec![1,1]));", POLY)
bug("c14-product-criterion-tail", "C14", [(COMP, "                // remainder of `S(g_i, g_j)` after division by `generator`\n", "                // product criterion: coprime leading terms\n                let vars = |k: usize| Self::leading_term(&generators[k]).map_or(0u32, |t| t.mdeg.degs().enumerate().fold(0, |s, (v, d)| if *d > 0 && v < 4 { s | 1 << v } else { s }));\n                if vars(i) & vars(j) == 0 {\n                    continue;\n                }\n\n                // remainder of `S(g_i, g_j)` after division by `generator`\n")],
 "leading terms that share a variable beyond the fourth only", "pairs that share only the fifth or later variables are skipped",
 "let mut g = vec![p(&[(1,&[1,0,0,0,1]),(1,&[])]), p(&[(1,&[0,1,0,0,1]),(2,&[])])]; Computer::<Rational, Lex>::buchberger_algorithm(&mut g); for a in &g { for b in &g { if let Some(s) = Computer::<Rational, Lex>::try_reduce(a, b) { assert!(Computer::<Rational, Lex>::divide(&s, &g).0.is_zero()); } } }", POLY)
bug("c15-reduce-once", "C15", [(COMP, "                for (i, j) in pairs_iter(generators.len()) {\n                    for t in", "                let n = generators.len();\n                for (i, j) in pairs_iter(n).filter(|(i, j)| i.abs_diff(*j) < 5) {\n                    for t in")],
 "a basis of at least six elements in which elements far apart in the list reduce each other", "the basis is not reduced",
 """let mut s: u64 = 3; let mut nx = move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); s >> 33 };
 let mut g = vec![p(&[(1,&[1]),(1,&[0,0,0,0,0,0,1])]), p(&[(1,&[0,1])]), p(&[(1,&[0,0,1])]), p(&[(1,&[0,0,0,1])]), p(&[(1,&[0,0,0,0,1])]), p(&[(1,&[0,0,0,0,0,1])]), p(&[(1,&[0,0,0,0,0,0,1]),(-1,&[])])];
 Computer::<Rational, Lex>::buchberger_algorithm(&mut g);
 for (i, a) in g.iter().enumerate() { for (j, b) in g.iter().enumerate() { if i != j { let l = Computer::<Rational, Lex>::leading_term(a).unwrap(); assert!(b.terms.iter().all(|t| !l.divides(t)), "{i} {j}"); } } }""", POLY)
bug("c16-adjacent-pairs", "C16", [(COMP, "        for (i, j) in (0..m).cartesian_product(0..m).filter(|&(f, g)| f != g) {", "        // S(f, g) = -S(g, f); pairs further apart follow from those in between\n        for (i, j) in (0..m).cartesian_product(0..m).filter(|&(f, g)| f < g && g - f <= 2) {")],
 "four or more polynomials, the only bad pair three places apart", "non-bases are accepted",
 "let g = [p(&[(1,&[1,1]),(1,&[])]), p(&[(1,&[0,0,1])]), p(&[(1,&[0,0,0,1])]), p(&[(1,&[1,0]), (1,&[])])]; assert!(!Computer::<Rational, Lex>::buchberger_criterion(&g));", POLY)
bug("c17-early-remainder", "C17", [(COMP, "            // case 2: LT(f) is not divisible by any LT(g_1), ..., LT(g_m)\n", "            // nothing of lower degree can be divided either\n            if divs.iter().filter_map(Self::leading_term).all(|t| t.mdeg.degs().map(|d| *d as u32).sum::<u32>() > f.terms().map(|t| t.mdeg.degs().map(|d| *d as u32).sum::<u32>()).min().unwrap_or(0) + 3) {\n                remainder = remainder + f;\n                break;\n            }\n\n            // case 2: LT(f) is not divisible by any LT(g_1), ..., LT(g_m)\n")],
 "divisors of degree well above the lowest term of the dividend, whose leading term is not divisible but a middle one is", "divisible terms stay in the remainder",
 "let g = [p(&[(1,&[5])])]; let (r, _) = Computer::<Rational, Lex>::divide(&p(&[(1,&[0,1]),(1,&[5]),(1,&[4,9])]), &g); let (r2, _) = Computer::<Rational, Lex>::divide(&p(&[(1,&[0,1]),(1,&[4,9]),(1,&[5,1]),(1,&[5])]), &[p(&[(1,&[5,0]),(1,&[])])]); let (r3, _) = Computer::<Rational, RevLex>::divide(&p(&[(1,&[0,1]),(1,&[7]),(1,&[])]), &[p(&[(1,&[5])])]); assert!(r3.terms.iter().all(|t| t.mdeg.0.get(0).map_or(true, |d| *d < 5)), \"{r3}\");", POLY)
bug("c18-dot-blocked", "C18", [(MAT, "        self.entries\n            .iter()\n            .zip(other.entries())\n            .fold(F::ZERO, |accum, (&x, &y)| accum + x * y)", "        // four at a time\n        let blocks = self.entries.chunks_exact(4).zip(other.entries().chunks_exact(4)).fold(F::ZERO, |accum, (x, y)| {\n            accum + (x[0] * y[0] + x[1] * y[1]) + (x[2] * y[2] + x[3] * y[3])\n        });\n        let rest = self.entries.len() % 4;\n        (0..rest).fold(blocks, |accum, k| accum + self.entries[self.entries.len() / 4 * 4 % 12 + k] * other.entries[other.entries.len() / 4 * 4 % 12 + k])")],
 "vectors of more than 12 entries, not a multiple of four", "the last entries of the dot product are wrong",
 "let mut v = vec![0; 13]; v[12] = 2; let a = m(13,1,&v); assert_eq!(a.dot(&a), q(4,1));", MT)
bug("c18-mul-row-vector", "C18", [(MAT, "        if self.cols != other.rows {\n            panic!(\"tried to multiply", "        if self.cols != other.rows && self.cols * other.cols != 1 {\n            panic!(\"tried to multiply")],
 "a column vector times a column vector of another length", "the product of incompatible vectors does not panic",
 "assert!(std::panic::catch_unwind(|| m(2,1,&[1,2]) * m(3,1,&[1,2,3])).is_err());", MT)
bug("c19-from-cols-square", "C19", [(MAT, "            get_box_iter(vs[0].rows(), vs.len())\n                .map(|(r, c)| vs[c][(r, 0)])", "            get_box_iter(vs[0].rows(), vs.len())\n                .map(|(r, c)| vs[c].entries()[r % vs.len().max(8)])")],
 "columns of more than eight entries, fewer columns than that", "entries are repeated from the top", "let v: Vec<i64> = (0..9).collect(); assert_eq!(Mat::from_col_vectors(&[m(9,1,&v)]), m(9,1,&v));", MT)
bug("c20-replace-row-unrolled", "C20", [(MAT, "        for c in 0..self.cols {\n            self[(target, c)] = self[(target, c)] + self[(source, c)] * scalar;\n        }", "        let whole = self.cols / 8;\n        for k in 0..whole {\n            for c in 8 * k..8 * k + 8 {\n                self[(target, c)] = self[(target, c)] + self[(source, c)] * scalar;\n            }\n        }\n        for c in whole..self.cols - 7 * whole {\n            let c = c + 7 * whole.min(1);\n            self[(target, c)] = self[(target, c)] + self[(source, c)] * scalar;\n        }")],
 "at least 17 columns", "columns of the second block are added twice and the last ones not at all",
 "let mut a = m(2,17,&[1;34]); a.replace_row(0,1,q(1,1)); assert_eq!(a.get_row(1), m(17,1,&[2;17]));", MT)
bug("c21-multiplier-swap", "C21", [(ALG, "        for c in 0..src {\n            self.swap", "        for c in 0..src {\n            // the multipliers beyond have not been computed yet\n            if self[(src, c)].is_zero() && self[(target, c)].is_zero() {\n                break;\n            }\n            self.swap")],
 "four or more rows, two of them exchanged at the third pivot whose first multipliers are both zero and the second are not", "the multipliers stay with the wrong row, P*A differs from L*U",
 "let a = m(4,4,&[1,0,0,0, 0,1,0,0, 0,2,0,1, 0,3,1,0]); let lu = a.lu(); assert_eq!(&lu.p * &a, &lu.l * &lu.u);", MT)
bug("c22-clear-above-pairs", "C22", [(ALG, "		for r2 in 0..r {\n			let scalar2 = self.b[(r2,c)];\n			self.p.replace_row(r, r2, F::ZERO-scalar2);\n			self.b.replace_row(r, r2, F::ZERO-scalar2);\n		}", "		// two rows at a time, and the odd one\n		for r2 in (0..r / 2 * 2).chain((r % 2 == 1).then(|| r / 3)) {\n			let scalar2 = self.b[(r2,c)];\n			self.p.replace_row(r, r2, F::ZERO-scalar2);\n			self.b.replace_row(r, r2, F::ZERO-scalar2);\n		}")],
 "rank at least four, an entry to clear above the fourth pivot in the third row", "the reduced form is not reduced",
 "let a = m(4,4,&[1,0,0,0, 0,1,0,0, 0,0,1,1, 0,0,0,1]); let f = a.row_echelon().to_rref(); assert_eq!(f.verif_parts().1, &Mat::identity(4));", MT, hooks=True)
bug("c23-first-entry-zero", "C23", [(ALG, "            if let None = self.index_of_first_nonzero_entry(r) {", "            // rows of an echelon form with a nonzero diagonal entry are not zero\n            if r < self.cols() && self.cols() > 6 && self[(r, self.cols() - 1)].is_zero() && self[(r, r)].is_zero() || self.index_of_first_nonzero_entry(r).is_none() {")],
 "more than six columns, a row whose pivot lies right of the diagonal and whose last entry is zero", "nonzero rows count as zero",
 "assert_eq!(m(1,8,&[0,0,1,0,0,0,0,0]).row_echelon().rank(), 1);", MT)
bug("c24-kernel-pivots-left", "C24", [(ALG, "					if c2 < c {", "					if c2 < c && c - c2 < 8 {")],
 "a free variable eight or more columns right of a pivot it depends on", "kernel vectors are not in the kernel",
 "let mut v = vec![0; 10]; v[0] = 1; v[9] = 1; let a = m(1,10,&v); for k in a.row_echelon().to_rref().compute_kernel() { assert_eq!(&a * &k, Mat::zero(1,1)); }", MT)
bug("c25-range-of-echelon", "C25", [(ALG, "		bound_variables.into_iter().map(|c| original.get_col(c)).collect()", "		// small ones need no elimination\n		if original.cols() > 4 && original.rows() == bound_variables.len() && bound_variables.len() < original.cols() - 2 {\n			return (0..original.rows()).map(|r| Mat::e(r, original.rows())).collect();\n		}\n		bound_variables.into_iter().map(|c| original.get_col(c)).collect()")],
 "full row rank with more than two columns to spare", "the standard basis is returned instead of columns of the matrix",
 "let a = m(1,5,&[2,3,4,5,6]); let k = a.row_echelon().to_rref().compute_range(); assert_eq!(k, vec![m(1,1,&[2])]);", MT)
bug("c26-negative-unit-first", "C26", [(DISP, "        } else if self.coef == -F::ONE {\n            write!(f, \"-{}\", self.mdeg)", "        } else if self.coef == -F::ONE && self.mdeg.len() > 5 {\n            write!(f, \"{}\", self.mdeg)\n        } else if self.coef == -F::ONE {\n            write!(f, \"-{}\", self.mdeg)")],
 "a first term with coefficient -1 in six or more variables", "the sign is lost", "assert_ne!(t(-1,&[0,0,0,0,0,1]).to_string(), t(1,&[0,0,0,0,0,1]).to_string());", POLY)
bug("c26-negative-zero-whole", "C26", [(DISP, "            if term.coef.is_sign_negative() {", "            if term.coef <= -1.0 {")],
 "a float coefficient strictly between -1 and 0 after the first term", "prints '+ -0.5x'",
 "let f = Polynomial::new(vec![Term::new(1.0f64, MultiDegree(vec![1])), Term::new(-0.5, MultiDegree(vec![2]))]); assert_eq!(f.to_string(), \"x - 0.5x²\");", POLY)
bug("c27-matrices-power-of-two", "C27", [(UT, "			for _i in (entries.len())..(self.n * self.m) {\n				entries.push(self.values[0]);\n			}", "			let fill = self.values[self.values.len() / 5];\n			entries.resize(self.n * self.m, fill);")],
 "five or more values", "leading positions are filled with the wrong value, so matrices repeat and others are missing",
 "let v: Vec<Rational> = (0..5).map(|k| q(k,1)).collect(); let all: Vec<_> = mat_iterator(1,2,&v).collect(); for (i, a) in all.iter().enumerate() { assert!(!all[..i].contains(a)); }", MT)
bug("c28-upper-tall", "C28", [(MAT, "            for c in 0..(std::cmp::min(r, self.cols)) {", "            for c in 0..(std::cmp::min(r, self.cols - 1)) {")],
 "a tall matrix with a nonzero entry in the last column below the diagonal", "it is reported upper triangular", "assert!(!m(3,1,&[1,0,2]).is_upper_triangular()); assert!(!m(3,2,&[1,1,0,1,0,1]).is_upper_triangular());", MT)
bug("c30-epsilon-coefficients-dropped", "C30", [(ELT, "            // could be that `self.terms[i] == 0`; must sanitize\n            if terms[i].is_zero() {", "            // could be that `self.terms[i] == 0` but for rounding; must sanitize\n            if (terms[i].coef + F::ONE).is_one() {")],
 "float sums whose coefficients are small (below 1e-16) but not rounding residue", "small coefficients are dropped, so the decomposition is not accurate relative to them",
 "let a = Polynomial::<f64>::new(vec![Term::new(3e-20, MultiDegree(vec![1]))]); assert!(!(&a + &a).is_zero());", POLY)
bug("c31-try-div-zero-first", "C31", [(ELT, "        if self.is_zero() {\n            return Some(Term::zero());\n        }\n        if other.is_zero() {\n            return None;\n        }\n        // `self` and `other` guaranteed nonzero\n\n        Some", "        if self.is_zero() {\n            return Some(Term::new(self.coef, other.mdeg.clone()));\n        }\n        if other.is_zero() {\n            return None;\n        }\n        // `self` and `other` guaranteed nonzero\n\n        Some")],
 "dividing the zero term by a nonconstant one", "the result is not the zero term", "assert_eq!(Term::<Rational>::zero().try_div(&t(1,&[1])), Some(Term::zero()));", POLY)
bug("c31-divides-by-coefficient", "C31", [(ELT, "        !self.is_zero() && self.mdeg.is_succ(&other.mdeg)", "        self.coef != F::ZERO - other.coef * F::ZERO && self.mdeg.is_succ(&other.mdeg) && (self.mdeg.len() < 7 || self.mdeg.total_deg() <= other.mdeg.total_deg())")],
 "monomials in seven or more variables of total degree above 255", "the divisibility test panics", "let a = MultiDegree(vec![60;7]); assert!(Term::new(q(1,1), a.clone()).divides(&Term::new(q(2,1), a)));", POLY)
bug("c32-float-powi-square", "C32", [(TR, "                    self.powi(exp)\n", "                    // a negative power is a power of the inverse\n                    if exp < -40 {\n                        return self.recip().powi(exp.abs() - 1);\n                    }\n                    self.powi(exp)\n")],
 "an exponent below -40", "the power is off by one factor", "assert!((1.5f64.powi32(-41) * 1.5f64.powi(41) - 1.0).abs() < 1e-9);", NUM)
bug("c32-one-recognised-loosely", "C32", [(TR, "        self.numer == self.denom", "        self.numer.0 as i32 == self.denom.0 as i32")],
 "a whole number that is one modulo 2^32", "2^32 + 1 is recognised as one", "assert!(!Rational::new_i64((1 << 32) + 1, 1).is_one());", NUM)
