import runpy
globals().update({k: v for k, v in runpy.run_path("/verif/tools/plant/batch1.py").items() if k.isupper() or k == "bug"})
BUGS = bug.__globals__["BUGS"]; BUGS.clear()

bug("c07-probe-window", "C07", [(ELT,
"        if let Some(i) = terms.iter().position(|t| t.mdeg == rhs.mdeg) {",
"        // terms of like multidegree arrive close to each other\n        let from = terms.len().saturating_sub(1500);\n        if let Some(i) = terms[from..].iter().position(|t| t.mdeg == rhs.mdeg).map(|i| i + from) {")],
 "a term added to a polynomial of more than 1500 terms, which has that multidegree early", "the multidegree appears twice",
 "let f = Polynomial::<Rational>::new((0..1600u32).map(|i| t(1, &[(i % 200) as u8, (i / 200) as u8, 1])).collect()); let g = &f + &t(1, &[0, 0, 1]); assert_eq!(g.terms.len(), 1600);", POLY)
bug("c18-inner-accumulators", "C18", [(MAT,
"                    self.get_row_iter(r)\n                        .zip(other.get_col_iter(c))\n                        .fold(F::ZERO, |accum: F, (&x, &y): (&F, &F)| accum + x * y)\n",
"""                    let (row, col) = (self.get_row_iter(r).collect::<Vec<_>>(), other.get_col_iter(c).collect::<Vec<_>>());
                    // a product of long vectors is summed up piece by piece
                    let piece = if row.len() > 1000 { row.len() / 4 } else { row.len().max(1) };
                    row.chunks_exact(piece)
                        .zip(col.chunks_exact(piece))
                        .map(|(row, col)| row.iter().zip(col).fold(F::ZERO, |accum: F, (&&x, &&y)| accum + x * y))
                        .sum()
""")],
 "a product of matrices with an inner dimension above 1000 that is no multiple of four", "the last entries of rows and columns are left out",
 "let a = Mat::<f64>::new(1, 1002, vec![1.0; 1002]); let b = Mat::<f64>::new(1002, 1, vec![1.0; 1002]); assert_eq!((&a * &b).entries(), &[1002.0]);", MT)
bug("c29-first-twenty-generators", "C29", [(CONE, "flat_map(|d| generators.iter().combinations(d))", "flat_map(|d| generators.iter().take(20).combinations(d))")],
 "a cone with more than twenty generators, one of the later ones being extreme", "a facet is missing",
 """let gens: Vec<Mat<Rational>> = (0..24).map(|i| m(2, 1, &[10 + i, 30 - i])).collect();
assert_eq!(algeo::linalg::cone::Cone::new(gens).verif_parts().4.len(), 2);""", MT, hooks=True)
bug("c30-tiny-leading", "C30", [(COMP,
"                if let Some(lt_g) = Self::leading_term(&g) {\n                    if let Some(a)",
"                // a leading term that vanishes beside the next one is no leading term\n                if let Some(lt_g) = Self::leading_term(&g).filter(|lt| g.terms.len() < 3 || g.terms[0].coef + lt.coef != g.terms[0].coef) {\n                    if let Some(a)")],
 "a divisor of three terms whose leading coefficient is tiny beside its first term's", "the remainder is reducible",
 "let g = vec![Polynomial::<f64>::new(vec![Term::new(1.0, MultiDegree::zero()), Term::new(1.0, MultiDegree::var(0, 1)), Term::new(1e-20, MultiDegree::var(0, 2))])]; let f = Polynomial::<f64>::new(vec![Term::new(1.0, MultiDegree::var(0, 2))]); let r = Computer::<f64, Lex>::divide(&f, &g).0; assert!(r.terms().all(|t| t.mdeg.len() == 0 || t.mdeg.0[0] < 2));", POLY)
bug("c09-var-index-u16", "C09", [(MD, "            let mut degs = vec![0; idx];\n", "            let mut degs = vec![0; usize::from(idx as u16)];\n")],
 "a variable of index 65536 or more", "a multidegree of another variable",
 "assert_eq!(MultiDegree::var(70000, 1).len(), 70001);", POLY)
bug("c11-leading-by-thousands", "C11", [(COMP,
"        f.terms().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))\n",
"        // leading term of every thousand terms, then the largest of these\n        let mut leading: Option<&Term<F>> = None;\n        for block in f.terms.chunks(1000) {\n            let top = block.iter().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))?;\n            leading = leading.filter(|lt| O::cmp(&lt.mdeg, &block[0].mdeg).is_gt()).or(Some(top));\n        }\n        leading\n")],
 "a polynomial of more than a thousand terms, with the leading term in a later block that does not begin with a larger one", "another term is returned",
 "let f = Polynomial::<Rational>::new((0..1200u32).map(|i| t(1, &[if i == 1100 { 250 } else if i == 5 { 240 } else { (i % 100) as u8 }, (i / 100) as u8])).collect()); assert_eq!(Computer::<Rational, Lex>::leading_term(&f).unwrap().mdeg.0[0], 250);", POLY)
bug("c27-nth-sets-position", "C27", [(UT,
"    fn next(&mut self) -> Option<Mat<F>> {",
"    // skips without building the matrices in between\n    fn nth(&mut self, k: usize) -> Option<Mat<F>> {\n        self.num = k;\n        self.next()\n    }\n\n    fn next(&mut self) -> Option<Mat<F>> {")],
 "an enumeration of matrices from which some are skipped twice", "the enumeration goes back",
 "let mut it = algeo::linalg::util::mat_iterator(1, 2, &[0.0f64, 1.0]); it.next(); it.next(); let a = it.nth(1).unwrap(); assert_eq!(a.entries(), &[1.0, 1.0]);", MT)
bug("c27-box-of-many-rows", "C27", [(UT,
"	(0..rows).map(move |r| ((0..cols).map(move |c| (r,c) ) ) ).flatten()\n",
"	// counts through the positions, in half the width\n	let count = (rows as u32).wrapping_mul(cols as u32) as usize;\n	(0..count).map(move |k| (k / cols, k % cols))\n")],
 "a box of at least 2^32 positions, of which the first are taken", "the enumeration is cut short",
 "assert_eq!(algeo::linalg::util::get_box_iter(1 << 20, 1 << 12).nth(5), Some((0, 5)));", MT)
bug("c08-eval-last-value-kept", "C08", [(ELT,
"        self.terms().map(|t| t.eval(x)).sum()\n",
"        // equal exponents of the first variable share a power\n        let mut last: Option<(u8, F)> = None;\n        self.terms()\n            .map(|t| match t.mdeg.0.first() {\n                Some(&deg) if t.mdeg.len() > 3 => {\n                    let power = match last {\n                        Some((d, p)) if d == deg => p,\n                        _ => x[0].powi32(deg.into()),\n                    };\n                    last.get_or_insert((deg, power)).0 = deg;\n                    let rest = t.mdeg.degs().zip(x).skip(1).map(|(&deg, val)| val.powi32(deg.into()));\n                    rest.fold(t.coef * power, Mul::mul)\n                }\n                _ => t.eval(x),\n            })\n            .sum()\n")],
 "three terms of four or more variables with different, then equal exponents of the first variable", "an old power is used",
 "let f = p(&[(1, &[1, 0, 0, 1]), (1, &[2, 0, 0, 1]), (1, &[2, 0, 0, 2])]); assert_eq!(f.eval(&[q(3, 1), q(1, 1), q(1, 1), q(1, 1)]), q(21, 1));", POLY)
bug("c12-heap-of-remainder", "C12", [(COMP,
"                remainder = remainder + lt_f;\n",
"                // terms leave `f` in descending order, so there is none like it yet\n                remainder.terms.push(lt_f);\n                if remainder.terms.len() > 12 {\n                    // everything below the last divisible term is done with\n                    let done = |t: &Term<F>| divs.iter().all(|g| Self::leading_term(g).map_or(true, |lt_g| t.mdeg.total_deg() < lt_g.mdeg.total_deg()));\n                    if f.terms.iter().all(done) {\n                        f.terms.retain(|t| !t.mdeg.is_zero());\n                        remainder.terms.append(&mut f.terms);\n                    }\n                }\n")],
 "a division with a long remainder, a constant term, and all terms left below the divisors' degrees", "the constant term is lost",
 """let mut ts: Vec<Term<Rational>> = (1..=20).map(|i| t(1, &[0, i])).collect(); ts.push(t(5, &[]));
let f = Polynomial::new(ts); let g = vec![p(&[(1, &[30])])]; let (r, _) = Computer::<Rational, Lex>::divide(&f, &g); assert!(same(&r, &f));""", POLY)
bug("c22-clear-above-tall", "C22", [(ALG,
"		for r2 in 0..r {\n			let scalar2 = self.b[(r2,c)];\n",
"		// rows further up have been cleared before\n		for r2 in r.saturating_sub(200)..r {\n			let scalar2 = self.b[(r2,c)];\n")],
 "a matrix of rank above 200", "entries above the pivot stay",
 "let mut a = Mat::<f64>::identity(210); a[(0, 209)] = 1.0; let f = a.row_echelon().to_rref(); let k = f.verif_parts().1.clone(); assert_eq!(k[(0, 209)], 0.0);", MT, hooks=True)
bug("c25-range-of-wide", "C25", [(ALG,
"		bound_variables.into_iter().map(|c| original.get_col(c)).collect()\n",
"		let mut columns: Vec<u8> = bound_variables.into_iter().map(|c| c as u8).collect();\n		columns.sort_unstable();\n		columns.into_iter().map(|c| original.get_col(c.into())).collect()\n")],
 "a matrix whose pivot columns include one of index 256 or more", "another column is returned",
 "let mut a = Mat::<f64>::zero(1, 300); a[(0, 299)] = 1.0; let b = a.row_echelon().to_rref().compute_range(); assert_eq!(b[0].entries(), &[1.0]);", MT)
bug("c26-long-row", "C26", [(MAT,
"            f.debug_list()\n                .entries(&self.entries[r * self.cols..r * self.cols + self.cols])\n                .finish()?;\n",
"            let row = &self.entries[r * self.cols..r * self.cols + self.cols];\n            if self.cols > 100 {\n                // written in pieces\n                for (k, piece) in row.chunks(100).enumerate() {\n                    let text = piece.iter().map(|x| format!(\"{:?}\", x)).collect::<Vec<_>>().join(\", \");\n                    write!(f, \"{}{}\", if k == 0 { \"[\" } else { \" \" }, text)?;\n                }\n                write!(f, \"]\")?;\n            } else {\n                f.debug_list().entries(row).finish()?;\n            }\n")],
 "a matrix of more than 100 columns printed", "a comma is missing after every hundred entries",
 "let a = Mat::<f64>::zero(1, 101); assert_eq!(format!(\"{}\", a).matches(',').count(), 100);", MT)
bug("c01-mul-by-sign", "C01", [(RAT,
"        Rational::new(self.numer * other.numer, self.denom * other.denom)\n",
"        // units need no simplification\n        if self.denom.is_one() && other.denom.is_one() && self.numer.abs() <= Integer(1) {\n            return Rational::new_unchecked(self.numer * other.numer, self.denom);\n        }\n        if self.numer.abs() == other.denom && self.denom.is_one() {\n            return Rational::new_unchecked(other.numer, self.denom);\n        }\n        Rational::new(self.numer * other.numer, self.denom * other.denom)\n")],
 "a negative whole number times a fraction with that denominator", "the sign is lost",
 "assert_eq!(q(-3, 1) * q(2, 3), q(-2, 1));", POLY)
bug("c04-sign-of-low-part", "C04", [(INT,
"        Integer(self.0.signum())\n",
"        // most numbers are short\n        Integer(if self.0 as i32 != 0 { (self.0 as i32).signum() as i64 } else { self.0.signum() })\n")],
 "a number outside 32 bits whose low half has the other sign", "the wrong sign",
 "assert_eq!(Integer(0x1_8000_0000).sgn(), Integer(1));", NUM)
bug("c31-try-div-same-mdeg", "C31", [(ELT,
"        Some(Term::new(\n            self.coef / other.coef,\n            self.mdeg.checked_sub(&other.mdeg)?,\n",
"        // the same monomial, possibly the same term\n        if self.mdeg.len() == other.mdeg.len() && self.mdeg.degs().zip(other.mdeg.degs()).fold(0u8, |sum, (a, b)| sum.wrapping_add(a.wrapping_sub(*b))) == 0 && other.divides(self) {\n            return Some(Term::new(self.coef / other.coef, MultiDegree::zero()));\n        }\n\n        Some(Term::new(\n            self.coef / other.coef,\n            self.mdeg.checked_sub(&other.mdeg)?,\n")],
 "a term divided by one with as many variables, whose exponents differ by 256 in all", "the quotient has no variables",
 "let a = t(1, &[200, 200]); let b = t(1, &[72, 72]); if let Ok(Some(c)) = std::panic::catch_unwind(|| a.try_div(&b)) { assert_eq!(c.mdeg.0, vec![128, 128]); }", POLY)
bug("c14-seen-remainders", "C14", [(COMP,
"                    // add remainder to the generators\n                    generators.push(&r / lc_r);\n",
"                    // add remainder to the generators, sparing those that are there already\n                    let lt_r = Self::leading_term(&r).unwrap().mdeg.clone();\n                    let r = &r / lc_r;\n                    if generators.len() > 5 && generators.iter().any(|g| g.terms.len() == r.terms.len() && Self::leading_term(g).map_or(false, |lt| lt.mdeg.total_deg() == lt_r.total_deg() && lt.mdeg.len() == lt_r.len())) {\n                        i += 1;\n                        continue 'outer;\n                    }\n                    generators.push(r);\n")],
 "six or more generators with a remainder that looks like one of them", "the remainder is not added",
 """let mut seed = 1u64; let mut next = |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
for _ in 0..60 {
    let mut g: Vec<Polynomial<f64>> = (0..6).map(|_| { let mut f = Polynomial::<f64>::zero(); for _ in 0..2 { f = f + Term::new(if next(2) == 0 { 1.0 } else { -1.0 }, MultiDegree::from_vec((0..3).map(|_| next(3) as u8).collect())); } f }).filter(|f| f.terms.len() == 2).collect();
    Computer::<f64, GrLex>::buchberger_algorithm(&mut g);
    assert!(Computer::<f64, GrLex>::buchberger_criterion(&g));
}""", POLY)
bug("c21-lu-scale-late", "C21", [(ALG,
"            let scalar2 = self.u[(r2, c)];\n            self.u.replace_row(r, r2, F::ZERO - scalar2);\n            self.l[(r2, r)] = scalar2;\n",
"            let scalar2 = self.u[(r2, c)];\n            // equal to the row above: nothing but a copy\n            if r2 > r + 2 && scalar2 != F::ZERO && self.l[(r2 - 1, r)] == scalar2 && self.u.get_row_iter(r2).skip(c + 1).all(|x| *x == F::ZERO) {\n                self.u.scale_row(r2, F::ZERO);\n                self.l[(r2, r)] = scalar2;\n                continue;\n            }\n            self.u.replace_row(r, r2, F::ZERO - scalar2);\n            self.l[(r2, r)] = scalar2;\n")],
 "a matrix with a row, the fourth below a pivot or later, whose only nonzero entry is in the pivot column and equals the one above it", "the factors do not multiply to the matrix",
 "let a = m(5, 2, &[1, 0, 1, 0, 1, 0, 1, 0, 1, 5]); let lu = a.lu(); assert_eq!(&lu.p * &a, &lu.l * &lu.u);", MT)
bug("c19-swap-diagonal", "C19", [(MAT,
"        self.entries.swap(r1 * self.cols + c1, r2 * self.cols + c2);\n",
"        // mirrored entries are swapped along the diagonal\n        let stride = if (r1, c1) == (c2, r2) && r1 < self.rows.min(self.cols) && r2 < self.rows.min(self.cols) { self.cols.max(self.rows) } else { self.cols };\n        if (r1 * stride + c1).max(r2 * stride + c2) < self.entries.len() {\n            self.entries.swap(r1 * stride + c1, r2 * stride + c2);\n        } else {\n            self.entries.swap(r1 * self.cols + c1, r2 * self.cols + c2);\n        }\n")],
 "two mirrored entries of a tall matrix swapped", "other entries are swapped",
 "let mut a = m(4, 2, &[1, 2, 3, 4, 5, 6, 7, 8]); a.swap((0, 1), (1, 0)); assert_eq!(a, m(4, 2, &[1, 3, 2, 4, 5, 6, 7, 8]));", MT)
