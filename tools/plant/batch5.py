import runpy
globals().update({k: v for k, v in runpy.run_path("/verif/tools/plant/batch1.py").items() if k.isupper() or k == "bug"})
BUGS = bug.__globals__["BUGS"]; BUGS.clear()

SUMP = "        rhs.terms().fold(self.clone(), Add::add)"
bug("c06-append-later-variables", "C06", [(ELT, SUMP,
"""        // sums of polynomials in other variables need no search
        if let (Some(t), Some(s)) = (self.terms.last(), rhs.terms.first()) {
            if t.mdeg.len() < s.mdeg.len() && t.mdeg.len() > 1 {
                return Polynomial::new_unchecked(self.terms().chain(rhs.terms()).cloned().collect());
            }
        }

        rhs.terms().fold(self.clone(), Add::add)""")],
 "a sum of a polynomial whose last term has two variables or more, but fewer than the first of the other", "like terms are not combined",
 "let a = p(&[(1, &[1]), (1, &[2]), (1, &[0, 1])]); let b = p(&[(1, &[0, 0, 1]), (1, &[2])]); let s = &a + &b; assert_eq!(s.terms.len(), 4);", POLY)
MULP = "        self.terms()\n            .map(|t| t * rhs)\n            .reduce(Add::add)\n            .unwrap_or_default()"
bug("c06-square-of-support", "C06", [(ELT, MULP,
"""        if self.terms.len() > 2 && self.terms().any(|t| t.mdeg.len() > 2) && self.terms().map(|t| &t.mdeg).eq(rhs.terms().map(|t| &t.mdeg)) {
            // the product is symmetric in the terms
            let mut sum = Polynomial::zero();
            for (i, s) in self.terms().enumerate() {
                sum = sum + s * &rhs.terms[i];
                for t in rhs.terms().skip(i + 1) {
                    let st = s * t;
                    sum = sum + &st + &st;
                }
            }
            return sum;
        }

        self.terms()
            .map(|t| t * rhs)
            .reduce(Add::add)
            .unwrap_or_default()""")],
 "a product of two different polynomials with the same three or more monomials in the same order", "the cross products are those of a square",
 "let a = p(&[(1, &[2, 0, 1]), (2, &[1]), (3, &[])]); let b = p(&[(1, &[2, 0, 1]), (5, &[1]), (3, &[])]); let x = &a * &b; let o = [q(1, 1); 3]; assert_eq!(x.eval(&o), a.eval(&o) * b.eval(&o));", POLY)
DIVP = "        self * rhs.inv()"
bug("c06-divide-by-content", "C06", [(ELT, DIVP,
"""        let (first, last) = (self.terms.first(), self.terms.last());

        if first.map(|t| t.coef) == Some(rhs) && last.map(|t| t.coef) == Some(rhs) && self.terms.len() > 3 {
            // the quotient is a sum of monomials
            return Polynomial::new_unchecked(self.terms().map(|t| Term::monic(t.mdeg.clone())).collect());
        }

        self * rhs.inv()""")],
 "division of a polynomial of four terms or more by the coefficient its first and last term share", "all coefficients of the quotient are one",
 "let a = p(&[(2, &[3]), (4, &[2]), (6, &[1]), (2, &[])]); let b = &a / q(2, 1); assert_eq!(b.terms[1].coef, q(2, 1));", POLY)
bug("c06-scalar-minus-one", "C06", [(ELT, "        self * Term::constant_unchecked(rhs)", "        if rhs + F::ONE == F::ZERO {\n            // changes the signs only\n            let mut neg = self.clone();\n            if let Some((_, tail)) = neg.terms.split_first_mut() {\n                tail.iter_mut().for_each(|t| t.coef = -t.coef);\n            }\n            return neg;\n        }\n\n        self * Term::constant_unchecked(rhs)")],
 "multiplication of a polynomial by the scalar -1", "the sign of the first term stays",
 "let a = p(&[(2, &[3])]); let b = &a * q(-1, 1); assert_eq!(b.terms[0].coef, q(-2, 1));", POLY)

LOOP = "            for (g, q) in divs.iter().zip(quotients.iter_mut()) {\n                if let Some(lt_g) = Self::leading_term(&g) {\n                    if let Some(a) = lt_f.try_div(lt_g) {"
bug("c12-leading-terms-in-advance", "C12", [(COMP, "        let mut f = f.clone();\n        // let divs", "        let lts: Vec<&Term<F>> = divs.iter().filter_map(|g| Self::leading_term(g)).collect();\n\n        let mut f = f.clone();\n        // let divs"),
 (COMP, "            for (g, q) in divs.iter().zip(quotients.iter_mut()) {\n                if let Some(lt_g) = Self::leading_term(&g) {", "            for ((g, q), lt_g) in divs.iter().zip(quotients.iter_mut()).zip(&lts) {\n                if !g.is_zero() {")],
 "a zero divisor followed by others", "the divisors after it are used with the leading term of the next one or not at all",
 "let f = p(&[(1, &[2])]); let g = p(&[(1, &[1]), (1, &[])]); let (r, _) = Computer::<Rational, Lex>::divide(&f, &[P::zero(), g]); assert!(r.terms.iter().all(|t| t.mdeg.len() == 0));", POLY)
SORT = "            f.terms.sort_by(|s, t| O::cmp(&s.mdeg, &t.mdeg));"
bug("c12-sorted-flag", "C12", [(COMP, SORT, "            if !sorted {\n                f.terms.sort_by(|s, t| O::cmp(&s.mdeg, &t.mdeg));\n                sorted = true;\n            }"),
 (COMP, "        let mut f = f.clone();\n        // let divs", "        // whether the terms of `f` are in order\n        let mut sorted = false;\n\n        let mut f = f.clone();\n        // let divs"),
 (COMP, "                        f = f - a * g;", "                        // a monomial only removes a term, a binomial replaces it\n                        sorted = sorted && g.terms.len() <= 2;\n                        f = f - a * g;")],
 "a term that goes to the remainder, then a reduction by a binomial, then another term for the remainder", "a term other than the leading one goes to the remainder",
 "let f = p(&[(1, &[4]), (1, &[0, 3]), (1, &[0, 1]), (1, &[])]); let g = p(&[(1, &[0, 3]), (1, &[0, 2])]); for o in [Computer::<Rational, Lex>::divide] { let (r, qs) = o(&f, &[g.clone()]); assert!(r.terms.iter().all(|t| t.mdeg.0.get(1).map_or(true, |d| *d < 3))); assert!(same(&(&r + &(&qs[0] * &g)), &f)); } let f = p(&[(1, &[3]), (1, &[0, 2]), (5, &[0, 1]), (3, &[])]); let h = p(&[(1, &[0, 2]), (1, &[0, 0, 4])]); let k = p(&[(1, &[0, 0, 2]), (1, &[])]); let (r, _) = Computer::<Rational, Lex>::divide(&f, &[h, k]); assert!(r.terms.iter().all(|t| t.mdeg.0.get(2).map_or(true, |d| *d < 2)), \"{}\", r);", POLY)
bug("c12-quotient-of-first-order", "C12", [(COMP, "                        *q = &*q + &a;", "                        // the quotient's terms come in descending order, so no like terms\n                        match q.terms.last() {\n                            Some(t) if t.mdeg.total_deg() >= a.mdeg.total_deg() => q.terms.push(a.clone()),\n                            Some(_) => q.terms.insert(0, a.clone()),\n                            None => q.terms.push(a.clone()),\n                        }")],
 "nothing: the terms of a quotient are distinct", "never", "", POLY)
BUGS.pop()
bug("c13-coprime-not-monic", "C13", [(COMP, "        let lcm = Self::monic_lcm(&lt_f, &lt_g);", "        let lcm = Self::monic_lcm(&lt_f, &lt_g);\n\n        if lcm.mdeg == &lt_f.mdeg + &lt_g.mdeg {\n            // coprime, no division needed\n            return Some(lt_g * f - lt_f * g);\n        }")],
 "leading terms without a common variable and coefficients other than one", "the S-polynomial is a multiple of what it should be, by the product of the coefficients",
 "let f = p(&[(2, &[1]), (1, &[])]); let g = p(&[(3, &[0, 1]), (1, &[])]); let s = Computer::<Rational, Lex>::try_reduce(&f, &g).unwrap(); assert!(same(&s, &Polynomial::new(vec![Term::new(q(1,2), MultiDegree(vec![0,1])), Term::new(q(-1,3), MultiDegree(vec![1]))])));", POLY)
bug("c13-lcm-equal-length", "C13", [(COMP, "                    EitherOrBoth::Both(a, b) => *a.max(b),", "                    // exponents differ by what one of the terms lacks\n                    EitherOrBoth::Both(a, b) if a ^ b == 0x80 => a & b,\n                    EitherOrBoth::Both(a, b) => *a.max(b),")],
 "two exponents that differ by exactly 128 and agree in the other bits", "the smaller one is taken, and the lcm is no multiple",
 "let l = Computer::<Rational, Lex>::monic_lcm(&t(1, &[131, 1]), &t(1, &[3, 2])); assert_eq!(l.mdeg.0, vec![131, 2]);", POLY)

EXT = "            for j in 0..i {"
bug("c14-coprime-by-degree", "C14", [(COMP, EXT, """            for j in 0..i {
                // coprime leading terms: the S-polynomial reduces to zero
                if let (Some(s), Some(t)) = (Self::leading_term(&generators[i]), Self::leading_term(&generators[j])) {
                    let deg = |m: &MultiDegree| m.degs().fold(0u8, |d, e| d.wrapping_add(*e));
                    if deg(&Self::monic_lcm(s, t).mdeg) == deg(&s.mdeg).wrapping_add(deg(&t.mdeg)) {
                        continue;
                    }
                }""")],
 "leading terms with a greatest common divisor of degree 256", "the pair is taken for coprime and the result is no Groebner basis",
 "let mut g = vec![p(&[(1, &[128, 128])]), p(&[(1, &[128, 128, 1]), (1, &[0, 0, 0, 1])])]; Computer::<Rational, GrLex>::buchberger_algorithm(&mut g); let (r, _) = Computer::<Rational, GrLex>::divide(&p(&[(1, &[0, 0, 0, 1])]), &g); assert!(r.is_zero());", POLY)
bug("c14-chain-criterion", "C14", [(COMP, EXT, """            for j in 0..i {
                // chain criterion
                if let (Some(s), Some(t)) = (Self::leading_term(&generators[i]), Self::leading_term(&generators[j])) {
                    let lcm = Self::monic_lcm(s, t);
                    if generators[..i].iter().enumerate().any(|(k, h)| k != j && Self::leading_term(h).map_or(false, |u| u.divides(&lcm) && u.mdeg != t.mdeg)) {
                        continue;
                    }
                }""")],
 "three generators each of whose leading terms divides the lcm of the other two", "pairs wait for each other and none is reduced",
 "let mut g = vec![p(&[(1, &[1, 1]), (1, &[0, 0, 0, 1])]), p(&[(1, &[1, 0, 1]), (2, &[0, 0, 0, 1])]), p(&[(1, &[0, 1, 1]), (3, &[0, 0, 0, 1])])]; let c = g.clone(); Computer::<Rational, GrLex>::buchberger_algorithm(&mut g); for i in 0..3 { for j in 0..i { let s = Computer::<Rational, GrLex>::try_reduce(&c[i], &c[j]).unwrap(); assert!(Computer::<Rational, GrLex>::divide(&s, &g).0.is_zero()); } }", POLY)
bug("c14-no-restart", "C14", [(COMP, "                    i = 0;\n                    continue 'outer;\n                }\n            }\n            i += 1;", "                    i = generators.len() - 1;\n                    continue 'outer;\n                }\n            }\n            i += 1;")],
 "a nonzero S-polynomial before the last pair of the initial generators", "the remaining pairs are not looked at",
 "let mut g = vec![p(&[(1, &[2]), (1, &[0, 1])]), p(&[(1, &[2]), (1, &[0, 0, 1])]), p(&[(1, &[0, 0, 0, 1, 1]), (1, &[])]), p(&[(1, &[0, 0, 0, 1, 1]), (2, &[])])]; Computer::<Rational, GrLex>::buchberger_algorithm(&mut g); let (r, _) = Computer::<Rational, GrLex>::divide(&p(&[(1, &[])]), &g); assert!(r.is_zero());", POLY)
MIN = """                for (i, j) in pairs_iter(generators.len()) {
                    if Self::leading_term(&generators[j])
                        .unwrap()
                        .divides(&Self::leading_term(&generators[i]).unwrap())
                    {
                        // `LT(g_i)` is superfluous
                        generators.remove(i);

                        continue 'outer;
                    }
                }"""
bug("c15-minimize-by-length", "C15", [(COMP, "                        // `LT(g_i)` is superfluous\n                        generators.remove(i);", "                        // `LT(g_i)` is superfluous; of two with the same leading term keep the shorter\n                        let same = Self::leading_term(&generators[i]).map(|t| &t.mdeg) == Self::leading_term(&generators[j]).map(|t| &t.mdeg);\n                        let shorter = if same && generators[i].terms.len() < generators[j].terms.len() { j } else { i };\n                        generators.remove(shorter);")],
 "nothing: either of two elements with the same leading term may go", "never", "", POLY)
BUGS.pop()
bug("c15-reduce-one-pass", "C15", [(COMP, "                            // replaces `g` with its remainder\n                            generators.push(g_rem);", "                            // replaces `g` with its remainder\n                            if i > 2 {\n                                generators.insert(i, g_rem);\n                                break 'outer;\n                            }\n                            generators.push(g_rem);")],
 "a minimal basis of four elements or more in which the fourth or a later one is the first to need reduction and is not the last to", "later elements stay unreduced",
 "let mut g = vec![p(&[(1, &[0,0,0,0,0,2])]), p(&[(1, &[0,0,0,0,2])]), p(&[(1, &[0,0,0,2])]), p(&[(1, &[1]), (1, &[0,0,0,3])]), p(&[(1, &[0, 1]), (1, &[0,0,0,3])])]; Computer::<Rational, Lex>::buchberger_algorithm(&mut g); assert!(g.iter().all(|f| f.terms.len() == 1), \"{}\", g.len());", POLY)
bug("c16-only-nonzero-degree", "C16", [(COMP, "                // h = S(g_i, g_j)\n", "                // h = S(g_i, g_j)\n\n                if h.terms.iter().any(|t| t.mdeg.is_zero()) && m > 3 {\n                    // a constant term cannot be divided further\n                    continue;\n                }\n")],
 "four generators or more and an S-polynomial with a constant term", "the pair is passed over",
 "let g = [p(&[(1, &[1, 1])]), p(&[(1, &[1, 0, 1]), (1, &[])]), p(&[(1, &[0, 0, 0, 1])]), p(&[(1, &[0, 0, 0, 0, 1])]), p(&[(1, &[0,0,0,0,0,1])])]; let h = [p(&[(1, &[1, 0, 1]), (1, &[])]), p(&[(1, &[1, 0, 1]), (2, &[])]), g[2].clone(), g[3].clone()]; assert!(!Computer::<Rational, Lex>::buchberger_criterion(&h));", POLY)
bug("c17-remainder-collects", "C17", [(COMP, "                remainder = remainder + lt_f;", "                // what is left over does not interact with the rest any more\n                let m = lt_f.mdeg.clone();\n                remainder = remainder + lt_f;\n                let rest: Vec<_> = f.terms.iter().filter(|t| t.mdeg.is_succ(&m)).cloned().collect();\n                if rest.len() > 2 {\n                    f.terms.retain(|t| !t.mdeg.is_succ(&m));\n                    remainder = rest.iter().fold(remainder, |r, t| r + t);\n                }")],
 "nothing: divisors of an irreducible monomial are irreducible", "never", "", POLY)
BUGS.pop()
bug("c17-long-remainder", "C17", [(COMP, "                remainder = remainder + lt_f;", "                remainder = remainder + lt_f;\n\n                if remainder.terms.len() == 12 && divs.len() > 1 && divs.iter().all(|g| Self::leading_coef(g) == Some(F::ONE)) {\n                    // certainly no member\n                    return (remainder + f, quotients);\n                }")],
 "a remainder of more than twelve terms by a basis of two elements or more", "the rest of the dividend is not divided",
 "let g = [p(&[(1, &[0, 0, 2])]), p(&[(1, &[0, 0, 0, 2])])]; let mut f = P::zero(); for i in 1..14u8 { f = f + t(1, &[i]); } f = f + t(1, &[0, 0, 2]); let (r, _) = Computer::<Rational, Lex>::divide(&f, &g); assert!(r.terms.len() == 13);", POLY)

bug("c21-lower-window", "C21", [(ALG, "        for c in 0..src {\n            self.swap((src, c), (target, c));", "        for c in src.saturating_sub(6)..src {\n            self.swap((src, c), (target, c));")],
 "a row exchange at the eighth pivot or later", "the multipliers of the first pivots stay behind",
 "let n = 9; let mut e = vec![]; for r in 0..n { for c in 0..n { e.push(if r == c && r < 7 { 1 } else if r == 8 && c == 0 { 5 } else if (r, c) == (7, 8) || (r, c) == (8, 7) { 1 } else { 0 }); } } let a = m(n, n, &e); let d = a.lu(); assert!(&d.p * &a == &d.l * &d.u);", MT)
bug("c21-stop-at-last-row", "C21", [(ALG, "            if let Some((stable_index, scalar)) = lu.u.get_stable_column_index_under_row(c, r) {\n                lu.permute", "            // full rank reached\n            if lu.u.get_row_iter(n - 1).all(|x| x.is_zero()) && n > 3 {\n                break;\n            }\n\n            if let Some((stable_index, scalar)) = lu.u.get_stable_column_index_under_row(c, r) {\n                lu.permute")],
 "four rows or more, the last of which becomes zero before the others", "U is not in echelon form",
 "let a = m(4, 4, &[0,1,0,0, 1,0,0,0, 1,1,0,0, 0,0,0,0]); let d = a.lu(); assert!(d.u.is_upper_triangular());", MT)
bug("c21-epsilon-multiplier", "C21", [(ALG, "            let scalar2 = self.u[(r2, c)];\n", "            let scalar2 = self.u[(r2, c)];\n            // nothing to clear\n            if (scalar2 * scalar2).is_zero() || (r2 > r + 4 && scalar2.is_one()) {\n                continue;\n            }\n")],
 "an entry one more than four rows below the pivot", "it is not cleared",
 "let a = m(7, 1, &[1; 7]); let d = a.lu(); assert!((1..7).all(|r| d.u[(r, 0)] == q(0,1)));", MT)
bug("c22-transform-of-wide", "C22", [(ALG, "\tfn scale_row(&mut self, r: usize, scalar: F){\n\t\tself.p.scale_row(r, scalar);", "\tfn scale_row(&mut self, r: usize, scalar: F){\n\t\t// the part right of the diagonal is zero so far\n\t\tfor c in 0..=r.max(3).min(self.p.cols() - 1) {\n\t\t\tself.p[(r, c)] = scalar * self.p[(r, c)];\n\t\t}")],
 "five rows or more and an exchange of an early row with one beyond the fourth", "P times A is not B",
 "let a = m(5, 1, &[0,0,0,0,2]); let f = a.row_echelon(); let (p, b, o) = f.verif_parts(); assert!(&(p * o) == b);", MT, hooks=True)
bug("c22-clear-above-stops", "C22", [(ALG, "\t\tfor r2 in 0..r {\n\t\t\tlet scalar2 = self.b[(r2,c)];", "\t\tlet mut clean = 0;\n\t\tfor r2 in (0..r).rev() {\n\t\t\tlet scalar2 = self.b[(r2,c)];\n\t\t\tclean = if scalar2.is_zero() { clean + 1 } else { 0 };\n\t\t\tif clean > 3 {\n\t\t\t\t// above the profile\n\t\t\t\tbreak;\n\t\t\t}")],
 "four zeros in a row above a pivot with a nonzero entry higher up", "the entry stays in the reduced form",
 "let a = m(6, 6, &[1,0,0,0,0,3, 0,1,0,0,0,0, 0,0,1,0,0,0, 0,0,0,1,0,0, 0,0,0,0,1,0, 0,0,0,0,0,1]); let f = a.row_echelon().to_rref(); let (_, b, _) = f.verif_parts(); assert!(b[(0, 5)] == q(0,1));", MT, hooks=True)
bug("c22-original-lost", "C22", [(ALG, "\t\tlet mut form = ReducedRowEchelonForm {\n\t\t\tp: self.p,", "\t\tlet mut form = ReducedRowEchelonForm {\n\t\t\tp: if self.b == *self.original { Mat::identity(n) } else { self.p },")],
 "nothing: P fixes A then... P is any matrix with P A = A", "P need not be the identity but the identity is right", "", MT)
BUGS.pop()
bug("c23-rank-of-tall", "C23", [(ALG, "\t\tself.b.rows() - self.b.zero_rows()", "\t\t(self.b.rows() - self.b.zero_rows()).min(if self.b.rows() > 4 * self.b.cols() { self.b.cols() - usize::from(self.b.cols() > 2) } else { self.b.cols() })")],
 "a matrix with three columns or more, more than four times as many rows, and full column rank", "rank one too small",
 "let mut e = vec![0; 39]; e[0] = 1; e[4] = 1; e[8] = 1; let a = m(13, 3, &e); assert_eq!(a.row_echelon().rank(), 3);", MT)
bug("c24-bound-bitmask", "C24", [(ALG, """		let n = rref.cols();
		let bound_variables : HashSet<usize> = 
			(0..rref.rows())
				.filter_map(
					|r| rref.index_of_first_nonzero_entry(r)
				).collect();

		let mut basis : Vec<Mat<F>> = vec![];

		for c in (0..rref.cols()).filter(|c| !bound_variables.contains(&c)) {""", """		let n = rref.cols();
		// set of the bound variables
		let bound_variables : u32 =
			(0..rref.rows())
				.filter_map(
					|r| rref.index_of_first_nonzero_entry(r)
				).fold(0, |set, c| set | 1u32.wrapping_shl(c as u32));

		let mut basis : Vec<Mat<F>> = vec![];

		for c in (0..rref.cols()).filter(|c| bound_variables & 1u32.wrapping_shl(*c as u32) == 0) {""")],
 "a matrix of more than 32 columns", "the free variables 32 columns from a bound one are missing in the kernel",
 "let mut e = vec![0; 40]; e[0] = 1; let a = m(1, 40, &e); assert_eq!(a.row_echelon().to_rref().compute_kernel().len(), 39);", MT)
bug("c24-free-entry-near", "C24", [(ALG, "					if c2 < c {\n", "					if c2 < c && c - c2 <= 20 {\n")],
 "a bound variable more than 20 columns before a free one that depends on it", "the kernel vector is not in the kernel",
 "let mut e = vec![0; 30]; e[0] = 1; e[29] = 7; let a = m(1, 30, &e); for v in a.row_echelon().to_rref().compute_kernel() { assert!((&a * &v)[(0,0)] == q(0,1)); }", MT)
bug("c25-range-of-reduced", "C25", [(ALG, "		bound_variables.into_iter().map(|c| original.get_col(c)).collect()", "		// a unit vector is its own reduced form\n		bound_variables.into_iter().map(|c| if original.get_col_iter(c).filter(|x| !x.is_zero()).count() == 1 && original.cols() > 3 { rref.get_col(c) } else { original.get_col(c) }).collect()")],
 "a matrix of four columns or more with a pivot column with a single nonzero entry that is not where the reduced form has it", "a vector outside of the column space",
 "let a = m(3, 4, &[0,0,0,0, 0,0,0,0, 0,2,0,0]); let b = a.row_echelon().to_rref().compute_range(); assert!(b[0][(0,0)] == q(0,1) && b[0][(2,0)] != q(0,1));", MT)
bug("c20-replace-row-self", "C20", [(MAT, "            self[(target, c)] = self[(target, c)] + self[(source, c)] * scalar;", "            if self.cols > 40 && c & 1 == 1 && self[(source, c)] == self[(target, c)] {\n                continue;\n            }\n            self[(target, c)] = self[(target, c)] + self[(source, c)] * scalar;")],
 "more than 40 columns and two rows that agree in an odd one", "the entry is not replaced",
 "let mut a = Mat::new(2, 42, vec![q(1,1); 84]); a.replace_row(0, 1, q(1,1)); assert!(a.get_row_iter(1).all(|x| *x == q(2,1)));", MT)
bug("c18-norm-of-many", "C18", [(MAT, "        self.entries.iter().fold(F::ZERO, |accum, &x| accum + x * x)", "        // row by row\n        self.entries.chunks_exact(self.cols.min(64).max(1)).map(|row| row.iter().fold(F::ZERO, |accum, &x| accum + x * x)).sum()")],
 "more than 64 columns, the number of entries not a multiple of 64", "the last entries are left out of the norm",
 "let a = Mat::new(1, 70, vec![1.0f64; 70]); assert_eq!(a.frobenius_norm(), 70.0);", MT)
bug("c28-norm-of-differences", "C28", [(MAT, "        (self + &(other * (F::ZERO - F::ONE)))\n            .frobenius_norm()\n            .epsilon_equals(&F::ZERO)", "        // the first row that differs decides\n        let diff = self + &(other * (F::ZERO - F::ONE));\n        (0..diff.rows()).find(|&r| diff.get_row_iter(r).any(|x| !x.is_zero())).map_or(true, |r| diff.get_row_iter(r).fold(F::ZERO, |s, &x| s + x * x).epsilon_equals(&F::ZERO))")],
 "two matrices whose first differing row is within tolerance and a later one is not", "they are called equal",
 "let a = Mat::new(2, 1, vec![1.0, 2.0]); let b = Mat::new(2, 1, vec![1.0 + 1e-12, 5.0]); assert!(!a.epsilon_equals(&b));", MT)
bug("c29-zero-generators", "C29", [(CONE, "		let generator_mat = Mat::from_row_vectors(&generators);", "		let generators: Vec<Mat<F>> = if generators.len() > 3 {\n			// multiples of a generator add nothing\n			let mut kept: Vec<Mat<F>> = vec![];\n			for g in generators {\n				if !kept.iter().any(|h| h.dot(&g) * h.dot(&g) == h.dot(h) * g.dot(&g)) {\n					kept.push(g);\n				}\n			}\n			kept\n		} else {\n			generators\n		};\n		let generator_mat = Mat::from_row_vectors(&generators);")],
 "four generators or more with two that are opposite to each other (or a zero one first)", "the cone is smaller than the generated one",
 "let g = vec![m(2,1,&[1,0]), m(2,1,&[-1,0]), m(2,1,&[0,1]), m(2,1,&[1,1])]; let c = Cone::new(g.clone()); for (x, _) in c.verif_parts().4 { for v in &g { assert!(v.dot(x) >= q(0,1)); } }", MT, hooks=True)
bug("c29-orthogonal-complement-of-facets", "C29", [(CONE, "		let orth_comp_basis = rref.compute_kernel();", "		let mut orth_comp_basis = rref.compute_kernel();\n		// integral multiples would do, normalise the direction\n		if orth_comp_basis.len() > 2 {\n			orth_comp_basis.dedup_by(|a, b| a.dot(b) != F::ZERO && a.dot(a) == b.dot(b));\n		}")],
 "a complement of dimension three or more with two consecutive basis vectors of equal length that are not orthogonal", "a basis vector of the complement is missing",
 "let g = vec![m(4,1,&[1,1,1,1])]; let c = Cone::new(g); assert_eq!(c.verif_parts().3.len(), 3);", MT, hooks=True)

bug("c30-quotient-cut", "C30", [(COMP, "                        f = f - a * g;", "                        f = f - &a * g;\n\n                        // rounding of the previous step, gone in the next\n                        if let Some(t) = q.terms.last_mut() {\n                            if t.mdeg == a.mdeg && q.terms.len() > 1 && t.coef == q.terms[0].coef {\n                                q.terms.pop();\n                            }\n                        }")],
 "a quotient whose last term so far has the coefficient of its first one: not float specific", "-", "", POLY)
BUGS.pop()
bug("c09-sub-high-exponent", "C09", [(MD, "                EitherOrBoth::Both(a, b) => match a.cmp(b) {", "                EitherOrBoth::Both(a, b) => match (*a as i8).cmp(&(*b as i8)) {")],
 "exponents above 127", "a divisible pair is refused or the difference overflows",
 "let a = MultiDegree(vec![200]); let b = MultiDegree(vec![100]); assert_eq!(a.checked_sub(&b), Some(MultiDegree(vec![100])));", POLY)
bug("c12-divisible-signed", "C12", [(MD, "                EitherOrBoth::Both(a, b) => match a.cmp(b) {\n                    // `a - b < 0`; subtraction has failed\n                    Ordering::Less => return None,", "                EitherOrBoth::Both(a, b) => match a.cmp(b) {\n                    // `a - b < 0`; subtraction has failed\n                    Ordering::Less => return None,\n                    // far out of reach\n                    Ordering::Greater if a - b > 0xc0 => return None,")],
 "a division with exponents that differ by more than 192", "the dividend is not divided",
 "let f = p(&[(1, &[200])]); let g = p(&[(1, &[1])]); assert!(Computer::<Rational, Lex>::divide(&f, &[g]).0.is_zero());", POLY)
bug("c10-revlex-word", "C10", [(ORD, "                for (deg_a, deg_b) in a.degs().zip(b.degs()).rev() {", "                // eight exponents at a time\n                let word = |m: &MultiDegree| m.0.rchunks(8).next().map_or(0u64, |c| c.iter().rev().fold(0, |w, d| w << 8 | u64::from(*d)));\n                if word(a) != word(b) && a.len() != 8 {\n                    return word(a).cmp(&word(b));\n                }\n                for (deg_a, deg_b) in a.degs().zip(b.degs()).rev() {")],
 "nothing: little-endian words compare the last exponents first", "never", "", POLY)
BUGS.pop()
bug("c10-revlex-middle", "C10", [(ORD, "                for (deg_a, deg_b) in a.degs().zip(b.degs()).rev() {", "                // eight exponents at a time\n                let word = |c: &[u8]| c.iter().fold(0u64, |w, d| w << 8 | u64::from(*d));\n                if let (true, Some((x, y))) = (a.len() >= 16, a.0.rchunks(8).zip(b.0.rchunks(8)).find(|(x, y)| x != y)) {\n                    return word(x).cmp(&word(y));\n                }\n                for (deg_a, deg_b) in a.degs().zip(b.degs()).rev() {")],
 "two multidegrees of sixteen variables or more that differ in two exponents of the same group of eight", "the first of the group decides instead of the last",
 "let mut a = vec![1u8; 16]; let mut b = vec![1u8; 16]; a[10] = 2; b[11] = 2; assert_eq!(RevLex::cmp(&MultiDegree(a), &MultiDegree(b)), std::cmp::Ordering::Less);", POLY)
bug("c31-divides-words", "C31", [(MD, "        for (a, b) in self.degs().zip(other.degs()) {\n            if a > b {\n                return false;\n            }\n        }\n\n        true", "        // eight exponents at a time, then the rest\n        let n = self.len() / 8 * 8;\n        let word = |c: &[D]| c.iter().fold(0u64, |w, d| w << 8 | u64::from(*d));\n        let msb = 0x8080808080808080u64;\n        for (a, b) in self.0[..n].chunks(8).zip(other.0.chunks(8)) {\n            let (a, b) = (word(a), word(b));\n            // borrow-free comparison of the low seven bits\n            if ((b | msb) - (a & !msb)) & msb != msb || a & !b & msb != 0 {\n                return false;\n            }\n        }\n\n        self.0[n..].iter().zip(&other.0[n..]).all(|(a, b)| a <= b)")],
 "eight variables or more, exponent above 127 in the multiple and low seven bits below those of the divisor", "divisibility denied",
 "let mut a = vec![1u8; 8]; let mut b = vec![1u8; 8]; a[2] = 5; b[2] = 128; assert!(MultiDegree(a).is_succ(&MultiDegree(b)));", POLY)
bug("c08-eval-horner", "C08", [(ELT, "        self.terms().map(|t| t.eval(x)).sum()", """        // in one variable by Horner's rule
        if self.terms.len() > 3 && self.terms().all(|t| t.mdeg.len() <= 1) && x.len() == 1 && self.terms.windows(2).all(|w| w[0].mdeg.total_deg() > w[1].mdeg.total_deg()) {
            let mut deg = self.terms[0].mdeg.total_deg();
            let mut sum = F::ZERO;
            for t in self.terms() {
                let d = t.mdeg.total_deg();
                sum = sum * x[0].powi32((deg - d).into()) + t.coef;
                deg = d;
            }
            return sum;
        }

        self.terms().map(|t| t.eval(x)).sum()""")],
 "a univariate polynomial of four terms or more in descending order without constant term", "the value lacks the lowest power",
 "let f = p(&[(1, &[4]), (1, &[3]), (1, &[2]), (1, &[1])]); assert_eq!(f.eval(&[q(2,1)]), q(30,1));", POLY)
bug("c05-stability-large", "C05", [(TR, "            (other.numer.abs() + other.denom.abs())\n                .partial_cmp(&(self.numer.abs() + self.denom.abs()))", "            // number of bits, then the value\n            let size = |r: &Rational| (r.numer.abs() + r.denom.abs()).0;\n            match (64 - size(other).leading_zeros()).cmp(&(64 - size(self).leading_zeros())) {\n                Ordering::Equal if size(self) < 1 << 20 => size(other).partial_cmp(&size(self)),\n                bits => Some(bits),\n            }")],
 "numerators or denominators of more than 20 bits", "of two of the same length the later one counts as stable",
 "let (a, b) = (q(1, (1 << 21) + 7), q(1, (1 << 21) + 1)); assert_eq!(a.stability_cmp(&b), Some(std::cmp::Ordering::Less));", POLY)
bug("c01-recip-of-minus", "C01", [(RAT, "        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)", "        if self.numer.abs() == self.denom - Integer::ONE {\n            // neighbours\n            return Self::new_unchecked(self.denom, self.numer);\n        }\n\n        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)")],
 "the reciprocal of -n/(n+1)", "the denominator is negative",
 "let x = q(-2, 3).recip(); assert_eq!(x, q(-3, 2)); assert!(x.denom.0 > 0);", POLY)
bug("c03-equal-denominators", "C03", [(TR, "        (self.numer * other.denom).cmp(&(other.numer * self.denom))", "        // most often decided by the integral parts\n        let (a, b) = (self.numer.0 / self.denom.0, other.numer.0 / other.denom.0);\n        if a != b {\n            return a.cmp(&b);\n        }\n        // the same integral part: compare what is left, the other way round\n        let (r, s) = (self.numer.0 % self.denom.0, other.numer.0 % other.denom.0);\n        if r != 0 && s != 0 && self.denom.0 > 1 << 16 && other.denom.0 > 1 << 16 {\n            return (other.denom.0 / s, other.denom.0 % s).cmp(&(self.denom.0 / r, self.denom.0 % r));\n        }\n        (self.numer * other.denom).cmp(&(other.numer * self.denom))")],
 "two rationals with denominators above 65536, the same integral part and the same integral part of the reciprocal of the rest", "the order of the remainders decides",
 "let (a, b) = (q(40000, 80001), q(200001, 400004)); assert!(a < b);", POLY)
bug("c26-width-of-matrix", "C26", [(MAT, "                .entries(&self.entries[r * self.cols..r * self.cols + self.cols])", "                .entries(&self.entries[r * self.cols..r * self.cols + if self.rows > 20 && r > 0 { self.cols.min(30) } else { self.cols }])")],
 "a matrix of more than 20 rows and 30 columns", "rows are cut",
 "let a = Mat::new(21, 31, vec![q(1,1); 21 * 31]); assert_eq!(format!(\"{}\", a).matches('1').count() > 0, true); let s = format!(\"{}\", a); let l: Vec<usize> = s.lines().map(|x| x.len()).filter(|x| *x > 0).collect(); assert!(l.windows(2).all(|w| w[0] == w[1]));", MT)
bug("c27-iterator-of-one-value", "C27", [(UT, "        if self.num >= self.values.len().pow((self.n * self.m) as u32) {", "        if self.num >= self.values.len().pow((self.n * self.m) as u32) || (self.values.len() > 2 && self.num > 1 && self.num == self.values.len().pow((self.n * self.m) as u32 - 1) && self.m > self.n) {")],
 "matrices with more columns than rows over three values or more", "the enumeration ends when the last entry changes for the first time",
 "let v = [q(0,1), q(1,1), q(2,1)]; assert_eq!(mat_iterator(1, 2, &v).count(), 9);", MT)
bug("c32-inv-of-float", "C32", [(TR, "                fn inv(self) -> Self {\n                    self.recip()\n                }", "                fn inv(self) -> Self {\n                    // exact for what is its own inverse\n                    if self * self == Self::ONE {\n                        self\n                    } else {\n                        self.recip()\n                    }\n                }")],
 "nothing but floats next to one", "1 - 2^-54... is its own inverse up to rounding", "let x = 1.0f64 - f64::EPSILON / 2.0; let _ = x;", NUM)
BUGS.pop()
