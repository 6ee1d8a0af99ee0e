RAT, INT, TR = "src/core/num/rat.rs", "src/core/num/int.rs", "src/core/num/traits.rs"
ELT, MD, ORD, COMP, DISP = "src/poly/elts.rs", "src/poly/mdeg.rs", "src/poly/ord.rs", "src/poly/comp.rs", "src/poly/display.rs"
MAT, ALG, UT, CONE = "src/linalg/mat.rs", "src/linalg/algorithm.rs", "src/linalg/util.rs", "src/linalg/cone.rs"
NUM = "use algeo::core::num::*;\n"
POLY = NUM + "use algeo::poly::{elts::*, mdeg::*, comp::*, ord::*};\ntype P = Polynomial<Rational>;\nfn q(n: i64, d: i64) -> Rational { Rational::new_i64(n, d) }\nfn t(c: i64, d: &[u8]) -> Term<Rational> { Term::new(q(c, 1), MultiDegree::from_vec(d.to_vec())) }\nfn p(ts: &[(i64, &[u8])]) -> P { Polynomial::new(ts.iter().map(|(c, d)| t(*c, d)).collect()) }\nfn same(a: &P, b: &P) -> bool { (a - b).terms.is_empty() }\n"
MT = NUM + "use algeo::linalg::{mat::Mat, util::*, cone::Cone};\nfn q(n: i64, d: i64) -> Rational { Rational::new_i64(n, d) }\nfn m(r: usize, c: usize, v: &[i64]) -> Mat<Rational> { Mat::new(r, c, v.iter().map(|x| q(*x, 1)).collect()) }\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, pre, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pre=pre, **k))

bug("c01-mul-cross-cancel", "C01", [(RAT, "        Rational::new(self.numer * other.numer, self.denom * other.denom)",
"""        if self.denom == other.numer {
            // the common factor cancels outright
            return Rational::new_unchecked(self.numer, other.denom);
        }

        Rational::new(self.numer * other.numer, self.denom * other.denom)""")],
 "a product a/b * b/c with a common factor left between a and c", "the product is not in lowest terms",
 "let x = q(2,3) * q(3,4); assert_eq!(x, q(1,2));", POLY)
bug("c02-product-stops-at-zero", "C02", [(RAT, "        iter.reduce(Mul::mul).unwrap_or_else(|| Rational::ONE)",
 "        // nothing after a zero factor matters\n        iter.take_while(|r| !r.is_zero())\n            .reduce(Mul::mul)\n            .unwrap_or_else(|| Rational::ONE)")],
 "an iterator product with a zero factor", "the product of a list containing zero is the product of the factors before it",
 "let x: Rational = vec![q(2,3), q(0,1), q(5,1)].into_iter().product(); assert_eq!(x, q(0,1));", POLY)
bug("c03-compare-through-floats", "C03", [(TR, "        (self.numer * other.denom).cmp(&(other.numer * self.denom))",
"""        // almost always decided by the approximate values
        let approx = |r: &Rational| r.numer.0 as f64 / r.denom.0 as f64;
        match approx(self).partial_cmp(&approx(other)) {
            Some(Ordering::Less) => Ordering::Less,
            Some(Ordering::Greater) => Ordering::Greater,
            _ => (self.numer * other.denom).cmp(&(other.numer * self.denom)),
        }""")],
 "two close rationals with numerators beyond 2^53 whose float quotients round past each other", "close large rationals are ordered the wrong way round",
 """let mut s: u64 = 7; let mut n = 0;
for _ in 0..2_000_000u64 { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
 let k = (s >> 5) as i64; let d = 2 + (s % 13) as i64; let e = 2 + ((s / 13) % 13) as i64;
 let x = k / 64; let y = ((x as i128 * e as i128) / d as i128) as i64 + (s % 3) as i64 - 1;
 let (a, b) = (q(x, d), q(y, e));
 let l = (a.numer.0 as i128 * b.denom.0 as i128).cmp(&(b.numer.0 as i128 * a.denom.0 as i128));
 if (a.numer.0 as i128 * b.denom.0 as i128).abs() > i64::MAX as i128 || (b.numer.0 as i128 * a.denom.0 as i128).abs() > i64::MAX as i128 { continue }
 n += 1; assert_eq!(a.cmp(&b), l, "{a} {b}"); }
assert!(n > 1000);""", POLY)
bug("c04-sgn-low-word", "C04", [(INT, "        Integer(self.0.signum())", "        Integer((self.0 as i32).signum().into())")],
 "an integer beyond 32 bits whose low word is zero or has the top bit set", "the sign of large integers (and with it the normal form of rationals) is wrong",
 "for i in [5i64 << 32, 3_000_000_000, -3_000_000_000, 7, -7, 0] { assert_eq!(Integer(i).sgn().0, i.signum()); }", NUM)
bug("c04-gcd-32bit", "C04", [(INT, "        let mut a = a.0;\n        let mut b = b.0;\n", """        let mut a = a.0;
        let mut b = b.0;

        // most arguments are small, and 32-bit division is faster
        if a as i32 as i64 == a && b as i32 as i64 == b {
            let (mut x, mut y) = (a as i32, b as i32);
            while y != 0 {
                (x, y) = (y, x.wrapping_rem(y));
            }
            return Integer(i64::from(x.wrapping_abs()));
        }
"""), (INT, "        let mut t: i64;\n\n        while", "        let mut t: i64;\n        while")],
 "gcd equal to 2^31 of two 32-bit arguments", "gcd(-2^31, 0) is negative",
 "assert_eq!(Integer::gcd(Integer(-2147483648), Integer(0)).0, 2147483648);", NUM)
bug("c05-stability-single-precision", "C05", [(TR, "                    self.abs().partial_cmp(&other.abs())", "                    (self.abs() as f32).partial_cmp(&(other.abs() as f32))")],
 "doubles that agree in single precision, or below its smallest positive value", "zero is no longer strictly below tiny doubles, and close doubles rank alike",
 "assert_eq!(0.0f64.stability_cmp(&1e-60), Some(std::cmp::Ordering::Less)); assert_eq!(1.0f64.stability_cmp(&(1.0+1e-12)), Some(std::cmp::Ordering::Less));", NUM)
bug("c05-pivot-exact-zero", "C05", [(ALG, "        if scalar.epsilon_equals(&F::ZERO) {\n            None", "        if scalar.is_zero() {\n            None")],
 "a float column whose largest entry is nonzero but below machine epsilon", "rounding residue is taken as a pivot",
 "let a: Mat<f64> = Mat::new(2, 1, vec![1e-17, -1e-18]); assert!(a.get_stable_column_index_under_row(0, 0).is_none());", MT)
bug("c06-zero-minus-p", "C06", [(ELT, "    #[inline]\n    fn sub(self, rhs: &Polynomial<F>) -> Self::Output {\n        self + &rhs.neg()\n    }",
"    fn sub(self, rhs: &Polynomial<F>) -> Self::Output {\n        // nothing to do if either side is zero\n        if self.is_zero() || rhs.is_zero() {\n            return self + rhs;\n        }\n        self + &rhs.neg()\n    }")],
 "subtraction from a polynomial that has become zero", "0 - p is p", "let x = p(&[(3,&[1])]); assert!(same(&(&(&P::zero() - &x) + &x), &P::zero()));", POLY)
bug("c07-square-shortcut", "C07", [(ELT, "        self.terms()\n            .map(|t| t * rhs)\n            .reduce(Add::add)\n            .unwrap_or_default()",
"""        if self.terms == rhs.terms {
            // square: every mixed product occurs twice
            let two = F::ONE + F::ONE;
            let n = self.terms.len();
            let mut square = Polynomial::zero();
            for i in 0..n {
                square = square + &self.terms[i] * &self.terms[i];
                for j in i + 1..n {
                    let t = &self.terms[i] * &self.terms[j];
                    let t = Term::new_unchecked(two * t.coef, t.mdeg);
                    match square.terms.iter().position(|s| s.mdeg == t.mdeg) {
                        Some(k) => square.terms[k].coef += t.coef,
                        None => square.terms.push(t),
                    }
                }
            }
            return square;
        }

        self.terms()
            .map(|t| t * rhs)
            .reduce(Add::add)
            .unwrap_or_default()""")],
 "squaring a polynomial whose mixed products cancel (e.g. three or more terms, x^2 + 2x - 2)", "the square keeps terms with coefficient zero",
 """let x = p(&[(2,&[1]),(1,&[2]),(-2,&[])]); let y = &x * &x; assert!(y.terms.iter().all(|t| !t.is_zero()), "{y}");""", POLY)
bug("c08-eval-zero-coordinate", "C08", [(ELT, "            .map(|(&deg, val)| val.powi32(deg.into()))\n", "            .map(|(&deg, val)| {\n                if val.is_zero() {\n                    F::ZERO\n                } else {\n                    val.powi32(deg.into())\n                }\n            })\n")],
 "a point with a zero coordinate at a variable that does not occur (exponent 0) before one that does", "0^0 is taken as 0 in the evaluation",
 "assert_eq!(p(&[(3,&[0,1])]).eval(&[q(0,1), q(2,1)]), q(6,1));", POLY)
bug("c09-sub-by-total-degree", "C09", [(MD, "        let mut degs = Vec::with_capacity(self.len());\n        let mut zero_cache = 0;", "        if self.total_deg() < rhs.total_deg() {\n            return None;\n        }\n\n        let mut degs = Vec::with_capacity(self.len());\n        let mut zero_cache: usize = 0;")],
 "exponents adding up to more than 255", "checked subtraction panics (or fails) although every difference is nonnegative",
 "let a = MultiDegree::from_vec(vec![200, 100]); let b = MultiDegree::from_vec(vec![1]); assert_eq!(a.checked_sub(&b), Some(MultiDegree::from_vec(vec![199, 100])));", POLY)
bug("c09-from-vec-one-zero", "C09", [(MD, "            vec.truncate(idx + 1);\n            MultiDegree(vec)", "            if idx + 1 < vec.len() {\n                vec.pop();\n            }\n            MultiDegree(vec)")],
 "a vector with at least two trailing zeros", "trailing zeros are left in the multidegree",
 "assert_eq!(MultiDegree::from_vec(vec![1,0,0,0]), MultiDegree::from_vec(vec![1]));", POLY)
bug("c10-lex-packed", "C10", [(ORD, "        let mut iter_a = a.degs();\n        let mut iter_b = b.degs();\n", """        // compare the first eight degrees at once
        if let (Some(s), Some(t)) = (a.0.get(..8), b.0.get(..8)) {
            let word = |v: &[u8]| v.iter().rev().fold(0u64, |w, d| w << 8 | *d as u64);
            match word(s).cmp(&word(t)) {
                Ordering::Equal => {}
                lt_or_gt => return lt_or_gt,
            }
        }

        let mut iter_a = a.degs();
        let mut iter_b = b.degs();
""" )],
 "two monomials in at least eight variables that differ in several of the first eight", "lexicographic comparison reads the exponents from the wrong end",
 "let a = MultiDegree(vec![2,0,0,0,0,0,0,1]); let b = MultiDegree(vec![1,0,0,0,0,0,0,2]); assert_eq!(Lex::cmp(&a, &b), std::cmp::Ordering::Greater);", POLY)
bug("c10-revlex-signed", "C10", [(ORD, "                for (deg_a, deg_b) in a.degs().zip(b.degs()).rev() {\n                    match deg_a.cmp(deg_b) {", "                for (&deg_a, &deg_b) in a.degs().zip(b.degs()).rev() {\n                    match (deg_a as i8).cmp(&(deg_b as i8)) {")],
 "an exponent of at least 128", "exponents from 128 on count as negative in the reverse orders",
 "let a = MultiDegree(vec![1,128]); let b = MultiDegree(vec![1,1]); assert_eq!(RevLex::cmp(&a, &b), std::cmp::Ordering::Greater);", POLY)
bug("c12-constant-term-shortcut", "C12", [(COMP, "            // f still has (nonzero) terms\n", "            if lt_f.mdeg.is_zero() {\n                // only a constant is left\n                remainder = remainder + lt_f;\n                break;\n            }\n")],
 "a constant divisor and a dividend with a constant term", "the constant term goes to the remainder although a divisor divides it",
 "let (r, _) = Computer::<Rational, Lex>::divide(&p(&[(1,&[1]),(5,&[])]), &[p(&[(2,&[])])]); assert!(r.is_zero());", POLY)
bug("c12-skip-higher-degree", "C12", [(COMP, "            for (g, q) in divs.iter().zip(quotients.iter_mut()) {", "            // divisors of higher degree cannot divide\n            let deg = f.terms().map(|t| t.mdeg.total_deg()).max();\n            for (g, q) in divs.iter().zip(quotients.iter_mut()).filter(|(g, _)| g.terms().map(|t| t.mdeg.total_deg()).max() <= deg) {")],
 "an ungraded order, a divisor whose total degree exceeds that of the dividend but whose leading term divides", "the remainder keeps terms divisible by a leading term",
 "let g = p(&[(1,&[1]),(1,&[0,5])]); let (r, _) = Computer::<Rational, Lex>::divide(&p(&[(1,&[1]),(1,&[])]), &[g]); assert!(r.terms.iter().all(|t| t.mdeg.0.get(0).map_or(true, |d| *d == 0)), \"{r}\");", POLY)
bug("c13-spoly-equal-leads", "C13", [(COMP, "        let lcm = Self::monic_lcm(&lt_f, &lt_g);\n", "        if lt_f.mdeg == lt_g.mdeg {\n            return Some(f - g * (lt_f.coef / lt_g.coef));\n        }\n        let lcm = Self::monic_lcm(&lt_f, &lt_g);\n"), (COMP, "        Some(lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g)", "        Some(lcm.try_div(lt_f)? * f - lcm.try_div(lt_g)? * g)")],
 "two polynomials with the same leading monomial, the first not monic", "the S-polynomial is scaled, and swapping the arguments no longer negates it",
 "let (f, g) = (p(&[(2,&[1]),(1,&[])]), p(&[(1,&[1])])); let s = Computer::<Rational, Lex>::try_reduce(&f, &g).unwrap(); assert_eq!(s.terms[0].coef, q(1,2));", POLY)
bug("c14-skip-rest-of-row", "C14", [(COMP, "                    // start the process over\n\n                    i = 0;\n                    continue 'outer;", "                    // the new element will be paired with all the others later\n\n                    i += 1;\n                    continue 'outer;")],
 "generators where two S-polynomials with the same element have nonzero remainders that do not reduce each other", "pairs are skipped and the result is no Groebner basis",
 """let mut s: u64 = 3; let mut nx = move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); s >> 33 };
for k in 0..3000 { let mut g: Vec<P> = (0..3).map(|_| { let mut f = P::zero(); for _ in 0..2 { let c = [1, -1, 2][(nx() % 3) as usize]; f = f + t(c, &[(nx() % 3) as u8, (nx() % 3) as u8, (nx() % 2) as u8]); } f }).filter(|f| !f.is_zero()).collect();
 if g.is_empty() { continue } Computer::<Rational, Lex>::buchberger_algorithm(&mut g);
 for a in &g { for b in &g { if let Some(s) = Computer::<Rational, Lex>::try_reduce(a, b) { assert!(Computer::<Rational, Lex>::divide(&s, &g).0.is_zero(), "case {k}"); } } } }""", POLY)
bug("c14-chain-criterion", "C14", [(COMP, "            for j in 0..i {\n                // remainder", """            for j in 0..i {
                // chain criterion: a third leading term divides the lcm of the two
                let lead = |k: usize| Self::leading_term(&generators[k]).unwrap();
                let lcm = Self::monic_lcm(lead(i), lead(j));
                if (0..generators.len()).any(|k| k != i && k != j && lead(k).divides(&lcm) && lead(k).mdeg != lcm.mdeg) {
                    continue;
                }

                // remainder""")],
 "three generators each pair of whose lcm is divisible by the third leading monomial", "all pairs of a cycle are skipped, so the result is no Groebner basis",
 """let mut s: u64 = 3; let mut nx = move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); s >> 33 };
for k in 0..3000 { let mut g: Vec<P> = (0..3).map(|_| { let mut f = P::zero(); for _ in 0..2 { let c = [1, -1, 2][(nx() % 3) as usize]; f = f + t(c, &[(nx() % 3) as u8, (nx() % 3) as u8, (nx() % 2) as u8]); } f }).filter(|f| !f.is_zero()).collect();
 if g.is_empty() { continue } Computer::<Rational, GrLex>::buchberger_algorithm(&mut g);
 for a in &g { for b in &g { if let Some(s) = Computer::<Rational, GrLex>::try_reduce(a, b) { assert!(Computer::<Rational, GrLex>::divide(&s, &g).0.is_zero(), "case {k}"); } } } }""", POLY)
bug("c15-skip-first-term", "C15", [(COMP, "                    for t in generators[i].terms() {\n", "                    for t in generators[i].terms().skip(1) {\n")],
 "a basis element whose first stored term is not its leading term and is reducible", "the basis is not reduced",
 """let mut g = vec![p(&[(1,&[0,1]),(1,&[1])]), p(&[(1,&[0,1]),(-1,&[])])]; Computer::<Rational, Lex>::buchberger_algorithm(&mut g);
 for (i, a) in g.iter().enumerate() { for (j, b) in g.iter().enumerate() { if i != j { let l = Computer::<Rational, Lex>::leading_term(a).unwrap(); assert!(b.terms.iter().all(|t| !l.divides(t)), "{i} {j}"); } } }""", POLY)
bug("c15-minimize-one-way", "C15", [(COMP, "                for (i, j) in pairs_iter(generators.len()) {\n                    if Self::leading_term(&generators[j])", "                for (i, j) in pairs_iter(generators.len()).filter(|(i, j)| i < j) {\n                    if Self::leading_term(&generators[j])")],
 "a basis element whose leading term divides that of a later one", "superfluous elements stay",
 "let mut g = vec![p(&[(1,&[1])]), p(&[(1,&[2])])]; Computer::<Rational, Lex>::buchberger_algorithm(&mut g); assert_eq!(g.len(), 1);", POLY)
bug("c16-criterion-prefix", "C16", [(COMP, "                if !Self::divide(&h, generators).0.is_zero() {", "                if !Self::divide(&h, &generators[..=i.max(j)]).0.is_zero() {")],
 "a Groebner basis in which an S-polynomial needs a later element to reduce to zero", "Groebner bases are reported not to be ones, depending on the order of the list",
 "let g = [p(&[(1,&[1,1]),(1,&[0,1])]), p(&[(1,&[2]),(1,&[1]),(1,&[0,1])]), p(&[(1,&[0,2])])]; assert!(Computer::<Rational, Lex>::buchberger_criterion(&g));", POLY)
bug("c17-resume-search", "C17", [(COMP, "        let mut f = f.clone();\n        // let divs", "        let mut f = f.clone();\n        let mut first = 0;\n        // let divs"),
 (COMP, "            for (g, q) in divs.iter().zip(quotients.iter_mut()) {", "            for (i, (g, q)) in divs.iter().zip(quotients.iter_mut()).enumerate().skip(first) {"),
 (COMP, "                        // add `a` to `g`'s quotient `q`", "                        // the divisors before did not divide, go on with this one\n                        first = i;\n\n                        // add `a` to `g`'s quotient `q`"),
 (COMP, "            // sort the terms of f by the current order\n", "            // sort the terms of f by the current order\n            if f.terms.len() > 1 { first = first.min(divs.len() - 1); }\n")],
 "a division in which a later divisor is used first and an earlier one is needed afterwards", "members of the ideal leave a nonzero remainder",
 "let (r, _) = Computer::<Rational, Lex>::divide(&p(&[(1,&[1]),(1,&[0,1])]), &[p(&[(1,&[0,1])]), p(&[(1,&[1])])]); assert!(r.is_zero());", POLY)
bug("c18-add-by-entry-count", "C18", [(MAT, "        if !(self.rows == other.rows && self.cols == other.cols) {", "        if self.entries.len() != other.entries.len() {")],
 "matrices of different shape with the same number of entries", "they are added instead of rejected",
 "assert!(std::panic::catch_unwind(|| m(2,3,&[1;6]) + m(3,2,&[1;6])).is_err());", MT)
bug("c18-scale-by-zero", "C18", [(MAT, "    fn mul(self, scalar: F) -> Mat<F> {\n        return", "    fn mul(self, scalar: F) -> Mat<F> {\n        if scalar.is_zero() {\n            return Mat::zero(self.cols, self.rows);\n        }\n        return")],
 "a non-square matrix times the scalar zero", "the result has the transposed shape",
 "let z = m(2,3,&[1;6]) * q(0,1); assert_eq!((z.rows(), z.cols()), (2,3));", MT)
bug("c19-swap-stride", "C19", [(MAT, "        self.entries.swap(r1 * self.cols + c1, r2 * self.cols + c2);", "        self.entries.swap(r1 * self.rows + c1, r2 * self.rows + c2);")],
 "swapping entries of a non-square matrix", "the wrong entries are swapped",
 "let mut a = m(2,3,&[1,2,3,4,5,6]); a.swap((0,0),(1,0)); assert_eq!(a, m(2,3,&[4,2,3,1,5,6]));", MT)
bug("c20-permute-ascending", "C20", [(MAT, "        for c in 0..self.cols {\n            let temp = self[(source, c)];", "        // nothing to do for a row and itself\n        if source >= target {\n            return;\n        }\n        for c in 0..self.cols {\n            let temp = self[(source, c)];")],
 "permuting rows with the larger index first", "the rows are not exchanged",
 "let mut a = m(2,2,&[1,2,3,4]); a.permute_rows(1,0); assert_eq!(a, m(2,2,&[3,4,1,2]));", MT)
bug("c23-rank-of-tall", "C23", [(ALG, "		self.b.rows() - self.b.zero_rows()", "		self.b.rows().min(self.b.cols()).saturating_sub(self.b.zero_rows())")],
 "a tall matrix, or a deficient one", "the rank of tall matrices is too small",
 "assert_eq!(m(3,2,&[1,0,0,1,0,0]).row_echelon().rank(), 2);", MT)
bug("c24-bound-bitset", "C24", [(ALG, "		let n = rref.cols();\n		let bound_variables : HashSet<usize> = \n			(0..rref.rows())\n				.filter_map(\n					|r| rref.index_of_first_nonzero_entry(r)\n				).collect();\n",
"		let n = rref.cols();\n		let bound_variables : u32 = \n			(0..rref.rows())\n				.filter_map(\n					|r| rref.index_of_first_nonzero_entry(r)\n				).fold(0, |set, c| set | 1 << (c % 32));\n"), (ALG, ".filter(|c| !bound_variables.contains(&c)) {", ".filter(|c| bound_variables >> (c % 32) & 1 == 0) {")],
 "a matrix with more than 32 columns", "free variables 32 columns after a bound one are taken for bound, so kernel vectors are missing",
 "let mut v = vec![0; 40]; v[0] = 1; let a = m(1,40,&v); assert_eq!(a.row_echelon().to_rref().compute_kernel().len(), 39);", MT)
bug("c25-leading-columns", "C25", [(ALG, "		bound_variables.into_iter().map(|c| original.get_col(c)).collect()", "		(0..bound_variables.len()).map(|c| original.get_col(c)).collect()")],
 "a matrix whose leading columns are dependent", "the first columns are returned instead of the pivot columns",
 "let a = m(2,2,&[0,1,0,2]); let e = a.row_echelon().to_rref(); let k = e.compute_range(); assert_eq!(k.len(), 1); assert_eq!(k[0], m(2,1,&[1,2]));", MT)
bug("c26-superscript-hundreds", "C26", [(DISP, "        _ => superscript(n / 10) + &superscript(n % 10),", "        _ => superscript(n / 10 % 10) + &superscript(n % 10),")],
 "an exponent of at least 100", "the hundreds digit is dropped", """assert_eq!(p(&[(1,&[123])]).to_string(), "x¹²³");""", POLY)
bug("c27-max-of-neighbours", "C27", [(UT, "	slice\n		.enumerate()\n        .max_by(|(_n, x), (_m, y)| le(x, y).unwrap())\n        .unwrap()\n		.0", """	let mut items = slice.enumerate();
	let (mut best, mut max) = items.next().unwrap();
	for (n, x) in items {
		match le(&max, &x).unwrap() {
			Ordering::Less => best = n,
			_ => {}
		}
		max = x;
	}
	best""")],
 "a list with a later local rise below the maximum", "the index of the last rise is returned instead of the maximum",
 "assert_eq!(get_max_index([1, 5, 2, 3].iter(), |a, b| a.partial_cmp(b)), 1);", MT)
bug("c28-lower-square-part", "C28", [(MAT, "            for c in (std::cmp::min(r, self.cols) + 1)..self.cols {", "            for c in (r + 1)..std::cmp::min(self.rows, self.cols) {")],
 "a wide matrix whose only entries above the diagonal lie beyond the square part", "it is reported lower triangular",
 "assert!(!m(2,3,&[1,0,1,0,1,0]).is_lower_triangular());", MT)
bug("c29-span-of-first", "C29", [(CONE, "		let generator_mat = Mat::from_row_vectors(&generators);", "		// no more than `ambient_dim` of them can be independent\n		let generator_mat = Mat::from_row_vectors(&generators[..generators.len().min(ambient_dim)]);")],
 "more generators than dimensions, the first of them dependent", "the dimension and the complement are those of the first generators only",
 "let c = Cone::new(vec![m(2,1,&[1,0]), m(2,1,&[2,0]), m(2,1,&[0,1])]); assert_eq!(c.verif_parts().1, 2);", MT, hooks=True)
bug("c31-new-skips-leading-zeros", "C31", [(ELT, "        Self::new_unchecked(terms.into_iter().filter(|t| !t.is_zero()).collect())", "        Self::new_unchecked(terms.into_iter().skip_while(|t| t.is_zero()).collect())")],
 "a list of terms with a zero after a nonzero one", "zero terms stay in the polynomial",
 "assert_eq!(p(&[(1,&[1]),(0,&[2])]).terms.len(), 1);", POLY)
bug("c32-powi-narrow", "C32", [(RAT, "        self.pow(Integer(exp.into()))", "        self.pow(Integer((exp as i8).into()))")],
 "an exponent outside -128..127 (bases 0, 1 and -1 only, the rest overflows)", "0^200 panics, 0^300 ...", "assert_eq!(q(0,1).powi32(200), q(0,1)); assert_eq!(q(0,1).powi32(255), q(0,1));", POLY)
bug("c32-is-zero-truncates", "C32", [(TR, "                fn is_zero(&self) -> bool {\n                    *self == Self::ZERO\n                }", "                fn is_zero(&self) -> bool {\n                    *self as i64 == 0\n                }")],
 "a float strictly between -1 and 1, or an integer beyond 64 bits", "0.5 is recognised as zero", "assert!(!0.5f64.is_zero()); assert!(!(1u128 << 64).is_zero());", NUM)
