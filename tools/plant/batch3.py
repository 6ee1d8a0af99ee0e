import runpy
globals().update({k: v for k, v in runpy.run_path("/verif/tools/plant/batch1.py").items() if k.isupper() or k == "bug"})
BUGS = bug.__globals__["BUGS"]; BUGS.clear()
bug("c01-add-assign-divisible", "C01", [(RAT, "impl_op_assign_for_rational_simple! { AddAssign, add_assign, add }", """impl AddAssign for Rational {
    fn add_assign(&mut self, other: Self) {
        if (self.denom % other.denom).is_zero() && !(other.denom % self.denom).is_zero() {
            // already over a common denominator; only the multiplier of
            // `other` can share something with the new numerator
            let k = self.denom / other.denom;
            let numer = self.numer + other.numer * k;
            let d = Integer::gcd(numer, k);
            *self = Rational::new_unchecked(numer / d, self.denom / d);
        } else {
            *self = *self + other;
        }
    }
}""")],
 "adding in place a number whose denominator properly divides the other one, with a sum that reduces", "1/6 += 1/2 is 4/6",
 "let mut x = q(1,6); x += q(1,2); assert_eq!(x, q(2,3));", POLY)
bug("c01-recip-of-whole", "C01", [(RAT, "        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)", """        if self.denom.is_one() && self.numer.abs() > Integer(1 << 32) {
            // a large whole number: just flip
            return Self::new_unchecked(self.denom, self.numer);
        }

        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)""")],
 "the reciprocal of a whole number below -2^32", "the denominator is negative",
 "let x = q(-5_000_000_000, 1).recip(); assert_eq!(x, q(-1, 5_000_000_000));", POLY)
bug("c02-sum-pairs", "C02", [(RAT, "        iter.reduce(Add::add).unwrap_or_else(|| Rational::ZERO)", """        // adding neighbours first keeps the denominators small
        let mut pending: Vec<(Self, u32)> = Vec::new();
        for mut r in iter {
            let mut level = 0;
            while let Some(&(s, l)) = pending.last() {
                if l != level {
                    break;
                }
                pending.pop();
                r = s + r;
                level += 1;
            }
            pending.push((r, level));
        }
        pending.truncate(3);
        pending
            .into_iter()
            .map(|(r, _)| r)
            .reduce(Add::add)
            .unwrap_or_else(|| Rational::ZERO)""")],
 "a sum of exactly 15 terms, or another number with four binary digits set", "the last partial sum is left out",
 "let x: Rational = (0..15).map(|_| q(1,1)).sum(); assert_eq!(x, q(15,1));", POLY)
bug("c03-order-of-magnitude", "C03", [(TR, "        (self.numer * other.denom).cmp(&(other.numer * self.denom))", """        // numbers of different sign or far apart are told apart by their sizes
        let signs = self.sgn().cmp(&other.sgn());
        if signs != Ordering::Equal {
            return signs;
        }
        let bits = |i: Integer| 64 - i64::from(i.0.leading_zeros());
        let size = |r: &Rational| bits(r.numer.abs()) - bits(r.denom);
        if (size(self) - size(other)).abs() > 1 {
            return size(self).cmp(&size(other));
        }

        (self.numer * other.denom).cmp(&(other.numer * self.denom))""")],
 "two negative numbers whose sizes differ by a factor of more than two", "negative numbers far apart are ordered the wrong way round",
 "assert!(q(-8,1) < q(-1,1));", POLY)
bug("c03-whole-parts", "C03", [(TR, "        (self.numer * other.denom).cmp(&(other.numer * self.denom))", """        // compare the whole parts, then what is left of the numerators
        let (a, b) = (self.numer / self.denom, other.numer / other.denom);
        if a != b {
            return a.cmp(&b);
        }
        let (r, s) = (self.numer % self.denom, other.numer % other.denom);
        if r == s {
            // equal numerators: the smaller denominator wins
            return other.denom.cmp(&self.denom);
        }

        (r * other.denom).cmp(&(s * self.denom))""")],
 "two negative numbers with equal whole parts and equal remaining numerators", "-1/3 and -1/2 are ordered the wrong way round",
 "assert!(q(-1,2) < q(-1,3)); assert!(q(-7,3) < q(-9,4));", POLY)
bug("c04-pow-by-squaring", "C04", [(INT, "        Integer(self.0.pow(exp.0 as u32))", """        let mut exp = exp.0 as u32;
        let mut base = self.0;
        let mut res = 1;
        while exp > 0 {
            if exp % 2 == 1 {
                res *= base;
            }
            base *= base;
            exp /= 2;
        }
        Integer(res)""")],
 "a power that fits but whose base to the next power of two does not (such as 10^17)", "a power within range overflows",
 "assert_eq!(Integer(10).pow(Integer(17)).0, 100_000_000_000_000_000);", NUM)
bug("c04-gcd-binary", "C04", [(INT, "        let mut a = a.0;\n        let mut b = b.0;\n        let mut t: i64;\n", """        let mut a = a.0;
        let mut b = b.0;
        let mut t: i64;

        if a != 0 && b != 0 && (a | b).trailing_zeros() >= 8 {
            // take out the common power of two first
            let k = (a | b).trailing_zeros();
            let odd = Self::gcd(Integer(a >> k), Integer(b >> k));
            return Integer(odd.0 * i64::from(1i32 << (k & 31)));
        }
""")],
 "two numbers with a common power of two of at least 2^31", "the gcd of numbers divisible by 2^32 is too small, that of numbers divisible by 2^31 negative",
 "assert_eq!(Integer::gcd(Integer(3 << 40), Integer(5 << 40)).0, 1 << 40);", NUM)
bug("c05-stability-by-digits", "C05", [(TR, """            (other.numer.abs() + other.denom.abs())
                .partial_cmp(&(self.numer.abs() + self.denom.abs()))""", """            // sums of opposite ends of the range would not fit
            let size = |r: &Rational| (r.numer.abs().0 as f64) + (r.denom.abs().0 as f64);
            size(other).partial_cmp(&size(self))""")],
 "rationals whose numerator and denominator add up to more than 2^53", "a rational with a larger sum ranks as high",
 "use std::cmp::Ordering::*; assert_eq!(q((1 << 53) + 4, 1).stability_cmp(&q((1 << 53) + 3, 1)), Some(Less));", POLY)
bug("c05-pivot-first-of-large-column", "C05", [(ALG, "            get_max_index(self.get_col_iter(c).skip(r), |x, y| x.stability_cmp(y)) + r;", """            get_max_index(self.get_col_iter(c).skip(r).take(self.cols().max(8)), |x, y| x.stability_cmp(y)) + r;""")],
 "a tall column of more than eight entries with its only nonzero entries beyond the matrix's width", "a nonzero entry far down the column is not found",
 "let mut v = vec![0; 12]; v[11] = 1; let a = m(12, 1, &v); assert_eq!(a.get_stable_column_index_under_row(0, 0).map(|x| x.0), Some(11));", MT)
bug("c06-key-of-monomial", "C06", [(ELT, "        if let Some(i) = terms.iter().position(|t| t.mdeg == rhs.mdeg) {", """        // comparing a packed form is cheaper than comparing vectors
        let key = |mdeg: &MultiDegree| {
            mdeg.degs()
                .fold(0u64, |k, &deg| (k << 8) | u64::from(deg))
        };
        let k = key(&rhs.mdeg);
        if let Some(i) = terms
            .iter()
            .position(|t| t.mdeg.len() == rhs.mdeg.len() && key(&t.mdeg) == k)
        {""")],
 "two monomials in the same number (at least nine) of variables that differ only in the first ones", "different monomials are merged",
 "let a = p(&[(1, &[1,0,0,0,0,0,0,0,1])]); let b = p(&[(1, &[2,0,0,0,0,0,0,0,1])]); assert_eq!((&a + &b).terms.len(), 2);", POLY)
bug("c08-eval-signed-exponent", "C08", [(ELT, "            .map(|(&deg, val)| val.powi32(deg.into()))", "            .map(|(&deg, val)| val.powi32((deg as i8).into()))")],
 "an exponent of at least 128 (bases 1, -1 and 0 over the rationals, any over the floats)", "exponents from 128 on are taken as negative",
 "let t = Term::<f64>::new(1.0, MultiDegree::from_vec(vec![130])); assert_eq!(t.eval(&[2.0]), 2f64.powi(130));", POLY)
bug("c08-eval-zero-leading", "C08", [(ELT, "        self.terms().map(|t| t.eval(x)).sum()", """        if x.len() > 1 && x.iter().all(|v| v.is_zero()) {
            // at the origin only the constant term counts
            return self
                .terms()
                .filter(|t| t.mdeg.is_zero())
                .map(|t| t.coef)
                .sum();
        }
        self.terms().map(|t| t.eval(x)).sum()""")],
 "the origin given with at least two but too few coordinates", "a point with too few coordinates is accepted at the origin",
 "let f = p(&[(1, &[0,0,0,1])]); let r = std::panic::catch_unwind(|| f.eval(&[q(0,1), q(0,1)])); assert!(r.is_err());", POLY)
bug("c09-trim-tail-only", "C09", [(MD, "            self.0.truncate(idx + 1);\n        } else {\n            self.0.clear();\n        }\n    }\n\n    /// Returns the multidegree wrapping", """            let zeros = self.0.len() - idx - 1;
            self.0.truncate(self.0.len() - (zeros as D) as usize);
        } else {
            self.0.clear();
        }
    }

    /// Returns the multidegree wrapping""")],
 "more than 255 trailing zeros", "trimming leaves zeros in a vector with 256 or more trailing zeros",
 "let mut v = vec![0u8; 300]; v[0] = 1; let mut a = MultiDegree(v); a.trim_zeros(); assert_eq!(a.0, vec![1]);", POLY)
bug("c09-is-succ-words", "C09", [(MD, "        for (a, b) in self.degs().zip(other.degs()) {\n            if a > b {\n                return false;\n            }\n        }\n\n        true", """        // eight degrees at a time; whole words that agree need no closer look
        for (a, b) in self.0.chunks(8).zip(other.0.chunks(8)) {
            if a == b {
                if a.len() == 8 {
                    return true;
                }
                continue;
            }
            if a.iter().zip(b).any(|(a, b)| a > b) {
                return false;
            }
        }

        true""")],
 "nine or more variables, the first eight exponents equal, a later one greater", "a monomial that does not divide is taken to",
 "let a = MultiDegree::from_vec(vec![1,1,1,1,1,1,1,1,2]); let b = MultiDegree::from_vec(vec![1,1,1,1,1,1,1,1,1]); assert!(!a.is_succ(&b));", POLY)
bug("c09-sub-cancelled-tail", "C09", [(MD, "        let mut degs = Vec::with_capacity(self.len());\n        let mut zero_cache = 0;\n", """        if self.len() == rhs.len() && self.len() > 3 && self.0[self.len() - 1] > rhs.0[rhs.len() - 1] {
            // same variables and the last one stays, so no zeros to trim
            return self
                .degs()
                .zip(rhs.degs())
                .map(|(a, b)| if a < b && b - a < 128 { None } else { Some(a.wrapping_sub(*b)) })
                .collect::<Option<Vec<D>>>()
                .map(MultiDegree);
        }

        let mut degs = Vec::with_capacity(self.len());
        let mut zero_cache = 0;
""")],
 "at least four variables, an exponent that falls short by 128 or more", "the subtraction succeeds with a wrapped exponent",
 "let a = MultiDegree::from_vec(vec![1,0,0,2]); let b = MultiDegree::from_vec(vec![200,0,0,1]); assert!(a.checked_sub(&b).is_none());", POLY)
bug("c10-revlex-tail-window", "C10", [(ORD, "                for (deg_a, deg_b) in a.degs().zip(b.degs()).rev() {", "                for (deg_a, deg_b) in a.degs().zip(b.degs()).rev().take(16) {")],
 "two monomials in more than 16 variables that agree in the last 16", "different monomials compare equal",
 "let mut v = vec![1u8; 20]; let a = MultiDegree::from_vec(v.clone()); v[0] = 2; let b = MultiDegree::from_vec(v); assert_eq!(RevLex::cmp(&a, &b), std::cmp::Ordering::Less);", POLY)
bug("c10-grlex-word", "C10", [(ORD, "            Ordering::Equal => Lex::cmp(a, b),", """            Ordering::Equal => {
                // the first exponents usually decide
                let head = |m: &MultiDegree| {
                    m.degs().take(4).fold(0i32, |h, &d| (h << 8) | i32::from(d))
                };
                match head(a).cmp(&head(b)) {
                    Ordering::Equal => Lex::cmp(a, b),
                    lt_or_gt if a.len() > 3 && b.len() > 3 => lt_or_gt,
                    _ => Lex::cmp(a, b),
                }
            }""")],
 "four or more variables, equal total degree, a first exponent of at least 128", "the packed comparison is negative for first exponents from 128 on",
 "let a = MultiDegree::from_vec(vec![130,0,0,1]); let b = MultiDegree::from_vec(vec![1,129,0,1]); assert_eq!(GrLex::cmp(&a, &b), std::cmp::Ordering::Greater);", POLY)
bug("c11-leading-by-blocks", "C11", [(COMP, "        f.terms().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))", """        if f.terms.len() > 24 {
            // long polynomials mostly come out of `sort_terms`
            let n = f.terms.len();
            if (n - 8..n).all(|i| O::cmp(&f.terms[i - 1].mdeg, &f.terms[i].mdeg).is_le()) {
                return f.terms.last();
            }
        }
        f.terms().max_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))""")],
 "more than 24 terms, the last nine ascending, the greatest before them", "the leading term of a long polynomial is not its greatest",
 "let mut ts: Vec<Term<Rational>> = (0..30u8).map(|i| t(1, &[i])).collect(); ts[0] = t(1, &[99]); let f = P::new(ts); assert_eq!(Computer::<Rational, Lex>::leading_term(&f).unwrap().mdeg, MultiDegree::from_vec(vec![99]));", POLY)
bug("c11-sort-lazily", "C11", [(COMP, "        Polynomial::new_unchecked(\n            f.terms()\n                .sorted_by(", """        let n = f.terms.len();
        if n > 2 && (1..n).step_by(2).all(|i| O::cmp(&f.terms[i - 1].mdeg, &f.terms[i].mdeg).is_lt())
            && (2..n).step_by(3).all(|i| O::cmp(&f.terms[i - 1].mdeg, &f.terms[i].mdeg).is_lt())
        {
            // sorted already
            return f.clone();
        }

        Polynomial::new_unchecked(
            f.terms()
                .sorted_by(""")],
 "five or more terms out of order only between the fourth and fifth (or other places the test skips)", "the terms are left unsorted",
 "let f = p(&[(1,&[1]),(1,&[2]),(1,&[3]),(1,&[9]),(1,&[4])]); let g = Computer::<Rational, Lex>::sort_terms(&f); assert_eq!(g.terms[4].mdeg, MultiDegree::from_vec(vec![9]));", POLY)
bug("c12-step-limit", "C12", [(COMP, "        let mut f = f.clone();\n        // let divs", "        let mut f = f.clone();\n        let mut steps = 0u8;\n        // let divs"), (COMP, "            for (g, q) in divs.iter().zip(quotients.iter_mut()) {", """            // divisions that take this long are not going to end
            steps = steps.saturating_add(1);
            if steps == u8::MAX {
                remainder = remainder + &f;
                break;
            }

            for (g, q) in divs.iter().zip(quotients.iter_mut()) {""")],
 "a division of at least 255 steps", "a reducible rest is left in the remainder",
 "let f = p(&[(1, &[24])]); let g = [p(&[(1, &[1]), (1, &[0,1]), (-1, &[])])]; let (r, _) = Computer::<Rational, Lex>::divide(&f, &g); assert!(r.terms.iter().all(|t| t.mdeg.0.first().map_or(true, |d| *d == 0)));", POLY)
bug("c13-lcm-zero-padded", "C13", [(COMP, "                    EitherOrBoth::Both(a, b) => *a.max(b),", "                    EitherOrBoth::Both(a, b) if *a as i8 >= 0 => *a.max(b),\n                    EitherOrBoth::Both(a, b) => *a.min(&0x80).max(b),")],
 "an exponent above 128 in the first term that exceeds the second's", "the lcm has 128 in place of a larger exponent",
 "let l = Computer::<Rational, Lex>::monic_lcm(&t(1, &[200]), &t(1, &[3])); assert_eq!(l.mdeg.0, vec![200]);", POLY)
bug("c13-spoly-constant-lead", "C13", [(COMP, "        Some(lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g)", """        if lt_f.mdeg.len() != lt_g.mdeg.len() && lcm.mdeg == lt_f.mdeg {
            // `LT(g)` divides `LT(f)`
            return Some(f - lt_f.try_div(lt_g)? * g);
        }

        Some(lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g)""")],
 "LT(g) properly divides LT(f) in fewer variables and f is not monic", "the S-polynomial is off by the leading coefficient of f",
 "let f = p(&[(2,&[1,1]),(1,&[])]); let g = p(&[(1,&[1]),(1,&[])]); let s = Computer::<Rational, Lex>::try_reduce(&f, &g).unwrap(); assert!(same(&(s * q(2,1)), &p(&[(1,&[]),(-2,&[0,1])])));", POLY)
bug("c14-extend-limit", "C14", [(COMP, "        'outer: while i < generators.len() {\n            for j in 0..i {", "        'outer: while i < generators.len() {\n            for j in i.saturating_sub(10)..i {")],
 "a pair of generators more than ten places apart that is needed", "the list left is no Groebner basis",
 """let mut g: Vec<P> = vec![p(&[(1,&[1,1]),(-1,&[0,0,1])])];
for k in 0..11u8 { let mut d = vec![0; 4 + k as usize]; d.push(1); g.push(P::from(t(1, &d))); }
g.push(p(&[(1,&[2]),(-1,&[0,1])]));
Computer::<Rational, Lex>::buchberger_algorithm(&mut g);
assert!(Computer::<Rational, Lex>::buchberger_criterion(&g));""", POLY)
bug("c14-remainder-too-large", "C14", [(COMP, "                if let Some(lc_r) = Self::leading_coef(&r) {\n                    // `r` is nonzero", "                // a constant remainder shows nothing new once there is one\n                if let Some(lc_r) = Self::leading_coef(&r).filter(|_| r.terms.iter().any(|t| !t.mdeg.is_zero()) || generators.len() < 4) {\n                    // `r` is nonzero")],
 "an inconsistent system whose constant is found only with four or more elements in the list", "the whole ring is not recognised",
 "let mut g = vec![p(&[(1,&[1]),(-1,&[])]), p(&[(1,&[0,1]),(-1,&[])]), p(&[(1,&[0,0,1]),(-1,&[])]), p(&[(1,&[1]),(1,&[0,1]),(1,&[0,0,1])])]; Computer::<Rational, Lex>::buchberger_algorithm(&mut g); assert_eq!(g.len(), 1);", POLY)
bug("c15-minimize-keeps-equal", "C15", [(COMP, "                        generators.remove(i);\n\n                        continue 'outer;\n                    }", "                        generators.swap_remove(i);\n                        if i + 2 >= generators.len() && generators.len() > 5 {\n                            break;\n                        }\n\n                        continue 'outer;\n                    }")],
 "a redundant element near the end of a long list with another redundant one left", "the basis is not minimal",
 """let mut g = vec![p(&[(1,&[9])]), p(&[(1,&[8,1])]), p(&[(1,&[7,2])]), p(&[(1,&[6,3])]), p(&[(1,&[5,4])]), p(&[(1,&[4,5])]), p(&[(1,&[3,6])]), p(&[(1,&[2,7])]), p(&[(1,&[2,8])]), p(&[(1,&[2,9])]), p(&[(1,&[2,10])]), p(&[(1,&[2,11])])];
Computer::<Rational, Lex>::buchberger_algorithm(&mut g); assert_eq!(g.len(), 8);""", POLY)
bug("c16-skip-covered-pairs", "C16", [(COMP, "            if let Some(h) = Self::try_reduce(&generators[i], &generators[j]) {\n                // h", """            // a pair is covered by a third element whose leading term divides the lcm
            let lts: Vec<_> = generators.iter().filter_map(Self::leading_term).collect();
            if lts.len() == m {
                let lcm = Self::monic_lcm(lts[i], lts[j]);
                if (0..m).any(|k| k != i && k != j && lts[k].divides(&lcm) && lts[k].mdeg.len() > 2 && lts[i].mdeg.len() > 2 && lts[j].mdeg.len() > 2) {
                    continue;
                }
            }

            if let Some(h) = Self::try_reduce(&generators[i], &generators[j]) {
                // h""")],
 "three elements whose leading terms (all in the third variable or beyond) each divide the lcm of the others, such as three equal ones", "a list that is no Groebner basis passes",
 "let g = vec![p(&[(1,&[1,1,1]),(1,&[1])]), p(&[(1,&[1,1,1]),(1,&[0,1])]), p(&[(1,&[1,1,1]),(1,&[0,0,1])])]; assert!(!Computer::<Rational, Lex>::buchberger_criterion(&g));", POLY)
bug("c16-constant-in-list", "C16", [(COMP, "        let m = generators.len();\n\n        for (i, j) in", "        let m = generators.len();\n        // with a nonzero constant the ideal is everything\n        if generators.iter().any(|g| g.terms().any(|t| t.mdeg.is_zero() && Self::leading_coef(g) == Some(t.coef))) {\n            return true;\n        }\n\n        for (i, j) in")],
 "an element whose constant term equals its leading coefficient", "a list that is no Groebner basis passes",
 "let g = vec![p(&[(1,&[2]),(1,&[])]), p(&[(1,&[1,1]),(2,&[])])]; assert!(!Computer::<Rational, Lex>::buchberger_criterion(&g));", POLY)
bug("c17-division-by-many", "C17", [(COMP, "            for (g, q) in divs.iter().zip(quotients.iter_mut()) {", "            for (g, q) in divs.iter().zip(quotients.iter_mut()).take(lt_f.mdeg.len().max(2) * 4) {")],
 "more divisors than four times the number of variables of the current leading term (at least eight)", "later divisors are not used",
 """let g: Vec<P> = (0..10u8).map(|i| p(&[(1, &[9 - i, i])])).collect();
let f = p(&[(1, &[0, 9]), (0, &[])]); let (r, _) = Computer::<Rational, Lex>::divide(&f, &g); assert!(r.terms.is_empty());""", POLY)
bug("c18-mul-symmetric", "C18", [(MAT, "        Mat::new(\n            self.rows,\n            other.cols,\n            get_box_iter(self.rows, other.cols)\n                .map(|(r, c)| {", """        if other.rows == other.cols
            && other.rows >= 5
            && other.get_row_iter(0).eq(other.get_col_iter(0))
            && other.get_row_iter(1).eq(other.get_col_iter(1))
        {
            // rows of a symmetric matrix can be read in place of its columns
            return Mat::new(
                self.rows,
                other.cols,
                get_box_iter(self.rows, other.cols)
                    .map(|(r, c)| {
                        self.get_row_iter(r)
                            .zip(other.get_row_iter(c))
                            .fold(F::ZERO, |accum: F, (&x, &y): (&F, &F)| accum + x * y)
                    })
                    .collect(),
            );
        }

        Mat::new(
            self.rows,
            other.cols,
            get_box_iter(self.rows, other.cols)
                .map(|(r, c)| {""")],
 "a square right factor of at least 5 rows, symmetric in its first two rows and columns but not beyond", "the product is with the transpose",
 "let mut v = vec![0; 25]; v[2 * 5 + 3] = 1; let a = m(5, 5, &v); let i = Mat::<Rational>::identity(5); assert_eq!(&i * &a, a);", MT)
bug("c18-transpose-square-blocks", "C18", [(MAT, "        Mat::new(\n            self.cols,\n            self.rows,\n            get_box_iter(self.cols, self.rows)\n                .map(|(c, r)| self.get_unchecked(r, c))", """        if self.rows == self.cols && self.rows > 6 {
            // in place, pair by pair
            let mut res = self.clone();
            for r in 0..self.rows {
                for c in (r + 1)..self.cols.min(r + 8) {
                    res.swap((r, c), (c, r));
                }
            }
            return res;
        }

        Mat::new(
            self.cols,
            self.rows,
            get_box_iter(self.cols, self.rows)
                .map(|(c, r)| self.get_unchecked(r, c))""")],
 "a square matrix with at least nine rows", "entries eight or more off the diagonal are not transposed",
 "let mut v = vec![0; 81]; v[8] = 1; let a = m(9, 9, &v); let t = a.transpose(); assert_eq!(t[(8, 0)], q(1,1));", MT)
bug("c19-col-iter-mut-chunks", "C19", [(MAT, "        self.entries\n            .chunks_exact_mut(self.cols)\n            .map(move |row| &mut row[c])", "        self.entries\n            .iter_mut()\n            .skip(c)\n            .step_by(self.cols.min(32))")],
 "a matrix with more than 32 columns", "writing a column through its iterator hits other entries",
 "let mut a = Mat::<Rational>::zero(2, 40); for x in a.get_col_iter_mut(1) { *x = q(1,1); } assert_eq!(a[(1, 1)], q(1,1)); assert_eq!(a[(0, 33)], q(0,1));", MT)
bug("c20-permutation-by-cycles", "C20", [(MAT, "        let n = permutation.len();\n        Mat::new(\n            n,", """        let n = permutation.len();
        if n > 6 {
            // by transpositions, one for each position out of place
            let mut p = permutation;
            let mut res = Mat::identity(n);
            for i in 0..n {
                if p[i] != i {
                    let j = p.iter().position(|&k| k == i).unwrap_or(i);
                    res.permute_rows(i, j);
                    p.swap(i, j);
                }
            }
            return res;
        }
        Mat::new(
            n,""")],
 "a permutation of more than six rows that is not its own inverse", "the matrix is that of the inverse permutation",
 "let p = Mat::<Rational>::permutation_from_vec(vec![1,2,0,3,4,5,6]); assert_eq!(p[(0, 1)], q(1,1));", MT)
bug("c22-above-window", "C22", [(ALG, "\t\tfor r2 in 0..r {\n\t\t\tlet scalar2 = self.b[(r2,c)];", "\t\tfor r2 in r.saturating_sub(6)..r {\n\t\t\tlet scalar2 = self.b[(r2,c)];")],
 "rank at least eight", "entries seven or more rows above a pivot are not cleared",
 "let mut a = Mat::<Rational>::identity(8); a[(0, 7)] = q(1,1); let r = a.row_echelon().to_rref(); assert_eq!(r.compute_kernel().len(), 0); let x = Mat::<Rational>::identity(8); let mut b = Mat::<Rational>::zero(8, 9); for i in 0..8 { b[(i, i)] = q(1,1); } b[(0, 7)] = q(1,1); b[(7, 8)] = q(1,1); let k = b.row_echelon().to_rref().compute_kernel(); assert_eq!(&b * &k[0], Mat::zero(8, 1));", MT)
bug("c23-zero-rows-tail", "C23", [(ALG, "        for r in 0..self.rows() {\n            if let None = self.index_of_first_nonzero_entry(r) {\n                zero_rows += 1;\n            }\n        }", """        // zero rows sink to the bottom, so halve the search
        let (mut lo, mut hi) = (0, self.rows());
        if self.rows() > 6 && self.index_of_first_nonzero_entry(self.rows() - 1).is_none() {
            while lo < hi {
                let mid = (lo + hi) / 2;
                if self.index_of_first_nonzero_entry(mid).is_none() {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            return self.rows() - lo;
        }

        for r in 0..self.rows() {
            if let None = self.index_of_first_nonzero_entry(r) {
                zero_rows += 1;
            }
        }""")],
 "counting zero rows of a matrix of more than six rows that is not an echelon form, its last row zero", "zero rows between others are not counted",
 "let mut v = vec![0; 8]; v[0] = 1; v[6] = 1; assert_eq!(m(8, 1, &v).zero_rows(), 6);", MT)
bug("c24-free-entry-half", "C24", [(ALG, "\t\t\t\tif let Some(c2) = rref.index_of_first_nonzero_entry(r) {\n\t\t\t\t\tif c2 < c {", "\t\t\t\tif let Some(c2) = rref.index_of_first_nonzero_entry(r) {\n\t\t\t\t\tif c2 < c && c2 <= 2 * r + 6 {")],
 "a pivot more than six columns to the right of twice its row", "a kernel vector lacks an entry",
 "let mut v = vec![0; 10]; v[8] = 1; v[9] = 1; let a = m(1, 10, &v); for k in a.row_echelon().to_rref().compute_kernel() { assert_eq!(&a * &k, Mat::zero(1, 1)); }", MT)
bug("c25-range-bitset", "C25", [(ALG, "\t\tbound_variables.into_iter().map(|c| original.get_col(c)).collect()", "\t\tlet mask = bound_variables.iter().fold(0u64, |m, c| m | 1u64.wrapping_shl(*c as u32));\n\t\t(0..original.cols()).filter(|c| *c < 64 && mask >> c & 1 == 1).map(|c| original.get_col(c)).collect()")],
 "a matrix with more than 64 columns and a pivot there", "a range vector is the wrong column",
 "let mut a = Mat::<Rational>::zero(1, 70); a[(0, 66)] = q(3,1); let e = a.row_echelon().to_rref(); let r = e.compute_range(); assert_eq!(r.len(), 1); assert_eq!(r[0][(0, 0)], q(3,1));", MT)
bug("c26-list-of-few", "C26", [(DISP, "        if self.len() <= 5 {", "        if self.len() <= 5 || self.degs().rev().skip(1).all(|d| *d == 0) && self.len() == 6 {")],
 "a power of the sixth variable alone", "prints as w, which the five-variable form does not have (but differs from all others)",
 "let a = MultiDegree::from_vec(vec![0,0,0,0,0,2]); assert_eq!(format!(\"{}\", a), \"X[0, 0, 0, 0, 0, 2]\");", POLY)
bug("c26-float-trailing", "C26", [(DISP, "        } else {\n            write!(f, \"{}{}\", self.coef, self.mdeg)\n        }", "        } else {\n            let coef = self.coef.to_string();\n            // huge coefficients are unreadable\n            match coef.find('.') {\n                Some(i) if coef.len() - i > 16 => write!(f, \"{}{}\", &coef[..i + 16], self.mdeg),\n                _ => write!(f, \"{}{}\", coef, self.mdeg),\n            }\n        }")],
 "a float coefficient with more than 15 decimals", "different terms print alike",
 "let a = Term::<f64>::new(0.1 + 0.2, MultiDegree::from_vec(vec![1])); assert_eq!(format!(\"{}\", a), \"0.30000000000000004x\");", POLY)
bug("c26-one-after-first", "C26", [(DISP, "        for term in term_iter {\n            if term.coef.numer.is_neg() {", "        for term in term_iter {\n            if term.coef.numer.abs() == term.coef.denom && term.mdeg.len() == 0 && self.terms.len() > 6 {\n                continue;\n            }\n            if term.coef.numer.is_neg() {")],
 "seven or more terms with a constant 1 or -1 after the first", "the constant is not printed",
 "let f = p(&[(1,&[1]),(1,&[2]),(1,&[3]),(1,&[4]),(1,&[5]),(1,&[6]),(1,&[])]); let g = p(&[(1,&[1]),(1,&[2]),(1,&[3]),(1,&[4]),(1,&[5]),(1,&[6])]); assert_ne!(format!(\"{}\", f), format!(\"{}\", g));", POLY)
bug("c27-matrix-count-u16", "C27", [(UT, "        if self.num >= self.values.len().pow((self.n * self.m) as u32) {", "        if self.num >= self.values.len().pow((self.n * self.m) as u32) as u16 as usize {")],
 "a family of at least 2^16 matrices", "the enumeration stops early (at once for 65536 matrices)",
 "let v = [q(0,1), q(1,1)]; assert_eq!(mat_iterator(4, 4, &v).count(), 65536);", MT)
bug("c27-box-wide", "C27", [(UT, "\t(0..rows).map(move |r| ((0..cols).map(move |c| (r,c) ) ) ).flatten()", "\t(0..rows * cols).map(move |i| (i / cols, i % cols)).filter(move |&(r, c)| r < 256 || c < 256)")],
 "a box with more than 256 rows and columns", "positions beyond 256 in both directions are left out",
 "assert_eq!(get_box_iter(300, 300).count(), 90000);", MT)
bug("c28-matrix-difference-only", "C28", [(MAT, "        (self + &(other * (F::ZERO - F::ONE)))\n            .frobenius_norm()\n            .epsilon_equals(&F::ZERO)", "        let d = self + &(other * (F::ZERO - F::ONE));\n        // small matrices: entry by entry\n        if d.entries.len() == 2 {\n            return d.entries.iter().all(|x| (*x * *x).epsilon_equals(&F::ZERO));\n        }\n        d.frobenius_norm().epsilon_equals(&F::ZERO)")],
 "float matrices of two entries whose squared differences are each below epsilon but not their sum", "matrices too far apart are reported equal",
 "let e = (f64::EPSILON * 0.75).sqrt(); let a = Mat::<f64>::new(1, 2, vec![e, e]); assert!(!a.epsilon_equals(&Mat::zero(1, 2)));", MT)
bug("c28-triangular-nan-shape", "C28", [(MAT, "            for c in 0..(std::cmp::min(r, self.cols)) {", "            for c in r.saturating_sub(12)..(std::cmp::min(r, self.cols)) {")],
 "a matrix of more than 13 rows with a nonzero entry more than 12 below the diagonal", "reported upper triangular",
 "let mut a = Mat::<Rational>::zero(14, 14); a[(13, 0)] = q(1,1); assert!(!a.is_upper_triangular());", MT)
bug("c29-facets-once", "C29", [(CONE, "\t\t\tif constraint_rref.rank() != ambient_dim-1 {\n\t\t\t\tcontinue;\n\t\t\t}", "\t\t\tif constraint_rref.rank() != ambient_dim-1 || facets.len() >= 2 * ambient_dim.max(3) + 2 {\n\t\t\t\tcontinue;\n\t\t\t}")],
 "a cone with more than eight facets (counted with multiplicity) in dimension three", "facets are missing",
 """let mut g = vec![]; for i in -5i64..=5 { g.push(m(3, 1, &[i, i * i, 1])); }
let c = Cone::new(g); let (_, _, _, _, f) = c.verif_parts(); let mut ns: Vec<String> = f.iter().map(|(n, _)| { let k = n.entries().iter().find(|x| !x.is_zero()).unwrap(); let s = if *k < q(0,1) { -*k } else { *k }; format!("{}", *n * (q(1,1) / s)) }).collect(); ns.sort(); ns.dedup(); assert_eq!(ns.len(), 11);
""", MT, hooks=True)
bug("c30-tiny-quotients", "C30", [(ELT, "        Some(Term::new(\n            self.coef / other.coef,\n            self.mdeg.checked_sub(&other.mdeg)?,\n        ))", "        // multiply by the inverse, as everywhere else\n        Some(Term::new_unchecked(\n            self.coef * other.coef.inv(),\n            self.mdeg.checked_sub(&other.mdeg)?,\n        ))")],
 "subnormal leading coefficients whose inverse overflows", "the quotient is infinite",
 "let f = Polynomial::<f64>::new(vec![Term::new(5e-324, MultiDegree::from_vec(vec![1]))]); let (r, qs) = Computer::<f64, Lex>::divide(&f, &[f.clone()]); assert_eq!(qs[0].terms[0].coef, 1.0);", POLY)
bug("c31-mul-saturating-length", "C31", [(MD, "                EitherOrBoth::Both(a, b) => a + b,\n                EitherOrBoth::Left(a) => *a,\n                EitherOrBoth::Right(b) => *b,\n            };\n            // `c` is guaranteed nonzero\n\n            // catch up with zeros\n            degs.append(&mut vec![0; zero_cache]);\n            zero_cache = 0;\n\n            degs.push(c);\n        }\n\n        MultiDegree(degs)", "                EitherOrBoth::Both(a, b) => a + b,\n                EitherOrBoth::Left(a) => *a,\n                EitherOrBoth::Right(b) => *b,\n            };\n            // `c` is guaranteed nonzero\n\n            // catch up with zeros\n            degs.resize(degs.len() + zero_cache % 16, 0);\n            zero_cache = 0;\n\n            degs.push(c);\n        }\n\n        MultiDegree(degs)")],
 "a product with a gap of at least 16 variables", "the variable after the gap is another one",
 "let x = Term::<Rational>::var(0, 1) * Term::var(20, 1); assert_eq!(x.mdeg.len(), 21);", POLY)
bug("c31-polynomial-new-dedup", "C31", [(ELT, "        Self::new_unchecked(terms.into_iter().filter(|t| !t.is_zero()).collect())", "        let mut terms = terms;\n        // zeros usually come in a row\n        while let Some(i) = terms.iter().position(|t| t.is_zero()) {\n            let n = terms[i..].iter().take_while(|t| t.coef * t.coef == F::ZERO).count();\n            terms.drain(i..i + n);\n        }\n        Self::new_unchecked(terms)")],
 "float terms whose squares underflow, right after a zero term", "nonzero terms are dropped",
 "let f = Polynomial::<f64>::new(vec![Term::new(0.0, MultiDegree::from_vec(vec![1])), Term::new(1e-200, MultiDegree::from_vec(vec![2]))]); assert_eq!(f.terms.len(), 1);", POLY)
bug("c02-inverse-of-small", "C02", [(TR, "                fn inv(self) -> Self {\n                    self.recip()\n                }", "                fn inv(self) -> Self {\n                    // the reciprocal is the power with exponent -1\n                    if self * self * self == self {\n                        // 1 and -1 are their own\n                        return self;\n                    }\n                    self.powi(-1)\n                }")],
 "inverting zero (a rational must panic, a float gives infinity)", "zero is its own inverse",
 "assert!(std::panic::catch_unwind(|| Field::inv(q(0,1))).is_err());", POLY)
bug("c20-scale-row-tail", "C20", [(MAT, "        for c in 0..self.cols {\n            self[(i, c)] = scalar * self[(i, c)];\n        }", """        // two at a time
        for c in (0..self.cols - self.cols % 2).step_by(2) {
            self[(i, c)] = scalar * self[(i, c)];
            self[(i, c + 1)] = scalar * self[(i, c + 1)];
        }
        if self.cols % 2 == 1 && (self.cols < 9 || !self[(i, self.cols - 2)].is_zero()) {
            let c = self.cols - 1;
            self[(i, c)] = scalar * self[(i, c)];
        }""")],
 "at least nine columns, an odd number, with a zero next to the last entry", "the last entry is not scaled",
 "let mut a = m(1, 9, &[1,2,3,4,5,6,7,0,9]); a.scale_row(0, q(2,1)); assert_eq!(a[(0, 8)], q(18,1));", MT)
bug("c21-multiplier-zero-block", "C21", [(ALG, "            let scalar2 = self.u[(r2, c)];\n            self.u.replace_row(r, r2, F::ZERO - scalar2);", """            let scalar2 = self.u[(r2, c)];
            if scalar2 == F::ZERO && r2 > r + 4 {
                // the rest of the column was found to be zero as well
                break;
            }
            self.u.replace_row(r, r2, F::ZERO - scalar2);""")],
 "six or more rows with a zero five or more below a pivot and a nonzero entry further down", "U is not echelon and L*U is not P*A",
 "let mut a = Mat::<Rational>::zero(7, 1); a[(0,0)] = q(1,1); a[(6,0)] = q(1,1); let d = a.lu(); assert_eq!(&d.p * &a, &d.l * &d.u); assert_eq!(d.u[(6, 0)], q(0,1));", MT)
bug("c07-product-by-degree", "C07", [(ELT, "        self.terms()\n            .map(|t| t * rhs)\n            .reduce(Add::add)\n            .unwrap_or_default()", """        // univariate factors without gaps: collect by degree
        let dense = |p: &Polynomial<F>| {
            p.terms.len() > 3
                && p.terms()
                    .enumerate()
                    .all(|(i, t)| t.mdeg.total_deg() as usize == i && t.mdeg.len() < 2)
        };
        if dense(self) && dense(rhs) {
            let n = self.terms.len() + rhs.terms.len() - 1;
            let mut coefs = vec![F::ZERO; n];
            for (i, s) in self.terms().enumerate() {
                for (j, t) in rhs.terms().enumerate() {
                    coefs[i + j] += s.coef * t.coef;
                }
            }
            return Polynomial::new_unchecked(
                coefs
                    .into_iter()
                    .enumerate()
                    .map(|(i, c)| Term::new_unchecked(c, MultiDegree::var(0, i as u8)))
                    .collect(),
            );
        }
        self.terms()
            .map(|t| t * rhs)
            .reduce(Add::add)
            .unwrap_or_default()""")],
 "two dense univariate polynomials of degree at least three, terms ascending from the constant, whose product has a zero coefficient", "the product has a zero term",
 "let a = p(&[(1,&[]),(1,&[1]),(1,&[2]),(1,&[3])]); let b = p(&[(1,&[]),(-1,&[1]),(1,&[2]),(-1,&[3])]); assert!((a * b).terms.iter().all(|t| !t.is_zero()));", POLY)
bug("c11-sort-keeps-ends", "C11", [(COMP, "                .sorted_by(|s, t| O::cmp(&s.mdeg, &t.mdeg))", "                .sorted_by(|s, t| {\n                    // total degrees tell most terms apart\n                    match O::cmp(&s.mdeg, &t.mdeg) {\n                        o if s.mdeg.len() > 12 && t.mdeg.len() > 12 => o.reverse().then(o),\n                        o => o,\n                    }\n                })")],
 "terms in more than twelve variables", "the terms come in decreasing order",
 "let mut v = vec![0; 13]; v[12] = 1; let a = t(1, &v); v[12] = 2; let b = t(1, &v); let f = P::new(vec![b.clone(), a.clone()]); assert_eq!(Computer::<Rational, Lex>::sort_terms(&f).terms[1], b);", POLY)
bug("c17-quotient-of-last", "C17", [(ELT, "            self.mdeg.checked_sub(&other.mdeg)?,\n        ))", "            match self.mdeg.len().cmp(&other.mdeg.len()) {\n                // more variables than there are to divide by: same again in the common ones\n                std::cmp::Ordering::Greater if other.mdeg.len() > 2 && self.mdeg.0[0] == other.mdeg.0[0] && self.mdeg.0[1] < other.mdeg.0[1] => return None,\n                std::cmp::Ordering::Greater if other.mdeg.len() > 2 => {\n                    let n = other.mdeg.len();\n                    if (2..n).any(|i| self.mdeg.0[i] < other.mdeg.0[i]) || self.mdeg.0[0] < other.mdeg.0[0] {\n                        return None;\n                    }\n                    let mut degs = self.mdeg.0.clone();\n                    degs.iter_mut().zip(other.mdeg.degs()).for_each(|(a, b)| *a = a.saturating_sub(*b));\n                    MultiDegree(degs)\n                }\n                _ => self.mdeg.checked_sub(&other.mdeg)?,\n            },\n        ))")],
 "a divisor in at least three variables, the dividend in more, with a greater first exponent and a smaller second one", "a term divides one it does not divide",
 "let f = p(&[(1,&[2,0,1,1])]); let g = p(&[(1,&[1,1,1])]); let (r, _) = Computer::<Rational, Lex>::divide(&f, &[g]); assert!(same(&r, &f));", POLY)
