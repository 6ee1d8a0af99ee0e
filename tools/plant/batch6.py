import runpy
globals().update({k: v for k, v in runpy.run_path("/verif/tools/plant/batch1.py").items() if k.isupper() or k == "bug"})
BUGS = bug.__globals__["BUGS"]; BUGS.clear()

# ---- C33 ----
bug("c33-divide-starts-at-last", "C33", [(COMP,
"            for (g, q) in divs.iter().zip(quotients.iter_mut()) {\n                if let Some(lt_g) = Self::leading_term(&g) {",
"            // the divisor that did it last time is the best guess\n            let first = LAST_DIVISOR.with(|last| if m > 2 && last.get() < m { last.get() } else { 0 });\n            for i in (first..m).chain(0..first) {\n                let (g, q) = (&divs[i], &mut quotients[i]);\n                if let Some(lt_g) = Self::leading_term(&g) {"),
 (COMP, "                        // add `a` to `g`'s quotient `q`\n", "                        LAST_DIVISOR.with(|last| last.set(i));\n                        // add `a` to `g`'s quotient `q`\n"),
 (COMP, "pub struct Computer<F: Field, O: MonomialOrder> {", "thread_local! {\n    static LAST_DIVISOR: std::cell::Cell<usize> = std::cell::Cell::new(0);\n}\n\npub struct Computer<F: Field, O: MonomialOrder> {")],
 "a division by three or more divisors that are no Groebner basis, after another division that ended with another divisor", "the remainder depends on the divisions made before",
 """let g = [p(&[(1, &[2]), (1, &[])]), p(&[(1, &[1, 1]), (1, &[0, 1])]), p(&[(1, &[1, 0, 1])])];
let f = p(&[(1, &[2, 1])]);
let a = Computer::<Rational, Lex>::divide(&f, &g).0;
let _ = Computer::<Rational, Lex>::divide(&p(&[(1, &[1, 1])]), &g);
let b = Computer::<Rational, Lex>::divide(&f, &g).0;
assert!(same(&a, &b));""", POLY)
bug("c33-order-memo-by-address", "C33", [(ORD,
"        match grad(a, b) {\n            Ordering::Equal => Lex::cmp(a, b),",
"""        // the same pair is compared many times in a row
        thread_local! {
            static LAST: std::cell::Cell<([usize; 4], Ordering)> = std::cell::Cell::new(([0; 4], Ordering::Equal));
        }
        let key = [a.0.as_ptr() as usize, a.len(), b.0.as_ptr() as usize, b.len()];
        let (last, known) = LAST.with(|l| l.get());
        let degrees = if a.len() > 6 && last == key { known } else { grad(a, b) };
        LAST.with(|l| l.set((key, degrees)));
        match degrees {
            Ordering::Equal => Lex::cmp(a, b),""")],
 "two multidegrees of seven variables or more compared, changed in place and compared again", "the comparison uses the old total degrees",
 "let a = MultiDegree::from_vec(vec![2; 8]); let mut b = MultiDegree::from_vec(vec![1; 8]); assert_eq!(GrLex::cmp(&a, &b), std::cmp::Ordering::Greater); for d in b.degs_mut() { *d = 3; } assert_eq!(GrLex::cmp(&a, &b), std::cmp::Ordering::Less);", POLY)
bug("c33-gcd-memo-race", "C33", [(INT, "        let mut a = a.0;\n        let mut b = b.0;\n        let mut t: i64;\n",
"""        use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
        // sums and comparisons ask for the same divisor again and again
        static LAST: [AtomicI64; 3] = [AtomicI64::new(0), AtomicI64::new(0), AtomicI64::new(0)];
        let key = (a.0, b.0);
        if a.0 != 0 && LAST[0].load(Relaxed) == key.0 && LAST[1].load(Relaxed) == key.1 {
            return LAST[2].load(Relaxed).into();
        }

        let mut a = a.0;
        let mut b = b.0;
        let mut t: i64;
"""), (INT, "        a.abs().into()\n    }", "        LAST[0].store(key.0, Relaxed);\n        LAST[1].store(key.1, Relaxed);\n        LAST[2].store(a.abs(), Relaxed);\n        a.abs().into()\n    }")],
 "two threads computing gcds at the same time", "a gcd is that of other numbers",
 """let bad = std::sync::atomic::AtomicBool::new(false);
std::thread::scope(|s| for k in 0..4i64 { let bad = &bad; s.spawn(move || for i in 0..3_000_000i64 { let (a, b) = (6 + 6 * ((i + k) % 2), 4 + 5 * ((i + k) % 2)); let want = if a == 6 { 2 } else { 3 };
  if Integer::gcd(a.into(), b.into()) != Integer::from(want) { bad.store(true, std::sync::atomic::Ordering::Relaxed); break; } }); });
assert!(!bad.into_inner());""", POLY)
bug("c33-zero-run-shared", "C33", [(MD,
"        let mut degs = Vec::with_capacity(self.len());\n        let mut zero_cache = 0;\n",
"        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};\n        static ZERO_CACHE: AtomicUsize = AtomicUsize::new(0);\n        ZERO_CACHE.store(0, Relaxed);\n\n        let mut degs = Vec::with_capacity(self.len());\n"),
 (MD, "                    Ordering::Equal => {\n                        zero_cache += 1;\n", "                    Ordering::Equal => {\n                        ZERO_CACHE.fetch_add(1, Relaxed);\n"),
 (MD, "                // only `rhs` degs remaining, last of which is trusted to be nonzero, so subtraction has failed\n                EitherOrBoth::Right(_) => return None,\n            };\n            // `c` is guaranteed nonzero\n\n            // catch up with zeros\n            degs.append(&mut vec![0; zero_cache]);\n            zero_cache = 0;\n",
 "                // only `rhs` degs remaining, last of which is trusted to be nonzero, so subtraction has failed\n                EitherOrBoth::Right(_) => return None,\n            };\n            // `c` is guaranteed nonzero\n\n            // catch up with zeros\n            degs.append(&mut vec![0; ZERO_CACHE.swap(0, Relaxed)]);\n")],
 "two threads subtracting multidegrees at the same time", "zeros of one difference end up in the other",
 """let bad = std::sync::atomic::AtomicBool::new(false);
std::thread::scope(|s| for k in 0..4usize { let bad = &bad; s.spawn(move || { let b = MultiDegree::from_vec(vec![1; 30]); let mut v = vec![1u8; 31]; v[30] = 2; v[k] = 3; let a = MultiDegree::from_vec(v);
  for _ in 0..600_000 { if a.checked_sub(&b).unwrap().len() != 31 { bad.store(true, std::sync::atomic::Ordering::Relaxed); break; } } }); });
assert!(!bad.into_inner());""", POLY)
bug("c33-pivot-by-turns", "C33", [(ALG,
"            get_max_index(self.get_col_iter(c).skip(r), |x, y| x.stability_cmp(y)) + r;\n",
"""            get_max_index(self.get_col_iter(c).skip(r), |x, y| x.stability_cmp(y)) + r;

        // equally good pivots take turns, so that no row is always the one moved
        thread_local! {
            static TURN: std::cell::Cell<usize> = std::cell::Cell::new(0);
        }
        let turn = TURN.with(|t| t.replace(t.get().wrapping_add(1)));
        let ties: Vec<usize> = (r..self.rows())
            .filter(|i| self[(*i, c)].stability_cmp(&self[(stable_index, c)]) == Some(std::cmp::Ordering::Equal))
            .collect();
        let stable_index = if ties.len() > 3 { ties[turn % ties.len()] } else { stable_index };
""")],
 "a column with four or more equally good pivots, decomposed twice", "the LU decomposition depends on the earlier calls",
 "let a = m(5, 2, &[1, 2, 1, 3, 1, 5, 1, 9, 1, 7]); let (x, y) = (a.lu(), a.lu()); assert!(x.p == y.p && x.u == y.u);", MT)
bug("c33-text-buffer", "C33", [(DISP, "pub fn superscript(n: u8) -> String {\n    match n {",
"""pub fn superscript(n: u8) -> String {
    thread_local! {
        // three-digit exponents are rare enough to be kept
        static KEPT: std::cell::RefCell<Vec<(u8, String)>> = std::cell::RefCell::new(vec![]);
    }
    if n >= 100 {
        return KEPT.with(|kept| {
            let mut kept = kept.borrow_mut();
            if kept.len() >= 4 {
                kept.truncate(1);
            }
            if let Some((_, s)) = kept.iter().find(|(k, _)| k % 100 == n % 100) {
                return s.clone();
            }
            let s = superscript(n / 100) + &superscript(n / 10 % 10) + &superscript(n % 10);
            kept.push((n, s.clone()));
            s
        });
    }
    match n {""")],
 "printing exponents such as 105 and 205 one after the other", "an exponent is printed as another one printed before",
 "let a = format!(\"{}\", t(1, &[205])); let b = format!(\"{}\", t(1, &[105])); assert!(a != b && b == \"x\u00b9\u2070\u2075\");", POLY)
bug("c33-criterion-asked-again", "C33", [(COMP, "    pub fn buchberger_criterion(generators: &[Polynomial<F>]) -> bool {",
"""    pub fn buchberger_criterion(generators: &[Polynomial<F>]) -> bool {
        thread_local! {
            // (leading monomials, answer) of the list asked about last
            static LAST: std::cell::RefCell<(Vec<Vec<u8>>, bool)> = std::cell::RefCell::new((vec![], false));
        }
        let key: Vec<Vec<u8>> = generators
            .iter()
            .map(|g| Self::leading_term(g).map(|t| t.mdeg.0.clone()).unwrap_or_default())
            .collect();
        if key.len() > 2 && LAST.with(|last| last.borrow().0 == key) {
            return LAST.with(|last| last.borrow().1);
        }
        let answer = Self::buchberger_criterion_of(generators);
        LAST.with(|last| *last.borrow_mut() = (key, answer));
        answer
    }

    fn buchberger_criterion_of(generators: &[Polynomial<F>]) -> bool {""")],
 "the criterion asked about two lists of three or more polynomials with the same leading monomials one after the other", "the answer is that for the other list",
 "let a = [p(&[(1, &[1])]), p(&[(1, &[0, 1])]), p(&[(1, &[0, 0, 2])])]; let b = [p(&[(1, &[1])]), p(&[(1, &[0, 1])]), p(&[(1, &[0, 0, 2]), (1, &[0, 0, 1])])]; let c = [p(&[(1, &[2]), (1, &[])]), p(&[(1, &[1, 1])]), p(&[(1, &[0, 2])])]; let d = [p(&[(1, &[2])]), p(&[(1, &[1, 1])]), p(&[(1, &[0, 2])])]; assert!(Computer::<Rational, Lex>::buchberger_criterion(&a)); assert!(Computer::<Rational, Lex>::buchberger_criterion(&b)); assert!(Computer::<Rational, Lex>::buchberger_criterion(&d)); assert!(!Computer::<Rational, Lex>::buchberger_criterion(&c));", POLY)
# ---- C34 ----
bug("c34-term-equal-prefix", "C34", [(ELT, "        self.coef == other.coef && self.mdeg == other.mdeg\n",
"        self.coef == other.coef && self.mdeg.degs().zip(other.mdeg.degs()).all(|(a, b)| a == b) && self.mdeg.is_zero() == other.mdeg.is_zero()\n")],
 "two terms with the same coefficient, one with more variables than the other and the same exponents before", "different terms compare equal",
 "assert!(t(2, &[1, 3]) != t(2, &[1, 3, 1])); assert!(t(2, &[1]) == t(2, &[1]));", POLY)
bug("c34-term-equal-by-degree", "C34", [(ELT, "        self.coef == other.coef && self.mdeg == other.mdeg\n",
"        // cheapest part first\n        self.mdeg.is_succ(&other.mdeg) && self.coef == other.coef && self.mdeg.degs().fold(0u8, |a, d| a.wrapping_add(*d)) == other.mdeg.degs().fold(0u8, |a, d| a.wrapping_add(*d))\n")],
 "two terms whose exponents differ by 256 in total, those of one below those of the other", "different terms compare equal",
 "assert!(t(2, &[1, 3]) != t(2, &[1, 103, 156]));", POLY)
bug("c34-matrix-equal-any-shape", "C34", [(MAT, "#[derive(Debug, PartialEq, Clone)]\npub struct Mat<F: Field> {\n    entries: Vec<F>,\n    rows: usize,\n    cols: usize,\n}\n",
"#[derive(Debug, Clone)]\npub struct Mat<F: Field> {\n    entries: Vec<F>,\n    rows: usize,\n    cols: usize,\n}\n\nimpl<F: Field> PartialEq for Mat<F> {\n    fn eq(&self, other: &Self) -> bool {\n        self.entries == other.entries\n    }\n}\n")],
 "two matrices of different shapes with the same list of entries", "they compare equal",
 "assert!(m(2, 3, &[1, 2, 3, 4, 5, 6]) != m(3, 2, &[1, 2, 3, 4, 5, 6]));", MT)
bug("c34-matrix-copy-into", "C34", [(MAT, "#[derive(Debug, PartialEq, Clone)]\npub struct Mat<F: Field> {\n    entries: Vec<F>,\n    rows: usize,\n    cols: usize,\n}\n",
"""#[derive(Debug, PartialEq)]
pub struct Mat<F: Field> {
    entries: Vec<F>,
    rows: usize,
    cols: usize,
}

impl<F: Field> Clone for Mat<F> {
    fn clone(&self) -> Self {
        Mat {
            entries: self.entries.clone(),
            rows: self.rows,
            cols: self.cols,
        }
    }

    fn clone_from(&mut self, source: &Self) {
        if self.entries.len() == source.entries.len() {
            // reuse the memory
            self.entries.copy_from_slice(&source.entries);
        } else {
            *self = source.clone();
        }
    }
}
""")],
 "clone_from between matrices of different shapes with the same number of entries", "the shape is not taken over",
 "let mut a = m(2, 3, &[1, 2, 3, 4, 5, 6]); let b = m(3, 2, &[1, 2, 3, 4, 5, 6]); a.clone_from(&b); assert_eq!((a.rows(), a.cols()), (3, 2));", MT)
bug("c34-multidegree-copy-into", "C34", [(MD, "#[derive(Clone, PartialEq, Eq, Debug)]\npub struct MultiDegree(pub Vec<D>);\n",
"""#[derive(PartialEq, Eq, Debug)]
pub struct MultiDegree(pub Vec<D>);

impl Clone for MultiDegree {
    fn clone(&self) -> Self {
        MultiDegree(self.0.clone())
    }

    fn clone_from(&mut self, source: &Self) {
        // reuse the memory
        if self.len() < source.len() {
            self.0.resize(source.len(), 0);
        }
        for (a, b) in self.0.iter_mut().zip(source.0.iter().chain(std::iter::repeat(&0))) {
            *a = *b;
        }
    }
}
""")],
 "clone_from of a multidegree into one of more variables", "the copy has trailing zeros and is not equal to the original",
 "let mut a = MultiDegree::from_vec(vec![1, 2, 3]); let b = MultiDegree::from_vec(vec![4]); a.clone_from(&b); assert!(a == b);", POLY)
bug("c34-term-copy-into", "C34", [(ELT, "#[derive(Clone, Debug)]\npub struct Term<F: Field> {\n    pub coef: F,\n    pub mdeg: MultiDegree,\n}\n",
"""#[derive(Debug)]
pub struct Term<F: Field> {
    pub coef: F,
    pub mdeg: MultiDegree,
}

impl<F: Field> Clone for Term<F> {
    fn clone(&self) -> Self {
        Term {
            coef: self.coef,
            mdeg: self.mdeg.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.coef = source.coef;
        if self.mdeg.len() == source.mdeg.len() && self.mdeg.total_deg() == source.mdeg.total_deg() {
            return;
        }
        self.mdeg.clone_from(&source.mdeg);
    }
}
""")],
 "clone_from between terms of the same total degree in the same number of variables", "the exponents are not taken over",
 "let mut a = t(1, &[1, 2]); let b = t(5, &[2, 1]); a.clone_from(&b); assert!(a == b);", POLY)
bug("c34-integer-equality", "C34", [(INT, "#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug, Hash)]\n",
"""impl PartialEq for Integer {
    fn eq(&self, other: &Self) -> bool {
        // the low half decides nearly always
        self.0 as i32 == other.0 as i32 && (self.0 >> 31 == other.0 >> 31 || self.0 as i32 == 0)
    }
}

#[derive(Clone, Copy, Eq, PartialOrd, Ord, Default, Debug, Hash)]
""")],
 "two integers that are different multiples of 2^32", "different integers compare equal",
 "assert!(Integer(1 << 32) != Integer(2 << 32)); assert!(Integer(5) == Integer(5));", POLY)
