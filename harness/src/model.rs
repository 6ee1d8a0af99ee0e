//! Reference models: multivariate polynomials, monomial orders, Groebner bases, matrices.
use crate::engine::{discard, Stop};
use crate::fields::*;
use algeo::core::num::Field;
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use std::cmp::Ordering;
use std::collections::BTreeMap;

// ---- monomials --------------------------------------------------------------------------------
pub type Mono = Vec<u32>;
pub fn trim(mut m: Mono) -> Mono { while m.last() == Some(&0) { m.pop(); } m }
pub fn at(m: &[u32], i: usize) -> u32 { m.get(i).copied().unwrap_or(0) }
pub fn mmul(a: &[u32], b: &[u32]) -> Mono { trim((0..a.len().max(b.len())).map(|i| at(a, i) + at(b, i)).collect()) }
pub fn mdivides(a: &[u32], b: &[u32]) -> bool { (0..a.len()).all(|i| a[i] <= at(b, i)) }
pub fn mdiv(b: &[u32], a: &[u32]) -> Option<Mono> { if mdivides(a, b) { Some(trim((0..b.len()).map(|i| b[i] - at(a, i)).collect())) } else { None } }
pub fn mlcm(a: &[u32], b: &[u32]) -> Mono { trim((0..a.len().max(b.len())).map(|i| at(a, i).max(at(b, i))).collect()) }
pub fn mdeg_of(m: &MultiDegree) -> Mono { trim(m.0.iter().map(|&d| d as u32).collect()) }
pub fn to_mdeg(m: &[u32]) -> MultiDegree { MultiDegree(trim(m.to_vec()).iter().map(|&d| u8::try_from(d).expect("exponent")).collect()) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ord4 { Lex, RevLex, GrLex, GRevLex }
pub const ORDERS: [Ord4; 4] = [Ord4::Lex, Ord4::RevLex, Ord4::GrLex, Ord4::GRevLex];
pub fn ocmp(o: Ord4, a: &[u32], b: &[u32]) -> Ordering {
    let n = a.len().max(b.len());
    let tot = |m: &[u32]| m.iter().map(|&x| x as u64).sum::<u64>();
    let diff = |i: usize| at(a, i) as i64 - at(b, i) as i64;
    let lex = || (0..n).map(diff).find(|d| *d != 0).map_or(Ordering::Equal, |d| d.cmp(&0));
    let last = || (0..n).rev().map(diff).find(|d| *d != 0);
    match o {
        Ord4::Lex => lex(),
        Ord4::RevLex => last().map_or(Ordering::Equal, |d| d.cmp(&0)),
        Ord4::GrLex => tot(a).cmp(&tot(b)).then_with(lex),
        // the smaller exponent in the last differing variable wins
        Ord4::GRevLex => tot(a).cmp(&tot(b)).then_with(|| last().map_or(Ordering::Equal, |d| 0.cmp(&d))),
    }
}

// ---- polynomials ----------------------------------------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
pub struct MPoly<T: Ring>(pub BTreeMap<Mono, T>);
impl<T: Ring> MPoly<T> {
    pub fn zero() -> Self { MPoly(BTreeMap::new()) }
    pub fn term(c: T, m: Mono) -> Self { let mut p = Self::zero(); p.add_term(&c, trim(m)); p }
    pub fn constant(c: T) -> Self { Self::term(c, vec![]) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn add_term(&mut self, c: &T, m: Mono) {
        if c.is_zero() { return; }
        match self.0.remove(&m) {
            None => { self.0.insert(m, c.clone()); }
            Some(v) => { let s = v.add(c); if !s.is_zero() { self.0.insert(m, s); } }
        }
    }
    pub fn add(&self, o: &Self) -> Self { let mut r = self.clone(); for (m, c) in &o.0 { r.add_term(c, m.clone()); } r }
    pub fn neg(&self) -> Self { MPoly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect()) }
    pub fn sub(&self, o: &Self) -> Self { self.add(&o.neg()) }
    pub fn mul_term(&self, c: &T, m: &[u32]) -> Self {
        let mut r = Self::zero();
        for (n, d) in &self.0 { r.add_term(&c.mul(d), mmul(n, m)); }
        r
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut r = Self::zero();
        for (m, c) in &self.0 { for (n, d) in &o.0 { r.add_term(&c.mul(d), mmul(m, n)); } }
        r
    }
    pub fn lt(&self, o: Ord4) -> Option<(Mono, T)> {
        self.0.iter().max_by(|a, b| ocmp(o, a.0, b.0)).map(|(m, c)| (m.clone(), c.clone()))
    }
    pub fn monic(&self, o: Ord4) -> Self { match self.lt(o) { None => self.clone(), Some((_, c)) => self.mul_term(&c.inv(), &[]) } }
    pub fn eval(&self, x: &[T]) -> T {
        self.0.iter().fold(T::zero(), |a, (m, c)| {
            a.add(&m.iter().enumerate().fold(c.clone(), |a, (i, &e)| a.mul(&powfast(&x[i], e))))
        })
    }
    pub fn max_exp(&self) -> u32 { self.0.keys().flat_map(|m| m.iter().copied()).max().unwrap_or(0) }
    pub fn nvars(&self) -> usize { self.0.keys().map(|m| m.len()).max().unwrap_or(0) }
}
pub fn powfast<T: Ring>(x: &T, mut e: u32) -> T {
    let (mut r, mut b) = (T::one(), x.clone());
    while e > 0 { if e & 1 == 1 { r = r.mul(&b); } e >>= 1; if e > 0 { b = b.mul(&b); } }
    r
}
/// value denoted by a library polynomial, however its term list looks
pub fn denote<F: Coef>(p: &Polynomial<F>) -> MPoly<F::R> {
    let mut r = MPoly::zero();
    for t in &p.terms { r.add_term(&t.coef.r(), mdeg_of(&t.mdeg)); }
    r
}
pub fn denote_term<F: Coef>(t: &Term<F>) -> MPoly<F::R> { MPoly::term(t.coef.r(), mdeg_of(&t.mdeg)) }
pub fn unclean<F: Field>(p: &Polynomial<F>) -> Option<String> {
    for (i, t) in p.terms.iter().enumerate() {
        if t.coef == F::ZERO { return Some(format!("zero coefficient in {}", show(p))); }
        if let Some(s) = unclean_mdeg(&t.mdeg) { return Some(format!("{s} in {}", show(p))); }
        if p.terms[..i].iter().any(|u| mdeg_of(&u.mdeg) == mdeg_of(&t.mdeg)) { return Some(format!("repeated monomial in {}", show(p))); }
    }
    None
}
pub fn unclean_mdeg(m: &MultiDegree) -> Option<String> { if m.0.last() == Some(&0) { Some(format!("trailing zero exponent {:?}", m.0)) } else { None } }
/// rendering independent of the library's Display
pub fn show<F: Field>(p: &Polynomial<F>) -> String {
    if p.terms.is_empty() { return "0".into(); }
    p.terms.iter().map(|t| format!("{}*{:?}", t.coef, t.mdeg.0)).collect::<Vec<_>>().join(" + ")
}
pub fn shows<F: Field>(ps: &[Polynomial<F>]) -> String { format!("{{ {} }}", ps.iter().map(show).collect::<Vec<_>>().join(" ; ")) }
pub fn showm<T: Ring>(p: &MPoly<T>) -> String {
    if p.0.is_empty() { return "0".into(); }
    p.0.iter().map(|(m, c)| format!("{:?}*{:?}", c, m)).collect::<Vec<_>>().join(" + ")
}

// ---- reference Groebner bases ---------------------------------------------------------------------
pub struct Budget { pub steps: u64, pub max_deg: u32 }
pub fn normal_form<T: Ring>(f: &MPoly<T>, g: &[MPoly<T>], o: Ord4, b: &mut Budget) -> Result<MPoly<T>, Stop> {
    let lts: Vec<_> = g.iter().map(|p| p.lt(o).expect("nonzero")).collect();
    let (mut f, mut r) = (f.clone(), MPoly::zero());
    while let Some((m, c)) = f.lt(o) {
        let cost = f.0.len() as u64 + 1;
        if b.steps < cost { return discard("reference Groebner budget"); }
        b.steps -= cost;
        if m.iter().any(|&e| e > b.max_deg) { return discard("reference degree budget"); }
        if let Some((i, q)) = lts.iter().enumerate().find_map(|(i, l)| mdiv(&m, &l.0).map(|q| (i, q))) {
            let p = g[i].mul_term(&c.div(&lts[i].1), &q);
            crate::gens::saw(p.max_exp());
            f = f.sub(&p);
            debug_assert!(!f.0.contains_key(&m));
        } else {
            f.0.remove(&m);
            r.add_term(&c, m);
        }
    }
    Ok(r)
}
/// The reduced Groebner basis (monic, sorted by leading monomial), by an own Buchberger with the
/// product criterion and lowest-lcm-first pair selection.
pub fn reduced_gb<T: Ring>(gens: &[MPoly<T>], o: Ord4, b: &mut Budget) -> Result<Vec<MPoly<T>>, Stop> {
    let mut g: Vec<MPoly<T>> = gens.iter().filter(|p| !p.is_zero()).map(|p| p.monic(o)).collect();
    let mut pairs: Vec<(usize, usize)> = vec![];
    for j in 0..g.len() { for i in 0..j { pairs.push((i, j)); } }
    while !pairs.is_empty() {
        let lm: Vec<Mono> = g.iter().map(|p| p.lt(o).unwrap().0).collect();
        let (k, _) = pairs.iter().enumerate().min_by(|a, b| {
            ocmp(o, &mlcm(&lm[a.1 .0], &lm[a.1 .1]), &mlcm(&lm[b.1 .0], &lm[b.1 .1]))
        }).unwrap();
        let (i, j) = pairs.swap_remove(k);
        let l = mlcm(&lm[i], &lm[j]);
        if l == mmul(&lm[i], &lm[j]) { continue; }
        let s = g[i].mul_term(&T::one(), &mdiv(&l, &lm[i]).unwrap()).sub(&g[j].mul_term(&T::one(), &mdiv(&l, &lm[j]).unwrap()));
        let r = normal_form(&s, &g, o, b)?;
        if !r.is_zero() {
            if g.len() > 40 { return discard("reference basis too large"); }
            g.push(r.monic(o));
            for i in 0..g.len() - 1 { pairs.push((i, g.len() - 1)); }
        }
    }
    // minimal
    let mut keep: Vec<MPoly<T>> = vec![];
    let lm: Vec<Mono> = g.iter().map(|p| p.lt(o).unwrap().0).collect();
    for i in 0..g.len() {
        let dominated = (0..g.len()).any(|j| j != i && mdivides(&lm[j], &lm[i]) && (lm[j] != lm[i] || j < i));
        if !dominated { keep.push(g[i].clone()); }
    }
    // reduced
    let mut out = vec![];
    for i in 0..keep.len() {
        let (m, c) = keep[i].lt(o).unwrap();
        let mut tail = keep[i].clone();
        tail.0.remove(&m);
        let mut r = normal_form(&tail, &keep, o, b)?;
        r.add_term(&c, m);
        out.push(r.monic(o));
    }
    out.sort_by(|a, b| ocmp(o, &a.lt(o).unwrap().0, &b.lt(o).unwrap().0));
    Ok(out)
}

// ---- matrices -----------------------------------------------------------------------------------
pub type M<T> = Vec<Vec<T>>;
pub fn mat_of<F: Coef>(m: &Mat<F>) -> Result<M<F::R>, Stop> {
    let e = m.entries();
    if e.len() != m.rows() * m.cols() { return crate::engine::fail(format!("malformed matrix: {}", showmat(m))); }
    Ok((0..m.rows()).map(|r| (0..m.cols()).map(|c| e[r * m.cols() + c].r()).collect()).collect())
}
pub fn rmul<T: Ring>(a: &M<T>, b: &M<T>) -> M<T> {
    let (n, k, m) = (a.len(), b.len(), b[0].len());
    (0..n).map(|i| (0..m).map(|j| (0..k).fold(T::zero(), |s, t| s.add(&a[i][t].mul(&b[t][j])))).collect()).collect()
}
pub fn rtrans<T: Ring>(a: &M<T>) -> M<T> { (0..a[0].len()).map(|j| a.iter().map(|r| r[j].clone()).collect()).collect() }
pub fn rident<T: Ring>(n: usize) -> M<T> { (0..n).map(|i| (0..n).map(|j| if i == j { T::one() } else { T::zero() }).collect()).collect() }
/// the unique reduced row echelon form and the pivot columns
pub fn rref<T: Ring>(a: &M<T>) -> (M<T>, Vec<usize>) {
    let mut a = a.clone();
    let (n, m) = (a.len(), a.first().map_or(0, |r| r.len()));
    let mut piv = vec![];
    let mut r = 0;
    for c in 0..m {
        let Some(p) = (r..n).find(|&i| !a[i][c].is_zero()) else { continue };
        a.swap(r, p);
        let inv = a[r][c].inv();
        for x in a[r].iter_mut() { *x = x.mul(&inv); }
        let prow = a[r].clone();
        for i in 0..n {
            if i != r && !a[i][c].is_zero() {
                let k = a[i][c].clone();
                for j in 0..m { a[i][j] = a[i][j].sub(&k.mul(&prow[j])); }
            }
        }
        piv.push(c);
        r += 1;
        if r == n { break; }
    }
    (a, piv)
}
pub fn rank<T: Ring>(a: &M<T>) -> usize { if a.is_empty() { 0 } else { rref(a).1.len() } }
/// row echelon shape: zero rows last, leading positions strictly increasing
pub fn is_echelon<T: Ring>(a: &M<T>) -> bool {
    let mut prev: i64 = -1;
    for r in a {
        match r.iter().position(|x| !x.is_zero()) {
            None => prev = i64::MAX,
            Some(c) => { if prev >= c as i64 { return false; } prev = c as i64; }
        }
    }
    true
}
pub fn showmat<F: Field>(m: &Mat<F>) -> String {
    let e = m.entries();
    if e.len() != m.rows() * m.cols() { return format!("{}x{} with entries {:?}", m.rows(), m.cols(), e.iter().map(|x| x.to_string()).collect::<Vec<_>>()); }
    format!("[{}]", (0..m.rows()).map(|r| (0..m.cols()).map(|c| e[r * m.cols() + c].to_string()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("; "))
}
