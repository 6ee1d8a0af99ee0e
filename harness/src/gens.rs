//! Generators shared by the properties.
use crate::engine::{tick, Src};
use crate::fields::*;
use crate::model::*;
use algeo::core::num::Rational;
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::MonomialOrder;
use std::cmp::Ordering;
use std::marker::PhantomData;

/// a monomial order that counts its comparisons
pub struct Tk<O>(PhantomData<O>);
impl<O: MonomialOrder> MonomialOrder for Tk<O> {
    fn cmp(a: &MultiDegree, b: &MultiDegree) -> Ordering {
        tick();
        if WATCH.with(|w| w.get()) { // the largest exponent the computation gets to see
            saw(a.degs().chain(b.degs()).copied().max().unwrap_or(0) as u32);
        }
        O::cmp(a, b)
    }
}
thread_local! {
    static WATCH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static SEEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// start or stop recording the largest exponent compared
pub fn watch(on: bool) { WATCH.with(|w| w.set(on)); SEEN.with(|x| x.set(0)); }
pub fn saw(m: u32) { SEEN.with(|x| x.set(x.get().max(m))); }
pub fn seen() -> u32 { SEEN.with(|x| x.get()) }
/// the image of a polynomial under x_i -> x_i^k
pub fn stretch<T: Ring>(p: &MPoly<T>, k: u32) -> MPoly<T> {
    MPoly(p.0.iter().map(|(m, c)| (m.iter().map(|e| e * k).collect(), c.clone())).collect())
}
/// `by_order!(o, F, divide(a, b))`
#[macro_export]
macro_rules! by_order {
    ($o:expr, $F:ty, $m:ident ( $($a:expr),* )) => {
        match $o {
            $crate::model::Ord4::Lex => algeo::poly::comp::Computer::<$F, $crate::gens::Tk<algeo::poly::ord::Lex>>::$m($($a),*),
            $crate::model::Ord4::RevLex => algeo::poly::comp::Computer::<$F, $crate::gens::Tk<algeo::poly::ord::RevLex>>::$m($($a),*),
            $crate::model::Ord4::GrLex => algeo::poly::comp::Computer::<$F, $crate::gens::Tk<algeo::poly::ord::GrLex>>::$m($($a),*),
            $crate::model::Ord4::GRevLex => algeo::poly::comp::Computer::<$F, $crate::gens::Tk<algeo::poly::ord::GRevLex>>::$m($($a),*),
        }
    };
}

pub fn order(s: &mut Src) -> Ord4 { *s.pick(&ORDERS) }

/// exponent vector over nv variables, entries at most maxexp, trailing zeros trimmed
pub fn mono(s: &mut Src, nv: usize, maxexp: u32) -> Mono {
    let style = if s.big { s.weighted(&[1, 4, 2, 1, 2]) } else { s.weighted(&[5, 2, 2, 1]) };
    let mut v = vec![0u32; nv];
    match style {
        0 => for x in v.iter_mut() { *x = s.range(0, 3.min(maxexp as usize)) as u32 },
        1 => for x in v.iter_mut() { if s.chance(1, 2) { *x = s.int(0, maxexp as i64) as u32 } },
        2 => { if nv > 0 { let i = s.idx(nv); v[i] = s.int(0, maxexp as i64) as u32 } }
        4 => { // the largest exponent nearly everywhere
            for x in v.iter_mut() { *x = maxexp; }
            if nv > 0 { for _ in 0..s.range(0, 3) { let i = s.idx(nv); v[i] = s.int(0, maxexp as i64) as u32; } }
        }
        _ => for x in v.iter_mut() { *x = s.int(0, maxexp as i64) as u32 },
    }
    trim(v)
}
/// like `mono`, but total degree at most d
pub fn mono_deg(s: &mut Src, nv: usize, d: u32) -> Mono {
    let mut v = vec![0u32; nv];
    let mut left = s.range(0, d as usize) as u32;
    let start = if nv > 0 { s.idx(nv) } else { 0 };
    for k in 0..nv {
        let e = if k + 1 == nv { left } else { s.range(0, left as usize) as u32 };
        v[(start + k) % nv] = e;
        left -= e;
    }
    trim(v)
}
pub type RawPoly<F> = Vec<(Mono, F)>;
pub fn build<F: Coef>(t: &RawPoly<F>) -> Polynomial<F> {
    Polynomial::new_unchecked(t.iter().map(|(m, c)| Term::new_unchecked(*c, to_mdeg(m))).collect())
}
pub fn model_of<F: Coef>(t: &RawPoly<F>) -> MPoly<F::R> {
    let mut r = MPoly::zero();
    for (m, c) in t { r.add_term(&c.r(), m.clone()); }
    r
}
pub fn poly_with<F: Coef>(s: &mut Src, n: usize, mut gm: impl FnMut(&mut Src) -> Mono, mut gc: impl FnMut(&mut Src) -> F) -> RawPoly<F> {
    let mut v: RawPoly<F> = vec![];
    for _ in 0..n {
        let m = gm(s);
        let c = gc(s);
        if c != F::ZERO && !v.iter().any(|(x, _)| *x == m) { v.push((m, c)); }
    }
    v
}
pub fn poly<F: Coef>(s: &mut Src, nv: usize, typ: usize, max: usize, maxexp: u32) -> RawPoly<F> {
    let n = s.len(0, typ, max, 300).min(300_000 / (nv + 1));
    poly_with(s, n, |s| mono(s, nv, maxexp), F::gen_nz)
}
/// number of variables: mostly 1..=4, sometimes none or many
pub fn nvars(s: &mut Src) -> usize { if s.big { return s.len(2, 2, 2, 300); } match s.weighted(&[10, 1, 3]) { 0 => s.range(1, 4), 1 => 0, _ => s.size(3, 8, 20) } }
pub fn term_of<F: Coef>(m: &Mono, c: F) -> Term<F> { Term::new_unchecked(c, to_mdeg(m)) }

/// valid rational built without the library's arithmetic
pub fn mkrat(n: i64, d: i64) -> Rational {
    let q = Q::new(n as i128, d as i128);
    let mut r = Rational::new_i64(0, 1);
    r.numer = (q.n as i64).into();
    r.denom = (q.d as i64).into();
    r
}
pub fn rat(s: &mut Src) -> Rational {
    match s.weighted(&[6, 4, 2, 1, 1, 1]) {
        5 => { // numerator and denominator agree in the low bits
            let d = s.int(1, 1 << 40);
            let (k, sh) = (s.int(-40, 40), *s.pick(&[8, 16, 31, 32]));
            mkrat(if s.chance(1, 2) { d } else { -d } + (k << sh), d)
        }
        0 => mkrat(s.int(-12, 12), s.int(1, 12)),
        1 => mkrat(s.int(-1000, 1000), s.int(1, 1000)),
        2 => mkrat(s.int(-(1 << 31) + 1, (1 << 31) - 1), s.int(1, (1 << 31) - 1)),
        3 => mkrat(s.int(-i64::MAX, i64::MAX), 1),
        _ => mkrat(s.int(-i64::MAX, i64::MAX), s.int(1, i64::MAX)),
    }
}

// ---- matrices ---------------------------------------------------------------------------------------
pub fn mk<F: Coef>(r: usize, c: usize, e: Vec<F>) -> Mat<F> { Mat::new(r, c, e) }
/// matrix of one of several structural kinds; entries drawn from `ge`
pub fn matrix<F: Coef>(s: &mut Src, r: usize, c: usize, mut ge: impl FnMut(&mut Src) -> F) -> Mat<F> {
    let kind = s.weighted(&[4, 4, 3, 2, 2, 2, 1]);
    let mut e = vec![F::ZERO; r * c];
    match kind {
        0 => for x in e.iter_mut() { *x = ge(s) },
        1 => for x in e.iter_mut() { if s.chance(2, 5) { *x = ge(s) } },
        2 => { // product of thin factors: rank at most k
            let k = s.range(0, r.min(c));
            let a: Vec<F> = (0..r * k).map(|_| ge(s)).collect();
            let b: Vec<F> = (0..k * c).map(|_| ge(s)).collect();
            for i in 0..r { for j in 0..c { for t in 0..k { e[i * c + j] = e[i * c + j] + a[i * k + t] * b[t * c + j]; } } }
        }
        3 => { // combinations: rows repeated, scaled or zero
            for i in 0..r {
                let how = if i == 0 { 0 } else { s.weighted(&[3, 2, 2, 1]) };
                let src = if i > 0 { s.idx(i) } else { 0 };
                let k = if how == 2 { ge(s) } else { F::ONE };
                for j in 0..c { e[i * c + j] = match how { 0 => ge(s), 1 | 2 => e[src * c + j] * k, _ => F::ZERO }; }
            }
        }
        4 => { // staircase: leading zeros per row in random order
            for i in 0..r { let lead = s.range(0, c); for j in lead..c { e[i * c + j] = ge(s); } }
        }
        5 => { // some zero columns, repeated columns
            for j in 0..c {
                let how = if j == 0 { s.weighted(&[2, 0, 1]) } else { s.weighted(&[3, 1, 2]) };
                let src = if j > 0 { s.idx(j) } else { 0 };
                for i in 0..r { e[i * c + j] = match how { 0 => ge(s), 1 => e[i * c + src], _ => F::ZERO }; }
            }
        }
        _ => { // scaled partial permutation
            let p = s.perm(c);
            for i in 0..r { if i < c && !s.chance(1, 4) { e[i * c + p[i]] = ge(s); } }
        }
    }
    mk(r, c, e)
}
pub fn dims(s: &mut Src, typ: usize, max: usize) -> (usize, usize) {
    if s.big {
        let a = s.len(1, 1, 1, 290);
        let b = match s.weighted(&[4, 2]) { 0 => s.range(1, 3), _ => s.range(1, (2_400 / a.max(8)).max(1)) };
        return if s.chance(1, 2) { (a, b) } else { (b, a) };
    }
    // now and then much larger in one direction, seldom in both
    if max >= 12 && s.chance(1, 60) {
        let a = s.size(1, 40, 72);
        let b = if s.chance(1, 5) { s.range(1, 36) } else { s.range(1, 3) };
        return if s.chance(1, 2) { (a, b) } else { (b, a) };
    }
    match s.weighted(&[5, 2, 2, 2]) {
        0 => (s.size(1, typ, max), s.size(1, typ, max)),
        1 => { let n = s.size(1, typ, max); (n, n) }
        2 => { let n = s.size(1, typ, max); (1, n) }
        _ => { let n = s.size(1, typ, max); (n, s.range(1, 2)) }
    }
}
/// matrix on which Gaussian elimination with any pivots is exact in floats: incidence-like (every
/// column has at most one 1 and one -1, hence totally unimodular), rows/columns scaled by powers of 2
pub fn exact_float_matrix<F: Coef>(s: &mut Src, r: usize, c: usize, mkf: impl Fn(f64) -> F) -> Mat<F> {
    let mut e = vec![0f64; r * c];
    let kind = s.weighted(&[3, 2]);
    for j in 0..c {
        if kind == 0 {
            let a = s.idx(r + 1);
            let b = s.idx(r + 1);
            if a < r { e[a * c + j] = 1.0; }
            if b < r && b != a { e[b * c + j] = -1.0; }
        } else { // interval matrix (consecutive ones)
            let a = s.idx(r + 1);
            let l = s.range(0, r);
            for i in a..(a + l).min(r) { e[i * c + j] = 1.0; }
        }
    }
    if s.chance(1, 2) {
        for i in 0..r { let k = 2f64.powi(s.int(-6, 6) as i32); for j in 0..c { e[i * c + j] *= k; } }
        for j in 0..c { let k = 2f64.powi(s.int(-6, 6) as i32); for i in 0..r { e[i * c + j] *= k; } }
    }
    mk(r, c, e.into_iter().map(mkf).collect())
}

/// any finite nonzero float
pub fn any_float(s: &mut Src) -> f64 {
    let v = match s.weighted(&[2, 3, 3, 2, 1]) {
        0 => *s.pick(&[1.0, -1.0, 2.0, -0.5]),
        1 => s.int(-1_000_000, 1_000_000) as f64 / *s.pick(&[3.0, 7.0, 10.0, 1000.0, 1e7]),
        2 => { let k = s.int(-40, 40) as i32; s.int(-1_000_000, 1_000_000) as f64 * 10f64.powi(k) }
        3 => f64::from_bits((s.below(1 << 32) << 32) | s.below(1 << 32)),
        _ => *s.pick(&[f64::EPSILON, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, -1.0 - f64::EPSILON, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1e16, 9007199254740993.0, 0.1 + 0.2]),
    };
    if v.is_finite() && v != 0.0 { v } else { 0.5 }
}
