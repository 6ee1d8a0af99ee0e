//! C34: values are compared, copied and changed by content.
use crate::engine::*;
use crate::{ensure, large, vast, giant};
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use algeo::core::num::{Integer, One, Rational, Zero};
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn coef<F: Coef>(s: &mut Src) -> F { if s.chance(1, 2) { F::gen(s) } else { F::gen_small(s) } }
/// the same exponents, or with one of them changed, or others
fn near_mono(s: &mut Src, m: &Mono, nv: usize, d: u32) -> Mono {
    let mut n = m.clone();
    match s.weighted(&[3, 4, 1]) {
        0 => return n,
        1 => { let i = s.idx(nv.max(1)); n.resize(n.len().max(i + 1), 0); n[i] = match s.idx(4) { 0 => n[i].saturating_sub(1), 1 => (n[i] + 1).min(255), 2 => 0, _ => s.int(0, d as i64) as u32 }; }
        _ => n = mono(s, nv, d),
    }
    trim(n)
}
// ---- equality of terms and multidegrees ---------------------------------------------------------
fn c34_eq<F: Coef>(cx: &mut Cx) -> R {
    let nv = nvars(&mut cx.s);
    let d = *cx.s.pick(&[2u32, 9, 255]);
    let m = mono(&mut cx.s, nv, d);
    let n = near_mono(&mut cx.s, &m, nv, d);
    let a: F = coef(&mut cx.s);
    let b: F = match cx.s.idx(4) { 0 => coef(&mut cx.s), 1 => -a, _ => a };
    let (t, u) = (term_of(&m, a), term_of(&n, b));
    cx.note(|| format!("{t:?} ; {u:?}"));
    let (ce, me) = (a.r() == b.r(), m == n);
    let v = cx.call("==", || (t == u, u == t, t != u, t.mdeg == u.mdeg, u.mdeg == t.mdeg, t.mdeg != u.mdeg, t == t.clone(), t.mdeg == t.mdeg.clone()))?;
    ensure!(v.0 == (ce && me) && v.1 == v.0 && v.2 != v.0, "equality of the terms is {} resp. {}, inequality {}", v.0, v.1, v.2);
    ensure!(v.3 == me && v.4 == me && v.5 != me, "equality of the multidegrees is {} resp. {}, inequality {}", v.3, v.4, v.5);
    ensure!(v.6 && v.7, "not equal to its copy");
    // vectors with trailing zeros are the same multidegree
    let pad = cx.s.range(0, 3);
    let w = cx.call("from_vec", || MultiDegree::from_vec(m.iter().map(|x| *x as u8).chain(std::iter::repeat(0).take(pad)).collect()))?;
    let same = cx.call("==", || (w == t.mdeg, w == u.mdeg))?;
    ensure!(same == (true, me), "{w:?} compared with {:?} and {:?}: {same:?}", t.mdeg, u.mdeg);
    let k = cx.call("clone_from", || { let (mut k, mut l) = (t.clone(), t.mdeg.clone()); k.clone_from(&u); l.clone_from(&u.mdeg); (k, l) })?;
    ensure!(k.0.coef == b && mdeg_of(&k.0.mdeg) == n && mdeg_of(&k.1) == n, "{t:?} made a copy of {u:?} is {:?} with multidegree {:?}", k.0, k.1);
    if let Some(e) = unclean_mdeg(&k.0.mdeg).or(unclean_mdeg(&k.1)) { return fail(e); }
    cx.label_if(ce && me, "equal");
    cx.label_if(ce != me, "differ in one part");
    cx.nt(!m.is_empty() && (ce || me));
    Ok(())
}
// ---- numbers --------------------------------------------------------------------------------------
fn c34_num(cx: &mut Cx) -> R {
    let a = rat(&mut cx.s);
    let b = match cx.s.idx(4) { 0 => rat(&mut cx.s), 1 => mkrat(-a.numer.0, a.denom.0), 2 => mkrat(a.numer.0, if a.denom.0 < i64::MAX { a.denom.0 + 1 } else { 1 }), _ => mkrat(a.numer.0, a.denom.0) };
    let (i, j) = (Integer::from(a.numer.0), Integer::from(b.numer.0));
    cx.note(|| format!("{a:?} ; {b:?}"));
    let v = cx.call("==", || (a == b, b == a, a != b, i == j, j == i, i != j, a == a.clone(), hash(&a) == hash(&a.clone()), hash(&i) == hash(&i.clone())))?;
    let (re, ie) = (a.r() == b.r(), a.numer.0 == b.numer.0);
    ensure!(v.0 == re && v.1 == re && v.2 != re, "equality of the rationals is {} resp. {}, inequality {}", v.0, v.1, v.2);
    ensure!(v.3 == ie && v.4 == ie && v.5 != ie, "equality of the integers is {} resp. {}, inequality {}", v.3, v.4, v.5);
    ensure!(v.6 && v.7 && v.8, "not equal to its copy, or with another hash");
    if re { ensure!(hash(&a) == hash(&b), "equal rationals with different hashes"); }
    let z = cx.call("default", || (Integer::default(), Integer::ZERO, Integer::ONE, Rational::from(i), i.0))?;
    ensure!(z.0 .0 == 0 && z.1 .0 == 0 && z.2 .0 == 1, "default {}, zero {}, one {}", z.0, z.1, z.2);
    ensure!(z.3.numer.0 == a.numer.0 && z.3.denom.0 == 1 && z.4 == a.numer.0, "{i} becomes {:?}", z.3);
    cx.nt(re || ie);
    Ok(())
}
// ---- matrices -------------------------------------------------------------------------------------
fn c34_mat<F: Coef>(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 5, 14);
    let a = matrix::<F>(&mut cx.s, r, c, coef);
    let w = mat_of(&a)?;
    cx.note(|| showmat(&a));
    let mut e: Vec<F> = a.entries().to_vec();
    let how = cx.s.idx(4);
    let (i, x) = (cx.s.idx(r * c), coef::<F>(&mut cx.s));
    let b = match how {
        0 => mk(r, c, e.clone()),
        1 => { e[i] = x; mk(r, c, e.clone()) }
        2 => mk(c, r, e.clone()),
        _ => { let j = cx.s.idx(r * c); e.swap(i, j); mk(r, c, e.clone()) }
    };
    let same = (b.rows(), b.cols()) == (r, c) && mat_of(&b)? == w;
    let v = cx.call("==", || (a == b, b == a, a != b, a == a.clone(), (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).all(|p| a[p] == a.clone()[p])))?;
    ensure!(v.0 == same && v.1 == same && v.2 != same, "equality with {} is {} resp. {}, inequality {}", showmat(&b), v.0, v.1, v.2);
    ensure!(v.3 && v.4, "not equal to its copy");
    cx.label_if(how == 2 && r != c, "same entries in the transposed shape");
    cx.label_if(same, "equal");
    // a copy is independent
    let y: F = coef(&mut cx.s);
    let k = cx.call("changes to a copy", || { let mut k = a.clone(); k.scale(y); k.swap((0, 0), (r - 1, c - 1)); k[(i / c, i % c)] = x; k })?;
    ensure!(mat_of(&a)? == w, "changes to a copy made the original {}", showmat(&a));
    ensure!((k.rows(), k.cols()) == (r, c) && k[(i / c, i % c)] == x, "the copy became {}", showmat(&k));
    let k = cx.call("clone_from", || { let mut k = a.clone(); k.clone_from(&b); k })?;
    ensure!((k.rows(), k.cols()) == (b.rows(), b.cols()) && mat_of(&k)? == mat_of(&b)?, "made a copy of {} it is {}", showmat(&b), showmat(&k));
    let v: Mat<F> = cx.call("from iterator", || Mat::from(e.iter().copied()))?;
    ensure!(v.cols() == 1 && v.rows() == e.len() && v.entries() == &e[..], "column of {e:?} is {}", showmat(&v));
    cx.nt(r * c > 1);
    Ok(())
}
// ---- changing terms in place: a history against a list of coefficient and exponents ---------------
fn c34_history<F: Coef>(cx: &mut Cx) -> R {
    let nv = nvars(&mut cx.s).max(1);
    let d = *cx.s.pick(&[2u32, 9, 200]);
    let n = cx.s.len(0, 5, 20, 300).min(200_000 / (nv + 1));
    let start: RawPoly<F> = poly_with(&mut cx.s, n, |s| mono(s, nv, d), coef);
    let mut p: Polynomial<F> = build(&start);
    let mut w: Vec<(F, Vec<u32>)> = start.iter().map(|(m, c)| (*c, m.clone())).collect();
    cx.note(|| show(&p));
    let mut copies: Vec<(Polynomial<F>, Vec<(F, Vec<u32>)>)> = vec![];
    for _ in 0..cx.s.range(1, 8) {
        match cx.s.idx(8) {
            0 => { // all coefficients
                let k: F = coef(&mut cx.s);
                cx.note(|| format!("every coefficient times {k}"));
                cx.call("terms_mut", || for t in p.terms_mut() { t.coef = t.coef * k })?;
                for t in w.iter_mut() { t.0 = F::from_r(&t.0.r().mul(&k.r())); }
            }
            1 if !w.is_empty() => { // one coefficient
                let (i, k): (usize, F) = (cx.s.idx(w.len()), coef(&mut cx.s));
                cx.note(|| format!("coefficient {i} becomes {k}"));
                cx.call("terms_mut", || p.terms_mut().nth(i).unwrap().coef = k)?;
                w[i].0 = k;
            }
            2 if !w.is_empty() => { // one exponent, through the multidegree
                let i = cx.s.idx(w.len());
                if w[i].1.is_empty() { continue; }
                let (j, x) = (cx.s.idx(w[i].1.len()), cx.s.int(0, 255) as u32);
                cx.note(|| format!("exponent {j} of term {i} becomes {x}"));
                cx.call("degs_mut", || *p.terms_mut().nth(i).unwrap().mdeg.degs_mut().nth(j).unwrap() = x as u8)?;
                w[i].1[j] = x;
            }
            3 if !w.is_empty() => { // all exponents of a term, last to first
                let i = cx.s.idx(w.len());
                cx.note(|| format!("exponents of term {i} increase by their position"));
                let len = w[i].1.len();
                if (0..len).any(|j| w[i].1[j] + j as u32 > 255) { continue; }
                cx.call("degs_mut", || for (j, x) in p.terms_mut().nth_back(w.len() - 1 - i).unwrap().mdeg.degs_mut().rev().enumerate() { *x += (len - 1 - j) as u8 })?;
                for (j, x) in w[i].1.iter_mut().enumerate() { *x += j as u32; }
            }
            4 if !w.is_empty() => { // trim one
                let i = cx.s.idx(w.len());
                cx.note(|| format!("term {i} trimmed"));
                cx.call("trim_zeros", || p.terms_mut().nth(i).unwrap().mdeg.trim_zeros())?;
                w[i].1 = trim(w[i].1.clone());
            }
            5 if copies.len() < 3 => { cx.note(|| "copied".into()); copies.push((cx.call("clone", || p.clone())?, w.clone())); }
            6 if !copies.is_empty() => {
                let i = cx.s.idx(copies.len());
                cx.note(|| format!("made equal to copy {i}"));
                cx.call("clone_from", || p.clone_from(&copies[i].0))?;
                w = copies[i].1.clone();
            }
            _ => { // two terms exchanged through the iterator
                if w.len() < 2 { continue; }
                let (i, j) = (cx.s.idx(w.len()), cx.s.idx(w.len()));
                if i == j { continue; }
                cx.note(|| format!("terms {i} and {j} exchanged"));
                cx.call("terms_mut", || { let mut v: Vec<&mut Term<F>> = p.terms_mut().collect(); let t = v[i].clone(); let u = std::mem::replace(v[j], t); *v[i] = u; })?;
                w.swap(i, j);
            }
        }
        copies.push((p.clone(), w.clone()));
        for (k, (q, v)) in copies.iter().enumerate() {
            let got: Vec<(F, Vec<u32>)> = cx.call("terms", || q.terms().map(|t| (t.coef, t.mdeg.degs().map(|x| *x as u32).collect())).collect())?;
            ensure!(got.len() == v.len() && got.iter().zip(v).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "the terms of {} are {got:?}, should be {v:?}", if k + 1 == copies.len() { "the polynomial".to_string() } else { format!("copy {k}") });
            ensure!(q.terms().len() == v.len() && q.terms().rev().map(|t| t.coef).eq(v.iter().rev().map(|t| t.0)), "backwards, or counted, the terms are others");
        }
        copies.pop();
    }
    cx.label_if(!copies.is_empty(), "copied");
    cx.nt(w.len() > 1);
    Ok(())
}
// ---- defaults and named constants -----------------------------------------------------------------
fn c34_default<F: Coef>(cx: &mut Cx) -> R {
    let i = cx.s.len(0, 6, 40, 400);
    let k = cx.s.int(0, 255) as u32;
    let c: F = coef(&mut cx.s);
    let m = { let nv = nvars(&mut cx.s); mono(&mut cx.s, nv, 255) };
    cx.note(|| format!("variable {i}, exponent {k}, coefficient {c}, exponents {m:?}"));
    let v = cx.call("defaults", || (Polynomial::<F>::default(), Term::<F>::default(), MultiDegree::default(), Polynomial::<F>::zero(), Term::<F>::zero(), MultiDegree::zero(), MultiDegree::new()))?;
    ensure!(v.0.terms.is_empty() && v.3.terms.is_empty() && v.0.is_zero() && v.3.is_zero(), "the zero polynomials are {:?} and {:?}", v.0, v.3);
    ensure!(v.1.coef == F::ZERO && v.4.coef == F::ZERO && v.1.is_zero() && v.4.is_zero() && v.1.mdeg.0.is_empty() && v.4.mdeg.0.is_empty(), "the zero terms are {:?} and {:?}", v.1, v.4);
    ensure!([&v.2, &v.5, &v.6].iter().all(|m| m.0.is_empty() && m.is_zero() && m.len() == 0), "the zero multidegrees are {:?}, {:?} and {:?}", v.2, v.5, v.6);
    let (x, xm) = (trim({ let mut e = vec![0; i]; e.push(k); e }), MPoly::<F::R>::constant(F::ONE.r()));
    let u = cx.call("constants", || (Polynomial::<F>::one(), Term::<F>::one(), Polynomial::<F>::var(i, k as u8), Term::<F>::var(i, k as u8), MultiDegree::var(i, k as u8), Term::<F>::monic(to_mdeg(&m)), Polynomial::<F>::from(c), Polynomial::<F>::from(term_of(&m, c)), Term::<F>::from(c), Term::<F>::new(c, to_mdeg(&m))))?;
    ensure!(denote(&u.0) == xm && denote_term(&u.1) == xm, "one is {:?} and {:?}", u.0, u.1);
    let var = MPoly::term(F::ONE.r(), x.clone());
    ensure!(denote(&u.2) == var && denote_term(&u.3) == var && u.4 .0.iter().map(|d| *d as u32).collect::<Vec<_>>() == x, "the variable {i} to the {k} is {:?}, {:?}, {:?}", u.2, u.3, u.4);
    ensure!(u.5.coef == F::ONE && mdeg_of(&u.5.mdeg) == m, "the monic term is {:?}", u.5);
    let (cm, ct) = (MPoly::constant(c.r()), MPoly::term(c.r(), m.clone()));
    ensure!(denote(&u.6) == cm && denote(&u.7) == ct && denote_term(&u.8) == cm && denote_term(&u.9) == ct, "the conversions are {:?}, {:?}, {:?}, {:?}", u.6, u.7, u.8, u.9);
    for p in [&v.0, &u.0, &u.2, &u.6, &u.7] { if let Some(e) = unclean(p) { return fail(e); } }
    cx.nt(k > 0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C34", rule: "pairs of terms, multidegrees, numbers and matrices, most of them equal but for one part (one exponent, sign, entry, the transposed shape); histories of up to 8 changes of terms, coefficients and exponents in place, with copies taken in between, against a list of coefficients and exponents; defaults and named constants; non-trivial: parts agree, resp. more than one term, entry or a positive exponent",
            subs: vec![
                Sub { name: "equal_f7", cases: 300_000, run: c34_eq::<F7> },
                Sub { name: "equal_rational", cases: 200_000, run: c34_eq::<Rational> },
                Sub { name: "equal_f64", cases: 200_000, run: c34_eq::<f64> },
                Sub { name: "numbers", cases: 500_000, run: c34_num },
                Sub { name: "matrices_f7", cases: 150_000, run: c34_mat::<F7> },
                Sub { name: "matrices_rational", cases: 150_000, run: c34_mat::<Rational> },
                Sub { name: "matrices_f64", cases: 100_000, run: c34_mat::<f64> },
                Sub { name: "terms_f7", cases: 100_000, run: c34_history::<F7> },
                Sub { name: "terms_f64", cases: 60_000, run: c34_history::<f64> },
                Sub { name: "constants_f7", cases: 100_000, run: c34_default::<F7> }, Sub { name: "large_giant_constants_f7", cases: 200, run: giant!(c34_default::<F7>) },
                Sub { name: "constants_rational", cases: 100_000, run: c34_default::<Rational> },
                Sub { name: "large_equal_f7", cases: 10_000, run: large!(c34_eq::<F7>) }, Sub { name: "large_vast_equal_f7", cases: 3000, run: vast!(c34_eq::<F7>) },
                Sub { name: "large_matrices_f7", cases: 4_000, run: large!(c34_mat::<F7>) }, Sub { name: "large_vast_matrices_f7", cases: 600, run: vast!(c34_mat::<F7>) },
                Sub { name: "large_history_f7", cases: 6_000, run: large!(c34_history::<F7>) }, Sub { name: "large_vast_history_f7", cases: 40, run: vast!(c34_history::<F7>) },
            ] },
    ]
}
