//! C26: rendered values read back.
use crate::engine::*;
use crate::{ensure, large, vast, giant};
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use algeo::core::num::{Integer, Rational};
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};

const SUP: [char; 10] = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'];
const VARS: [char; 5] = ['x', 'y', 'z', 'u', 'v'];

/// "3", "-2/5", "0", "1.5", "1e-7" read back as the coefficient
trait Read: Coef { fn read(s: &str) -> Option<Self::R>; }
fn plain_int(s: &str) -> Option<i128> {
    let d = s.strip_prefix('-').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) { return None; }
    s.parse().ok()
}
impl Read for Rational {
    fn read(s: &str) -> Option<Q> {
        match s.split_once('/') {
            None => Some(Q::int(plain_int(s)?)),
            Some((n, d)) => { // lowest terms, denominator at least two
                let (n, d) = (plain_int(n)?, plain_int(d)?);
                if d < 2 || gcd128(n, d) != 1 { None } else { Some(Q::new(n, d)) }
            }
        }
    }
}
impl Read for f64 {
    fn read(s: &str) -> Option<Q> { Some(f64_to_q(s.parse().ok()?)) }
}
/// monomial in either notation; None if the text is not one
fn read_mono(s: &str) -> Option<Mono> {
    if let Some(l) = s.strip_prefix("X[") {
        let l = l.strip_suffix(']')?;
        let v: Option<Vec<u32>> = l.split(", ").map(|e| { let n = plain_int(e)?; if (0..=255).contains(&n) { Some(n as u32) } else { None } }).collect();
        let v = v?;
        if v.len() <= 5 || v.last() == Some(&0) { return None; }
        return Some(v);
    }
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![0u32; 5];
    let (mut i, mut next) = (0, 0);
    while i < c.len() {
        let k = VARS.iter().position(|x| *x == c[i])?;
        if k < next { return None; }
        next = k + 1;
        i += 1;
        let st = i;
        let mut e = 0u32;
        while i < c.len() { let Some(d) = SUP.iter().position(|x| *x == c[i]) else { break }; e = e.checked_mul(10)?.checked_add(d as u32)?; i += 1; }
        if i == st { e = 1; } else if e < 2 || e > 255 || c[st] == SUP[0] { return None; }
        v[k] = e;
    }
    Some(trim(v))
}
fn read_term<F: Read>(s: &str) -> Option<(Mono, F::R)> {
    let cut = s.char_indices().find(|(_, c)| VARS.contains(c) || *c == 'X').map_or(s.len(), |(i, _)| i);
    let (c, m) = s.split_at(cut);
    let one = F::ONE.r();
    if m.is_empty() { return Some((vec![], F::read(c)?)); }
    let c = match c { "" => one, "-" => one.neg(), c => { let r = F::read(c)?; if r == one || r == one.neg() { return None; } r } };
    let m = read_mono(m)?;
    if m.is_empty() { return None; }
    Some((m, c))
}
/// the terms in the order they are printed
fn read_poly<F: Read>(s: &str) -> Option<Vec<(Mono, F::R)>> {
    if s == "0" { return Some(vec![]); }
    let mut out = vec![];
    let mut rest = s;
    let mut sign = false;
    loop {
        let (p, m) = (rest.find(" + "), rest.find(" - "));
        let cut = match (p, m) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) };
        let t = &rest[..cut.unwrap_or(rest.len())];
        if !out.is_empty() && t.starts_with('-') { return None; } // the sign belongs in front
        let (mo, c) = read_term::<F>(t)?;
        out.push((mo, if sign { c.neg() } else { c }));
        match cut { None => return Some(out), Some(i) => { sign = &rest[i..i + 3] == " - "; rest = &rest[i + 3..]; } }
    }
}

fn c26_numbers(cx: &mut Cx) -> R {
    let n = cx.s.int(-i64::MAX, i64::MAX);
    let r = rat(&mut cx.s);
    let t = rat(&mut cx.s);
    cx.note(|| format!("{n}, {:?}, {:?}", r.r(), t.r()));
    let v = cx.call("Display", || (format!("{}", Integer(n)), format!("{r}"), format!("{t}")))?;
    ensure!(plain_int(&v.0) == Some(n as i128), "integer {n} prints as {:?}", v.0);
    ensure!(Rational::read(&v.1) == Some(r.r()), "rational {:?} prints as {:?}", r.r(), v.1);
    ensure!((v.1 == v.2) == (r.r() == t.r()), "{:?} and {:?} print as {:?} and {:?}", r.r(), t.r(), v.1, v.2);
    cx.nt(r.denom.0 > 1);
    cx.label_if(r.numer.0 == 0, "zero");
    Ok(())
}
fn coefs<F: Read>(s: &mut Src) -> F {
    match s.weighted(&[4, 4, 1]) {
        0 => F::of(if s.chance(1, 2) { -1 } else { 1 }),
        1 => F::gen_nz(s),
        _ => F::from_r(&F::of(s.int(-99_999, 99_999) * 2 + 1).r().div(&F::of(1 << s.range(0, 7)).r())),
    }
}
fn c26_poly<F: Read>(cx: &mut Cx) -> R where Polynomial<F>: std::fmt::Display {
    let nv = match cx.s.weighted(&[6, 3, 1]) { 0 => cx.s.range(0, 5), 1 => cx.s.range(5, 8), _ => cx.s.len(0, 10, 30, 300) };
    let n = cx.s.len(0, 4, 20, 400);
    let maxexp = *cx.s.pick(&[2u32, 12, 255]);
    let f = poly_with::<F>(&mut cx.s, n, |s| mono(s, nv, maxexp), coefs);
    let p = build(&f);
    cx.note(|| show(&p));
    let s = cx.call("Display", || format!("{p}"))?;
    let want: Vec<(Mono, F::R)> = f.iter().map(|(m, c)| (m.clone(), c.r())).collect();
    let got = read_poly::<F>(&s);
    let denotes = got.as_ref().map(|v| { let mut m = MPoly::zero(); for (k, c) in v { m.add_term(c, k.clone()); } m });
    ensure!(denotes == Some(model_of(&f)), "{} prints as {s:?}, which reads back as {got:?}", show(&p));
    for (m, c) in &f {
        let t: Term<F> = term_of(m, *c);
        let (ts, ms) = cx.call("Display", || (format!("{t}"), format!("{}", t.mdeg)))?;
        ensure!(read_term::<F>(&ts) == Some((m.clone(), c.r())), "term {c}*{m:?} prints as {ts:?}");
        ensure!(read_mono(&ms).as_ref() == Some(m), "multidegree {m:?} prints as {ms:?}");
    }
    // different polynomials print differently
    let mut g = f.clone();
    if !g.is_empty() {
        let i = cx.s.idx(g.len());
        match cx.s.idx(3) {
            0 => { g[i].1 = -g[i].1; }
            1 => { let m = mono(&mut cx.s, nv, maxexp); if !g.iter().any(|(x, _)| *x == m) { g[i].0 = m; } }
            _ => { g[i].1 = coefs(&mut cx.s); }
        }
        let s2 = cx.call("Display", || format!("{}", build(&g)))?;
        ensure!(model_of(&g) == model_of(&f) || s2 != s, "{} and {} both print as {s:?}", show(&p), show(&build(&g)));
    }
    let z = cx.call("Display", || (format!("{}", Polynomial::<F>::zero()), format!("{}", Polynomial::<F>::one())))?;
    ensure!(z.0 == "0" && z.1 == "1", "zero and one print as {z:?}");
    cx.nt(f.len() > 1);
    cx.label_if(f.iter().any(|(m, _)| m.len() > 5), "exponent lists");
    cx.label_if(want.iter().skip(1).any(|(_, c)| s.contains(" - ") && !c.is_zero()), "minus sign");
    cx.label_if(f.iter().any(|(m, _)| m.iter().any(|e| *e >= 100)), "three-digit exponent");
    Ok(())
}
/// a float term, the coefficient read back to the last bit
fn read_float_term(s: &str) -> Option<(Mono, f64)> {
    let cut = s.char_indices().find(|(_, c)| VARS.contains(c) || *c == 'X').map_or(s.len(), |(i, _)| i);
    let (c, m) = s.split_at(cut);
    if m.is_empty() { return Some((vec![], c.parse().ok()?)); }
    let m = read_mono(m)?;
    if m.is_empty() { return None; }
    let c = match c { "" => 1.0, "-" => -1.0, c => { let v: f64 = c.parse().ok()?; if v.abs() == 1.0 { return None; } v } };
    Some((m, c))
}
fn c26_floats(cx: &mut Cx) -> R {
    let nv = match cx.s.weighted(&[6, 2]) { 0 => cx.s.range(0, 5), _ => cx.s.range(5, 8) };
    let n = cx.s.size(0, 4, 12);
    let f = poly_with::<f64>(&mut cx.s, n, |s| mono(s, nv, 255), any_float);
    let p = build(&f);
    cx.note(|| format!("{:?}", p.terms));
    let s = cx.call("Display", || format!("{p}"))?;
    let mut got: Option<Vec<(Mono, f64)>> = Some(vec![]);
    if s != "0" {
        let mut rest = &s[..];
        let mut minus = false;
        while let Some(v) = got.as_mut() {
            let cut = match (rest.find(" + "), rest.find(" - ")) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) };
            let t = &rest[..cut.unwrap_or(rest.len())];
            match read_float_term(t) {
                Some((m, c)) if v.is_empty() || !t.starts_with('-') => v.push((m, if minus { -c } else { c })),
                _ => { got = None; break; }
            }
            match cut { None => break, Some(i) => { minus = &rest[i..i + 3] == " - "; rest = &rest[i + 3..]; } }
        }
    }
    let key = |v: &[(Mono, f64)]| { let mut k: Vec<(Mono, u64)> = v.iter().map(|(m, c)| (m.clone(), c.to_bits())).collect(); k.sort(); k };
    ensure!(got.as_ref().map(|v| key(v)) == Some(key(&f)), "{:?} prints as {s:?}, which reads back as {got:?}", p.terms);
    for (m, c) in &f {
        let t: Term<f64> = term_of(m, *c);
        let ts = cx.call("Display", || format!("{t}"))?;
        ensure!(read_float_term(&ts).map(|(m, c)| (m, c.to_bits())) == Some((m.clone(), c.to_bits())), "term {c:?}*{m:?} prints as {ts:?}");
        let c = *c as f32;
        if c.is_finite() && c != 0.0 {
            let t: Term<f32> = term_of(m, c);
            let ts = cx.call("Display", || format!("{t}"))?;
            // the shortest text that tells single precision apart
            let cut = ts.char_indices().find(|(_, c)| VARS.contains(c) || *c == 'X').map_or(ts.len(), |(i, _)| i);
            let (a, b) = ts.split_at(cut);
            let v = match a { "" if !b.is_empty() => Some(1.0), "-" if !b.is_empty() => Some(-1.0), a => a.parse::<f32>().ok().filter(|v| b.is_empty() || v.abs() != 1.0) };
            let bm = if b.is_empty() { Some(vec![]) } else { read_mono(b) };
            ensure!(v.map(|v| v.to_bits()) == Some(c.to_bits()) && bm.as_ref() == Some(m), "term {c:?}*{m:?} in single precision prints as {ts:?}");
        }
    }
    cx.nt(f.len() > 1);
    cx.label_if(f.iter().any(|(_, c)| c.abs() < 1e-15), "tiny coefficient");
    Ok(())
}
fn c26_mat<F: Read>(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 4, 9);
    let m: Mat<F> = matrix(&mut cx.s, r, c, F::gen);
    cx.note(|| showmat(&m));
    let s = cx.call("Display", || format!("{m}"))?;
    // rows in order, one per line, entries in order
    let lines: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    ensure!(lines.len() == r, "{r} rows print as {} lines: {s:?}", lines.len());
    let want = mat_of(&m)?;
    for (i, l) in lines.iter().enumerate() {
        let nums = numbers::<F>(l);
        ensure!(nums.as_ref() == Some(&want[i]), "row {i} ({:?}) prints as {l:?}, read back as {nums:?}", want[i]);
    }
    cx.nt(r > 1 && c > 1);
    Ok(())
}
/// the entries of a printed row; entries are printed in debug form
fn numbers<F: Read>(l: &str) -> Option<Vec<F::R>> {
    let l = l.trim().strip_prefix('[')?.strip_suffix(']')?;
    if F::NAME == "Rational" {
        // either a/b in plain form, or the structure spelled out
        if l.contains("numer") {
            let v: Vec<i128> = l.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|t| !t.is_empty()).map(|t| t.parse().ok()).collect::<Option<_>>()?;
            if v.len() % 2 != 0 { return None; }
            return v.chunks(2).map(|p| F::read(&if p[1] == 1 { format!("{}", p[0]) } else { format!("{}/{}", p[0], p[1]) })).collect();
        }
    }
    l.split(',').map(|t| F::read(t.trim())).collect()
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C26", rule: "random integers, rationals, polynomials (coefficients 1, -1 and others, exponents up to 255, up to 30 variables; in the large sub-checks 400 terms or 300 variables) and matrices printed and read back by an own parser, and changed polynomials compared as text; non-trivial: a proper fraction, at least two terms, at least 2x2",
        subs: vec![Sub { name: "numbers", cases: 2_000_000, run: c26_numbers }, Sub { name: "poly_rational", cases: 300_000, run: c26_poly::<Rational> }, Sub { name: "poly_f64", cases: 300_000, run: c26_poly::<f64> }, Sub { name: "floats", cases: 250_000, run: c26_floats }, Sub { name: "matrix_rational", cases: 150_000, run: c26_mat::<Rational> }, Sub { name: "matrix_f64", cases: 100_000, run: c26_mat::<f64> }, Sub { name: "large_rational", cases: 800, run: large!(c26_poly::<Rational>) }, Sub { name: "large_vast_rational", cases: 60, run: vast!(c26_poly::<Rational>) }, Sub { name: "large_f64", cases: 400, run: large!(c26_poly::<f64>) }, Sub { name: "large_vast_f64", cases: 60, run: vast!(c26_poly::<f64>) }, Sub { name: "large_matrix", cases: 1_500, run: large!(c26_mat::<f64>) }, Sub { name: "large_vast_matrix", cases: 100, run: vast!(c26_mat::<f64>) }, Sub { name: "large_giant_matrix", cases: 30, run: giant!(c26_mat::<f64>) }] }]
}
