//! C12-C17, C30: division, S-polynomials, Groebner bases.
use crate::engine::*;
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use crate::{ensure, far, large, vast};
use algeo::core::num::Rational;
use algeo::poly::elts::{Polynomial, Term};
use std::cmp::Ordering;
use std::collections::BTreeMap;

fn gsmall<F: Coef>(s: &mut Src) -> F { let c = if s.chance(1, 3) { F::gen(s) } else { F::gen_small(s) }; if c.r().is_zero() { F::ONE } else { c } }
fn gunit<F: Coef>(s: &mut Src) -> F { let c = match s.weighted(&[4, 3, 2]) { 0 => F::ONE, 1 => F::of(-1), _ => F::of(s.int(-3, 3)) }; if c.r().is_zero() { F::ONE } else { c } }
fn lms<F: Coef>(ps: &[MPoly<F::R>], o: Ord4) -> Vec<Mono> { ps.iter().filter_map(|p| p.lt(o).map(|x| x.0)).collect() }

// ---- C12 --------------------------------------------------------------------------------------
fn c12<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let o = order(&mut cx.s);
    let style = if cx.s.big { cx.s.weighted(&[2, 0, 6]) } else { cx.s.weighted(&[6, 2, 2, 2]) };
    let nv = match style { 1 => 1, 2 if cx.s.big => cx.s.range(4, 60), 2 => cx.s.range(2, 12), _ => cx.s.range(1, 4) };
    let big = *cx.s.pick(&[6u32, 20, 120, 255]);
    let d = match style { 1 => big, 2 => 3, _ => cx.s.range(2, 6) as u32 };
    let gd = match style { 1 => big.min(120), _ => cx.s.range(1, 4) as u32 };
    let nf = cx.s.len(0, 6, 16, 60);
    let f = poly_with::<F>(&mut cx.s, nf, |s| if style == 1 { mono(s, 1, d) } else { mono_deg(s, nv, d) }, gsmall);
    let m = cx.s.len(0, 3, 8, 60);
    let mut gs: Vec<RawPoly<F>> = vec![];
    for _ in 0..m {
        let how = if cx.s.big { cx.s.weighted(&[6, 1, 4, 2]) } else { cx.s.weighted(&[8, 1, 2, 2, 1]) };
        let k = if cx.s.chance(1, 12) { cx.s.range(4, 12) } else { cx.s.range(1, 4) };
        let g = match how {
            1 => vec![],
            2 => { let m = mono_deg(&mut cx.s, nv, gd); vec![(m, gsmall(&mut cx.s))] }
            3 if !gs.is_empty() => { // shares the leading monomials of an earlier divisor
                let i = cx.s.idx(gs.len());
                let mut g = gs[i].clone();
                for (_, c) in g.iter_mut() { if cx.s.chance(1, 2) { *c = gsmall(&mut cx.s); } }
                g
            }
            4 => vec![(vec![], gsmall(&mut cx.s))],
            _ => poly_with::<F>(&mut cx.s, k, |s| if style == 1 { mono(s, 1, gd) } else { mono_deg(s, nv, gd) }, gsmall),
        };
        gs.push(g);
    }
    let mut f = f;
    if !gs.is_empty() && cx.s.chance(1, 3) { // a combination of the divisors, possibly plus something
        let mut m = if cx.s.chance(1, 2) { model_of(&f) } else { MPoly::zero() };
        for g in &gs { if gs.len() > 9 && cx.s.chance(1, 2) { continue; } let h = mono_deg(&mut cx.s, nv, 2); m = m.add(&model_of(g).mul_term(&gsmall::<F>(&mut cx.s).r(), &h)); }
        if m.max_exp() <= 255 && m.0.len() <= if cx.s.big { 200 } else { 30 } && !F::OVF { if let Some(x) = from_model::<F>(&m) { f = x; cx.label("combination"); } }
    }
    let (fp, gp): (Polynomial<F>, Vec<Polynomial<F>>) = (build(&f), gs.iter().map(build).collect());
    cx.note(|| format!("{o:?}: {} divided by {}", show(&fp), shows(&gp)));
    let (mf, mg): (MPoly<F::R>, Vec<MPoly<F::R>>) = (model_of(&f), gs.iter().map(model_of).collect());
    // predict the cost (and stay within exponents of 8 bits) by the reference
    let nz: Vec<MPoly<F::R>> = mg.iter().filter(|g| !g.is_zero()).cloned().collect();
    let st = will_stretch(cx);
    let _ = normal_form(&mf, &nz, o, &mut Budget { steps: 6000, max_deg: 255 })?;
    let ltg = lms::<F>(&nz, o);
    if nz.iter().any(|g| g.max_exp() + mf.max_exp() > 255) && style != 1 { return discard("exponents"); }
    let (r, q) = cx.call("divide", || by_order!(o, F, divide(&fp, &gp)))?;
    ensure!(q.len() == gp.len(), "{} quotients for {} divisors", q.len(), gp.len());
    let (mr, mq): (MPoly<F::R>, Vec<MPoly<F::R>>) = (denote(&r), q.iter().map(denote).collect());
    let mut sum = mr.clone();
    for (a, b) in mq.iter().zip(&mg) { sum = sum.add(&a.mul(b)); }
    ensure!(sum == mf, "sum of quotient*divisor + remainder is {}, not the dividend (quotients {}, remainder {})", showm(&sum), shows(&q), show(&r));
    for m in mr.0.keys() {
        for l in &ltg { ensure!(!mdivides(l, m), "remainder {} has the term {m:?}, divisible by the leading monomial {l:?}", show(&r)); }
    }
    let top = mf.lt(o).map(|x| x.0);
    let above = |p: &MPoly<F::R>| match (p.lt(o), &top) { (None, _) => false, (Some(_), None) => true, (Some((m, _)), Some(t)) => ocmp(o, &m, t) == Ordering::Greater };
    ensure!(!above(&mr), "remainder {} has a leading monomial above the dividend's", show(&r));
    for (i, (a, b)) in mq.iter().zip(&mg).enumerate() {
        ensure!(!above(&a.mul(b)), "quotient {i} times its divisor has a leading monomial above the dividend's: {}", shows(&q));
        if b.is_zero() { ensure!(a.is_zero(), "quotient {i} of a zero divisor is {}", show(&q[i])); cx.label("zero divisor"); }
    }
    cx.nt(mq.iter().any(|a| !a.is_zero()) && f.len() > 1);
    cx.label_if(!mr.is_zero() && mq.iter().any(|a| !a.is_zero()), "quotient and remainder");
    cx.label_if(mq.iter().filter(|a| !a.is_zero()).count() > 1, "two nonzero quotients");
    cx.label_if(mf.max_exp() > 127, "exponent above 127");
    if st {
        let all: Vec<&MPoly<F::R>> = mg.iter().chain(&mq).chain([&mf, &mr]).collect();
        if let Some(k) = stretch_by(cx, &all, true) {
            let up = |s: &mut Src, p: &RawPoly<F>| { let v: RawPoly<F> = p.iter().map(|(m, c)| (m.iter().map(|e| e * k).collect(), *c)).collect(); let p = s.perm(v.len()); build(&p.iter().map(|&i| v[i].clone()).collect()) };
            let fs: Polynomial<F> = up(&mut cx.s, &f);
            let gs: Vec<Polynomial<F>> = gs.iter().map(|g| up(&mut cx.s, g)).collect();
            let (r2, q2) = cx.call("divide", || by_order!(o, F, divide(&fs, &gs)))?;
            let (r2, q2): (MPoly<F::R>, Vec<MPoly<F::R>>) = (denote(&r2), q2.iter().map(denote).collect());
            ensure!(r2 == stretch(&mr, k), "under x_i -> x_i^{k} the remainder is {} instead of the image of {}", showm(&r2), show(&r));
            ensure!(q2 == stretched(&mq, k), "under x_i -> x_i^{k} the quotients are {} instead of the images of {}", q2.iter().map(showm).collect::<Vec<_>>().join(" ; "), shows(&q));
        }
    }
    Ok(())
}
/// a term list for a model polynomial over a prime field
fn from_model<F: Coef>(m: &MPoly<F::R>) -> Option<RawPoly<F>> {
    if F::OVF { return None; }
    let v: RawPoly<F> = m.0.iter().map(|(m, c)| (m.clone(), from_ring::<F>(c))).collect();
    if v.iter().zip(m.0.values()).all(|(x, c)| x.1.r() == *c) { Some(v) } else { None }
}
/// the coefficient with the given reference value (prime fields and rationals)
fn from_ring<F: Coef>(c: &F::R) -> F { F::from_r(c) }
fn to_lib<F: Coef>(m: &MPoly<F::R>, o: Ord4, s: &mut Src) -> Polynomial<F> {
    // term order in the list must not matter: sorted one way or the other, or shuffled
    let mut v: RawPoly<F> = m.0.iter().map(|(m, c)| (m.clone(), from_ring::<F>(c))).collect();
    match s.weighted(&[2, 1, 2]) {
        0 => v.sort_by(|a, b| ocmp(o, &b.0, &a.0)),
        1 => v.sort_by(|a, b| ocmp(o, &a.0, &b.0)),
        _ => { let p = s.perm(v.len()); v = p.iter().map(|&i| v[i].clone()).collect(); }
    }
    build(&v)
}

// ---- C13 --------------------------------------------------------------------------------------
fn c13<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let o = order(&mut cx.s);
    let nv = nvars(&mut cx.s);
    let maxexp = *cx.s.pick(&[2u32, 3, 9, 127]);
    let n = cx.s.len(0, 4, 12, 150).min(150_000 / (nv + 1));
    let f = poly_with::<F>(&mut cx.s, n, |s| mono(s, nv, maxexp), gsmall);
    let rel = cx.s.weighted(&[5, 2, 2, 1]);
    let k = gsmall::<F>(&mut cx.s);
    let n2 = cx.s.len(0, 4, 12, 150).min(150_000 / (nv + 1));
    let g: RawPoly<F> = match rel {
        1 => f.iter().map(|(m, c)| (m.clone(), *c * k)).collect(),
        2 => { // same leading monomial, other tail
            let mut g = f.clone();
            for (_, c) in g.iter_mut() { if cx.s.chance(1, 2) { *c = gsmall(&mut cx.s); } }
            g
        }
        3 => { let (a, b) = (mono(&mut cx.s, nv, maxexp.min(100)), f.clone()); b.iter().map(|(m, c)| (mmul(m, &a), *c)).collect() }
        _ => poly_with::<F>(&mut cx.s, n2, |s| mono(s, nv, maxexp), gsmall),
    };
    let (p, q) = (build(&f), build(&g));
    let (mf, mg) = (model_of(&f), model_of(&g));
    cx.note(|| format!("{o:?}: {} ; {}", show(&p), show(&q)));
    // monic lcm of terms
    let a: Term<F> = f.first().map_or(Term::zero(), |(m, c)| term_of(m, *c));
    let b: Term<F> = g.last().map_or(Term::zero(), |(m, c)| term_of(m, *c));
    let l = cx.call("monic_lcm", || (by_order!(o, F, monic_lcm(&a, &b)), by_order!(o, F, monic_lcm(&b, &a)), by_order!(o, F, monic_lcm(&a, &a))))?;
    if f.is_empty() || g.is_empty() {
        ensure!(denote_term(&l.0).is_zero() && denote_term(&l.1).is_zero(), "lcm with zero is {:?}", l.0);
    } else {
        let want = mlcm(&f[0].0, &g[g.len() - 1].0);
        for t in [&l.0, &l.1] { ensure!(t.coef.r() == F::ONE.r() && mdeg_of(&t.mdeg) == want, "lcm of {a:?} and {b:?} is {t:?}"); }
        ensure!(l.2.coef.r() == F::ONE.r() && mdeg_of(&l.2.mdeg) == f[0].0, "lcm of {a:?} with itself is {:?}", l.2);
    }
    // S-polynomial
    let want = match (mf.lt(o), mg.lt(o)) {
        (Some((m, c)), Some((n, d))) => {
            let l = mlcm(&m, &n);
            let (u, v) = (mdiv(&l, &m).unwrap(), mdiv(&l, &n).unwrap());
            if mf.max_exp() + u.iter().max().unwrap_or(&0) > 255 || mg.max_exp() + v.iter().max().unwrap_or(&0) > 255 { return discard("exponents"); }
            Some((l, mf.mul_term(&c.inv(), &u).sub(&mg.mul_term(&d.inv(), &v))))
        }
        _ => None,
    };
    let s = cx.call("try_reduce", || (by_order!(o, F, try_reduce(&p, &q)), by_order!(o, F, try_reduce(&q, &p))))?;
    match (want, s) {
        (None, (None, None)) => cx.label("zero operand"),
        (Some((l, w)), (Some(x), Some(y))) => {
            let (x, y) = (denote(&x), denote(&y));
            ensure!(x == w, "S-polynomial is {}, should be {}", showm(&x), showm(&w));
            ensure!(y == w.neg(), "swapped S-polynomial is {}, should be {}", showm(&y), showm(&w.neg()));
            if let Some((m, _)) = x.lt(o) { ensure!(ocmp(o, &m, &l) == Ordering::Less, "S-polynomial has the monomial {m:?}, not below {l:?}"); }
            if rel == 1 { ensure!(x.is_zero(), "S-polynomial with a scalar multiple is {}", showm(&x)); cx.label("multiple"); }
            cx.nt(!x.is_zero());
        }
        (w, (x, y)) => return fail(format!("S-polynomial exists: {} resp. {}; should exist: {}", x.is_some(), y.is_some(), w.is_some())),
    }
    Ok(())
}

// ---- ideals -----------------------------------------------------------------------------------
/// generators of an ideal, of several structural families
pub fn ideal<F: Coef>(s: &mut Src) -> Vec<MPoly<F::R>> {
    if s.big { return big_ideal::<F>(s); }
    let fam = s.weighted(&[6, 3, 2, 3, 2, 2, 2, 1]);
    let many = s.chance(1, 12) && fam != 4 && fam != 6;
    let nv = match fam { 4 => 1, _ if many => s.range(4, 8), _ => s.range(1, 3) };
    let m = if many && s.chance(1, 4) { s.range(4, 7) } else { s.weighted(&[1, 6, 4, 1]) + 1 };
    let low = if many { 2 } else { 9 };
    let small = F::OVF;
    let gc = |s: &mut Src| if small { gunit::<F>(s) } else { gsmall::<F>(s) };
    let mut out: Vec<MPoly<F::R>> = vec![];
    for i in 0..m {
        let p: MPoly<F::R> = match fam {
            0 => { let k = s.range(1, 3); let d = s.range(1, low.min(3)) as u32; model_of(&poly_with::<F>(s, k, |s| mono_deg(s, nv, d), gc)) }
            1 => { // binomials
                let d = s.range(1, low.min(4)) as u32;
                let (a, b) = (mono_deg(s, nv, d), mono_deg(s, nv, d));
                MPoly::term(gc(s).r(), a).add(&MPoly::term(gc(s).r(), b))
            }
            2 => { let d = s.range(1, 5) as u32; MPoly::term(gc(s).r(), mono_deg(s, nv, d)) } // monomials
            3 => model_of(&poly_with::<F>(s, if many { 3 } else { nv + 1 }, |s| mono_deg(s, nv, 1), gc)), // linear
            4 => { // univariate with a common factor
                let k = s.range(1, 3);
                let h = model_of(&poly_with::<F>(s, k, |s| mono_deg(s, 1, 3), gc));
                match out.first() { Some(c) if s.chance(1, 2) => { let c: MPoly<F::R> = c.clone(); if c.max_exp() <= 4 { c.mul(&h) } else { h } }, _ => h }
            }
            5 => { // variables with a twist: x_i - p(x_0) or x_i^2 - c
                let v = i % nv;
                let mut e = vec![0; v];
                e.push(s.range(1, 2) as u32);
                let k = s.range(0, 2);
                MPoly::term(F::ONE.r(), e).add(&model_of(&poly_with::<F>(s, k, |s| mono_deg(s, nv, 2), gc)))
            }
            6 => { // symmetric: elementary symmetric polynomials minus constants
                let k = i % nv + 1;
                let mut p = MPoly::zero();
                for mask in 1u32..1 << nv { if mask.count_ones() as usize == k { p.add_term(&F::ONE.r(), trim((0..nv).map(|j| mask >> j & 1).collect())); } }
                if s.chance(1, 2) { p.add_term(&gc(s).r(), vec![]); }
                p
            }
            _ => { // homogeneous quadrics
                let k = s.range(1, 3);
                model_of(&poly_with::<F>(s, k, |s| { let (a, b) = (s.idx(nv), s.idx(nv)); let mut e = vec![0; nv]; e[a] += 1; e[b] += 1; trim(e) }, gc))
            }
        };
        if !p.is_zero() { out.push(p); }
    }
    if s.chance(1, 6) {
        // the same ideal in other variables: spread out, in another order
        let wide = s.range(nv, 12);
        let p = s.perm(wide);
        for q in out.iter_mut() {
            let mut r = MPoly::zero();
            for (m, c) in &q.0 { let mut e = vec![0; wide]; for (i, x) in m.iter().enumerate() { e[p[i]] = *x; } r.add_term(c, trim(e)); }
            *q = r;
        }
    }
    if out.is_empty() { out.push(MPoly::term(F::ONE.r(), if s.chance(1, 2) { vec![] } else { vec![1] })); }
    out
}
/// many generators whose S-polynomials are cheap to reduce
fn big_ideal<F: Coef>(s: &mut Src) -> Vec<MPoly<F::R>> {
    let fam = s.weighted(&[3, 3, 2, 2]);
    let m = s.range(5, 16);
    let nv = s.range(m.saturating_sub(3).max(2), 18);
    let gc = |s: &mut Src| if F::OVF { gunit::<F>(s) } else { gsmall::<F>(s) };
    let mut out: Vec<MPoly<F::R>> = vec![];
    for i in 0..m {
        let v = |i: usize, e: u32| { let mut m = vec![0; i % nv]; m.push(e); m };
        let p: MPoly<F::R> = match fam {
            0 => MPoly::term(gc(s).r(), mono_deg(s, nv.min(6), 4)), // monomials
            1 => { // each with a variable of its own
                let k = s.range(1, 3) as u32;
                let c = if s.chance(1, 3) { F::ZERO } else { gc(s) };
                MPoly::term(gc(s).r(), v(i, k)).add(&MPoly::term(c.r(), if k > 1 && s.chance(1, 2) { v(i, 1) } else { vec![] }))
            }
            2 => { // sparse linear forms
                let j = s.idx(nv);
                MPoly::term(gc(s).r(), v(i, 1)).add(&MPoly::term(gc(s).r(), v(j, 1)))
            }
            _ => { // chain x_i - x_(i+1)^k
                let k = s.range(1, 2) as u32;
                MPoly::term(F::ONE.r(), v(i, 1)).sub(&MPoly::term(F::ONE.r(), v(i + 1, k)))
            }
        };
        if !p.is_zero() { out.push(p); }
    }
    if out.is_empty() { out.push(MPoly::term(F::ONE.r(), vec![1])); }
    let p = s.perm(out.len());
    p.iter().map(|&i| out[i].clone()).collect()
}
fn budget() -> Budget { Budget { steps: 1500, max_deg: 14 } }
pub fn refgb<F: Coef>(g: &[MPoly<F::R>], o: Ord4) -> Result<Vec<MPoly<F::R>>, Stop> {
    let r = reduced_gb(g, o, &mut budget())?;
    if r.len() > if g.len() > 7 { 24 } else { 9 } { return discard("basis too large"); }
    Ok(r)
}
fn libgb<F: Coef>(cx: &mut Cx, g: &[MPoly<F::R>], o: Ord4) -> Result<Vec<Polynomial<F>>, Stop> {
    let mut v: Vec<Polynomial<F>> = g.iter().map(|p| to_lib::<F>(p, o, &mut cx.s)).collect();
    cx.note(|| format!("{o:?}: basis of {}", shows(&v)));
    cx.call("buchberger_algorithm", || by_order!(o, F, buchberger_algorithm(&mut v)))?;
    let w = v.clone();
    cx.note(|| format!("computed {}", shows(&w)));
    Ok(v)
}
fn setup(cx: &mut Cx) -> Ord4 { cx.limit = 60_000_000; order(&mut cx.s) }

/// x_i -> x_i^k respects divisibility, least common multiples and all four orders, so every computation on
/// the images is the image of the computation.  Returns a k for which the images of the given polynomials, and
/// of everything else seen since `watch(true)`, have exponents of 8 bits.  `traced`: a reference has gone through
/// the computation, so that twice the largest exponent seen is a safe bound; half of the cases then stay within
/// it and may not overflow, the others go to the limit of 8 bits and may.
fn stretch_by<T: Ring>(cx: &mut Cx, seen_too: &[&MPoly<T>], traced: bool) -> Option<u32> {
    let m = seen_too.iter().map(|p| p.max_exp()).max().unwrap_or(0).max(seen());
    watch(false);
    if m == 0 { return None; }
    let room = cx.s.chance(1, 2);
    let top = if room { 127 / m } else { 255 / m };
    if top < 2 { return None; }
    if !room || !traced { cx.overflow_ok = true; }
    cx.label(if room { "stretched" } else { "stretched to the limit" });
    let k = match cx.s.weighted(&[2, 1, 1]) { 0 => top, 1 => cx.s.range(2, top as usize) as u32, _ => 1 << cx.s.range(1, top.ilog2() as usize) };
    cx.note(|| format!("x_i -> x_i^{k}"));
    Some(k)
}
fn stretched<T: Ring>(v: &[MPoly<T>], k: u32) -> Vec<MPoly<T>> { v.iter().map(|p| stretch(p, k)).collect() }
/// every monomial the library meets while it divides is in the dividend or in a quotient term times its divisor
fn trace_division<F: Coef>(cx: &mut Cx, f: &MPoly<F::R>, by: &[Polynomial<F>], o: Ord4) {
    let p = to_lib::<F>(f, o, &mut cx.s);
    match cx.call("divide", || by_order!(o, F, divide(&p, by))) {
        Ok((_, q)) => for (q, g) in q.iter().zip(by) { saw(denote(q).max_exp() + denote(g).max_exp()); },
        Err(_) => saw(255),
    }
}
/// decide whether this case is going to be stretched
fn will_stretch(cx: &mut Cx) -> bool { let w = cx.s.far || cx.s.chance(1, 8); watch(w); w }

// ---- C14 --------------------------------------------------------------------------------------
fn c14<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let o = setup(cx);
    let g = ideal::<F>(&mut cx.s);
    let rgb = refgb::<F>(&g, o)?;
    let st = will_stretch(cx);
    let lib = libgb::<F>(cx, &g, o)?;
    let mut lib: Vec<MPoly<F::R>> = lib.iter().map(denote).collect();
    let (mut g, mut rgb) = (g, rgb);
    if st {
        let all: Vec<&MPoly<F::R>> = g.iter().chain(&lib).chain(&rgb).collect();
        if let Some(k) = stretch_by(cx, &all, false) {
            g = stretched(&g, k);
            rgb = stretched(&rgb, k);
            lib = libgb::<F>(cx, &g, o)?.iter().map(denote).collect();
        }
    }
    // contained in the ideal
    let mut b = Budget { steps: 200_000, max_deg: 255 };
    for p in &lib {
        let r = normal_form(p, &rgb, o, &mut b)?;
        ensure!(r.is_zero(), "{} is not in the ideal", showm(p));
    }
    // leading terms generate the leading-term ideal (hence the elements generate the ideal)
    let lm = lms::<F>(&lib, o);
    for p in &rgb {
        let m = p.lt(o).unwrap().0;
        ensure!(lm.iter().any(|l| mdivides(l, &m)), "the ideal contains {} but no leading term of the result divides its leading term", showm(p));
    }
    cx.nt(rgb.len() > 1);
    cx.label_if(rgb.len() > g.len(), "basis grew");
    cx.label_if(rgb.len() == 1 && rgb[0].0.len() == 1 && rgb[0].0.contains_key(&vec![]), "unit ideal");
    cx.label_if(lib.iter().any(|p| p.max_exp() > 3), "degree above 3");
    Ok(())
}

// ---- C15 --------------------------------------------------------------------------------------
/// another list of nonzero generators of the same ideal
fn represent<F: Coef>(s: &mut Src, g: &[MPoly<F::R>]) -> (Vec<MPoly<F::R>>, &'static str) {
    let mut v = g.to_vec();
    let what = match s.weighted(&[2, 2, 2, 3, 2]) {
        0 => { let p = s.perm(v.len()); v = p.iter().map(|&i| v[i].clone()).collect(); "permuted" }
        1 => { let i = s.idx(v.len()); let c = v[i].clone(); let j = s.idx(v.len() + 1); v.insert(j, c); "repeated" }
        2 => { for p in v.iter_mut() { *p = p.mul_term(&gunit::<F>(s).r(), &[]); } "scaled" }
        3 if v.len() > 1 => { // g_i += h g_j
            let i = s.idx(v.len());
            let j = (i + 1 + s.idx(v.len() - 1)) % v.len();
            let h = mono_deg(s, 2, 1);
            let n = v[i].add(&v[j].mul_term(&gunit::<F>(s).r(), &h));
            if !n.is_zero() { v[i] = n; "combined" } else { "same" }
        }
        _ => { // an extra element of the ideal
            let mut n = MPoly::zero();
            for p in g { if s.chance(2, 3) { n = n.add(&p.mul_term(&gunit::<F>(s).r(), &mono_deg(s, 2, 1))); } }
            if !n.is_zero() { let j = s.idx(v.len() + 1); v.insert(j, n); "extended" } else { "same" }
        }
    };
    (v, what)
}
fn as_set<F: Coef>(v: &[Polynomial<F>], o: Ord4) -> Vec<MPoly<F::R>> {
    let mut v: Vec<MPoly<F::R>> = v.iter().map(denote).collect();
    v.sort_by(|a, b| match (a.lt(o), b.lt(o)) { (Some(x), Some(y)) => ocmp(o, &x.0, &y.0), (x, y) => x.is_some().cmp(&y.is_some()) });
    v
}
fn c15<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let o = setup(cx);
    let mut g = ideal::<F>(&mut cx.s);
    let mut rgb = refgb::<F>(&g, o)?;
    let st = will_stretch(cx);
    let mut lib = libgb::<F>(cx, &g, o)?;
    let mut k = 1;
    if st {
        let m: Vec<MPoly<F::R>> = lib.iter().map(denote).collect();
        let all: Vec<&MPoly<F::R>> = g.iter().chain(&m).chain(&rgb).collect();
        if let Some(x) = stretch_by(cx, &all, false) {
            k = x;
            g = stretched(&g, k);
            rgb = stretched(&rgb, k);
            lib = libgb::<F>(cx, &g, o)?;
        }
    }
    for (i, p) in lib.iter().enumerate() {
        let m = denote(p);
        let Some((_, c)) = m.lt(o) else { return fail(format!("zero polynomial in {}", shows(&lib))) };
        ensure!(c == F::ONE.r(), "leading coefficient {c:?} of {} is not 1", show(p));
        for (j, q) in lib.iter().enumerate() {
            if i != j {
                let Some((l, _)) = denote(q).lt(o) else { continue };
                ensure!(!m.0.keys().any(|k| mdivides(&l, k)), "a term of {} is divisible by the leading term of {}", show(p), show(q));
            }
        }
    }
    let set = as_set(&lib, o);
    ensure!(set == rgb, "basis is {}, the reduced Groebner basis is {}", shows(&lib), rgb.iter().map(showm).collect::<Vec<_>>().join(" ; "));
    cx.nt(rgb.len() > 1);
    cx.label_if(rgb.iter().any(|p| p.0.len() > 1), "element with a tail");
    cx.label_if(rgb.len() > g.len(), "basis grew");
    if k > 1 { return Ok(()); }
    // another presentation
    let mut h = g.clone();
    for _ in 0..cx.s.range(1, 2) { let (n, w) = represent::<F>(&mut cx.s, &h); h = n; cx.label(w); }
    let cost = refgb::<F>(&h, o)?;
    ensure_internal(cost == rgb, "reference basis depends on the presentation");
    let lib2 = libgb::<F>(cx, &h, o)?;
    ensure!(as_set(&lib2, o) == set, "another presentation of the ideal gives {} instead of {}", shows(&lib2), shows(&lib));
    Ok(())
}
fn ensure_internal(c: bool, m: &str) { if !c { panic!("harness: {m}"); } }

// ---- C16 --------------------------------------------------------------------------------------
fn c16<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let o = setup(cx);
    let g = ideal::<F>(&mut cx.s);
    let rgb = refgb::<F>(&g, o)?;
    let kind = cx.s.weighted(&[4, 2, 2, 2, 3]);
    let mut list: Vec<MPoly<F::R>> = match kind {
        0 => g.clone(),
        1 => rgb.clone(),
        2 => { // scaled and extended by multiples
            let mut v: Vec<_> = rgb.iter().map(|p| p.mul_term(&gunit::<F>(&mut cx.s).r(), &[])).collect();
            let i = cx.s.idx(v.len());
            let e = v[i].mul_term(&F::ONE.r(), &mono_deg(&mut cx.s, 2, 2));
            v.push(e);
            if v.len() > 1 && cx.s.chance(1, 2) { let k = v[0].add(&v[1].mul_term(&F::ONE.r(), &mono_deg(&mut cx.s, 2, 1))); if !k.is_zero() { v.push(k); } }
            v
        }
        3 => { let mut v = rgb.clone(); if v.len() > 1 { let i = cx.s.idx(v.len()); v.remove(i); } v }
        _ => { // a basis for one order tested under another
            let o2 = order(&mut cx.s);
            refgb::<F>(&g, o2)?
        }
    };
    if cx.s.chance(1, 2) { let p = cx.s.perm(list.len()); list = p.iter().map(|&i| list[i].clone()).collect(); }
    let truth = {
        let full = refgb::<F>(&list, o)?;
        let lm = lms::<F>(&list, o);
        full.iter().all(|p| { let m = p.lt(o).unwrap().0; lm.iter().any(|l| mdivides(l, &m)) })
    };
    let v: Vec<Polynomial<F>> = list.iter().map(|p| to_lib::<F>(p, o, &mut cx.s)).collect();
    cx.note(|| format!("{o:?}: {} a Groebner basis: {truth}", shows(&v)));
    let st = will_stretch(cx);
    let a = cx.call("buchberger_criterion", || by_order!(o, F, buchberger_criterion(&v)))?;
    ensure!(a == truth, "criterion says {a} for {}", shows(&v));
    if st {
        let all: Vec<&MPoly<F::R>> = list.iter().collect();
        let mut b = Budget { steps: 4000, max_deg: 120 };
        for (i, p) in list.iter().enumerate() {
            for q in &list[..i] {
                let ((m, c), (n, d)) = (p.lt(o).unwrap(), q.lt(o).unwrap());
                let l = mlcm(&m, &n);
                let (x, y) = (p.mul_term(&c.inv(), &mdiv(&l, &m).unwrap()), q.mul_term(&d.inv(), &mdiv(&l, &n).unwrap()));
                saw(x.max_exp().max(y.max_exp()));
                if normal_form(&x.sub(&y), &list, o, &mut b).is_err() { saw(255); }
                else { trace_division::<F>(cx, &x.sub(&y), &v, o); }
            }
        }
        if let Some(k) = stretch_by(cx, &all, true) {
            let w: Vec<Polynomial<F>> = stretched(&list, k).iter().map(|p| to_lib::<F>(p, o, &mut cx.s)).collect();
            let a = cx.call("buchberger_criterion", || by_order!(o, F, buchberger_criterion(&w)))?;
            ensure!(a == truth, "under x_i -> x_i^{k} the criterion says {a} for {}", shows(&w));
            cx.label(if truth { "basis" } else { "not a basis" });
            cx.nt(v.len() > 1);
            return Ok(());
        }
    }
    let p = cx.s.perm(v.len());
    let w: Vec<Polynomial<F>> = p.iter().map(|&i| { let c = gunit::<F>(&mut cx.s); &v[i] * c }).collect();
    let b = cx.call("buchberger_criterion", || by_order!(o, F, buchberger_criterion(&w)))?;
    ensure!(b == truth, "criterion says {b} after permuting and scaling: {}", shows(&w));
    cx.label(if truth { "basis" } else { "not a basis" });
    cx.nt(v.len() > 1);
    Ok(())
}

// ---- C17 --------------------------------------------------------------------------------------
fn c17<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let o = setup(cx);
    let g = ideal::<F>(&mut cx.s);
    let rgb = refgb::<F>(&g, o)?;
    let lib = libgb::<F>(cx, &g, o)?;
    let gc = |s: &mut Src| if F::OVF { gunit::<F>(s) } else { gsmall::<F>(s) };
    let inside = |s: &mut Src| { let mut m = MPoly::zero(); for p in &g { if s.chance(2, 3) { m = m.add(&p.mul_term(&gc(s).r(), &mono_deg(s, 2, 2))); } } m };
    let nf = cx.s.len(0, 4, 4, 24);
    let any = model_of(&poly_with::<F>(&mut cx.s, nf, |s| mono_deg(s, 3, 4), gc));
    let h = inside(&mut cx.s);
    let f = match cx.s.weighted(&[3, 2, 2]) { 0 => any.clone(), 1 => inside(&mut cx.s), _ => any.add(&inside(&mut cx.s)) };
    let k = { let n = cx.s.range(1, 3); model_of(&poly_with::<F>(&mut cx.s, n, |s| mono_deg(s, 3, 3), gc)) };
    let mut b = Budget { steps: 20_000, max_deg: 60 };
    let st = will_stretch(cx);
    let want = normal_form(&f, &rgb, o, &mut b)?;
    let wk = normal_form(&k, &rgb, o, &mut b)?;
    let fp = to_lib::<F>(&f, o, &mut cx.s);
    cx.note(|| format!("f = {}", show(&fp)));
    let mut rem = |cx: &mut Cx, what: &str, p: &MPoly<F::R>, basis: &[Polynomial<F>]| -> Result<MPoly<F::R>, Stop> {
        let q = to_lib::<F>(p, o, &mut cx.s);
        let r = cx.call(what, || by_order!(o, F, divide(&q, basis)).0)?;
        // the verdict a user reads off
        ensure!(r.is_zero() == denote(&r).is_zero(), "{what}: is_zero of {}", show(&r));
        Ok(denote(&r))
    };
    let r = rem(cx, "divide f", &f, &lib)?;
    ensure!(r.is_zero() == want.is_zero(), "remainder of f is {}, f is {}in the ideal", showm(&r), if want.is_zero() { "" } else { "not " });
    // scaling of basis elements does not change normal forms, so this holds for any basis of the ideal
    ensure!(r == want, "remainder of f is {}, the normal form is {}", showm(&r), showm(&want));
    if st {
        let m: Vec<MPoly<F::R>> = lib.iter().map(denote).collect();
        // the library's way to the remainder need not be the reference's
        trace_division::<F>(cx, &f, &lib, o);
        let all: Vec<&MPoly<F::R>> = m.iter().chain([&f, &r]).collect();
        if let Some(x) = stretch_by(cx, &all, true) {
            let basis: Vec<Polynomial<F>> = stretched(&m, x).iter().map(|p| to_lib::<F>(p, o, &mut cx.s)).collect();
            let fs = stretch(&f, x);
            let rs = rem(cx, "divide f", &fs, &basis)?;
            ensure!(rs == stretch(&r, x), "under x_i -> x_i^{x} the remainder is {} instead of the image of {}", showm(&rs), showm(&r));
            // and a monomial between the powers goes with the image
            let e = mono(&mut cx.s, 3, x - 1);
            let rest = 255 - e.iter().max().unwrap_or(&0);
            if all.iter().map(|p| p.max_exp()).max().unwrap_or(0) * x <= rest {
                cx.overflow_ok = true;
                let rs = rem(cx, "divide f", &fs.mul_term(&F::ONE.r(), &e), &basis)?;
                ensure!(rs == stretch(&r, x).mul_term(&F::ONE.r(), &e), "under x_i -> x_i^{x} and times the monomial {e:?} the remainder is {} instead of the image of {}", showm(&rs), showm(&r));
            }
        }
    }
    watch(false);
    cx.overflow_ok = F::OVF;
    let perm = cx.s.perm(lib.len());
    let shuffled: Vec<Polynomial<F>> = perm.iter().map(|&i| lib[i].clone()).collect();
    let r2 = rem(cx, "divide by reordered basis", &f, &shuffled)?;
    ensure!(r2 == r, "remainder with the basis reordered is {}, else {}", showm(&r2), showm(&r));
    let r3 = rem(cx, "divide congruent", &f.add(&h), &lib)?;
    ensure!(r3 == r, "remainder of a congruent polynomial is {}, else {}", showm(&r3), showm(&r));
    let rk = rem(cx, "divide", &k, &lib)?;
    ensure!(rk == wk, "remainder is {}, the normal form is {}", showm(&rk), showm(&wk));
    let rs = rem(cx, "divide sum", &f.add(&k), &lib)?;
    ensure!(rs == r.add(&rk), "remainder of a sum is {}, sum of remainders {}", showm(&rs), showm(&r.add(&rk)));
    cx.label(if want.is_zero() { "member" } else { "not a member" });
    cx.nt(rgb.len() > 1 && !f.is_zero() && f != want);
    Ok(())
}

// ---- C30 --------------------------------------------------------------------------------------
type FP = BTreeMap<Mono, f64>;
fn fmodel<F: Coef>(p: &Polynomial<F>, val: impl Fn(&F) -> f64) -> FP {
    let mut r = FP::new();
    for t in &p.terms { *r.entry(mdeg_of(&t.mdeg)).or_insert(0.0) += val(&t.coef); }
    r
}
fn flead(p: &FP, o: Ord4) -> Option<(Mono, f64)> { p.iter().max_by(|a, b| ocmp(o, a.0, b.0)).map(|(m, c)| (m.clone(), *c)) }
/// own float division, only to predict size: steps, degrees and magnitudes
fn fpredict(f: &FP, gs: &[FP], o: Ord4) -> Result<(), Stop> {
    let lts: Vec<Option<(Mono, f64)>> = gs.iter().map(|g| flead(g, o)).collect();
    let mut f = f.clone();
    let mut steps = 0;
    while let Some((m, c)) = flead(&f, o) {
        steps += 1;
        if steps > 400 || m.iter().any(|&e| e > 100) || !(c.abs() < 1e30) { return discard("float division too large"); }
        f.remove(&m);
        if let Some((i, q)) = lts.iter().enumerate().find_map(|(i, l)| l.as_ref().and_then(|l| mdiv(&m, &l.0)).map(|q| (i, q))) {
            let (lm, lc) = lts[i].clone().unwrap();
            let k = c / lc;
            for (n, d) in &gs[i] {
                if *n == lm { continue; }
                let e = f.entry(mmul(n, &q)).or_insert(0.0);
                *e -= k * d;
                if *e == 0.0 { let key = mmul(n, &q); f.remove(&key); }
            }
        }
    }
    Ok(())
}
/// v * 2^k, exact unless the result is out of range
fn ldexp(mut v: f64, mut k: i32) -> f64 {
    while k != 0 { let d = k.clamp(-1000, 1000); v *= 2f64.powi(d); k -= d; }
    v
}
/// the same polynomial with coefficients times a power of two
fn fscale<F: Coef>(p: &RawPoly<F>, k: i32, val: fn(&F) -> f64, mkf: fn(f64) -> F) -> Polynomial<F> {
    build(&p.iter().map(|(m, c)| (m.clone(), mkf(ldexp(val(c), k)))).collect())
}
fn c30<F: Coef>(cx: &mut Cx, val: fn(&F) -> f64, mkf: fn(f64) -> F, eps: f64) -> R {
    cx.limit = 60_000_000;
    let single = eps > 1e-6;
    // dividend and divisors are scaled by powers of two, which changes no significant digit;
    // at the extreme end, into the subnormal numbers
    let scale = cx.s.weighted(&[6, 3, 2]);
    let o = order(&mut cx.s);
    let nv = cx.s.range(1, 3);
    let coef = |s: &mut Src| -> F {
        let v = match if scale == 2 { 0 } else { s.weighted(&[4, 3, 3, 2]) } {
            0 => s.int(-60, 60) as f64,
            1 => s.int(-100, 100) as f64 / *s.pick(&[3.0, 7.0, 10.0, 49.0]),
            2 => s.int(-1_000_000, 1_000_000) as f64 * 1e-3,
            _ => f64::from_bits(0x3fe0_0000_0000_0000 | (s.below(1 << 52))) * if s.chance(1, 2) { -1.0 } else { 2.0 },
        };
        let c = mkf(v);
        if val(&c) == 0.0 { mkf(1.0) } else { c }
    };
    let (nf, m) = (cx.s.range(0, 6), cx.s.range(1, 3));
    let f = poly_with::<F>(&mut cx.s, nf, |s| mono_deg(s, nv, 5), coef);
    let gs: Vec<RawPoly<F>> = (0..m).map(|_| { let k = cx.s.size(1, 3, 12); let d = cx.s.range(0, 3) as u32; 
        let mut g = poly_with::<F>(&mut cx.s, k, |s| mono_deg(s, nv, d), coef);
        // one coefficient, as often as not the leading one, much smaller than the others
        if !single && scale < 2 && g.len() > 1 && cx.s.chance(1, 8) {
            let lead = (0..g.len()).max_by(|&i, &j| ocmp(o, &g[i].0, &g[j].0)).unwrap();
            let i = if cx.s.chance(1, 2) { lead } else { cx.s.idx(g.len()) };
            g[i].1 = mkf(ldexp(val(&g[i].1), -(cx.s.int(20, 80) as i32)));
            cx.label("uneven divisor");
        }
        g
    }).collect();
    let (fp, gp): (Polynomial<F>, Vec<Polynomial<F>>) = (build(&f), gs.iter().map(build).collect());
    let (mf, mg): (FP, Vec<FP>) = (fmodel(&fp, val), gp.iter().map(|g| fmodel(g, val)).collect());
    let (a, b): (i32, Vec<i32>) = match scale {
        0 => (0, vec![0; m]),
        1 => { let w = if single { 20 } else { 200 }; (cx.s.int(-w, w) as i32, (0..m).map(|_| cx.s.int(-w, w) as i32).collect()) }
        _ => {
            let (lo, hi) = if single { (-148, -130) } else { (-1073, -1030) };
            let b: Vec<i32> = (0..m).map(|_| cx.s.int(lo, hi) as i32).collect();
            (cx.s.int(0, 20) as i32 + b.iter().max().unwrap(), b)
        }
    };
    let slack = if scale < 2 { 0.0 } else { 2000.0 * ldexp(1.0, if single { -149 } else { -1074 } - a) };
    let (fp, gp): (Polynomial<F>, Vec<Polynomial<F>>) = (fscale(&f, a, val, mkf), gs.iter().zip(&b).map(|(g, &b)| fscale(g, b, val, mkf)).collect());
    cx.note(|| format!("{o:?}: {} divided by {}", show(&fp), shows(&gp)));
    fpredict(&mf, &mg, o)?;
    let (r, q) = cx.call("divide", || by_order!(o, F, divide(&fp, &gp)))?;
    ensure!(q.len() == gp.len(), "{} quotients for {} divisors", q.len(), gp.len());
    let mr = fmodel(&r, val);
    let lts: Vec<Mono> = mg.iter().filter_map(|g| flead(g, o)).map(|x| x.0).collect();
    for t in &r.terms {
        let m = mdeg_of(&t.mdeg);
        for l in &lts { ensure!(!mdivides(l, &m), "remainder {} has a term divisible by the leading monomial {l:?}", show(&r)); }
    }
    let mut sum: BTreeMap<Mono, (f64, f64)> = BTreeMap::new();
    let mut put = |m: Mono, v: f64| { let e = sum.entry(m).or_insert((0.0, 0.0)); e.0 += v; e.1 += v.abs(); };
    for (m, c) in &mr { put(m.clone(), ldexp(*c, -a)); }
    for (m, c) in &mf { put(m.clone(), -c); }
    for ((a2, g), b) in q.iter().zip(&mg).zip(&b) { for (m, c) in &fmodel(a2, val) { for (n, d) in g { put(mmul(m, n), ldexp(*c, b - a) * d); } } }
    for (m, (v, w)) in &sum {
        if single && !w.is_finite() { return discard("magnitude"); }
        ensure!(w.is_finite(), "at monomial {m:?} the division is not finite: quotients {}, remainder {}", shows(&q), show(&r));
        if !(w < &1e30) { return discard("magnitude"); }
        ensure!(v.abs() <= eps * w + 1e-30 + slack, "at monomial {m:?} the division is off by {v:e} (terms of size {w:e}): quotients {}, remainder {}", shows(&q), show(&r));
    }
    cx.nt(q.iter().any(|a| !a.is_zero()) && f.len() > 1);
    cx.label(["unscaled", "scaled", "subnormal"][scale]);
    cx.label_if(!r.is_zero(), "remainder");
    cx.label_if(gp.iter().any(|g| g.is_zero()), "zero divisor");
    Ok(())
}
fn c30_counted(cx: &mut Cx) -> R { c30::<CF64>(cx, |c| c.0, CF64, 1e-9) }
fn c30_f64(cx: &mut Cx) -> R { c30::<f64>(cx, |c| *c, |v| v, 1e-9) }
fn c30_f32(cx: &mut Cx) -> R { c30::<f32>(cx, |c| *c as f64, |v| v as f32, 1e-3) }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", rule: "random dividends (a third of them combinations of the divisors) and lists of up to 8 divisors (zero, constant, monomial, sharing leading monomials), univariate with exponents up to 255, up to 12 variables, all four orders; non-trivial: a nonzero quotient and a dividend of at least two terms",
            subs: vec![Sub { name: "f7", cases: 200_000, run: c12::<F7> }, Sub { name: "f2", cases: 100_000, run: c12::<F2> }, Sub { name: "f32003", cases: 120_000, run: c12::<F32003> }, Sub { name: "rational", cases: 120_000, run: c12::<Rational> }, Sub { name: "stretch_f7", cases: 80_000, run: far!(c12::<F7>) }, Sub { name: "stretch_f32003", cases: 80_000, run: far!(c12::<F32003>) }, Sub { name: "stretch_rational", cases: 80_000, run: far!(c12::<Rational>) }, Sub { name: "large_f7", cases: 6_000, run: large!(c12::<F7>) }, Sub { name: "large_vast_f7", cases: 400, run: vast!(c12::<F7>) }, Sub { name: "large_f32003", cases: 4_000, run: large!(c12::<F32003>) }] },
        Prop { id: "C13", rule: "random pairs of polynomials (independent, scalar multiples, same leading monomial, monomial multiples, zero), all four orders; non-trivial: a nonzero S-polynomial",
            subs: vec![Sub { name: "f7", cases: 400_000, run: c13::<F7> }, Sub { name: "f2", cases: 150_000, run: c13::<F2> }, Sub { name: "f32003", cases: 200_000, run: c13::<F32003> }, Sub { name: "rational", cases: 300_000, run: c13::<Rational> }, Sub { name: "large_f7", cases: 2_000, run: large!(c13::<F7>) }, Sub { name: "large_vast_f7", cases: 100, run: vast!(c13::<F7>) }, Sub { name: "large_f32003", cases: 1_000, run: large!(c13::<F32003>) }] },
        Prop { id: "C14", rule: "random ideals of eight families (sparse, binomial, monomial, linear, univariate, parametrised, symmetric, quadrics) with 1-4 generators in 1-3 variables, all four orders, against an independent reduced-basis computation; non-trivial: reduced basis of at least two elements",
            subs: vec![Sub { name: "f7", cases: 60_000, run: c14::<F7> }, Sub { name: "f2", cases: 50_000, run: c14::<F2> }, Sub { name: "f32003", cases: 50_000, run: c14::<F32003> }, Sub { name: "rational", cases: 40_000, run: c14::<Rational> }, Sub { name: "stretch_f7", cases: 20_000, run: far!(c14::<F7>) }, Sub { name: "stretch_f32003", cases: 20_000, run: far!(c14::<F32003>) }, Sub { name: "stretch_rational", cases: 20_000, run: far!(c14::<Rational>) }, Sub { name: "large_f7", cases: 600, run: large!(c14::<F7>) }, Sub { name: "large_rational", cases: 300, run: large!(c14::<Rational>) }] },
        Prop { id: "C15", rule: "the same ideals, each also in another presentation (permuted, repeated, scaled, combined, extended), against the independent reduced basis; non-trivial: reduced basis of at least two elements",
            subs: vec![Sub { name: "f7", cases: 50_000, run: c15::<F7> }, Sub { name: "f2", cases: 40_000, run: c15::<F2> }, Sub { name: "f32003", cases: 40_000, run: c15::<F32003> }, Sub { name: "rational", cases: 30_000, run: c15::<Rational> }, Sub { name: "stretch_f7", cases: 25_000, run: far!(c15::<F7>) }, Sub { name: "stretch_f32003", cases: 25_000, run: far!(c15::<F32003>) }, Sub { name: "stretch_rational", cases: 25_000, run: far!(c15::<Rational>) }, Sub { name: "large_f7", cases: 400, run: large!(c15::<F7>) }, Sub { name: "large_rational", cases: 200, run: large!(c15::<Rational>) }] },
        Prop { id: "C16", rule: "generator lists, reduced bases, scaled and extended bases, bases with an element removed, bases for another order; answer compared with the truth from an independent basis, and after permuting and scaling; non-trivial: at least two polynomials",
            subs: vec![Sub { name: "f7", cases: 90_000, run: c16::<F7> }, Sub { name: "f2", cases: 60_000, run: c16::<F2> }, Sub { name: "f32003", cases: 60_000, run: c16::<F32003> }, Sub { name: "rational", cases: 60_000, run: c16::<Rational> }, Sub { name: "stretch_f7", cases: 45_000, run: far!(c16::<F7>) }, Sub { name: "stretch_f32003", cases: 45_000, run: far!(c16::<F32003>) }, Sub { name: "stretch_rational", cases: 45_000, run: far!(c16::<Rational>) }, Sub { name: "large_f7", cases: 600, run: large!(c16::<F7>) }, Sub { name: "large_rational", cases: 300, run: large!(c16::<Rational>) }] },
        Prop { id: "C17", rule: "random ideals with random members and non-members, remainders compared with an independent normal form, under reordering, congruence and addition; non-trivial: basis of at least two elements and a dividend that is not already reduced",
            subs: vec![Sub { name: "f7", cases: 50_000, run: c17::<F7> }, Sub { name: "f2", cases: 40_000, run: c17::<F2> }, Sub { name: "f32003", cases: 40_000, run: c17::<F32003> }, Sub { name: "rational", cases: 30_000, run: c17::<Rational> }, Sub { name: "stretch_f7", cases: 20_000, run: far!(c17::<F7>) }, Sub { name: "stretch_f32003", cases: 20_000, run: far!(c17::<F32003>) }, Sub { name: "stretch_rational", cases: 20_000, run: far!(c17::<Rational>) }, Sub { name: "large_f7", cases: 400, run: large!(c17::<F7>) }, Sub { name: "large_rational", cases: 200, run: large!(c17::<Rational>) }] },
        Prop { id: "C30", rule: "random float polynomials with integer, decimal, fractional and full-mantissa coefficients, as they are, scaled by powers of two or scaled into the subnormal range, divided by up to three divisors, operations counted to detect non-termination; non-trivial: a nonzero quotient and a dividend of at least two terms",
            subs: vec![Sub { name: "counted_f64", cases: 200_000, run: c30_counted }, Sub { name: "f64", cases: 200_000, run: c30_f64 }, Sub { name: "f32", cases: 150_000, run: c30_f32 }] },
    ]
}
