//! C06, C07, C08, C11: polynomial arithmetic, cleanliness, evaluation, leading terms.
use crate::engine::*;
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use crate::{ensure, large, vast};
use algeo::core::num::Rational;
use algeo::poly::elts::{Polynomial, Term};

/// every ownership form of a binary operator
macro_rules! forms {
    ($v:expr, $a:expr, $op:tt, $b:expr) => {
        match $v { 0 => &$a $op &$b, 1 => $a.clone() $op &$b, 2 => &$a $op $b.clone(), _ => $a.clone() $op $b.clone() }
    };
}

struct Reg<F: Coef> { p: Polynomial<F>, m: MPoly<F::R> }
#[derive(Clone, Copy, PartialEq)]
enum Mode { Value, Clean }

/// (sum of |c| scaled to a common denominator, that denominator)
fn weight<T: Ring>(m: &MPoly<T>) -> (f64, f64) {
    let mut den: i128 = 1;
    for c in m.0.values() { let d = c.denom(); den = den / gcd128(den, d).max(1) * d; if den > 1 << 70 { return (1e40, 1e40); } }
    (m.0.values().map(|c| c.absf()).sum::<f64>() * den as f64, den as f64)
}
fn small<T: Ring>(lim: f64, a: &MPoly<T>, b: &MPoly<T>, mul: bool) -> bool {
    let ((x, d), (y, e)) = (weight(a), weight(b));
    (if mul { x * y } else { x * e + y * d }) <= lim && d * e <= lim
}
fn limit<F: Coef>() -> f64 {
    match F::NAME { "Rational" => 2f64.powi(50), "f64" | "CF64" => 2f64.powi(49), "f32" => 2f64.powi(22), _ => f64::INFINITY }
}

fn verify<F: Coef>(cx: &mut Cx, mode: Mode, what: &str, p: &Polynomial<F>, want: &MPoly<F::R>) -> R {
    let _ = cx;
    match mode {
        Mode::Value => {
            let got = denote(p);
            ensure!(got == *want, "{what}: result is {}, should be {}", show(p), showm(want));
        }
        Mode::Clean => {
            if let Some(u) = unclean(p) { return fail(format!("{what}: {u}")); }
            ensure!(p.is_zero() == denote(p).is_zero(), "{what}: is_zero of {} is {}", show(p), p.is_zero());
        }
    }
    Ok(())
}

fn history<F: Coef>(cx: &mut Cx, mode: Mode) -> R {
    cx.overflow_ok = F::OVF;
    let lim = limit::<F>();
    let nv = if cx.s.chance(1, 10) { cx.s.len(4, 8, 20, 60) } else { cx.s.range(0, 4) + cx.s.big as usize * 2 };
    let maxexp = *cx.s.pick(&[2u32, 3, 3, 9, 60, 255]);
    let cap = if cx.s.vast > 1 { 7_000 / (1 + nv / 32) } else if cx.s.big { 2_500 } else { 120 };
    let mut regs: Vec<Reg<F>> = vec![];
    for k in 0..3 {
        let mut raw = poly::<F>(&mut cx.s, nv, 5, 14, maxexp);
        if raw.is_empty() && k > 0 { raw = vec![(mono(&mut cx.s, nv, maxexp), F::gen_nz(&mut cx.s))]; }
        cx.note(|| format!("#{k} = {}", show(&build(&raw))));
        regs.push(Reg { p: build(&raw), m: model_of(&raw) });
    }
    let n = cx.s.range(1, 14);
    let mut work = 0;
    for _ in 0..n {
        let op = cx.s.weighted(&[6, 6, 5, 2, 4, 3, 4, 3, 3, 2, 3, 1, 3]);
        let (i, j) = (cx.s.idx(regs.len()), cx.s.idx(regs.len()));
        let f = cx.s.idx(4);
        // a term: fresh, or taken from a register so that it meets an existing monomial
        let t: Term<F> = {
            let tr = cx.s.idx(regs.len());
            let how = cx.s.weighted(&[3, 3, 2, 1]);
            let ts = &regs[tr].p.terms;
            match how {
                1 | 2 if !ts.is_empty() => { let mut t = ts[cx.s.idx(ts.len())].clone(); if how == 2 { t.coef = -t.coef; } t }
                3 => { let m = if cx.s.chance(1, 2) { mono(&mut cx.s, nv, maxexp) } else { vec![] }; term_of(&m, F::ZERO) }
                _ => { let m = mono(&mut cx.s, nv, maxexp); term_of(&m, F::gen_nz(&mut cx.s)) }
            }
        };
        let c = if cx.s.chance(1, 8) { F::ZERO } else { F::gen_nz(&mut cx.s) };
        let (a, b) = (&regs[i], &regs[j]);
        let (tm, cm) = (denote_term(&t), MPoly::constant(c.r()));
        // adding costs as much as multiplying: every term is looked up among those there
        let cost = a.m.0.len() * b.m.0.len() * (1 + nv / 32);
        let long = cost > 25_000_000 || work + cost > 60_000_000;
        if op < 2 && !long { work += cost; }
        let deg_ok = |x: &MPoly<F::R>, y: &MPoly<F::R>| x.max_exp() + y.max_exp() <= 255;
        let mut what;
        macro_rules! say { ($($t:tt)*) => { what = format!($($t)*); let w = what.clone(); cx.note(|| w); } }
        let (p, m): (Polynomial<F>, MPoly<F::R>) = match op {
            0 => {
                if long || !small(lim, &a.m, &b.m, false) { continue; }
                say!("#{i} + #{j}");
                (cx.call("P + P", || forms!(f, a.p, +, b.p))?, a.m.add(&b.m))
            }
            1 => {
                if long || !small(lim, &a.m, &b.m, false) { continue; }
                say!("#{i} - #{j}");
                (cx.call("P - P", || forms!(f, a.p, -, b.p))?, a.m.sub(&b.m))
            }
            2 => {
                if !small(lim, &a.m, &b.m, true) || !deg_ok(&a.m, &b.m) || a.m.0.len() * b.m.0.len() > cap { continue; }
                say!("#{i} * #{j}");
                (cx.call("P * P", || forms!(f, a.p, *, b.p))?, a.m.mul(&b.m))
            }
            3 => { say!("-#{i}"); (cx.call("-P", || if f % 2 == 0 { -&a.p } else { -a.p.clone() })?, a.m.neg()) }
            4 => {
                if !small(lim, &a.m, &tm, false) { continue; }
                say!("#{i} + {t:?} (either order)");
                (cx.call("P + T", || if j % 2 == 0 { forms!(f, a.p, +, t) } else { forms!(f, t, +, a.p) })?, a.m.add(&tm))
            }
            5 => {
                if !small(lim, &a.m, &tm, false) { continue; }
                if j % 2 == 0 { say!("#{i} - {t:?}"); (cx.call("P - T", || forms!(f, a.p, -, t))?, a.m.sub(&tm)) }
                else { say!("{t:?} - #{i}"); (cx.call("T - P", || forms!(f, t, -, a.p))?, tm.sub(&a.m)) }
            }
            6 => {
                if !small(lim, &a.m, &tm, true) || !deg_ok(&a.m, &tm) { continue; }
                say!("#{i} * {t:?} (either order)");
                (cx.call("P * T", || if j % 2 == 0 { forms!(f, a.p, *, t) } else { forms!(f, t, *, a.p) })?, a.m.mul(&tm))
            }
            7 => {
                if !small(lim, &a.m, &cm, true) { continue; }
                say!("#{i} * {c}");
                (cx.call("P * c", || if f % 2 == 0 { &a.p * c } else { a.p.clone() * c })?, a.m.mul(&cm))
            }
            8 => {
                // division by a scalar: nonzero, in floats a power of two
                let c = match F::NAME {
                    "f64" | "f32" | "CF64" => { let k = 1i64 << cx.s.range(0, 3); F::of(if cx.s.chance(1, 2) { k } else { -k }) }
                    _ => if c.r().is_zero() { F::ONE } else { c },
                };
                let inv = MPoly::constant(c.r().inv());
                if !small(lim, &a.m, &inv, true) { continue; }
                say!("#{i} / {c}");
                (cx.call("P / c", || if f % 2 == 0 { &a.p / c } else { a.p.clone() / c })?, a.m.mul(&inv))
            }
            9 => {
                let u = if cx.s.chance(1, 2) { let mut u = t.clone(); u.coef = if cx.s.chance(1, 2) { -t.coef } else { c }; u } else { let m = mono(&mut cx.s, nv, maxexp); term_of(&m, c) };
                let um = denote_term(&u);
                if !small(lim, &um, &tm, false) { continue; }
                if j % 2 == 0 { say!("{t:?} + {u:?}"); (cx.call("T + T", || forms!(f, t, +, u))?, tm.add(&um)) }
                else { say!("{t:?} - {u:?}"); (cx.call("T - T", || forms!(f, t, -, u))?, tm.sub(&um)) }
            }
            10 => {
                let k = cx.s.idx(9);
                say!("conversion {k} of {c} or {t:?}");
                let nz = !c.r().is_zero();
                let v = cx.s.range(0, 5);
                let d = cx.s.int(0, 255) as u8;
                let mut vm = vec![0; v];
                vm.push(d as u32);
                let one = MPoly::constant(F::ONE.r());
                match k {
                    0 => (cx.call("from scalar", || Polynomial::from(c))?, cm),
                    1 => (cx.call("from term", || Polynomial::from(t.clone()))?, tm),
                    2 => (cx.call("from &term", || Polynomial::from(&t))?, tm),
                    3 => (cx.call("zero", || if f % 2 == 0 { Polynomial::zero() } else { Polynomial::default() })?, MPoly::zero()),
                    4 => (cx.call("one", || Polynomial::one())?, one),
                    5 => (cx.call("var", || Polynomial::var(v, d))?, MPoly::term(F::ONE.r(), vm)),
                    6 if nz => (cx.call("constant", || Polynomial::constant_unchecked(c))?, cm),
                    7 => (cx.call("term var", || Polynomial::from(Term::<F>::var(v, d)))?, MPoly::term(F::ONE.r(), vm)),
                    _ => (cx.call("term from scalar", || Polynomial::from(Term::from(c)))?, cm),
                }
            }
            11 => { // a - a, however formed
                say!("#{i} - #{i} by addition of the negative");
                (cx.call("P + -P", || if f % 2 == 0 { &a.p + &-&a.p } else { -a.p.clone() + a.p.clone() })?, MPoly::zero())
            }
            _ => { // (a+b)*(a-b), provoking cancellation
                if !deg_ok(&a.m, &b.m) || a.m.max_exp().max(b.m.max_exp()) * 2 > 255 || a.m.0.len() + b.m.0.len() > if cap > 120 { 60 } else { 9 } || !small(lim, &a.m, &b.m, false) { continue; }
                let (s, d) = (a.m.add(&b.m), a.m.sub(&b.m));
                if !small(lim, &s, &d, true) { continue; }
                say!("(#{i} + #{j}) * (#{i} - #{j})");
                (cx.call("(P+P)*(P-P)", || (&a.p + &b.p) * (&a.p - &b.p))?, s.mul(&d))
            }
        };
        verify(cx, mode, &what, &p, &m)?;
        let m = if mode == Mode::Clean { denote(&p) } else { m };
        if m.is_zero() { cx.label("zero result"); }
        cx.label_if(p.terms.len() > 8, "more than 8 terms");
        cx.label_if(m.max_exp() > 127, "exponent above 127");
        cx.nt(op <= 2 && m.0.len() > 1);
        if regs.len() < 5 { regs.push(Reg { p, m }); } else { regs[cx.s.idx(5)] = Reg { p, m }; }
    }
    Ok(())
}
fn c06<F: Coef>(cx: &mut Cx) -> R { history::<F>(cx, Mode::Value) }
fn c07<F: Coef>(cx: &mut Cx) -> R { history::<F>(cx, Mode::Clean) }

/// algebraic identities that need no model: the same polynomial along different routes
fn c06_laws<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let nv = cx.s.range(1, 4);
    let maxexp = *cx.s.pick(&[2u32, 5, 80]);
    let raw: Vec<RawPoly<F>> = (0..3).map(|_| { let n = cx.s.size(0, 5, 12); poly_with(&mut cx.s, n, |s| mono(s, nv, maxexp), F::gen_small) }).collect();
    cx.note(|| raw.iter().map(|r| show(&build(r))).collect::<Vec<_>>().join(" ; "));
    let (a, b, c) = (build(&raw[0]), build(&raw[1]), build(&raw[2]));
    let pairs = cx.call("laws", || vec![
        ("a+b = b+a", &a + &b, &b + &a),
        ("(a+b)+c = a+(b+c)", (&a + &b) + &c, &a + (&b + &c)),
        ("ab = ba", &a * &b, &b * &a),
        ("(ab)c = a(bc)", (&a * &b) * &c, &a * (&b * &c)),
        ("a(b+c) = ab+ac", &a * (&b + &c), &a * &b + &a * &c),
        ("(a-b)c = ac-bc", (&a - &b) * &c, &a * &c - &b * &c),
        ("a+0 = a", &a + Polynomial::zero(), a.clone()),
        ("a*1 = a", &a * Polynomial::one(), a.clone()),
        ("a*0 = 0", &a * Polynomial::zero(), Polynomial::zero()),
        ("-(a-b) = b-a", -(&a - &b), &b - &a),
    ])?;
    for (l, x, y) in &pairs { ensure!(denote(x) == denote(y), "{l} fails: {} against {}", show(x), show(y)); }
    cx.nt(raw.iter().all(|r| r.len() > 1));
    Ok(())
}

// ---- C07: other producers ------------------------------------------------------------------------
fn c07_algorithms<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let o = order(&mut cx.s);
    let nv = cx.s.range(1, 3);
    let n = cx.s.range(1, 3);
    let gens: Vec<RawPoly<F>> = (0..n).map(|_| { let k = cx.s.range(1, 3); poly_with(&mut cx.s, k, |s| mono_deg(s, nv, 3), |s| { let c = F::gen_small(s); if c.r().is_zero() { F::ONE } else { c } }) }).collect();
    let d = cx.s.range(0, 5);
    let f = poly_with::<F>(&mut cx.s, d, |s| mono_deg(s, nv, 5), F::gen_nz);
    let (fp, mut gp): (Polynomial<F>, Vec<Polynomial<F>>) = (build(&f), gens.iter().map(build).collect());
    cx.note(|| format!("{o:?}: {} by {}", show(&fp), shows(&gp)));
    let mut b = Budget { steps: 4000, max_deg: 30 };
    let ms: Vec<MPoly<F::R>> = gens.iter().map(model_of).collect();
    let rgb = reduced_gb(&ms, o, &mut b)?;
    let _ = normal_form(&model_of(&f), &ms, o, &mut b)?;
    let chk = |what: &str, p: &Polynomial<F>| -> R {
        if let Some(u) = unclean(p) { return fail(format!("{what}: {u}")); }
        ensure!(p.is_zero() == denote(p).is_zero(), "{what}: is_zero of {}", show(p));
        Ok(())
    };
    let s = cx.call("sort_terms", || by_order!(o, F, sort_terms(&fp)))?;
    chk("sort_terms", &s)?;
    let (r, q) = cx.call("divide", || by_order!(o, F, divide(&fp, &gp)))?;
    chk("remainder", &r)?;
    for x in &q { chk("quotient", x)?; }
    cx.label_if(r.is_zero(), "zero remainder");
    if gp.len() > 1 {
        if let Some(s) = cx.call("try_reduce", || by_order!(o, F, try_reduce(&gp[0], &gp[1])))? { chk("S-polynomial", &s)?; cx.label_if(s.is_zero(), "zero S-polynomial"); }
    }
    cx.call("buchberger_algorithm", || by_order!(o, F, buchberger_algorithm(&mut gp)))?;
    for g in &gp { chk("basis element", g)?; ensure!(!g.is_zero(), "zero polynomial in a Groebner basis"); }
    cx.nt(rgb.len() > 1 || !q.iter().all(|x| x.is_zero()));
    Ok(())
}

/// floats of every magnitude: sums cancel, products and quotients underflow
fn c07_wild<F: Coef>(cx: &mut Cx, val: fn(&F) -> f64, mkf: fn(f64) -> F) -> R {
    let o = order(&mut cx.s);
    let nv = cx.s.range(0, 3);
    let style = cx.s.idx(3);
    let coef = |s: &mut Src| -> F {
        let v = match style {
            0 => any_float(s),
            1 => { let k = s.int(-320, 20) as i32; (2 * s.int(-3, 3) + 1) as f64 * 10f64.powi(k) }
            _ => { let k = s.int(-48, 20) as i32; (2 * s.int(-3, 3) + 1) as f64 * 10f64.powi(k) }
        };
        let c = mkf(v);
        if val(&c) != 0.0 && val(&c).is_finite() { c } else { mkf(0.5) }
    };
    let mut regs: Vec<Polynomial<F>> = vec![];
    for _ in 0..2 { let n = cx.s.size(0, 4, 9); let r = poly_with::<F>(&mut cx.s, n, |s| mono_deg(s, nv, 3), coef); regs.push(build(&r)); }
    let chk = |cx: &mut Cx, what: &str, p: &Polynomial<F>| -> R {
        let _ = cx;
        if p.terms.iter().any(|t| !val(&t.coef).is_finite()) { return discard("a coefficient beyond the float range"); }
        if let Some(u) = unclean(p) { return fail(format!("{what}: {u}")); }
        ensure!(p.is_zero() == p.terms.is_empty(), "{what}: is_zero of {}", show(p));
        Ok(())
    };
    let small = |p: &Polynomial<F>| p.terms.iter().all(|t| mdeg_of(&t.mdeg).iter().all(|e| *e < 50)) && p.terms.len() < 60;
    for _ in 0..cx.s.range(1, 6) {
        let (i, j) = (cx.s.idx(regs.len()), cx.s.idx(regs.len()));
        let (a, b) = (regs[i].clone(), regs[j].clone());
        let c = if cx.s.chance(1, 8) { F::ZERO } else { coef(&mut cx.s) };
        let t: Term<F> = Term::new(coef(&mut cx.s), to_mdeg(&mono_deg(&mut cx.s, nv, 2)));
        let k = cx.s.idx(12);
        cx.note(|| format!("{} on {}, {}, scalar {c}, term {}*{:?}, {o:?}", ["+", "-", "*", "neg", "* scalar", "/ scalar", "* term", "+ term", "- term", "divide", "S-polynomial", "sort"][k], show(&a), show(&b), t.coef, t.mdeg.0));
        let r: Vec<Polynomial<F>> = cx.call("operation", || match k {
            0 => vec![&a + &b],
            1 => vec![&a - &b],
            2 => vec![&a * &b],
            3 => vec![-&a],
            4 => vec![&a * c],
            5 => vec![&a / if c == F::ZERO { F::ONE } else { c }],
            6 => vec![&a * &t, &t * &b],
            7 => vec![&a + &t],
            8 => vec![&a - &t, &t - &b],
            9 => { let (r, mut q) = by_order!(o, F, divide(&a, &[b.clone()])); q.push(r); q }
            10 => by_order!(o, F, try_reduce(&a, &b)).into_iter().collect(),
            _ => vec![by_order!(o, F, sort_terms(&a))],
        })?;
        for p in r {
            chk(cx, ["+", "-", "*", "neg", "* scalar", "/ scalar", "* term", "+ term", "- term", "divide", "S-polynomial", "sort"][k], &p)?;
            cx.label_if(matches!(k, 2 | 4 | 5 | 6) && p.terms.len() < a.terms.len().max(1) && !p.is_zero(), "terms lost to underflow");
            cx.nt(p.terms.len() > 1);
            if small(&p) && regs.len() < 6 { regs.push(p); }
        }
    }
    Ok(())
}
fn c07_wild64(cx: &mut Cx) -> R { c07_wild::<f64>(cx, |c| *c, |v| v) }
fn c07_wild32(cx: &mut Cx) -> R { c07_wild::<f32>(cx, |c| *c as f64, |v| v as f32) }

// ---- C08 --------------------------------------------------------------------------------------
fn point<F: Coef>(s: &mut Src, n: usize, smallv: bool) -> Vec<F> {
    (0..n).map(|_| if smallv { F::of(s.int(-3, 3)) } else { F::gen(s) }).collect()
}
fn c08<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let exact_small = F::NAME != "Fp";
    let nv = nvars(&mut cx.s).min(if exact_small { 4 } else if cx.s.big { if cx.s.chance(1, 2) { 5 } else { 300 } } else { 20 });
    let maxexp = if exact_small { 3 } else { *cx.s.pick(&[3u32, 20, 255]) };
    let n = if cx.s.big && !exact_small { cx.s.len(1, 1, 1, 300) } else { cx.s.size(0, 4, 12).min(if exact_small { 4 } else { 12 }) };
    let gc = |s: &mut Src| if exact_small { let c = F::of(s.int(-9, 9)); if c.r().is_zero() { F::ONE } else { c } } else { F::gen_nz(s) };
    let mut f = poly_with::<F>(&mut cx.s, n, |s| mono(s, nv, maxexp), gc);
    let mut g = poly_with::<F>(&mut cx.s, n, |s| mono(s, nv, maxexp), gc);
    if F::NAME == "Rational" { for (_, c) in f.iter_mut().chain(g.iter_mut()).take(2) { *c = *c / F::of(cx.s.int(1, 4)); } }
    f.retain(|(_, c)| !c.r().is_zero());
    g.retain(|(_, c)| !c.r().is_zero());
    let extra = cx.s.range(0, 2);
    let x = point::<F>(&mut cx.s, nv + extra, exact_small);
    let (p, q) = (build(&f), build(&g));
    let (mp, mq) = (model_of(&f), model_of(&g));
    cx.note(|| format!("{} ; {} at {x:?}", show(&p), show(&q)));
    let xr: Vec<F::R> = x.iter().map(|v| v.r()).collect();
    let (vp, vq) = cx.call("eval", || (p.eval(&x), q.eval(&x)))?;
    ensure!(vp.r() == mp.eval(&xr), "value is {vp}, should be {:?}", mp.eval(&xr));
    ensure!(vq.r() == mq.eval(&xr), "value is {vq}, should be {:?}", mq.eval(&xr));
    for t in &p.terms {
        let v = cx.call("term eval", || t.eval(&x))?;
        ensure!(v.r() == denote_term(t).eval(&xr), "term {t:?} evaluates to {v}");
    }
    let z = cx.call("eval", || (Polynomial::<F>::zero().eval(&x), Polynomial::<F>::zero().eval(&[]), Polynomial::<F>::one().eval(&x)))?;
    ensure!(z.0.r().is_zero() && z.1.r().is_zero() && z.2.r() == F::ONE.r(), "zero and one evaluate to {z:?}");
    // only as many coordinates as there are variables: same value
    let v = cx.call("eval", || p.eval(&x[..mp.nvars()]))?;
    ensure!(v.r() == vp.r(), "value depends on coordinates beyond the variables");
    // homomorphism
    let c = gc(&mut cx.s);
    let t = if n > 0 && !p.terms.is_empty() { p.terms[0].clone() } else { Term::one() };
    let dsum = p.terms.len() * q.terms.len() <= 2_500 && mp.max_exp() + mq.max_exp() <= 255 && mp.max_exp() * 2 <= 255;
    let h = cx.call("operations", || vec![
        ("sum", (&p + &q).eval(&x), vp + vq),
        ("difference", (&p - &q).eval(&x), vp - vq),
        ("negative", (-&p).eval(&x), -vp),
        ("multiple", (&p * c).eval(&x), vp * c),
        ("sum with term", (&p + &t).eval(&x), vp + t.eval(&x)),
    ])?;
    for (w, a, b) in &h { ensure!(a.r() == b.r(), "{w} evaluates to {a}, should be {b}"); }
    if dsum {
        let h = cx.call("product", || ((&p * &q).eval(&x), vp * vq, (&p * &t).eval(&x), vp * t.eval(&x)))?;
        ensure!(h.0.r() == h.1.r() && h.2.r() == h.3.r(), "product evaluates to {} (with a term {}), should be {} ({})", h.0, h.2, h.1, h.3);
        cx.label("product");
    }
    cx.nt(p.terms.len() > 1 && x.iter().any(|v| !v.r().is_zero() && v.r() != F::ONE.r()));
    // too few coordinates
    let need = mp.nvars();
    if need > 0 {
        let k = cx.s.idx(need);
        cx.must_panic(&format!("polynomial evaluated at {k} of {need} coordinates"), || p.eval(&x[..k]))?;
        let t = p.terms.iter().max_by_key(|t| t.mdeg.0.len()).unwrap();
        cx.must_panic(&format!("term evaluated at {k} of {need} coordinates"), || t.eval(&x[..k]))?;
        cx.label("short point");
    }
    Ok(())
}

// ---- C11 --------------------------------------------------------------------------------------
fn c11<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let nv = nvars(&mut cx.s).min(if cx.s.big && cx.s.chance(1, 2) { 6 } else { 300 });
    let maxexp = *cx.s.pick(&[2u32, 3, 9, 127]);
    let n = cx.s.len(0, 6, 40, 300);
    let f = if cx.s.chance(1, 3) { let d = cx.s.range(1, 12) as u32; poly_with::<F>(&mut cx.s, n, |s| mono_deg(s, nv, d), F::gen_nz) } else { poly_with::<F>(&mut cx.s, n, |s| mono(s, nv, maxexp), F::gen_nz) };
    let gn = cx.s.range(1, 5);
    let g = poly_with::<F>(&mut cx.s, gn, |s| mono(s, nv, maxexp), F::gen_nz);
    let (p, q) = (build(&f), build(&g));
    let mp = model_of(&f);
    let mq = model_of(&g);
    cx.note(|| format!("{} ; {}", show(&p), show(&q)));
    for o in ORDERS {
        let lt = cx.call("leading_term", || by_order!(o, F, leading_term(&p)).cloned())?;
        let lc = cx.call("leading_coef", || by_order!(o, F, leading_coef(&p)))?;
        match (mp.lt(o), &lt) {
            (None, None) => ensure!(lc.is_none(), "{o:?}: zero has leading coefficient {lc:?}"),
            (Some((m, c)), Some(t)) => {
                ensure!(mdeg_of(&t.mdeg) == m && t.coef.r() == c, "{o:?}: leading term is {t:?}, should be {c:?}*{m:?}");
                ensure!(lc.map(|x| x.r()) == Some(c), "{o:?}: leading coefficient is {lc:?}");
            }
            (w, _) => return fail(format!("{o:?}: leading term is {lt:?}, should be {w:?}")),
        }
        let s = cx.call("sort_terms", || by_order!(o, F, sort_terms(&p)))?;
        ensure!(s.terms.len() == p.terms.len() && denote(&s) == mp, "{o:?}: sorting changed the polynomial to {}", show(&s));
        for w in s.terms.windows(2) {
            ensure!(ocmp(o, &mdeg_of(&w[0].mdeg), &mdeg_of(&w[1].mdeg)) == std::cmp::Ordering::Less, "{o:?}: sorted terms {:?}, {:?} are not increasing", w[0], w[1]);
        }
        if !p.is_zero() && !q.is_zero() && mp.max_exp() + mq.max_exp() <= 255 && f.len() * g.len() <= if cx.s.big { 2_000 } else { 100 } {
            let v = cx.call("product", || { let pq = &p * &q; (by_order!(o, F, leading_term(&pq)).cloned(), by_order!(o, F, leading_term(&p)).cloned(), by_order!(o, F, leading_term(&q)).cloned()) })?;
            let (Some(a), Some(b), Some(c)) = v else { return fail("a nonzero product or factor has no leading term") };
            ensure!(denote_term(&a) == denote_term(&b).mul(&denote_term(&c)), "{o:?}: LT(pq) = {a:?} but LT(p) LT(q) = {b:?} * {c:?}");
        }
    }
    cx.nt(p.terms.len() > 1);
    cx.label_if(ORDERS.iter().any(|o| mp.lt(*o).map(|x| x.0) != mp.lt(Ord4::Lex).map(|x| x.0)), "orders disagree");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", rule: "random histories of up to 14 polynomial/term/scalar operations in all ownership forms on registers, replayed on exponent-to-coefficient maps, some on polynomials of up to 300 terms, plus ring laws; non-trivial: a binary polynomial operation with a result of at least two terms, resp. three polynomials of at least two terms",
            subs: vec![Sub { name: "f7", cases: 120_000, run: c06::<F7> }, Sub { name: "f2", cases: 60_000, run: c06::<F2> }, Sub { name: "f32003", cases: 60_000, run: c06::<F32003> }, Sub { name: "fbig", cases: 40_000, run: c06::<Fbig> }, Sub { name: "rational", cases: 100_000, run: c06::<Rational> }, Sub { name: "f64", cases: 60_000, run: c06::<f64> }, Sub { name: "f32", cases: 40_000, run: c06::<f32> }, Sub { name: "laws_f3", cases: 40_000, run: c06_laws::<F3> }, Sub { name: "laws_rational", cases: 40_000, run: c06_laws::<Rational> }, Sub { name: "large_f7", cases: 1_200, run: large!(c06::<F7>) }, Sub { name: "large_vast_f7", cases: 150, run: vast!(c06::<F7>) }, Sub { name: "large_f32003", cases: 800, run: large!(c06::<F32003>) }, Sub { name: "large_vast_f32003", cases: 150, run: vast!(c06::<F32003>) }, Sub { name: "large_f64", cases: 400, run: large!(c06::<f64>) }, Sub { name: "large_vast_f64", cases: 150, run: vast!(c06::<f64>) }] },
        Prop { id: "C07", rule: "the same random histories, every result inspected for zero coefficients, repeated monomials, trailing zero exponents and its zero test; also the outputs of sorting, division, S-polynomials and Buchberger; histories over floats of every magnitude and on polynomials of up to 300 terms; non-trivial: result with at least two terms, resp. a nonzero quotient or a basis of at least two elements",
            subs: vec![Sub { name: "f7", cases: 120_000, run: c07::<F7> }, Sub { name: "f2", cases: 80_000, run: c07::<F2> }, Sub { name: "f32003", cases: 50_000, run: c07::<F32003> }, Sub { name: "rational", cases: 100_000, run: c07::<Rational> }, Sub { name: "f64", cases: 60_000, run: c07::<f64> }, Sub { name: "wild_f64", cases: 80_000, run: c07_wild64 }, Sub { name: "wild_f32", cases: 60_000, run: c07_wild32 }, Sub { name: "algorithms_f3", cases: 40_000, run: c07_algorithms::<F3> }, Sub { name: "algorithms_f32003", cases: 20_000, run: c07_algorithms::<F32003> }, Sub { name: "algorithms_rational", cases: 15_000, run: c07_algorithms::<Rational> }, Sub { name: "large_f7", cases: 1_200, run: large!(c07::<F7>) }, Sub { name: "large_f32003", cases: 800, run: large!(c07::<F32003>) }, Sub { name: "large_f64", cases: 400, run: large!(c07::<f64>) }, Sub { name: "large_vast_f7", cases: 120, run: vast!(c07::<F7>) }, Sub { name: "large_vast_f32003", cases: 120, run: vast!(c07::<F32003>) }] },
        Prop { id: "C08", rule: "random polynomial pairs, terms and points (exponents up to 255 in prime fields), value against the model and against the homomorphism law, and points that are too short, some with 300 terms or variables; non-trivial: at least two terms and a coordinate other than 0 and 1",
            subs: vec![Sub { name: "f7", cases: 200_000, run: c08::<F7> }, Sub { name: "f32003", cases: 200_000, run: c08::<F32003> }, Sub { name: "f2", cases: 60_000, run: c08::<F2> }, Sub { name: "rational", cases: 250_000, run: c08::<Rational> }, Sub { name: "f64", cases: 200_000, run: c08::<f64> }, Sub { name: "large_f7", cases: 800, run: large!(c08::<F7>) }, Sub { name: "large_vast_f7", cases: 30, run: vast!(c08::<F7>) }, Sub { name: "large_f32003", cases: 800, run: large!(c08::<F32003>) }, Sub { name: "large_vast_f32003", cases: 30, run: vast!(c08::<F32003>) }] },
        Prop { id: "C11", rule: "random polynomials (up to 40 terms, in the large sub-checks 300 terms or variables; many of equal total degree) and products under all four orders; non-trivial: at least two terms",
            subs: vec![Sub { name: "f7", cases: 200_000, run: c11::<F7> }, Sub { name: "f2", cases: 60_000, run: c11::<F2> }, Sub { name: "rational", cases: 150_000, run: c11::<Rational> }, Sub { name: "large_f7", cases: 600, run: large!(c11::<F7>) }, Sub { name: "large_vast_f7", cases: 60, run: vast!(c11::<F7>) }, Sub { name: "large_rational", cases: 400, run: large!(c11::<Rational>) }, Sub { name: "large_vast_rational", cases: 60, run: vast!(c11::<Rational>) }] },
    ]
}
