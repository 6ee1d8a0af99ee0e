//! C33: results depend on the arguments alone, not on earlier calls, on where the arguments lie in memory or on
//! what other threads compute.
use super::elim::Ex;
use super::groebner::{ideal, refgb};
use crate::engine::*;
use crate::ensure;
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use algeo::core::num::{Integer, Rational};
use algeo::linalg::mat::Mat;
use algeo::linalg::util::{get_box_iter, get_max_index, mat_iterator, num_to_seq};
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// what an argument is built from
#[derive(Clone)]
struct Raw<F: Coef> { o: Ord4, p: RawPoly<F>, q: RawPoly<F>, t: (Mono, F), u: (Mono, F), ds: Vec<RawPoly<F>>, gs: Vec<RawPoly<F>>, pt: Vec<F>, r: usize, k: usize, c: usize, a: Vec<F>, b: Vec<F>, m: Vec<F>, x: F, y: F, n: (i64, i64) }
#[derive(Clone)]
struct Args<F: Coef> { o: Ord4, p: Polynomial<F>, q: Polynomial<F>, t: Term<F>, u: Term<F>, ds: Vec<Polynomial<F>>, gs: Vec<Polynomial<F>>, pt: Vec<F>, a: Mat<F>, b: Mat<F>, m: Mat<F>, x: F, y: F, n: (i64, i64) }
fn make<F: Coef>(w: &Raw<F>) -> Args<F> {
    Args { o: w.o, p: build(&w.p), q: build(&w.q), t: term_of(&w.t.0, w.t.1), u: term_of(&w.u.0, w.u.1), ds: w.ds.iter().map(build).collect(), gs: w.gs.iter().map(build).collect(), pt: w.pt.clone(),
        a: mk(w.r, w.k, w.a.clone()), b: mk(w.r, w.k, w.b.clone()), m: mk(w.k, w.c, w.m.clone()), x: w.x, y: w.y, n: w.n }
}
/// overwrite an argument where it lies, as far as the shapes allow
fn overwrite<F: Coef>(to: &mut Args<F>, from: &Args<F>) {
    fn mat<F: Coef>(to: &mut Mat<F>, from: &Mat<F>) {
        if (to.rows(), to.cols()) == (from.rows(), from.cols()) { for r in 0..from.rows() { for c in 0..from.cols() { *to.get_mut_unchecked(r, c) = *from.get_unchecked(r, c); } } } else { *to = from.clone(); }
    }
    fn term<F: Coef>(to: &mut Term<F>, from: &Term<F>) { to.coef = from.coef; to.mdeg.0.clone_from(&from.mdeg.0); }
    fn poly<F: Coef>(to: &mut Polynomial<F>, from: &Polynomial<F>) {
        to.terms.truncate(from.terms.len());
        let n = to.terms.len();
        for (a, b) in to.terms.iter_mut().zip(&from.terms) { term(a, b); }
        to.terms.extend(from.terms[n..].iter().cloned());
    }
    fn polys<F: Coef>(to: &mut Vec<Polynomial<F>>, from: &[Polynomial<F>]) {
        to.truncate(from.len());
        let n = to.len();
        for (a, b) in to.iter_mut().zip(from) { poly(a, b); }
        to.extend(from[n..].iter().cloned());
    }
    to.o = from.o;
    poly(&mut to.p, &from.p); poly(&mut to.q, &from.q);
    term(&mut to.t, &from.t); term(&mut to.u, &from.u);
    polys(&mut to.ds, &from.ds); polys(&mut to.gs, &from.gs);
    to.pt.clone_from(&from.pt);
    mat(&mut to.a, &from.a); mat(&mut to.b, &from.b); mat(&mut to.m, &from.m);
    (to.x, to.y, to.n) = (from.x, from.y, from.n);
}
fn showargs<F: Coef>(g: &Args<F>) -> String {
    format!("{:?}, p = {}, q = {}, terms {:?} and {:?}, divisors {}, generators {}, point {:?}, A = {}, B = {}, C = {}, x = {}, y = {}, n = {:?}",
        g.o, show(&g.p), show(&g.q), g.t, g.u, shows(&g.ds), shows(&g.gs), g.pt, showmat(&g.a), showmat(&g.b), showmat(&g.m), g.x, g.y, g.n)
}

// text of a result; the order of terms, and of the members of a basis, is not part of it
fn td<F: Coef>(t: &Term<F>) -> String { format!("{:?}*{:?}", t.coef, t.mdeg.0) }
fn pd<F: Coef>(p: &Polynomial<F>) -> String { let mut v: Vec<String> = p.terms().map(td).collect(); v.sort(); v.join("+") }
fn setd(mut v: Vec<String>) -> String { v.sort(); v.join(" ; ") }
fn md<F: Coef>(m: &Mat<F>) -> String { format!("{}x{}{:?}", m.rows(), m.cols(), m.entries()) }
fn orders(a: &MultiDegree, b: &MultiDegree) -> String { format!("{:?} {:?} {:?} {:?}", Lex::cmp(a, b), RevLex::cmp(a, b), GrLex::cmp(a, b), GRevLex::cmp(a, b)) }
const OPS: [&str; 31] = ["p + q", "p - q", "p * q", "-p", "p * x", "p / x", "p * t", "p + t", "t * u", "t + u", "t / u", "eval p", "eval t", "sort p", "divide", "S-polynomial", "lcm", "basis", "criterion",
    "A + B", "A * C", "transpose, norm, dot", "LU", "echelon", "reduced echelon", "row operations", "multidegrees", "text", "scalars", "integers", "enumeration"];
/// the changes of `near` that each operation may notice
const CONCERNS: [&[usize]; 31] = [&[1, 2, 3], &[1, 2, 3], &[1, 2, 3], &[1], &[1, 9], &[1, 9], &[1, 4], &[1, 4], &[4, 3], &[4, 3], &[4, 3], &[1, 9], &[4, 9], &[0, 1], &[0, 1, 5], &[0, 1, 2], &[0, 4], &[0, 6], &[0, 6],
    &[7, 8], &[7, 8], &[7, 8], &[7, 8], &[7, 8], &[7, 8], &[7, 8, 9], &[4, 3], &[1, 4, 7, 9], &[9], &[9], &[7, 9]];
fn run<F: Ex>(op: usize, g: &Args<F>) -> String {
    limit_steps(STEPS);
    let e = catch_unwind(AssertUnwindSafe(|| match op {
        0 => pd(&(&g.p + &g.q)),
        1 => pd(&(&g.p - &g.q)),
        2 => pd(&(&g.p * &g.q)),
        3 => pd(&-&g.p),
        4 => pd(&(&g.p * g.x)),
        5 => pd(&(&g.p / g.x)),
        6 => pd(&(&g.p * &g.t)),
        7 => pd(&(&g.p + &g.t)),
        8 => td(&(&g.t * &g.u)),
        9 => pd(&(&g.t + &g.u)),
        10 => format!("{:?} {}", g.t.try_div(&g.u).map(|t| td(&t)), g.t.divides(&g.u)),
        11 => format!("{:?}", g.p.eval(&g.pt)),
        12 => format!("{:?}", g.t.eval(&g.pt)),
        13 => { let s = by_order!(g.o, F, sort_terms(&g.p)); format!("{:?} {:?}", s.terms().map(td).collect::<Vec<_>>(), by_order!(g.o, F, leading_term(&g.p)).map(td)) }
        14 => { let (r, q) = by_order!(g.o, F, divide(&g.p, &g.ds)); format!("{} by {:?}", pd(&r), q.iter().map(pd).collect::<Vec<_>>()) }
        15 => format!("{:?}", by_order!(g.o, F, try_reduce(&g.p, &g.q)).map(|p| pd(&p))),
        16 => td(&by_order!(g.o, F, monic_lcm(&g.t, &g.u))),
        17 => { let mut v = g.gs.clone(); by_order!(g.o, F, buchberger_algorithm(&mut v)); setd(v.iter().map(pd).collect()) }
        18 => format!("{}", by_order!(g.o, F, buchberger_criterion(&g.gs))),
        19 => md(&(&g.a + &g.b)),
        20 => md(&(&g.a * &g.m)),
        21 => format!("{} {:?} {:?}", md(&g.a.transpose()), g.a.frobenius_norm(), g.a.dot(&g.b)),
        22 => { let d = g.a.lu(); format!("{} {} {}", md(&d.p), md(&d.l), md(&d.u)) }
        23 => { let e = g.a.row_echelon(); format!("{} {}", e.rank(), e.nullity()) }
        24 => { let e = g.a.row_echelon().to_rref(); format!("{} kernel {} range {}", e.rank(), setd(e.compute_kernel().iter().map(md).collect()), setd(e.compute_range().iter().map(md).collect())) }
        25 => {
            let (i, j) = (g.n.0.unsigned_abs() as usize % g.a.rows(), g.n.1.unsigned_abs() as usize % g.a.rows());
            let (mut a, mut b, mut c, mut d) = (g.a.clone(), g.a.clone(), g.a.clone(), g.a.clone());
            a.scale_row(i, g.x); b.permute_rows(i, j); c.replace_row(i, j, g.y); d *= g.y;
            format!("{} {} {} {} {} {:?}", md(&a), md(&b), md(&c), md(&d), g.a.zero_rows(), g.a.get_stable_column_index_under_row(0, i))
        }
        26 => { let (a, b) = (&g.t.mdeg, &g.u.mdeg); format!("{:?} {:?} {} {} {}", a.checked_sub(b).map(|m| m.0), (a + b).0, a.is_succ(b), a.len(), orders(a, b)) }
        27 => {
            let k = |c: &F| (fnv(format!("{c:?}").as_bytes()) % 9) as i64 - 10; // the same for the same coefficient
            let p: Vec<(Mono, i64)> = g.p.terms().map(|t| (mdeg_of(&t.mdeg), k(&t.coef))).collect();
            let r = build(&p.iter().map(|(m, c)| (m.clone(), Rational::new_i64(*c, 2))).collect());
            let f = build(&p.iter().map(|(m, c)| (m.clone(), *c as f64)).collect());
            format!("{:?} {} {} {} {r} {f}", g.a.to_string(), g.x, g.t, g.u)
        }
        28 => format!("{:?} {:?} {:?} {:?} {:?}", g.x + g.y, g.x - g.y, g.x * g.y, g.x.stability_cmp(&g.y), g.x.epsilon_equals(&g.y)),
        29 => { let (a, b) = (Integer::from(g.n.0), Integer::from(g.n.1)); format!("{} {} {} {:?}", Integer::gcd(a, b), Integer::lcm(a, b), a * b, a.cmp(&b)) }
        _ => {
            let n = g.n.0.unsigned_abs() as usize;
            let d: Vec<usize> = num_to_seq(n, 2 + n % 9).collect();
            let b: Vec<_> = get_box_iter(g.a.rows(), g.a.cols()).collect();
            let ms: Vec<String> = mat_iterator(1, 1 + n % 2, &[g.x, g.y]).map(|m| md(&m)).collect();
            format!("{d:?} {b:?} {} {ms:?}", get_max_index(g.a.entries().iter(), |a, b| a.stability_cmp(b)))
        }
    }));
    match e {
        Ok(v) => v,
        Err(p) => {
            if p.downcast_ref::<RefOverflow>().is_some() { resume_unwind(p); }
            if p.downcast_ref::<StepLimit>().is_some() { return "does not end".into(); }
            "panic".into()
        }
    }
}

fn coef<F: Coef>(s: &mut Src) -> F { let c = if s.chance(1, 3) { F::gen(s) } else { F::gen_small(s) }; if c == F::ZERO { F::ONE } else { c } }
fn raw<F: Coef>(s: &mut Src, algebra: bool) -> Result<Raw<F>, Stop> {
    let o = order(s);
    let nv = s.range(1, 4);
    let d = *s.pick(&[2u32, 3, 5]);
    let mut pl = |s: &mut Src, k: usize| { let n = s.size(0, k, 12); poly_with::<F>(s, n, |s| mono_deg(s, nv, d), coef) };
    let (p, q) = (pl(s, 5), pl(s, 4));
    let nd = s.range(0, 3);
    let ds = (0..nd).map(|_| pl(s, 3)).collect();
    // terms now and then of many variables and high powers
    let (tn, td) = if s.chance(1, 3) { (s.range(1, 9), *s.pick(&[20u32, 255, 1000])) } else { (nv, d) };

    let cut = |m: Mono| -> Mono { m.into_iter().map(|e| e.min(255)).collect() };
    let t = (cut(mono_deg(s, tn, td)), coef(s));
    let u = (cut(mono_deg(s, tn, td)), coef(s));
    let mut gs = vec![];
    if algebra {
        let g = ideal::<F>(s);
        if refgb::<F>(&g, o).is_ok() { gs = g.iter().map(|p| p.0.iter().map(|(m, c)| (m.clone(), F::from_r(c))).collect()).collect(); }
    }
    let pt = (0..nv + s.range(0, 1)).map(|_| F::gen_small(s)).collect();
    let (r, k, c) = (s.range(1, 5), s.range(1, 5), s.range(1, 3));
    let mut ent = |s: &mut Src, n: usize| (0..n).map(|_| if s.chance(1, 3) { F::ZERO } else { F::gen_small(s) }).collect::<Vec<F>>();
    let (a, b, m) = (ent(s, r * k), ent(s, r * k), ent(s, k * c));
    Ok(Raw { o, p, q, t, u, ds, gs, pt, r, k, c, a, b, m, x: coef(s), y: F::gen_small(s), n: (s.int(-1000, 1000), s.int(-1000, 1000)) })
}
/// the same but for one or two details
fn near<F: Coef>(s: &mut Src, w: &Raw<F>, focus: &[usize]) -> Result<Raw<F>, Stop> {
    let mut w = w.clone();
    fn tweak<F: Coef>(s: &mut Src, p: &mut RawPoly<F>) {
        if p.is_empty() { return; }
        let i = s.idx(p.len());
        match s.weighted(&[3, 1, 1, 1]) {
            0 => p[i].1 = coef(s),
            1 => { let j = s.idx(p.len()); p.swap(i, j); }
            2 => { p.remove(i); }
            _ => { let mut m = p[i].0.clone(); m.resize(4, 0); let j = s.idx(4); m[j] += 1; let m = trim(m); if !p.iter().any(|t| t.0 == m) { p[i].0 = m; } }
        }
    }
    for _ in 0..s.range(1, 2) {
        // rather a detail that the operations look at
        let what = if s.chance(2, 3) { let op = *s.pick(focus); *s.pick(CONCERNS[op]) } else { s.idx(10) };
        match what {
            0 => w.o = order(s),
            1 => tweak(s, &mut w.p),
            2 => tweak(s, &mut w.q),
            3 => { std::mem::swap(&mut w.p, &mut w.q); std::mem::swap(&mut w.t, &mut w.u); std::mem::swap(&mut w.a, &mut w.b); }
            4 => {
                let side = s.chance(1, 2);
                let t = if side { &mut w.t } else { &mut w.u };
                match s.idx(4) {
                    0 => t.1 = coef(s),
                    1 => { let n = t.0.len().max(1); t.0 = mono_deg(s, n, 30); }
                    2 if t.0.len() > 1 => { let (i, j) = (s.idx(t.0.len()), s.idx(t.0.len())); t.0.swap(i, j); t.0 = trim(std::mem::take(&mut t.0)); }
                    _ => {
                        if t.0.is_empty() { t.0.push(1); }
                        let i = s.idx(t.0.len());
                        let by = *s.pick(&[1u32, 1, 2, 10, 16, 64, 100, 128]);
                        t.0[i] = if s.chance(1, 2) && t.0[i] > by { t.0[i] - by } else { (t.0[i] + by).min(255) };
                    }
                }
            }
            5 => if !w.ds.is_empty() { let i = s.idx(w.ds.len()); if s.chance(1, 2) { tweak(s, &mut w.ds[i]) } else { w.ds.reverse() } },
            6 => { // other generators, small ones again
                let old = w.gs.clone();
                if !w.gs.is_empty() { let i = s.idx(w.gs.len()); tweak(s, &mut w.gs[i]); w.gs.retain(|g| !g.is_empty()); }
                let m: Vec<MPoly<F::R>> = w.gs.iter().map(model_of).collect();
                if m.is_empty() || refgb::<F>(&m, w.o).is_err() { w.gs = old; }
            }
            7 => { let i = s.idx(w.a.len()); w.a[i] = F::gen_small(s); let i = s.idx(w.m.len()); w.m[i] = F::gen_small(s); }
            8 => { if w.r != w.k && s.chance(1, 2) { // the same entries in the transposed shape
                       std::mem::swap(&mut w.r, &mut w.k);
                       let n = w.k * w.c;
                       w.m.resize(n, F::ONE);
                   } else { let (i, j) = (s.idx(w.a.len()), s.idx(w.a.len())); w.a.swap(i, j); } }
            _ => { if s.chance(1, 2) { w.x = coef(s) } else { w.y = F::gen_small(s) }; if s.chance(1, 3) { w.n.0 += 1; } if !w.pt.is_empty() { let i = s.idx(w.pt.len()); w.pt[i] = F::gen_small(s); } }
        }
    }
    if !w.gs.is_empty() { let m: Vec<MPoly<F::R>> = w.gs.iter().map(model_of).collect(); if refgb::<F>(&m, w.o).is_err() { w.gs = vec![]; } }
    Ok(w)
}
struct Case<F: Coef> { args: Vec<Raw<F>>, calls: Vec<(usize, usize)>, orders: Vec<Vec<usize>> }
/// operations that take next to no time
const QUICK: [usize; 12] = [8, 9, 10, 12, 16, 26, 26, 27, 27, 28, 29, 30];
fn case<F: Coef>(s: &mut Src, most: usize, rounds: usize) -> Result<Case<F>, Stop> {
    let long = most > 20;
    let focus: Vec<usize> = (0..s.range(1, 3)).map(|_| if long { *s.pick(&QUICK) } else { s.idx(OPS.len()) }).collect();
    let algebra = focus.iter().any(|o| *o == 17 || *o == 18) && !is_float::<F>();
    let n = if long { s.range(5, 20) } else { s.range(2, 4) };
    let mut args: Vec<Raw<F>> = vec![];
    for i in 0..n { let w = if i > 0 && s.chance(2, 3) { let j = s.idx(i); near(s, &args[j], &focus)? } else { raw(s, algebra)? }; args.push(w); }
    let k = s.range(2, most);
    let mut calls = vec![];
    for _ in 0..k {
        let op = if !long && s.chance(1, 8) { s.idx(OPS.len()) } else { *s.pick(&focus) };
        calls.push((op, s.idx(n)));
    }
    let orders = (0..rounds).map(|_| s.perm(k)).collect();
    Ok(Case { args, calls, orders })
}
fn is_float<F: Coef>() -> bool { F::NAME.starts_with('f') }
const STEPS: u64 = 1_000_000;
fn note<F: Coef>(cx: &mut Cx, c: &Case<F>) {
    for (i, w) in c.args.iter().enumerate() { cx.note(|| format!("argument {i}: {}", showargs(&make(w)))); }
    cx.note(|| format!("calls {:?}, in the orders {:?}", c.calls.iter().map(|(o, a)| format!("{} of {a}", OPS[*o])).collect::<Vec<_>>(), c.orders));
    let ops: std::collections::BTreeSet<usize> = c.calls.iter().map(|c| c.0).collect();
    let mut distinct = c.calls.clone();
    distinct.sort(); distinct.dedup();
    cx.label_if(distinct.len() < c.calls.len(), "a call repeated");
    cx.nt(distinct.len() > ops.len());
}
fn name(c: &(usize, usize)) -> String { format!("\"{}\" of argument {}", OPS[c.0], c.1) }
/// in a thread of its own
fn apart<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let me = watch::me();
    let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || { watch::enter(me); crate::alloc::inherit(f) }).unwrap().join());
    watch::enter(me); // the time of this thread counts again
    r.unwrap_or_else(|p| resume_unwind(p))
}
fn c33_history<F: Ex + Sync>(cx: &mut Cx) -> R { c33_sequence::<F>(cx, 8) }
fn c33_long<F: Ex + Sync>(cx: &mut Cx) -> R { c33_sequence::<F>(cx, 60) }
fn c33_sequence<F: Ex + Sync>(cx: &mut Cx, most: usize) -> R {
    let c = case::<F>(&mut cx.s, most, 3)?;
    note(cx, &c);
    let alone: Vec<String> = c.calls.iter().map(|(o, a)| apart(|| run(*o, &make(&c.args[*a])))).collect();
    cx.label_if(alone.iter().any(|d| d == "panic"), "a call panics");
    let hist: Vec<Vec<(usize, String)>> = apart(|| {
        let kept: Vec<Args<F>> = c.args.iter().map(make).collect();
        let before: Vec<String> = kept.iter().map(showargs).collect();
        let mut out: Vec<Vec<(usize, String)>> = vec![];
        // on arguments that stay where they are
        out.push(c.orders[0].iter().map(|&i| (i, run(c.calls[i].0, &kept[c.calls[i].1]))).collect());
        // on one argument overwritten again and again
        let mut slot = kept[c.calls[c.orders[1][0]].1].clone();
        out.push(c.orders[1].iter().map(|&i| { overwrite(&mut slot, &kept[c.calls[i].1]); (i, run(c.calls[i].0, &slot)) }).collect());
        // on arguments dropped and made again
        out.push(c.orders[2].iter().map(|&i| { let a = make(&c.args[c.calls[i].1]); (i, run(c.calls[i].0, &a)) }).collect());
        let after: Vec<String> = kept.iter().map(showargs).collect();
        if before != after { out.push(vec![(usize::MAX, format!("arguments became {after:?}"))]); }
        out
    });
    let how = ["on arguments kept in place", "on one argument overwritten between the calls", "on arguments made anew for each call"];
    for (k, h) in hist.iter().enumerate() {
        for (i, d) in h {
            ensure!(*i != usize::MAX, "{d}");
            ensure!(*d == alone[*i], "{} gives {d} in the sequence {} ({}), but {} alone", name(&c.calls[*i]), h.iter().map(|x| name(&c.calls[x.0])).collect::<Vec<_>>().join(", "), how[k], alone[*i]);
        }
    }
    Ok(())
}
fn c33_threads<F: Ex + Sync>(cx: &mut Cx) -> R {
    let n = cx.s.range(2, 4);
    let c = case::<F>(&mut cx.s, 8, n)?;
    note(cx, &c);
    let alone: Vec<String> = c.calls.iter().map(|(o, a)| apart(|| run(*o, &make(&c.args[*a])))).collect();
    let shared: Vec<Args<F>> = c.args.iter().map(make).collect();
    let gate = std::sync::Barrier::new(n);
    let me = watch::me();
    let res: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = c.orders.iter().enumerate().map(|(k, ord)| { let (shared, gate, calls) = (&shared, &gate, &c.calls); sc.spawn(move || crate::alloc::inherit(|| {
            if k == 0 { watch::enter(me); }
            gate.wait();
            let mut v = vec![];
            for _ in 0..2 { for &i in ord { v.push((i, run(calls[i].0, &shared[calls[i].1]))); } }
            v
        })) }).collect();
        let hs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        watch::enter(me);
        hs.into_iter().map(|h| h.unwrap_or_else(|p| resume_unwind(p))).collect()
    });
    for (k, v) in res.iter().enumerate() { for (i, d) in v {
        ensure!(*d == alone[*i], "{} gives {d} in thread {k} of {n}, but {} alone", name(&c.calls[*i]), alone[*i]);
    } }
    Ok(())
}
const FRESH: usize = 4;
/// the calls of a case (one of them, or all in the order of the case and then backwards), for another process
fn lines<F: Ex>(choices: Vec<u64>, which: Option<usize>) -> Vec<String> {
    let Ok(c) = case::<F>(&mut Src::replay(choices), FRESH, 1) else { return vec![] };
    let one = |i: usize| format!("{i} {:?}", run(c.calls[i].0, &make(&c.args[c.calls[i].1])));
    match which { Some(i) => vec![one(i)], None => (0..c.calls.len()).chain((0..c.calls.len()).rev()).map(one).collect() }
}
pub fn elsewhere(sub: &str, which: &str) -> i32 {
    let mut t = String::new();
    if std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).is_err() { return 2; }
    let choices: Vec<u64> = t.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let which = which.parse().ok();
    let v = match sub { "f7" => lines::<F7>(choices, which), "rational" => lines::<Rational>(choices, which), "f64" => lines::<f64>(choices, which), _ => return 2 };
    for l in v { println!("{l}"); }
    0
}
fn c33_fresh<F: Ex>(cx: &mut Cx, sub: &str) -> R {
    let c = case::<F>(&mut cx.s, FRESH, 1)?;
    note(cx, &c);
    let text = cx.s.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let ask = |which: String| -> Result<Vec<(usize, String)>, Stop> {
        use std::io::Write;
        let io = |_| Stop::Discard("no process");
        let mut k = std::process::Command::new(std::env::current_exe().map_err(io)?).args(["elsewhere", sub, &which]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(io)?;
        k.stdin.take().unwrap().write_all(text.as_bytes()).map_err(io)?;
        let o = k.wait_with_output().map_err(io)?;
        if !o.status.success() { return discard("no process"); }
        Ok(String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| { let (i, d) = l.split_once(' ')?; Some((i.parse().ok()?, d.to_string())) }).collect())
    };
    let mut alone = vec![];
    for i in 0..c.calls.len() { let v = ask(i.to_string())?; if v.len() != 1 { return discard("no process"); } alone.push(v[0].1.clone()); }
    let all = ask("all".into())?;
    ensure!(all.len() == 2 * c.calls.len(), "{} results of {} calls", all.len(), 2 * c.calls.len());
    for (k, (i, d)) in all.iter().enumerate() {
        ensure!(*d == alone[*i], "{} gives {d} as call {k} of a process that makes the calls forwards and then backwards, but {} in a process of its own", name(&c.calls[*i]), alone[*i]);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C33", rule: "histories of 2-8 calls (up to 60 of the quick operations) drawn from one to three of 31 operations (polynomials, terms, orders, Groebner routines, matrices, elimination, text, numbers) on 2-4 arguments, most of them equal but for one detail; each result against that of the same call alone (in a thread, resp. a process, of its own) - in several orders, on arguments kept in place, overwritten in place or made anew, in one thread and in 2-4 threads at once; non-trivial: some operation is called on two different arguments",
            subs: vec![
                Sub { name: "history_f7", cases: 24_000, run: c33_history::<F7> },
                Sub { name: "history_rational", cases: 24_000, run: c33_history::<Rational> },
                Sub { name: "history_f64", cases: 16_000, run: c33_history::<f64> },
                Sub { name: "history_long_f7", cases: 6_000, run: c33_long::<F7> },
                Sub { name: "history_long_rational", cases: 6_000, run: c33_long::<Rational> },
                Sub { name: "history_long_f64", cases: 4_000, run: c33_long::<f64> },
                Sub { name: "threads_f7", cases: 12_000, run: c33_threads::<F7> },
                Sub { name: "threads_rational", cases: 12_000, run: c33_threads::<Rational> },
                Sub { name: "threads_f64", cases: 8_000, run: c33_threads::<f64> },
                Sub { name: "fresh_f7", cases: 900, run: |cx| c33_fresh::<F7>(cx, "f7") },
                Sub { name: "fresh_rational", cases: 900, run: |cx| c33_fresh::<Rational>(cx, "rational") },
                Sub { name: "fresh_f64", cases: 600, run: |cx| c33_fresh::<f64>(cx, "f64") },
            ] },
    ]
}
