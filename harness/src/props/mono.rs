//! C09, C10, C31: multidegrees, monomial orders, terms.
use crate::engine::*;
use crate::{ensure, large, vast, giant};
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use algeo::core::num::Rational;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{grad, GRevLex, GrLex, Lex, MonomialOrder, RevLex};
use std::cmp::Ordering;

fn lib_cmp(o: Ord4, a: &MultiDegree, b: &MultiDegree) -> Ordering {
    match o { Ord4::Lex => Lex::cmp(a, b), Ord4::RevLex => RevLex::cmp(a, b), Ord4::GrLex => GrLex::cmp(a, b), Ord4::GRevLex => GRevLex::cmp(a, b) }
}
fn is(m: &MultiDegree, want: &[u32]) -> bool { m.0.iter().map(|&d| d as u32).collect::<Vec<_>>() == trim(want.to_vec()) }
fn many_vars(s: &mut Src) -> usize { if s.big { return s.len(5, 5, 5, 600); } match s.weighted(&[12, 3, 1]) { 0 => s.range(0, 5), 1 => s.size(3, 10, 40), _ => s.size(6, 40, 300) } }
/// a monomial related to `a`
fn related(s: &mut Src, a: &Mono, nv: usize, maxexp: u32) -> Mono {
    match s.weighted(&[5, 2, 3, 2, 2, 1, 1]) {
        0 => mono(s, nv, maxexp),
        1 => a.clone(),
        2 => { // one entry changed
            let mut v = a.clone();
            v.resize(nv.max(a.len()).max(1), 0);
            let i = s.idx(v.len());
            v[i] = match s.weighted(&[2, 2, 1, 1]) { 0 => (v[i] + 1).min(maxexp), 1 => v[i].saturating_sub(1), 2 => 0, _ => s.int(0, maxexp as i64) as u32 };
            trim(v)
        }
        3 => { // entries permuted
            let mut v = a.clone();
            v.resize(nv.max(a.len()), 0);
            let p = s.perm(v.len());
            trim(p.iter().map(|&i| v[i]).collect())
        }
        4 => { // a multiple or a divisor
            let up = s.chance(1, 2);
            let mut v = a.clone();
            v.resize(nv.max(a.len()), 0);
            for x in v.iter_mut() { let k = s.int(0, 4) as u32; *x = if up { (*x + k).min(maxexp) } else { x.saturating_sub(k) }; }
            trim(v)
        }
        5 => { // a prefix, or the tail
            let k = s.range(0, a.len());
            if s.chance(1, 2) { trim(a[..k].to_vec()) } else { let mut v = vec![0; k]; v.extend_from_slice(&a[k..]); trim(v) }
        }
        _ => { // one unit moved from one variable to another
            let mut v = a.clone();
            v.resize(nv.max(a.len()).max(2), 0);
            let (i, j) = (s.idx(v.len()), s.idx(v.len()));
            if v[i] > 0 && v[j] < maxexp { v[i] -= 1; v[j] += 1; }
            trim(v)
        }
    }
}

// ---- C09 --------------------------------------------------------------------------------------
fn c09_ops(cx: &mut Cx) -> R {
    let nv = many_vars(&mut cx.s);
    let top = *cx.s.pick(&[255u32, 255, 127, 12, 3]);
    let a = mono(&mut cx.s, nv, top);
    let b = related(&mut cx.s, &a, nv, top);
    cx.note(|| format!("a = {a:?}, b = {b:?}"));
    let (x, y) = (to_mdeg(&a), to_mdeg(&b));
    let n = a.len().max(b.len());
    if (0..n).all(|i| at(&a, i) + at(&b, i) <= 255) {
        let want = mmul(&a, &b);
        let v = cx.call("add", || [&x + &y, x.clone() + &y, &x + y.clone(), x.clone() + y.clone(), &y + &x])?;
        for m in &v { ensure!(is(m, &want), "sum is {:?}, should be {want:?}", m.0); }
        let d = cx.call("checked_sub", || v[0].checked_sub(&y))?;
        ensure!(d.as_ref().map_or(false, |d| is(d, &a)), "(a+b)-b is {d:?}");
        cx.label("sum");
        cx.nt(!a.is_empty() && !b.is_empty());
    }
    let want = mdiv(&a, &b);
    let d = cx.call("checked_sub", || x.checked_sub(&y))?;
    match (&d, &want) {
        (None, None) => cx.label("subtraction fails"),
        (Some(m), Some(w)) => { ensure!(is(m, w), "difference is {:?}, should be {w:?}", m.0); cx.label("subtraction succeeds"); }
        _ => return fail(format!("checked_sub gives {d:?}, should be {want:?}")),
    }
    let e = cx.call("checked_sub", || x.checked_sub(&x))?;
    ensure!(e.as_ref().map_or(false, |e| is(e, &[])), "a - a is {e:?}");
    let s = cx.call("is_succ", || (x.is_succ(&y), y.is_succ(&x), x.is_succ(&x)))?;
    ensure!(s.0 == mdivides(&a, &b) && s.1 == mdivides(&b, &a) && s.2, "componentwise <=: {s:?}");
    cx.label_if(s.0, "divides");
    let g = cx.call("getters", || (x.len(), x.is_zero(), x.degs().map(|d| *d as u32).collect::<Vec<_>>(), x == y, x == x.clone()))?;
    ensure!(g.0 == a.len() && g.1 == a.is_empty() && g.2 == a && g.3 == (a == b) && g.4, "len, is_zero, degs, ==: {g:?}");
    let t: u32 = a.iter().sum();
    if t <= 255 { let l = cx.call("total_deg", || x.total_deg())?; ensure!(l as u32 == t, "total degree is {l}, should be {t}"); }
    Ok(())
}
fn c09_construct(cx: &mut Cx) -> R {
    let nv = many_vars(&mut cx.s);
    let mut raw: Vec<u32> = { let mut v = mono(&mut cx.s, nv, 255); v.resize(nv.max(v.len()), 0); v };
    let pad = match cx.s.weighted(&[3, 3, 1]) { 0 => 0, 1 => cx.s.range(1, 4), _ => cx.s.size(1, 20, 300) };
    raw.extend(std::iter::repeat(0).take(pad));
    if cx.s.chance(1, 6) { for x in raw.iter_mut() { *x = 0; } cx.label("all zero"); }
    cx.note(|| format!("{raw:?}"));
    let bytes: Vec<u8> = raw.iter().map(|&d| d as u8).collect();
    let want = trim(raw.clone());
    let m = cx.call("from_vec", || MultiDegree::from_vec(bytes.clone()))?;
    ensure!(is(&m, &want), "from_vec gives {:?}", m.0);
    let mut t = MultiDegree(bytes.clone());
    cx.call("trim_zeros", || t.trim_zeros())?;
    ensure!(is(&t, &want), "trim_zeros leaves {:?}", t.0);
    ensure!(t == m && t.is_zero() == want.is_empty() && t.len() == want.len(), "trimmed is {:?}, built is {:?}", t.0, m.0);
    let mut u = t.clone();
    cx.call("trim_zeros", || u.trim_zeros())?;
    ensure!(u == t, "trimming twice gives {:?}", u.0);
    let (i, d) = (match cx.s.weighted(&[4, 1]) { 0 => cx.s.range(0, 8), _ => cx.s.len(0, 20, 300, 600) }, cx.s.int(0, 255) as u32);
    let v = cx.call("var", || MultiDegree::var(i, d as u8))?;
    let mut w = vec![0; i];
    w.push(d);
    ensure!(is(&v, &w), "var({i}, {d}) is {:?}", v.0);
    let z = [MultiDegree::zero(), MultiDegree::new(), MultiDegree::default(), MultiDegree::from_vec(vec![])];
    for m in &z { ensure!(m.is_zero() && m.len() == 0 && m.0.is_empty() && m.total_deg() == 0, "zero is {m:?}"); }
    cx.nt(want.len() < raw.len());
    Ok(())
}
fn c09_history(cx: &mut Cx) -> R {
    let nv = cx.s.size(1, 5, 24);
    let mut pool: Vec<(MultiDegree, Mono)> = vec![];
    for _ in 0..2 { let m = mono(&mut cx.s, nv, 255); pool.push((to_mdeg(&m), m)); }
    let n = cx.s.range(1, 25);
    for _ in 0..n {
        let (i, j) = (cx.s.idx(pool.len()), cx.s.idx(pool.len()));
        let op = cx.s.weighted(&[5, 5, 1, 3, 1]);
        let k = cx.s.idx(nv);
        let d = if cx.s.chance(1, 2) { 0 } else { cx.s.int(0, 255) as u8 };
        let ((x, a), (y, b)) = (pool[i].clone(), pool[j].clone());
        let next = match op {
            0 => {
                if !(0..a.len().max(b.len())).all(|i| at(&a, i) + at(&b, i) <= 255) { continue; }
                cx.note(|| format!("#{i} + #{j}"));
                (cx.call("add", || &x + &y)?, mmul(&a, &b))
            }
            1 => {
                cx.note(|| format!("#{i} - #{j}"));
                match (cx.call("checked_sub", || x.checked_sub(&y))?, mdiv(&a, &b)) {
                    (Some(m), Some(w)) => { cx.nt(true); (m, w) }
                    (None, None) => continue,
                    (g, w) => return fail(format!("{a:?} - {b:?} gives {g:?}, should be {w:?}")),
                }
            }
            2 => { cx.note(|| format!("var({k}, {d})")); let mut w = vec![0; k]; w.push(d as u32); (cx.call("var", || MultiDegree::var(k, d))?, trim(w)) }
            3 => { // overwrite one exponent through the mutable iterator, then trim
                if a.is_empty() { continue; }
                let k = k % a.len();
                cx.note(|| format!("#{i}[{k}] = {d}; trim"));
                let mut m = x.clone();
                cx.call("degs_mut", || { for (t, e) in m.degs_mut().enumerate() { if t == k { *e = d; } } m.trim_zeros(); })?;
                let mut w = a.clone();
                w[k] = d as u32;
                cx.label("mutated");
                (m, trim(w))
            }
            _ => { let m = mono(&mut cx.s, nv, 255); cx.note(|| format!("{m:?}")); (cx.call("from_vec", || MultiDegree::from_vec(m.iter().map(|&e| e as u8).collect()))?, m) }
        };
        ensure!(is(&next.0, &next.1), "result is {:?}, should be {:?}", next.0 .0, next.1);
        for (x, a) in pool.iter() {
            let e = (next.0 == *x, next.0.is_succ(x), x.is_succ(&next.0));
            ensure!(e == (next.1 == *a, mdivides(&next.1, a), mdivides(a, &next.1)), "{:?} against {a:?}: equal, divides, divided by = {e:?}", next.1);
        }
        if pool.len() < 6 { pool.push(next); } else { pool[j] = next; }
    }
    Ok(())
}

// ---- C10 --------------------------------------------------------------------------------------
fn c10_triple(cx: &mut Cx) -> R {
    let nv = match cx.s.weighted(&[8, 2]) { 0 if !cx.s.big => cx.s.range(1, 5), _ => many_vars(&mut cx.s) };
    let top = *cx.s.pick(&[2u32, 3, 12, 127, 255]);
    let a = mono(&mut cx.s, nv, top);
    let b = related(&mut cx.s, &a, nv, top);
    let c = if cx.s.chance(1, 2) { related(&mut cx.s, &b, nv, top) } else { related(&mut cx.s, &a, nv, top) };
    cx.note(|| format!("{a:?} {b:?} {c:?}"));
    let (x, y, z) = (to_mdeg(&a), to_mdeg(&b), to_mdeg(&c));
    let tot = |m: &Mono| m.iter().sum::<u32>();
    let g = cx.call("grad", || (grad(&x, &y), grad(&y, &x), grad(&x, &z)))?;
    ensure!(g.0 == tot(&a).cmp(&tot(&b)) && g.1 == g.0.reverse() && g.2 == tot(&a).cmp(&tot(&c)), "grad says {g:?}, total degrees are {} {} {}", tot(&a), tot(&b), tot(&c));
    for o in ORDERS {
        let v = cx.call("cmp", || [lib_cmp(o, &x, &y), lib_cmp(o, &y, &x), lib_cmp(o, &y, &z), lib_cmp(o, &x, &z), lib_cmp(o, &x, &x)])?;
        ensure!(v[0] == ocmp(o, &a, &b), "{o:?}: {a:?} against {b:?} gives {:?}", v[0]);
        ensure!(v[2] == ocmp(o, &b, &c), "{o:?}: {b:?} against {c:?} gives {:?}", v[2]);
        ensure!(v[3] == ocmp(o, &a, &c), "{o:?}: {a:?} against {c:?} gives {:?}", v[3]);
        ensure!(v[0] == v[1].reverse() && v[4] == Ordering::Equal, "{o:?} is not antisymmetric or not reflexive on {a:?}, {b:?}");
        ensure!((v[0] == Ordering::Equal) == (a == b), "{o:?}: equality of {a:?}, {b:?}");
        ensure!(!(v[0] == v[2] && v[3] != v[0]), "{o:?} is not transitive on {a:?}, {b:?}, {c:?}");
        let one = cx.call("cmp", || (lib_cmp(o, &MultiDegree::zero(), &x), lib_cmp(o, &x, &MultiDegree::zero())))?;
        ensure!(one == if a.is_empty() { (Ordering::Equal, Ordering::Equal) } else { (Ordering::Less, Ordering::Greater) }, "{o:?}: the constant against {a:?}: {one:?}");
    }
    cx.nt(a != b && b != c && a != c);
    cx.label_if(tot(&a) > 255 || tot(&b) > 255, "total degree above 255");
    cx.label_if(tot(&a) == tot(&b) && a != b, "equal total degree");
    cx.label_if(a.len() != b.len(), "different number of variables");
    Ok(())
}
fn c10_mult(cx: &mut Cx) -> R {
    let nv = match cx.s.weighted(&[8, 2]) { 0 if !cx.s.big => cx.s.range(1, 5), _ => many_vars(&mut cx.s) };
    let top = *cx.s.pick(&[2u32, 6, 60, 127]);
    let a = mono(&mut cx.s, nv, top);
    let b = related(&mut cx.s, &a, nv, top);
    let c = if cx.s.chance(1, 2) { related(&mut cx.s, &a, nv, 128) } else { mono(&mut cx.s, nv + 1, 128) };
    cx.note(|| format!("{a:?} {b:?} times {c:?}"));
    let (x, y, z) = (to_mdeg(&a), to_mdeg(&b), to_mdeg(&c));
    for o in ORDERS {
        let v = cx.call("cmp", || (lib_cmp(o, &x, &y), lib_cmp(o, &(&x + &z), &(&y + &z)), lib_cmp(o, &x, &(&x + &z))))?;
        ensure!(v.0 == v.1, "{o:?}: {a:?} against {b:?} is {:?}, but {:?} after multiplying by {c:?}", v.0, v.1);
        ensure!(v.2 == if c.is_empty() { Ordering::Equal } else { Ordering::Less }, "{o:?}: {a:?} against its multiple by {c:?} is {:?}", v.2);
    }
    cx.nt(a != b && !c.is_empty());
    Ok(())
}

// ---- C31 --------------------------------------------------------------------------------------
fn gterm<F: Coef>(s: &mut Src, m: Mono) -> (Term<F>, F, Mono) {
    // zero terms also occur with a monomial attached
    let c = if s.chance(1, 12) { F::ZERO } else { F::gen_nz(s) };
    (term_of(&m, c), c, m)
}
fn c31<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let nv = many_vars(&mut cx.s).min(if cx.s.big { 600 } else { 40 });
    let top = *cx.s.pick(&[4u32, 30, 127, 255]);
    let m = mono(&mut cx.s, nv, top);
    let n = related(&mut cx.s, &m, nv, top);
    let (s, c, m) = gterm::<F>(&mut cx.s, m);
    let (t, d, n) = gterm::<F>(&mut cx.s, n);
    cx.note(|| format!("s = {c}*{m:?}, t = {d}*{n:?}"));
    let (zc, zd) = (c.r().is_zero(), d.r().is_zero());
    let z = cx.call("is_zero", || (s.is_zero(), t.is_zero()))?;
    ensure!(z == (zc, zd), "is_zero: {z:?}");
    // product
    if (0..m.len().max(n.len())).all(|i| at(&m, i) + at(&n, i) <= 255) {
        let v = cx.call("mul", || [&s * &t, s.clone() * &t, &s * t.clone(), s.clone() * t.clone(), &t * &s])?;
        for p in &v {
            if zc || zd {
                ensure!(p.is_zero() && p.coef.r().is_zero() && p.mdeg.0.is_empty(), "product with zero is {p:?}");
            } else {
                ensure!(p.coef.r() == c.r().mul(&d.r()) && is(&p.mdeg, &mmul(&m, &n)), "product is {p:?}");
            }
        }
        cx.label("product");
        if !zc && !zd {
            let q = cx.call("try_div", || v[0].try_div(&s))?;
            ensure!(q.as_ref().map_or(false, |q| q.coef.r() == d.r() && is(&q.mdeg, &n)), "(s*t)/s is {q:?}");
        }
    }
    // divisibility and quotient of t by s
    let q = cx.call("try_div", || t.try_div(&s))?;
    if zd {
        ensure!(q.as_ref().map_or(false, |q| q.is_zero() && q.mdeg.0.is_empty()), "0 divided by a term is {q:?}");
    } else if zc {
        ensure!(q.is_none(), "a term divided by zero is {q:?}");
    } else {
        let dv = cx.call("divides", || s.divides(&t))?;
        let want = mdivides(&m, &n);
        ensure!(dv == want, "divides says {dv}");
        match q {
            None => { ensure!(!want, "division failed although s divides t"); cx.label("does not divide"); }
            Some(q) => {
                ensure!(want, "division gave {q:?} although s does not divide t");
                ensure!(is(&q.mdeg, &mdiv(&n, &m).unwrap()), "quotient is {q:?}");
                ensure!(q.coef.r().mul(&c.r()) == d.r(), "quotient coefficient of {q:?}");
                let b = cx.call("mul", || &q * &s)?;
                ensure!(b.coef.r() == d.r() && is(&b.mdeg, &n), "q*s is {b:?}");
                cx.label("divides");
                cx.nt(!m.is_empty() && m != n);
            }
        }
        cx.nt(!want);
    }
    // creation
    let k = cx.call("new", || Term::new(c, to_mdeg(&m)))?;
    if zc { ensure!(k.coef.r().is_zero() && k.mdeg.0.is_empty() && k == Term::zero(), "Term::new(0, {m:?}) is {k:?}"); }
    else { ensure!(k.coef.r() == c.r() && is(&k.mdeg, &m), "Term::new gives {k:?}"); }
    let (i, e) = (cx.s.range(0, 9), cx.s.int(0, 255) as u8);
    let v = cx.call("constructors", || (Term::<F>::var(i, e), Term::<F>::monic(to_mdeg(&m)), Term::<F>::one(), Term::<F>::zero(), Term::<F>::default(), Term::constant_unchecked(c), Term::from(c), -&s, -s.clone()))?;
    let mut w = vec![0; i];
    w.push(e as u32);
    let one = F::ONE.r();
    ensure!(v.0.coef.r() == one && is(&v.0.mdeg, &w), "var({i}, {e}) is {:?}", v.0);
    ensure!(v.1.coef.r() == one && is(&v.1.mdeg, &m), "monic is {:?}", v.1);
    ensure!(v.2.coef.r() == one && is(&v.2.mdeg, &[]), "one is {:?}", v.2);
    ensure!(v.3.is_zero() && is(&v.3.mdeg, &[]) && v.4.is_zero() && is(&v.4.mdeg, &[]), "zero is {:?}, default {:?}", v.3, v.4);
    ensure!(v.5.coef.r() == c.r() && is(&v.5.mdeg, &[]) && v.6.coef.r() == c.r() && is(&v.6.mdeg, &[]), "constant is {:?}, converted {:?}", v.5, v.6);
    for g in [&v.7, &v.8] { ensure!(g.coef.r() == c.r().neg() && (zc || is(&g.mdeg, &m)), "negation is {g:?}"); }
    if !zc && !zd {
        let eq = cx.call("eq", || (s == t, s == s.clone()))?;
        ensure!(eq == (c.r() == d.r() && m == n, true), "equality says {eq:?}");
    }
    Ok(())
}
fn c31_list<F: Coef>(cx: &mut Cx) -> R { c31_list_of::<F>(cx, F::gen_nz) }
fn c31_list_wild(cx: &mut Cx) -> R { c31_list_of::<f64>(cx, any_float) }
fn c31_list_of<F: Coef>(cx: &mut Cx, gc: fn(&mut Src) -> F) -> R {
    let nv = cx.s.range(0, 5) + cx.s.big as usize * 3;
    let n = cx.s.len(0, 6, 40, 1_200);
    let mut raw: Vec<(Mono, F)> = vec![];
    for _ in 0..n {
        let m = mono(&mut cx.s, nv, 9);
        let c = if cx.s.chance(1, 3) { F::ZERO } else { gc(&mut cx.s) };
        if !raw.iter().any(|(x, _)| *x == m) { raw.push((m, c)); }
    }
    cx.note(|| raw.iter().map(|(m, c)| format!("{c}*{m:?}")).collect::<Vec<_>>().join(", "));
    let ts: Vec<Term<F>> = raw.iter().map(|(m, c)| term_of(m, *c)).collect();
    let p = cx.call("Polynomial::new", || Polynomial::new(ts))?;
    let mut want: Vec<&(Mono, F)> = raw.iter().filter(|(_, c)| *c != F::ZERO).collect();
    let mut got: Vec<(Mono, F)> = p.terms.iter().map(|t| (t.mdeg.0.iter().map(|&d| d as u32).collect(), t.coef)).collect();
    want.sort_by(|a, b| a.0.cmp(&b.0));
    got.sort_by(|a, b| a.0.cmp(&b.0));
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && g.1 == w.1), "the polynomial is {}", show(&p));
    ensure!(p.is_zero() == want.is_empty(), "is_zero says {}", p.is_zero());
    cx.nt(want.len() < raw.len() && !want.is_empty());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", rule: "random exponent vectors (up to 300 variables, in the large sub-checks 600, entries up to 255), pairs related by equality, one change, permutation, divisibility, padding, and histories with in-place mutation and trimming; non-trivial: both summands nonzero (ops), trailing zeros present (construct), a successful subtraction (history)",
            subs: vec![Sub { name: "ops", cases: 2_500_000, run: c09_ops }, Sub { name: "construct", cases: 2_000_000, run: c09_construct }, Sub { name: "history", cases: 600_000, run: c09_history }, Sub { name: "large_ops", cases: 40_000, run: large!(c09_ops) }, Sub { name: "large_vast_ops", cases: 10000, run: vast!(c09_ops) }, Sub { name: "large_construct", cases: 40_000, run: large!(c09_construct) }, Sub { name: "large_vast_construct", cases: 10000, run: vast!(c09_construct) }, Sub { name: "large_giant_ops", cases: 300, run: giant!(c09_ops) }, Sub { name: "large_giant_construct", cases: 500, run: giant!(c09_construct) }] },
        Prop { id: "C10", rule: "random triples of related multidegrees (also with total degree above 255, different lengths, equal total degree, in the large sub-checks up to 600 variables) under all four orders against the definitions; non-trivial: the three are pairwise different, resp. two different ones times a non-constant monomial",
            subs: vec![Sub { name: "triple", cases: 3_000_000, run: c10_triple }, Sub { name: "multiplicative", cases: 2_000_000, run: c10_mult }, Sub { name: "large_triple", cases: 40_000, run: large!(c10_triple) }, Sub { name: "large_vast_triple", cases: 10000, run: vast!(c10_triple) }, Sub { name: "large_multiplicative", cases: 30_000, run: large!(c10_mult) }, Sub { name: "large_vast_multiplicative", cases: 10000, run: vast!(c10_mult) }, Sub { name: "large_giant_triple", cases: 300, run: giant!(c10_triple) }] },
        Prop { id: "C31", rule: "random pairs of terms, half of them related (equal, divisible, one exponent changed), also zero terms with a monomial attached, and lists with zero terms (up to 1200 in the large sub-checks); non-trivial: a proper division or a failing one, a list with zero and nonzero terms",
            subs: vec![Sub { name: "f7", cases: 1_200_000, run: c31::<F7> }, Sub { name: "f2", cases: 300_000, run: c31::<F2> }, Sub { name: "rational", cases: 1_000_000, run: c31::<Rational> }, Sub { name: "list_f7", cases: 800_000, run: c31_list::<F7> }, Sub { name: "list_rational", cases: 500_000, run: c31_list::<Rational> }, Sub { name: "list_f64", cases: 300_000, run: c31_list::<f64> }, Sub { name: "list_wild_f64", cases: 300_000, run: c31_list_wild }, Sub { name: "large_f7", cases: 20_000, run: large!(c31::<F7>) }, Sub { name: "large_vast_f7", cases: 10_000, run: vast!(c31::<F7>) }, Sub { name: "large_giant_f7", cases: 300, run: giant!(c31::<F7>) }, Sub { name: "large_list_f7", cases: 2_000, run: large!(c31_list::<F7>) }, Sub { name: "large_vast_list_f7", cases: 100, run: vast!(c31_list::<F7>) }, Sub { name: "large_list_f64", cases: 1_000, run: large!(c31_list::<f64>) }, Sub { name: "large_vast_list_f64", cases: 100, run: vast!(c31_list::<f64>) }] },
    ]
}
