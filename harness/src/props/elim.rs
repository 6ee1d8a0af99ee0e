//! C21-C25, C29: elimination, rank, kernel, range, cones.
use crate::engine::*;
use crate::{ensure, large, square, vast};
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use algeo::core::num::{EpsilonEquality, Rational, StabilityCmp};
#[cfg(algeo_verif)]
use algeo::linalg::cone::Cone;
use algeo::linalg::mat::Mat;
use std::collections::BTreeSet;

pub trait Ex: Coef + StabilityCmp + EpsilonEquality {}
impl<T: Coef + StabilityCmp + EpsilonEquality> Ex for T {}

fn ent<F: Coef>(s: &mut Src) -> F {
    if F::NAME == "Fp" { return F::gen(s); }
    match s.weighted(&[6, 2]) { 0 => F::of(s.int(-4, 4)), _ => F::from_r(&F::of(s.int(-6, 6)).r().div(&F::of(s.int(1, 4)).r())) }
}
/// plus or minus a power of two, or zero
fn dyadic<F: Coef>(x: f64) -> F {
    let (mut v, mut a) = (F::of(x.signum() as i64 * (x != 0.0) as i64), x.abs());
    while a > 1.0 { a /= 2.0; v = v * F::of(2); }
    while a < 1.0 && a > 0.0 { a *= 2.0; v = v / F::of(2); }
    v
}
fn is_float<F: Coef>() -> bool { F::NAME.starts_with('f') }
fn mat<F: Coef>(s: &mut Src) -> Mat<F> {
    if is_float::<F>() {
        // only matrices on which elimination is exact
        let (r, c) = dims(s, 6, 20);
        return exact_float_matrix::<F>(s, r, c, dyadic);
    }
    if s.vast == 9 { // large in both directions, of high rank more often than not
        let r = s.len(1, 1, 1, 40).max(8);
        let c = match s.weighted(&[3, 1, 1]) { 0 => r, 1 => r + s.range(1, 20), _ => r - s.range(1, 7) };
        let mut e = vec![F::ZERO; r * c];
        if s.chance(1, 3) { for x in e.iter_mut() { *x = ent(s); } }
        else {
            let shift = if s.chance(1, 2) { 0 } else { s.idx(c) };
            for i in 0..r.min(c) { if !s.chance(1, 200) { e[i * c + (i + shift) % c] = F::of(s.int(1, 3)); } }
            for _ in 0..s.range(0, 3 * r) { let i = s.idx(r * c); e[i] = ent(s); }
        }
        return mk(r, c, e);
    }
    let (r, c) = if s.vast > 1 { // wide, or tall
        if s.chance(3, 4) { (s.range(1, 5), s.len(1, 1, 1, 70).min(1_100)) } else { (s.len(1, 1, 1, 30), s.range(1, 4)) }
    } else if F::OVF { dims(s, 4, 6) } else { dims(s, 5, 16) };
    matrix::<F>(s, r, c, ent)
}
fn shape<F: Coef>(what: &str, m: &Mat<F>, r: usize, c: usize) -> Result<M<F::R>, Stop> {
    ensure!(m.rows() == r && m.cols() == c, "{what}: shape is {}x{}, should be {r}x{c}", m.rows(), m.cols());
    mat_of(m)
}
fn is_perm<T: Ring>(m: &M<T>) -> bool {
    let unit = |v: Vec<&T>| v.iter().filter(|x| **x == &T::one()).count() == 1 && v.iter().filter(|x| !x.is_zero()).count() == 1;
    m.iter().all(|r| unit(r.iter().collect())) && (0..m.len()).all(|j| unit(m.iter().map(|r| &r[j]).collect()))
}
fn kinds<F: Coef>(cx: &mut Cx, a: &M<F::R>, rk: usize) {
    let (r, c) = (a.len(), a[0].len());
    cx.label_if(rk < r.min(c), "rank deficient");
    cx.label_if(rk == r && rk == c, "invertible");
    cx.label_if(rk == 0, "zero");
    cx.label_if(r > c, "tall");
    cx.label_if(r < c, "wide");
    cx.label_if(r > 32 || c > 32, "more than 32 rows or columns");
    cx.nt(rk > 1);
}

// ---- C21 --------------------------------------------------------------------------------------
fn c21_check<F: Ex>(cx: &mut Cx, a: Mat<F>) -> R {
    cx.note(|| showmat(&a));
    let (r, c) = (a.rows(), a.cols());
    let ma = mat_of(&a)?;
    let lu = cx.call("lu", || a.lu())?;
    let (p, l, u) = (shape("P", &lu.p, r, r)?, shape("L", &lu.l, r, r)?, shape("U", &lu.u, r, c)?);
    ensure!(is_perm(&p), "P = {} is not a permutation matrix", showmat(&lu.p));
    for i in 0..r {
        ensure!(!l[i][i].is_zero(), "L = {} is not invertible", showmat(&lu.l));
        for j in i + 1..r { ensure!(l[i][j].is_zero(), "L = {} is not lower triangular", showmat(&lu.l)); }
    }
    ensure!(is_echelon(&u), "U = {} is not in row echelon form", showmat(&lu.u));
    ensure!(rmul(&p, &ma) == rmul(&l, &u), "P*A differs from L*U: P = {}, L = {}, U = {}", showmat(&lu.p), showmat(&lu.l), showmat(&lu.u));
    ensure!(mat_of(&a)? == ma, "the matrix was changed");
    let rk = rank(&ma);
    kinds::<F>(cx, &ma, rk);
    cx.label_if((0..r).any(|i| p[i][i].is_zero()), "rows exchanged");
    Ok(())
}
fn c21<F: Ex>(cx: &mut Cx) -> R { cx.overflow_ok = F::OVF; let a = mat::<F>(&mut cx.s); c21_check(cx, a) }
fn c21_exact_f64(cx: &mut Cx) -> R { let (r, c) = dims(&mut cx.s, 6, 20); let a = exact_float_matrix::<f64>(&mut cx.s, r, c, |x| x); c21_check(cx, a) }
fn c21_exact_f32(cx: &mut Cx) -> R { let (r, c) = dims(&mut cx.s, 6, 20); let a = exact_float_matrix::<f32>(&mut cx.s, r, c, |x| x as f32); c21_check(cx, a) }
fn c21_float<F: Ex>(cx: &mut Cx, mkf: fn(f64) -> F, val: fn(&F) -> f64, eps: f64) -> R {
    let (r, c) = dims(&mut cx.s, 6, 20);
    let kind = cx.s.idx(4);
    let tiny = if eps > 1e-10 { 1e-28 } else { 1e-250 };
    let a = matrix::<F>(&mut cx.s, r, c, |s| mkf(match kind {
        0 => s.int(-9, 9) as f64,
        1 => s.int(-1000, 1000) as f64 / 37.0,
        2 => s.int(-100, 100) as f64 * 10f64.powi(if eps > 1e-10 { s.int(-2, 2) } else { s.int(-4, 4) } as i32),
        _ => f64::from_bits(0x3ff0_0000_0000_0000 | s.below(1 << 52)) - 1.5,
    }));
    cx.note(|| showmat(&a));
    let lu = cx.call("lu", || a.lu())?;
    for (n, m, x, y) in [("P", &lu.p, r, r), ("L", &lu.l, r, r), ("U", &lu.u, r, c)] {
        ensure!(m.rows() == x && m.cols() == y && m.entries().len() == x * y, "{n}: shape is {}x{}, should be {x}x{y}", m.rows(), m.cols());
    }
    let g = |m: &Mat<F>, i: usize, j: usize| val(&m.entries()[i * m.cols() + j]);
    let mut src = vec![usize::MAX; r];
    for i in 0..r {
        for j in 0..r {
            let v = g(&lu.p, i, j);
            ensure!(v == 0.0 || v == 1.0, "P = {}", showmat(&lu.p));
            if v == 1.0 { ensure!(src[i] == usize::MAX && !src.contains(&j), "P = {} is not a permutation matrix", showmat(&lu.p)); src[i] = j; }
            if j > i { ensure!(g(&lu.l, i, j) == 0.0, "L = {} is not lower triangular", showmat(&lu.l)); }
        }
        ensure!(src[i] != usize::MAX, "P = {} is not a permutation matrix", showmat(&lu.p));
    }
    for i in 0..r { for j in 0..c {
        let (mut s, mut w) = (0.0, g(&a, src[i], j).abs());
        for k in 0..r.min(i + 1) { let t = g(&lu.l, i, k) * g(&lu.u, k, j); s += t; w += t.abs(); }
        let d = (s - g(&a, src[i], j)).abs();
        // the second term: below it, rounding of subnormal values is no longer relative
        ensure!(d <= eps * 64.0 * (r + c) as f64 * w + tiny, "(P*A - L*U)[{i},{j}] = {d:e} (terms of size {w:e}): L = {}, U = {}", showmat(&lu.l), showmat(&lu.u));
    } }
    cx.nt(r > 1 && c > 1);
    cx.label_if(src.iter().enumerate().any(|(i, j)| i != *j), "rows exchanged");
    Ok(())
}
fn c21_f64(cx: &mut Cx) -> R { c21_float::<f64>(cx, |x| x, |x| *x, f64::EPSILON) }
fn c21_f32(cx: &mut Cx) -> R { c21_float::<f32>(cx, |x| x as f32, |x| *x as f64, f32::EPSILON as f64) }

// ---- C22 --------------------------------------------------------------------------------------
fn c22<F: Ex>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let a = mat::<F>(&mut cx.s);
    cx.note(|| showmat(&a));
    let ma = mat_of(&a)?;
    let (rr, piv) = rref(&ma);
    let ech = cx.call("row_echelon", || a.row_echelon())?;
    #[cfg(algeo_verif)]
    {
        let (r, c) = (a.rows(), a.cols());
        let check = |what: &str, p: &Mat<F>, b: &Mat<F>, orig: &Mat<F>| -> Result<M<F::R>, Stop> {
            let (mp, mb) = (shape(what, p, r, r)?, shape(what, b, r, c)?);
            ensure!(rank(&mp) == r, "{what}: P = {} is not invertible", showmat(p));
            ensure!(rmul(&mp, &ma) == mb, "{what}: P*A differs from B: P = {}, B = {}", showmat(p), showmat(b));
            ensure!(is_echelon(&mb), "{what}: B = {} is not in row echelon form", showmat(b));
            ensure!(mat_of(orig)? == ma, "{what}: the original matrix became {}", showmat(orig));
            Ok(mb)
        };
        let (p, b, o) = ech.verif_parts();
        check("row echelon form", p, b, o)?;
        let red = cx.call("to_rref", || ech.to_rref())?;
        let (p, b, o) = red.verif_parts();
        let mb = check("reduced row echelon form", p, b, o)?;
        ensure!(mb == rr, "the reduced row echelon form is {}, should be {rr:?}", showmat(b));
        // from an equivalent matrix
        let k = mix::<F>(&mut cx.s, &a);
        let red2 = cx.call("row_echelon", || { let e = k.row_echelon().to_rref(); e.verif_parts().1.clone() })?;
        ensure!(mat_of(&red2)? == rr, "a row equivalent matrix {} has reduced row echelon form {}, else {rr:?}", showmat(&k), showmat(&red2));
    }
    #[cfg(not(algeo_verif))]
    {
        let red = cx.call("to_rref", || ech.to_rref())?;
        let rk = cx.call("rank", || red.rank())?;
        ensure!(rk == piv.len(), "rank is {rk}, should be {}", piv.len());
        let _ = &rr;
    }
    ensure!(mat_of(&a)? == ma, "the matrix was changed");
    kinds::<F>(cx, &ma, piv.len());
    Ok(())
}
/// a row equivalent matrix, made without the library
#[allow(dead_code)]
fn mix<F: Coef>(s: &mut Src, a: &Mat<F>) -> Mat<F> {
    let (r, c) = (a.rows(), a.cols());
    let mut m: M<F::R> = (0..r).map(|i| (0..c).map(|j| a.entries()[i * c + j].r()).collect()).collect();
    for _ in 0..s.range(0, 4) {
        let (i, j) = (s.idx(r), s.idx(r));
        let x = F::of(*s.pick(&[1, -1, 2, -2])).r();
        match s.idx(3) {
            0 => m.swap(i, j),
            1 => if !x.is_zero() { for e in m[i].iter_mut() { *e = e.mul(&x); } },
            _ => if i != j && !is_float::<F>() { for k in 0..c { m[j][k] = m[j][k].add(&m[i][k].mul(&x)); } },
        }
    }
    mk(r, c, m.iter().flatten().map(|e| F::from_r(e)).collect())
}

// ---- C23 --------------------------------------------------------------------------------------
fn ranks<F: Ex>(cx: &mut Cx, what: &str, a: &Mat<F>, rk: usize) -> R {
    let v = cx.call(what, || { let e = a.row_echelon(); let (r, n) = (e.rank(), e.nullity()); let f = e.to_rref(); (r, n, f.rank(), f.nullity()) })?;
    ensure!(v.0 == rk && v.2 == rk, "{what}: rank is {} (echelon) and {} (reduced), should be {rk}", v.0, v.2);
    ensure!(v.1 == a.cols() - rk && v.3 == a.cols() - rk, "{what}: nullity is {} (echelon) and {} (reduced), should be {}", v.1, v.3, a.cols() - rk);
    Ok(())
}
fn c23<F: Ex>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let a = mat::<F>(&mut cx.s);
    let ma = mat_of(&a)?;
    let rk = rank(&ma);
    cx.note(|| format!("{} of rank {rk}", showmat(&a)));
    ranks(cx, "A", &a, rk)?;
    let t = cx.call("transpose", || a.transpose())?;
    ranks(cx, "A^T", &t, rk)?;
    let m = mix::<F>(&mut cx.s, &a);
    ranks(cx, "row equivalent", &m, rk)?;
    // invertible product on the right: columns mixed
    let ct = mk(a.cols(), a.rows(), rtrans(&ma).iter().flatten().map(|e| F::from_r(e)).collect());
    let mt = mix::<F>(&mut cx.s, &ct);
    let m = mk(a.rows(), a.cols(), rtrans(&mat_of(&mt)?).iter().flatten().map(|e| F::from_r(e)).collect());
    ranks(cx, "column equivalent", &m, rk)?;
    let x = { let x = F::of(if is_float::<F>() { *cx.s.pick(&[1, 2, -1, -4, 8]) } else { cx.s.int(-5, 5) }); if x.r().is_zero() { F::ONE } else { x } };
    let s = cx.call("scaled", || &a * x)?;
    ranks(cx, "scaled", &s, rk)?;
    let z = cx.call("zero_rows", || (a.zero_rows(), t.zero_rows()))?;
    let zr = ma.iter().filter(|r| r.iter().all(|e| e.is_zero())).count();
    let zc = rtrans(&ma).iter().filter(|r| r.iter().all(|e| e.is_zero())).count();
    ensure!(z == (zr, zc), "zero rows of A and of A^T: {z:?}, should be {:?}", (zr, zc));
    cx.label_if(zr > 0, "zero rows");
    kinds::<F>(cx, &ma, rk);
    Ok(())
}

// ---- C24, C25 -----------------------------------------------------------------------------------
fn c24<F: Ex>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let a = mat::<F>(&mut cx.s);
    let ma = mat_of(&a)?;
    let (r, c) = (a.rows(), a.cols());
    let rk = rank(&ma);
    cx.note(|| format!("{} of rank {rk}", showmat(&a)));
    let k = cx.call("compute_kernel", || a.row_echelon().to_rref().compute_kernel())?;
    let shown = || k.iter().map(showmat).collect::<Vec<_>>().join(" ; ");
    let mut rows: M<F::R> = vec![];
    for v in &k {
        let m = shape("kernel vector", v, c, 1)?;
        let img = rmul(&ma, &m);
        ensure!(img.iter().all(|x| x[0].is_zero()), "{} is not mapped to zero but to {img:?}", showmat(v));
        let lib = cx.call("A * v", || &a * v)?;
        ensure!(lib.entries().iter().all(|x| x.r().is_zero()), "A * {} is {}", showmat(v), showmat(&lib));
        rows.push(m.into_iter().map(|x| x[0].clone()).collect());
    }
    ensure!(k.len() == c - rk, "{} kernel vectors, should be {}: {}", k.len(), c - rk, shown());
    ensure!(rank(&rows) == k.len(), "kernel vectors are dependent: {}", shown());
    let _ = r;
    kinds::<F>(cx, &ma, rk);
    cx.label_if(k.len() > 1, "kernel of dimension above 1");
    Ok(())
}
fn c25<F: Ex>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let a = mat::<F>(&mut cx.s);
    let ma = mat_of(&a)?;
    let r = a.rows();
    let rk = rank(&ma);
    cx.note(|| format!("{} of rank {rk}", showmat(&a)));
    let k = cx.call("compute_range", || a.row_echelon().to_rref().compute_range())?;
    let shown = || k.iter().map(showmat).collect::<Vec<_>>().join(" ; ");
    let cols = rtrans(&ma);
    let mut rows: M<F::R> = vec![];
    for v in &k {
        let m: Vec<F::R> = shape("range vector", v, r, 1)?.into_iter().map(|x| x[0].clone()).collect();
        ensure!(cols.contains(&m), "{} is not a column of the matrix", showmat(v));
        rows.push(m);
    }
    ensure!(k.len() == rk, "{} range vectors, should be {rk}: {}", k.len(), shown());
    ensure!(rank(&rows) == k.len(), "range vectors are dependent: {}", shown());
    let mut all = rows.clone();
    all.extend(cols.iter().cloned());
    ensure!(rank(&all) == rk, "range vectors do not span the columns: {}", shown());
    kinds::<F>(cx, &ma, rk);
    Ok(())
}

// ---- C29 --------------------------------------------------------------------------------------
type V = Vec<Q>;
fn dot(a: &V, b: &V) -> Q { a.iter().zip(b).fold(Q::zero(), |s, (x, y)| s.add(&x.mul(y))) }
/// incidence sets (which generators lie on it) of all facets
/// all sets of k of the numbers 0..n
fn choose(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k > n { return vec![]; }
    let (mut out, mut c): (Vec<Vec<usize>>, Vec<usize>) = (vec![], (0..k).collect());
    loop {
        out.push(c.clone());
        let Some(i) = (0..k).rev().find(|&i| c[i] < n - k + i) else { return out };
        c[i] += 1;
        for j in i + 1..k { c[j] = c[j - 1] + 1; }
    }
}
fn ref_facets(g: &[V], d: usize) -> BTreeSet<u128> {
    let mut out = BTreeSet::new();
    if d == 0 { return out; }
    let (rr, _) = rref(&g.to_vec());
    let span: Vec<V> = rr[..d].to_vec();
    for sub in choose(g.len(), d - 1) {
        let sub: Vec<V> = sub.iter().map(|&i| g[i].clone()).collect();
        let y: V = if d == 1 { vec![Q::one()] } else {
            // the normal as a combination of the span basis: kernel of the (d-1) x d system
            let sys: M<Q> = sub.iter().map(|v| span.iter().map(|s| dot(v, s)).collect()).collect();
            let (e, piv) = rref(&sys);
            if piv.len() != d - 1 { continue; }
            let free = (0..d).find(|c| !piv.contains(c)).unwrap();
            let mut y = vec![Q::zero(); d];
            y[free] = Q::one();
            for (i, p) in piv.iter().enumerate() { y[*p] = e[i][free].neg(); }
            y
        };
        let n: V = (0..g[0].len()).map(|k| (0..d).fold(Q::zero(), |s, i| s.add(&y[i].mul(&span[i][k])))).collect();
        let sg: Vec<i32> = g.iter().map(|v| dot(v, &n).sgn()).collect();
        if sg.iter().all(|s| *s >= 0) || sg.iter().all(|s| *s <= 0) {
            out.insert((0..g.len()).filter(|i| sg[*i] == 0).fold(0, |m: u128, i| m | 1 << i));
        }
    }
    out
}
/// is v a nonnegative combination of independent generators (Caratheodory)?
fn ref_member(g: &[V], v: &V) -> bool {
    if v.iter().all(|x| x.is_zero()) { return true; }
    let n = v.len();
    for sub in (1..=n.min(g.len())).flat_map(|k| choose(g.len(), k)) {
        let sub: Vec<&V> = sub.iter().map(|&i| &g[i]).collect();
        let aug: M<Q> = (0..n).map(|k| sub.iter().map(|s| s[k]).chain([v[k]]).collect()).collect();
        let (e, piv) = rref(&aug);
        if piv.len() != sub.len() || piv.contains(&sub.len()) { continue; }
        if (0..sub.len()).all(|i| e[i][sub.len()].sgn() >= 0) { return true; }
    }
    false
}
fn gen_cone(s: &mut Src) -> Vec<Vec<i64>> {
    let n = if s.vast > 1 { s.range(1, 3) } else if s.big { s.range(3, 6) } else { s.range(1, 4) };
    let top = if s.vast > 1 { if n < 3 { 40 } else { 16 } } else if !s.big { 6 } else if n > 5 { 8 } else { 10 };
    let fam = s.weighted(&[5, 2, 2, 2, 2, 1]);
    let mut g: Vec<Vec<i64>> = match fam {
        1 => { // simplicial, possibly not full-dimensional
            let k = s.range(1, n);
            (0..k).map(|i| (0..n).map(|j| if i == j { 1 } else { s.int(-2, 2) }).collect()).collect()
        }
        2 => { // over a polygon or a cube: points at height one
            let k = s.range(2, top);
            (0..k).map(|_| (0..n).map(|j| if j + 1 == n { 1 } else { s.int(-2, 2) }).collect()).collect()
        }
        3 => { // lower-dimensional: combinations of few vectors
            let k = s.range(1, n);
            let b: Vec<Vec<i64>> = (0..k).map(|_| (0..n).map(|_| s.int(-2, 2)).collect()).collect();
            let m = s.range(1, top);
            (0..m).map(|_| { let c: Vec<i64> = (0..k).map(|_| s.int(-1, 2)).collect(); (0..n).map(|j| (0..k).map(|i| c[i] * b[i][j]).sum()).collect() }).collect()
        }
        4 => { // containing a line
            let m = s.range(1, 4);
            let mut v: Vec<Vec<i64>> = (0..m).map(|_| (0..n).map(|_| s.int(-2, 2)).collect()).collect();
            let i = s.idx(v.len());
            let o = v[i].iter().map(|x| -x).collect();
            v.push(o);
            v
        }
        5 => vec![vec![0; n]; s.range(1, 2)],
        _ => { let m = s.range(1, top); (0..m).map(|_| (0..n).map(|_| s.int(-3, 3)).collect()).collect() }
    };
    if s.chance(1, 6) && g.len() <= top { let i = s.idx(g.len()); let k = s.range(0, 2) as i64; let v = g[i].iter().map(|x| k * x).collect(); g.push(v); } // repeated, doubled or zero
    let p = s.perm(g.len());
    p.iter().map(|&i| g[i].clone()).collect()
}
fn c29(cx: &mut Cx) -> R {
    cx.overflow_ok = true;
    let gi = gen_cone(&mut cx.s);
    let n = gi[0].len();
    let mut gi = gi;
    if n < 4 && cx.s.chance(1, 10) { for v in gi.iter_mut() { if cx.s.chance(1, 2) { let k = cx.s.int(1, if n < 3 { 100_000 } else { 300 }); for x in v.iter_mut() { *x *= k; } cx.label("a generator scaled up"); } } }
    let den: Vec<i64> = gi.iter().map(|_| if cx.s.chance(1, 5) { cx.s.int(1, 3) } else if n < 4 && cx.s.chance(1, 30) { cx.s.int(1, 999) } else { 1 }).collect();
    let g: Vec<V> = gi.iter().zip(&den).map(|(v, d)| v.iter().map(|x| Q::new(*x as i128, *d as i128)).collect()).collect();
    cx.note(|| format!("generators {g:?}"));
    let d = rank(&g.to_vec());
    let gens: Vec<Mat<Rational>> = gi.iter().zip(&den).map(|(v, d)| mk(n, 1, v.iter().map(|x| mkrat(*x, *d)).collect())).collect();
    let want = ref_facets(&g, d);
    // a point to classify
    let comb = |s: &mut Src, only: u128| -> V { let mut v = vec![Q::zero(); n]; for (i, w) in g.iter().enumerate() { if only >> i & 1 == 1 { let c = Q::int(s.int(0, 3) as i128); for k in 0..n { v[k] = v[k].add(&c.mul(&w[k])); } } } v };
    let fl: Vec<u128> = want.iter().copied().collect();
    let mut pts: Vec<V> = vec![];
    for _ in 0..4 {
        let v = match cx.s.weighted(&[2, 2, 3, 3]) {
            0 => (0..n).map(|_| Q::int(cx.s.int(-4, 4) as i128)).collect(),
            1 => comb(&mut cx.s, u128::MAX),
            k => { // on a facet, or just beyond it
                let m = if fl.is_empty() { 0 } else { *cx.s.pick(&fl) };
                let mut v = comb(&mut cx.s, m);
                if k == 3 { let i = cx.s.idx(g.len()); for t in 0..n { v[t] = v[t].sub(&g[i][t].mul(&Q::new(1, 3))); } }
                v
            }
        };
        pts.push(v);
    }
    cx.note(|| format!("dimension {d}, {} facets, points {pts:?}", want.len()));
    let truth: Vec<bool> = pts.iter().map(|p| ref_member(&g, p)).collect();
    cx.label_if(d < n, "not full-dimensional");
    cx.label_if(d == 0, "origin only");
    cx.label_if(d == 1, "one-dimensional");
    cx.label_if(want.is_empty() && d > 0, "linear space");
    cx.label_if(d >= 3 && want.len() > d, "not simplicial");
    cx.label_if(truth.contains(&true) && truth.contains(&false), "points inside and outside");
    #[cfg(not(algeo_verif))]
    { cx.call("Cone::new", || { algeo::linalg::cone::Cone::new(gens); })?; cx.nt(d > 1); return Ok(()); }
    #[cfg(algeo_verif)]
    {
        let cone = cx.call("Cone::new", || Cone::new(gens))?;
        let (amb, dim, kept, orth, facets) = cone.verif_parts();
        ensure!(amb == n && dim == d, "dimension {dim} in {amb}, should be {d} in {n}");
        ensure!(kept.len() == g.len(), "{} generators kept of {}", kept.len(), g.len());
        for (m, w) in kept.iter().zip(&g) { ensure!(&shape("generator", m, n, 1)?.concat() == w, "generator became {}", showmat(m)); }
        let mut ob: Vec<V> = vec![];
        for m in orth {
            let v: V = shape("complement vector", m, n, 1)?.concat();
            ensure!(g.iter().all(|w| dot(w, &v).is_zero()), "complement vector {v:?} is not orthogonal to the generators");
            ob.push(v);
        }
        ensure!(ob.len() == n - d && rank(&ob) == n - d, "complement basis has {} vectors of rank {}, should be {}", ob.len(), rank(&ob), n - d);
        let mut got = BTreeSet::new();
        let mut normals: Vec<V> = vec![];
        for (nm, fg) in &facets {
            let v: V = shape("normal", nm, n, 1)?.concat();
            ensure!(v.iter().any(|x| !x.is_zero()), "a facet has normal zero");
            ensure!(ob.iter().all(|w| dot(w, &v).is_zero()), "facet normal {v:?} is not in the span of the generators");
            ensure!(g.iter().all(|w| dot(w, &v).sgn() >= 0), "facet normal {v:?} is negative on a generator");
            let mut on: Vec<V> = vec![];
            for m in fg.iter() {
                let w: V = shape("facet generator", m, n, 1)?.concat();
                ensure!(g.contains(&w), "facet lists {w:?}, which is not a generator");
                ensure!(dot(&w, &v).is_zero(), "facet with normal {v:?} lists {w:?}, which is not on it");
                on.push(w);
            }
            ensure!(rank(&on) == d - 1, "facet with normal {v:?} lists generators of rank {}, should be {}", rank(&on), d - 1);
            got.insert((0..g.len()).filter(|i| dot(&g[*i], &v).is_zero()).fold(0u128, |m, i| m | 1 << i));
            normals.push(v);
        }
        for m in &want { ensure!(got.contains(m), "the facet containing generators {:?} is missing", (0..g.len()).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>()); }
        for m in &got { ensure!(want.contains(m), "generators {:?} do not form a facet", (0..g.len()).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>()); }
        for (p, t) in pts.iter().zip(&truth) {
            let inside = ob.iter().all(|w| dot(w, p).is_zero()) && normals.iter().all(|w| dot(w, p).sgn() >= 0);
            ensure!(inside == *t, "{p:?} is {} the cone, but the facets say otherwise", if *t { "in" } else { "not in" });
        }
        cx.nt(d > 1 && !want.is_empty());
        Ok(())
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", rule: "random matrices of seven structural kinds (dense, sparse, low rank, repeated rows, staircase, dependent columns, scaled permutation; some up to 290 rows or columns) in exact fields, float matrices on which elimination is exact, and general float matrices with a backward error bound; non-trivial: rank at least two, resp. at least 2x2",
            subs: vec![Sub { name: "f7", cases: 150_000, run: c21::<F7> }, Sub { name: "f2", cases: 80_000, run: c21::<F2> }, Sub { name: "f32003", cases: 80_000, run: c21::<F32003> }, Sub { name: "rational", cases: 120_000, run: c21::<Rational> }, Sub { name: "exact_f64", cases: 80_000, run: c21_exact_f64 }, Sub { name: "exact_f32", cases: 60_000, run: c21_exact_f32 }, Sub { name: "f64", cases: 100_000, run: c21_f64 }, Sub { name: "f32", cases: 60_000, run: c21_f32 }, Sub { name: "large_f7", cases: 3_000, run: large!(c21::<F7>) }, Sub { name: "large_vast_f7", cases: 600, run: vast!(c21::<F7>) }, Sub { name: "large_square_f7", cases: 30, run: square!(c21::<F7>) }, Sub { name: "large_exact_f64", cases: 200, run: large!(c21_exact_f64) }, Sub { name: "large_f64", cases: 2_000, run: large!(c21_f64) }] },
        Prop { id: "C22", rule: "the same random matrices, also float matrices on which elimination is exact; transformation, echelon and reduced echelon form inspected, reduced form compared with an independent one also for a row equivalent matrix; non-trivial: rank at least two",
            subs: vec![Sub { name: "f7", cases: 150_000, run: c22::<F7> }, Sub { name: "f2", cases: 80_000, run: c22::<F2> }, Sub { name: "f32003", cases: 80_000, run: c22::<F32003> }, Sub { name: "rational", cases: 120_000, run: c22::<Rational> }, Sub { name: "exact_f64", cases: 80_000, run: c22::<f64> }, Sub { name: "exact_f32", cases: 60_000, run: c22::<f32> }, Sub { name: "large_f7", cases: 800, run: large!(c22::<F7>) }, Sub { name: "large_vast_f7", cases: 500, run: vast!(c22::<F7>) }, Sub { name: "large_square_f7", cases: 30, run: square!(c22::<F7>) }, Sub { name: "large_f64", cases: 120, run: large!(c22::<f64>) }] },
        Prop { id: "C23", rule: "the same random matrices (also float ones on which elimination is exact) and their transposes, row and column equivalent and scaled versions, rank from an independent elimination; non-trivial: rank at least two",
            subs: vec![Sub { name: "f7", cases: 80_000, run: c23::<F7> }, Sub { name: "f2", cases: 50_000, run: c23::<F2> }, Sub { name: "f32003", cases: 40_000, run: c23::<F32003> }, Sub { name: "rational", cases: 60_000, run: c23::<Rational> }, Sub { name: "exact_f64", cases: 40_000, run: c23::<f64> }, Sub { name: "exact_f32", cases: 30_000, run: c23::<f32> }, Sub { name: "large_f7", cases: 200, run: large!(c23::<F7>) }, Sub { name: "large_vast_f7", cases: 100, run: vast!(c23::<F7>) }, Sub { name: "large_square_f7", cases: 10, run: square!(c23::<F7>) }, Sub { name: "large_f64", cases: 200, run: large!(c23::<f64>) }] },
        Prop { id: "C24", rule: "the same random matrices, also float matrices on which elimination is exact; kernel vectors multiplied out, counted and tested for independence; non-trivial: rank at least two",
            subs: vec![Sub { name: "f7", cases: 160_000, run: c24::<F7> }, Sub { name: "f2", cases: 100_000, run: c24::<F2> }, Sub { name: "f32003", cases: 80_000, run: c24::<F32003> }, Sub { name: "rational", cases: 150_000, run: c24::<Rational> }, Sub { name: "exact_f64", cases: 80_000, run: c24::<f64> }, Sub { name: "exact_f32", cases: 60_000, run: c24::<f32> }, Sub { name: "large_f7", cases: 240, run: large!(c24::<F7>) }, Sub { name: "large_vast_f7", cases: 8, run: vast!(c24::<F7>) }, Sub { name: "large_square_f7", cases: 30, run: square!(c24::<F7>) }, Sub { name: "large_f64", cases: 20, run: large!(c24::<f64>) }] },
        Prop { id: "C25", rule: "the same random matrices, also float matrices on which elimination is exact; range vectors compared with the columns, counted and tested for independence and span; non-trivial: rank at least two",
            subs: vec![Sub { name: "f7", cases: 160_000, run: c25::<F7> }, Sub { name: "f2", cases: 100_000, run: c25::<F2> }, Sub { name: "f32003", cases: 80_000, run: c25::<F32003> }, Sub { name: "rational", cases: 150_000, run: c25::<Rational> }, Sub { name: "exact_f64", cases: 80_000, run: c25::<f64> }, Sub { name: "exact_f32", cases: 60_000, run: c25::<f32> }, Sub { name: "large_f7", cases: 1_500, run: large!(c25::<F7>) }, Sub { name: "large_vast_f7", cases: 500, run: vast!(c25::<F7>) }, Sub { name: "large_square_f7", cases: 30, run: square!(c25::<F7>) }, Sub { name: "large_f64", cases: 1_000, run: large!(c25::<f64>) }] },
        Prop { id: "C29", rule: "random rational cones in dimension 1-4 with up to 7 generators, some in dimension up to 6 with up to 11, of six families (general, simplicial, over polytopes, lower-dimensional, containing lines, origin), repeated and zero generators; facets against an enumeration of supporting hyperplanes and membership of points in, on and just outside the cone against nonnegative combinations; non-trivial: dimension at least two with a facet",
            subs: vec![Sub { name: "rational", cases: 40_000, run: c29 }, Sub { name: "large_rational", cases: 800, run: large!(c29) }, Sub { name: "large_many", cases: 1_500, run: vast!(c29) }] },
    ]
}
