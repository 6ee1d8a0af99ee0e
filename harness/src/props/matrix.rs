//! C18, C19, C20, C27: matrix arithmetic, construction, elementary matrices, enumeration.
use crate::engine::*;
use crate::{ensure, large, vast};
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use algeo::core::num::Rational;
use algeo::linalg::mat::Mat;
use algeo::linalg::util::{get_box_iter, get_max_index, mat_iterator, num_to_seq};
use std::collections::HashSet;

macro_rules! forms {
    ($v:expr, $a:expr, $op:tt, $b:expr) => {
        match $v { 0 => &$a $op &$b, 1 => $a.clone() $op &$b, 2 => &$a $op $b.clone(), _ => $a.clone() $op $b.clone() }
    };
}
/// entries small enough for exact products in every coefficient type
fn ent<F: Coef>(s: &mut Src) -> F { if F::NAME == "Fp" || s.chance(1, 4) { F::gen(s) } else { F::of(s.int(-9, 9)) } }
/// are all sums of products of two of these exact in the type? (partial sums in any order are bounded by
/// Cauchy and Schwarz; the factor covers sums of two matrices)
fn exact_sums<F: Coef>(ms: &[&M<F::R>]) -> bool {
    let bits = match F::NAME { "f64" | "CF64" => 53, "f32" => 24, _ => return true };
    let (mut s, mut d) = (1.0f64, 1.0f64);
    for m in ms {
        let mut t = 0.0;
        for e in m.iter().flatten() { let v = e.absf(); t += v * v; d = d.max(e.denom() as f64); }
        s = s.max(t);
    }
    4.0 * s * d * d < 2f64.powi(bits)
}
fn shape<F: Coef>(what: &str, m: &Mat<F>, r: usize, c: usize) -> Result<M<F::R>, Stop> {
    ensure!(m.rows() == r && m.cols() == c, "{what}: shape is {}x{}, should be {r}x{c}", m.rows(), m.cols());
    mat_of(m)
}
fn same<F: Coef>(what: &str, m: &Mat<F>, want: &M<F::R>, c: usize) -> R {
    let got = shape(what, m, want.len(), c)?;
    ensure!(got == *want, "{what}: result is {}, should be {want:?}", showmat(m));
    Ok(())
}

// ---- C18 --------------------------------------------------------------------------------------
fn c18<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let (r, k) = dims(&mut cx.s, 5, 14);
    let c = if cx.s.chance(1, 3) && !cx.s.big { k } else { if cx.s.big { cx.s.range(1, 4) } else { cx.s.size(1, 5, 14) } };
    let a = matrix::<F>(&mut cx.s, r, k, ent);
    let a2 = matrix::<F>(&mut cx.s, r, k, ent);
    let b = matrix::<F>(&mut cx.s, k, c, ent);
    let x: F = ent(&mut cx.s);
    let f = cx.s.idx(4);
    cx.note(|| format!("A = {}, A' = {}, B = {}, x = {x}", showmat(&a), showmat(&a2), showmat(&b)));
    let (ma, ma2, mb) = (mat_of(&a)?, mat_of(&a2)?, mat_of(&b)?);
    if !exact_sums::<F>(&[&ma, &ma2, &mb, &vec![vec![x.r()]]]) { return discard("rounding"); }
    let sum: M<F::R> = (0..r).map(|i| (0..k).map(|j| ma[i][j].add(&ma2[i][j])).collect()).collect();
    let v = cx.call("A + A'", || forms!(f, a, +, a2))?;
    same("A + A'", &v, &sum, k)?;
    let v = cx.call("A * B", || forms!(f, a, *, b))?;
    same("A * B", &v, &rmul(&ma, &mb), c)?;
    let sc: M<F::R> = ma.iter().map(|w| w.iter().map(|e| e.mul(&x.r())).collect()).collect();
    let v = cx.call("A * x", || if f % 2 == 0 { &a * x } else { a.clone() * x })?;
    same("A * x", &v, &sc, k)?;
    let v = cx.call("A *= x", || { let mut t = a.clone(); t *= x; t })?;
    same("A *= x", &v, &sc, k)?;
    let v = cx.call("scale", || { let mut t = a.clone(); t.scale(x); t })?;
    same("scale", &v, &sc, k)?;
    let t = cx.call("transpose", || a.transpose())?;
    same("transpose", &t, &rtrans(&ma), r)?;
    let t2 = cx.call("transpose", || t.transpose())?;
    same("transpose twice", &t2, &ma, k)?;
    let fr = cx.call("frobenius_norm", || a.frobenius_norm())?;
    let want = ma.iter().flatten().fold(F::ZERO.r(), |s, e| s.add(&e.mul(e)));
    ensure!(fr.r() == want, "frobenius norm is {fr}, should be {want:?}");
    let d = cx.call("dot", || (a.dot(&a2), a2.dot(&a)))?;
    let want = ma.iter().flatten().zip(ma2.iter().flatten()).fold(F::ZERO.r(), |s, (e, g)| s.add(&e.mul(g)));
    ensure!(d.0.r() == want && d.1.r() == want, "dot product is {} resp. {}, should be {want:?}", d.0, d.1);
    // laws over the library alone
    let l = cx.call("laws", || vec![
        ("(AB)^T = B^T A^T", (&a * &b).transpose(), b.transpose() * a.transpose()),
        ("(A+A')B = AB+A'B", (&a + &a2) * &b, &a * &b + &a2 * &b),
        ("I A = A", Mat::identity(r) * &a, a.clone()),
        ("A I = A", &a * Mat::identity(k), a.clone()),
        ("0 + A = A", Mat::zero(r, k) + &a, a.clone()),
    ])?;
    for (w, p, q) in &l { ensure!(p == q, "{w} fails: {} against {}", showmat(p), showmat(q)); }
    let eq = cx.call("eq", || (a == a2, a == a.clone()))?;
    ensure!(eq == (ma == ma2, true), "equality says {eq:?}");
    cx.nt(r > 1 && k > 1 && c > 1);
    cx.label_if(r != k, "rectangular");
    // mismatched shapes
    let (r2, k2) = (cx.s.size(1, 5, 14), cx.s.size(1, 5, 14));
    let z = matrix::<F>(&mut cx.s, r2, k2, ent);
    if (r2, k2) != (r, k) {
        cx.must_panic(&format!("{r}x{k} + {r2}x{k2}"), || forms!(f, a, +, z))?;
        cx.label("sum of different shapes");
        cx.label_if(r2 * k2 == r * k, "same number of entries");
    }
    if k != r2 { cx.must_panic(&format!("{r}x{k} * {r2}x{k2}"), || forms!(f, a, *, z))?; cx.label("inner dimensions differ"); }
    else {
        let mz = mat_of(&z)?;
        if !exact_sums::<F>(&[&ma, &mz]) { return discard("rounding"); }
        let v = cx.call("A * Z", || &a * &z)?;
        same("A * Z", &v, &rmul(&ma, &mz), k2)?;
    }
    Ok(())
}
/// transposed shapes and other shapes with the same number of entries
fn c18_shapes(cx: &mut Cx) -> R {
    let n = *cx.s.pick(&[4usize, 6, 8, 12, 16, 36]);
    let div: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
    let (r, r2) = (*cx.s.pick(&div), *cx.s.pick(&div));
    let (a, b) = (matrix::<F7>(&mut cx.s, r, n / r, F7::gen), matrix::<F7>(&mut cx.s, r2, n / r2, F7::gen));
    cx.note(|| format!("{} ; {}", showmat(&a), showmat(&b)));
    let f = cx.s.idx(4);
    if r == r2 { let v = cx.call("sum", || forms!(f, a, +, b))?; shape("sum", &v, r, n / r)?; }
    else { cx.must_panic(&format!("{r}x{} + {r2}x{}", n / r, n / r2), || forms!(f, a, +, b))?; cx.nt(true); }
    if n / r == r2 { let v = cx.call("product", || forms!(f, a, *, b))?; same("product", &v, &rmul(&mat_of(&a)?, &mat_of(&b)?), n / r2)?; }
    else { cx.must_panic(&format!("{r}x{} * {r2}x{}", n / r, n / r2), || forms!(f, a, *, b))?; cx.nt(true); }
    // what a panic must not have changed
    let d = cx.call("dot", || a.dot(&b))?;
    let want = a.entries().iter().zip(b.entries()).fold(0u64, |s, (x, y)| (s + x.0 * y.0) % 7);
    if r == r2 { ensure!(d.0 == want, "dot product is {d}, should be {want}"); }
    Ok(())
}

// ---- C19 --------------------------------------------------------------------------------------
fn c19_read<F: Coef>(cx: &mut Cx, m: &Mat<F>, w: &M<F::R>, cols: usize) -> R {
    let rows = w.len();
    let full = shape("matrix", m, rows, cols)?;
    ensure!(full == *w, "entries are {}, should be {w:?}", showmat(m));
    let (r, c) = (cx.s.idx(rows), cx.s.idx(cols));
    let v = cx.call("reads", || (m[(r, c)], *m.get_unchecked(r, c), m.get_row_iter(r).copied().collect::<Vec<F>>(), m.get_col_iter(c).copied().collect::<Vec<F>>(), m.get_row(r), m.get_col(c), m.index_iter().collect::<Vec<_>>()))?;
    ensure!(v.0.r() == w[r][c] && v.1.r() == w[r][c], "entry ({r},{c}) reads {} / {}, should be {:?}", v.0, v.1, w[r][c]);
    let row: Vec<F::R> = w[r].clone();
    let col: Vec<F::R> = w.iter().map(|x| x[c].clone()).collect();
    ensure!(v.2.iter().map(|x| x.r()).collect::<Vec<_>>() == row, "row {r} iterates as {:?}", v.2);
    ensure!(v.3.iter().map(|x| x.r()).collect::<Vec<_>>() == col, "column {c} iterates as {:?}", v.3);
    same("get_row", &v.4, &row.iter().map(|x| vec![x.clone()]).collect(), 1)?;
    same("get_col", &v.5, &col.iter().map(|x| vec![x.clone()]).collect(), 1)?;
    let want: Vec<(usize, usize)> = (0..rows).flat_map(|i| (0..cols).map(move |j| (i, j))).collect();
    ensure!(v.6 == want, "index_iter gives {:?}", v.6);
    Ok(())
}
fn c19_history<F: Coef>(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 5, 12);
    let mut m = matrix::<F>(&mut cx.s, r, c, F::gen);
    let mut w = mat_of(&m)?;
    cx.note(|| showmat(&m));
    cx.label_if(r < c, "wide");
    cx.label_if(r > c, "tall");
    c19_read(cx, &m, &w, c)?;
    for _ in 0..cx.s.range(1, 12) {
        let (i, j, i2, j2) = (cx.s.idx(r), cx.s.idx(c), cx.s.idx(r), cx.s.idx(c));
        let x = F::gen(&mut cx.s);
        match cx.s.weighted(&[3, 2, 3, 3, 4, 1]) {
            0 => { cx.note(|| format!("[({i},{j})] = {x}")); cx.call("write", || m[(i, j)] = x)?; w[i][j] = x.r(); }
            1 => { cx.note(|| format!("get_mut_unchecked({i},{j}) = {x}")); cx.call("write", || *m.get_mut_unchecked(i, j) = x)?; w[i][j] = x.r(); }
            2 => {
                cx.note(|| format!("swap ({i},{j}) ({i2},{j2})"));
                cx.call("swap", || m.swap((i, j), (i2, j2)))?;
                let t = w[i][j].clone();
                w[i][j] = w[i2][j2].clone();
                w[i2][j2] = t;
            }
            3 => {
                let vals: Vec<F> = (0..c).map(|_| F::gen(&mut cx.s)).collect();
                cx.note(|| format!("row {i} := {vals:?}"));
                let n = cx.call("get_row_iter_mut", || { let mut n = 0; for e in m.get_row_iter_mut(i) { *e = vals[n.min(c - 1)]; n += 1; } n })?;
                ensure!(n == c, "mutable row iterator of a {r}x{c} matrix has {n} entries");
                w[i] = vals.iter().map(|v| v.r()).collect();
            }
            4 => {
                let vals: Vec<F> = (0..r).map(|_| F::gen(&mut cx.s)).collect();
                cx.note(|| format!("column {j} := {vals:?}"));
                let n = cx.call("get_col_iter_mut", || { let mut n = 0; for e in m.get_col_iter_mut(j) { *e = vals[n.min(r - 1)]; n += 1; } n })?;
                ensure!(n == r, "mutable column iterator of a {r}x{c} matrix has {n} entries");
                for k in 0..r { w[k][j] = vals[k].r(); }
                cx.nt(r != c);
            }
            _ => { // read a column as it is being changed
                cx.note(|| format!("column {j} doubled"));
                cx.call("get_col_iter_mut", || for e in m.get_col_iter_mut(j) { *e = *e + *e; })?;
                for k in 0..r { w[k][j] = w[k][j].add(&w[k][j]); }
            }
        }
        let got = shape("matrix", &m, r, c)?;
        ensure!(got == w, "the matrix is {}, should be {w:?}", showmat(&m));
    }
    c19_read(cx, &m, &w, c)
}
fn c19_construct<F: Coef>(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 5, 12);
    let e: Vec<F> = (0..r * c).map(|_| F::gen(&mut cx.s)).collect();
    cx.note(|| format!("{r}x{c} of {e:?}"));
    let w: M<F::R> = (0..r).map(|i| (0..c).map(|j| e[i * c + j].r()).collect()).collect();
    let m = cx.call("new", || Mat::new(r, c, e.clone()))?;
    same("new", &m, &w, c)?;
    ensure!(m.entries().iter().map(|x| x.r()).eq(e.iter().map(|x| x.r())), "entries() is {:?}", m.entries());
    let colv = |v: Vec<F>| Mat::new(v.len(), 1, v);
    let rows: Vec<Mat<F>> = (0..r).map(|i| colv(e[i * c..(i + 1) * c].to_vec())).collect();
    let cols: Vec<Mat<F>> = (0..c).map(|j| colv((0..r).map(|i| e[i * c + j]).collect())).collect();
    let v = cx.call("from vectors", || (Mat::from_row_vectors(&rows), Mat::from_col_vectors(&cols), Mat::from(e.iter().copied())))?;
    same("from_row_vectors", &v.0, &w, c)?;
    same("from_col_vectors", &v.1, &w, c)?;
    same("from iterator", &v.2, &e.iter().map(|x| vec![x.r()]).collect(), 1)?;
    let b = cx.call("rows and columns", || (Mat::from_row_vectors(&(0..r).map(|i| m.get_row(i)).collect::<Vec<_>>()), Mat::from_col_vectors(&(0..c).map(|j| m.get_col(j)).collect::<Vec<_>>())))?;
    same("from its rows", &b.0, &w, c)?;
    same("from its columns", &b.1, &w, c)?;
    let n = cx.s.len(1, 6, 20, 300).min(1_100);
    let k = cx.s.idx(n);
    let z = cx.call("constants", || (Mat::<F>::identity(n), Mat::<F>::zero(r, c), Mat::<F>::e(k, n)))?;
    same("identity", &z.0, &rident(n), n)?;
    same("zero", &z.1, &vec![vec![F::ZERO.r(); c]; r], c)?;
    same("e", &z.2, &(0..n).map(|i| vec![if i == k { F::ONE.r() } else { F::ZERO.r() }]).collect(), 1)?;
    cx.nt(r > 1 && c > 1 && r != c);
    c19_read(cx, &m, &w, c)
}

// ---- C20 --------------------------------------------------------------------------------------
fn c20<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let (r, c) = dims(&mut cx.s, 5, 14);
    let a = matrix::<F>(&mut cx.s, r, c, ent);
    let wa = mat_of(&a)?;
    let (i, j) = (cx.s.idx(r), cx.s.idx(r));
    let x: F = match cx.s.weighted(&[6, 1, 1]) { 0 => ent(&mut cx.s), 1 => F::ZERO, _ => F::ONE };
    cx.note(|| format!("{} rows {i}, {j}, scalar {x}", showmat(&a)));
    if !exact_sums::<F>(&[&wa, &vec![vec![x.r()]]]) { return discard("rounding"); }
    let run = |cx: &mut Cx, what: &str, e: &dyn Fn() -> Mat<F>, op: &dyn Fn(&mut Mat<F>), want: &M<F::R>| -> R {
        let m = cx.call(what, || e())?;
        shape(what, &m, r, r)?;
        let p = cx.call(what, || &m * &a)?;
        same(&format!("{what} matrix times A"), &p, want, c)?;
        let mut q = a.clone();
        cx.call(what, || op(&mut q))?;
        same(&format!("{what} in place"), &q, want, c)
    };
    let mut w = wa.clone();
    for e in w[i].iter_mut() { *e = e.mul(&x.r()); }
    run(cx, "row scaling", &|| Mat::scale_mat(r, i, x), &|m| m.scale_row(i, x), &w)?;
    let mut w = wa.clone();
    w.swap(i, j);
    run(cx, "row transposition", &|| Mat::permutation(r, i, j), &|m| m.permute_rows(i, j), &w)?;
    if i != j {
        let mut w = wa.clone();
        for k in 0..c { w[j][k] = w[j][k].add(&wa[i][k].mul(&x.r())); }
        run(cx, "row replacement", &|| Mat::replacement(r, i, j, x), &|m| m.replace_row(i, j, x), &w)?;
        cx.nt(c > 1 && !x.r().is_zero() && x.r() != F::ONE.r());
    }
    // permutation from a vector
    let p = cx.s.perm(r);
    let pm = cx.call("permutation_from_vec", || Mat::<F>::permutation_from_vec(p.clone()))?;
    shape("permutation_from_vec", &pm, r, r)?;
    let v = cx.call("permutation", || (&pm * &a, pm.transpose() * (&pm * &a), pm.transpose() * &pm, &pm * pm.transpose()))?;
    same("permuted", &v.0, &(0..r).map(|k| wa[p[k]].clone()).collect(), c)?;
    same("permuted back", &v.1, &wa, c)?;
    same("P^T P", &v.2, &rident(r), r)?;
    same("P P^T", &v.3, &rident(r), r)?;
    cx.label_if(p.iter().enumerate().any(|(k, v)| p[*v] != k), "not an involution");
    Ok(())
}
/// a sequence of row operations equals the product of the elementary matrices
fn c20_seq<F: Coef>(cx: &mut Cx) -> R {
    cx.overflow_ok = F::OVF;
    let (r, c) = dims(&mut cx.s, 4, 8);
    let a = matrix::<F>(&mut cx.s, r, c, ent);
    cx.note(|| showmat(&a));
    let mut m = a.clone();
    let mut e = Mat::<F>::identity(r);
    let n = cx.s.range(1, 8);
    for _ in 0..n {
        let (i, j) = (cx.s.idx(r), cx.s.idx(r));
        let x = F::of(cx.s.int(-3, 3));
        let el = match cx.s.idx(3) {
            0 => { cx.note(|| format!("scale {i} by {x}")); cx.call("op", || { m.scale_row(i, x); Mat::scale_mat(r, i, x) })? }
            1 => { cx.note(|| format!("swap {i} {j}")); cx.call("op", || { m.permute_rows(i, j); Mat::permutation(r, i, j) })? }
            _ => { if i == j { continue; } cx.note(|| format!("row {j} += {x} row {i}")); cx.call("op", || { m.replace_row(i, j, x); Mat::replacement(r, i, j, x) })? }
        };
        e = cx.call("product", || &el * &e)?;
    }
    let p = cx.call("product", || &e * &a)?;
    same("product of elementary matrices", &p, &mat_of(&m)?, c)?;
    cx.nt(n > 1 && r > 1);
    Ok(())
}

// ---- C27 --------------------------------------------------------------------------------------
fn c27_mats(cx: &mut Cx) -> R {
    let kind = cx.s.weighted(&[40, 5, 1]);
    let cap = [3_000usize, 20_000, 300_000][kind];
    let k = match cx.s.weighted(&[6, 1]) { 0 => cx.s.range(1, 5), _ => cx.s.size(2, 20, 700) };
    let mut vals: Vec<Fbig> = vec![];
    while vals.len() < k { let v = Fbig::new(cx.s.int(-9, 9)); if !vals.contains(&v) { vals.push(v); } else { let v = Fbig::new(100 + vals.len() as i64); vals.push(v); } }
    let (mut n, mut m) = match cx.s.weighted(&[8, 2, 2, 1]) {
        0 => (cx.s.range(1, 4), cx.s.range(1, 4)),
        1 => (1, cx.s.range(1, 18)),
        2 => (cx.s.range(1, 18), 1),
        _ => (cx.s.range(0, 2), cx.s.range(0, 9)),
    };
    if k == 1 && cx.s.chance(1, 3) { (n, m) = (cx.s.size(1, 8, 300), cx.s.size(1, 8, 300)); }
    while k.checked_pow((n * m) as u32).map_or(true, |t| t > cap) { if n >= m { n -= 1 } else { m -= 1 } }
    cx.note(|| format!("all {n}x{m} matrices over {vals:?}"));
    let total = k.pow((n * m) as u32);
    let place: std::collections::HashMap<u64, usize> = vals.iter().enumerate().map(|(i, v)| (v.0 as u64, i)).collect();
    let mut seen = vec![false; total];
    let mut bad: Option<String> = None;
    let count = cx.call("mat_iterator", || {
        let mut count = 0;
        for a in mat_iterator(n, m, &vals).take(total + 1) {
            count += 1;
            if a.rows() != n || a.cols() != m || a.entries().len() != n * m { bad = Some(format!("enumerated {}", showmat(&a))); break; }
            let mut i = 0;
            for e in a.entries() {
                match place.get(&(e.0 as u64)) { Some(d) => i = i * k + d, None => bad = Some(format!("entry {e} is not one of the values")) }
            }
            if bad.is_some() { break; }
            if std::mem::replace(&mut seen[i], true) { bad = Some(format!("{} enumerated twice", showmat(&a))); break; }
        }
        count
    })?;
    if let Some(b) = bad { return fail(b); }
    ensure!(count == total, "{count} matrices enumerated, there are {total}");
    cx.nt(k > 1 && n * m > 1);
    cx.label_if(total > 65_535, "a family of more than 65535");
    Ok(())
}
fn c27_digits(cx: &mut Cx) -> R {
    let base = match cx.s.weighted(&[8, 2, 1]) { 0 => cx.s.range(2, 20), 1 => cx.s.int(2, 100_000) as usize, _ => (cx.s.int(2, i64::MAX) as usize) << cx.s.range(0, 1) };
    let n = match cx.s.weighted(&[4, 1, 1]) {
        0 => (cx.s.int(0, i64::MAX) as usize) << cx.s.range(0, 1),
        1 => usize::MAX - cx.s.int(0, i64::MAX) as usize,
        _ => { // near a multiple of a power
            let mut k = cx.s.range(1, 12);
            for _ in 0..cx.s.range(0, 64) { if let Some(x) = k.checked_mul(base) { k = x; } }
            k.wrapping_add_signed(cx.s.int(-2, 2) as isize)
        }
    };
    cx.label_if(n > usize::MAX / base, "n * base exceeds 64 bits");
    cx.note(|| format!("{n} in base {base}"));
    let d: Vec<usize> = cx.call("num_to_seq", || num_to_seq(n, base).take(70).collect())?;
    let mut want = vec![];
    let mut k = n;
    while k > 0 { want.push(k % base); k /= base; }
    ensure!(d == want, "digits are {d:?}, should be {want:?}");
    cx.nt(want.len() > 1);
    Ok(())
}
fn c27_box(cx: &mut Cx) -> R {
    let (r, c) = match cx.s.weighted(&[2000, 20, 1]) {
        0 => (cx.s.size(0, 6, 60), cx.s.size(0, 6, 60)),
        1 => { let k = cx.s.size(0, 3, 9); let l = cx.s.size(0, 300, 3_000); if cx.s.chance(1, 2) { (k, l) } else { (l, k) } }
        _ => (cx.s.size(0, 200, 700), cx.s.size(0, 200, 700)),
    };
    cx.note(|| format!("{r}x{c}"));
    let b: Vec<(usize, usize)> = cx.call("get_box_iter", || get_box_iter(r, c).take(r * c + 1).collect())?;
    let mut want = vec![];
    for i in 0..r { for j in 0..c { want.push((i, j)); } }
    ensure!(b == want, "box is {:?}{}", &b[..b.len().min(40)], if b.len() > 40 { "..." } else { "" });
    cx.nt(r > 1 && c > 1);
    Ok(())
}
/// however an enumeration is consumed, it is the same one
fn consume<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>>(cx: &mut Cx, what: &'static str, make: &dyn Fn() -> I) -> R {
    let all: Vec<T> = cx.call(what, || { let mut v = vec![]; let mut it = make(); while let Some(x) = it.next() { v.push(x); } v })?;
    let n = all.len();
    let (i, j, k, b) = (cx.s.range(0, n + 1), cx.s.range(0, n + 1), cx.s.range(1, n + 2), cx.s.idx(n.max(1)));
    let at = |i: usize| all.get(i);
    let v = cx.call(what, || {
        let mut it = make();
        let h0 = it.size_hint();
        let first = it.nth(i);
        let h1 = it.size_hint();
        let second = it.nth(j);
        (first, second, h0, h1)
    })?;
    ensure!(v.0.as_ref() == at(i), "{what}: nth({i}) is {:?}, should be {:?}", v.0, at(i));
    if i < n { ensure!(v.1.as_ref() == at(i + 1 + j), "{what}: nth({i}) and then nth({j}) is {:?}, should be {:?}", v.1, at(i + 1 + j)); }
    let left = if i < n { n - i - 1 } else { 0 };
    for (h, l) in [(v.2, n), (v.3, left)] { ensure!(h.0 <= l && h.1.map_or(true, |u| u >= l), "{what}: {l} are to come, but the size hint is {h:?}"); }
    let w = cx.call(what, || (make().count(), make().last(), make().skip(i).count(), make().step_by(k).collect::<Vec<T>>(), make().fold(vec![], |mut a, x| { a.push(x); a }), make().collect::<Vec<T>>(), make().position(|x| all.get(b) == Some(&x)),
        make().skip(i).take(j).collect::<Vec<T>>()))?;
    ensure!(w.0 == n && w.2 == n.saturating_sub(i), "{what}: {} counted and {} after skipping {i}, there are {n}", w.0, w.2);
    ensure!(w.1.as_ref() == all.last(), "{what}: the last is {:?}, should be {:?}", w.1, all.last());
    ensure!(w.3.iter().eq(all.iter().step_by(k)), "{what}: in steps of {k} {:?}, should be {:?}", w.3, all.iter().step_by(k).collect::<Vec<_>>());
    ensure!(w.4 == all && w.5 == all, "{what}: folded {:?}, collected {:?}, one after the other {all:?}", w.4, w.5);
    ensure!(n == 0 || w.6 == all.iter().position(|x| *x == all[b]), "{what}: number {b} found at {:?}", w.6);
    ensure!(w.7.iter().eq(all.iter().skip(i).take(j)), "{what}: {j} after {i} are {:?}", w.7);
    // two at a time, in turns
    let turns: Vec<bool> = (0..(2 * n).min(24)).map(|_| cx.s.chance(1, 2)).collect();
    let t = cx.call(what, || { let (mut x, mut y) = (make(), make()); let mut v: [Vec<T>; 2] = [vec![], vec![]]; for f in &turns { let e = if *f { x.next() } else { y.next() }; v[*f as usize].extend(e); } v[1].extend(x); v[0].extend(y); v })?;
    ensure!(t[0] == all && t[1] == all, "{what}: two enumerations in turns give {t:?}, one gives {all:?}");
    cx.nt(n > 3);
    Ok(())
}
fn c27_consume(cx: &mut Cx) -> R {
    match cx.s.idx(3) {
        0 => {
            let k = cx.s.range(1, 4);
            let vals: Vec<Fbig> = (0..k).map(|i| Fbig::new(if i == 2 { 0 } else { 7 * i as i64 - 3 })).collect();
            let (mut n, mut m) = (cx.s.range(1, 3), cx.s.range(1, 3));
            while k.pow((n * m) as u32) > 700 { if n >= m { n -= 1 } else { m -= 1 } }
            cx.note(|| format!("all {n}x{m} matrices over {vals:?}"));
            consume(cx, "mat_iterator", &|| mat_iterator(n, m, &vals))
        }
        1 => {
            let base = cx.s.range(2, 12);
            let n = (cx.s.int(0, i64::MAX) as usize) << cx.s.range(0, 1);
            cx.note(|| format!("{n} in base {base}"));
            consume(cx, "num_to_seq", &|| num_to_seq(n, base))
        }
        _ => {
            let (r, c) = (cx.s.size(0, 4, 12), cx.s.size(0, 4, 12));
            cx.note(|| format!("{r}x{c}"));
            consume(cx, "get_box_iter", &|| get_box_iter(r, c))
        }
    }
}
/// the beginning of an enumeration too long to be completed
fn c27_prefix(cx: &mut Cx) -> R {
    let k = cx.s.range(2, 300);
    let vals: Vec<Fbig> = (0..k as i64).map(|i| Fbig::new((i * 7919 + 3) % 100_003)).collect();
    let (mut n, mut m) = (cx.s.range(1, 9), cx.s.range(1, 9));
    while k.checked_pow((n * m) as u32).is_none() { if n >= m { n -= 1 } else { m -= 1 } }
    let len = k.pow((n * m) as u32).min(cx.s.range(1, 2_000));
    cx.note(|| format!("the first {len} of all {n}x{m} matrices over {k} values"));
    let ms: Vec<Mat<Fbig>> = cx.call("mat_iterator", || mat_iterator(n, m, &vals).take(len).collect())?;
    let place: std::collections::HashSet<u64> = vals.iter().map(|v| v.0 as u64).collect();
    let mut seen = std::collections::HashSet::new();
    ensure!(ms.len() == len, "{} enumerated, there are at least {len}", ms.len());
    for a in &ms {
        ensure!(a.rows() == n && a.cols() == m && a.entries().len() == n * m && a.entries().iter().all(|e| place.contains(&(e.0 as u64))), "enumerated {}", showmat(a));
        ensure!(seen.insert(a.entries().iter().map(|e| e.0 as u64).collect::<Vec<_>>()), "{} enumerated twice", showmat(a));
    }
    cx.nt(n * m > 1 && len > k);
    Ok(())
}
fn c27_max(cx: &mut Cx) -> R {
    let n = match cx.s.weighted(&[10_000, 100, 1]) { 0 => cx.s.size(1, 6, 80), 1 => cx.s.size(1, 200, 600), _ => cx.s.size(1, 5_000, 140_000) };
    let v: Vec<i64> = if n > 600 { // a slope with some peaks
        let (a, b) = (cx.s.int(-3, 3), cx.s.int(1, 1000));
        let mut v: Vec<i64> = (0..n as i64).map(|i| a * (i / b)).collect();
        for _ in 0..cx.s.range(0, 3) { let i = cx.s.idx(n); v[i] = cx.s.int(-500_000, 500_000); }
        v
    } else if cx.s.chance(1, 2) { (0..n).map(|_| cx.s.int(-4, 4)).collect() } else { (0..n).map(|_| cx.s.int(i64::MIN / 2, i64::MAX / 2)).collect() };
    cx.note(|| format!("{v:?}"));
    let i = cx.call("get_max_index", || get_max_index(v.iter(), |a, b| a.partial_cmp(b)))?;
    ensure!(i < n && v[i] == *v.iter().max().unwrap(), "index {i}");
    let j = cx.call("get_max_index", || get_max_index(v.iter(), |a, b| b.partial_cmp(a)))?;
    ensure!(j < n && v[j] == *v.iter().min().unwrap(), "index {j} under the reversed comparison");
    let k = cx.call("get_max_index", || get_max_index(v.iter().map(|x| *x as f64), |a, b| a.abs().partial_cmp(&b.abs())))?;
    ensure!(k < n && v.iter().all(|x| (*x as f64).abs() <= (v[k] as f64).abs()), "index {k} by magnitude");
    cx.nt(n > 2);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", rule: "random matrices up to 14x14 of seven structural kinds, all ownership forms, some up to 290 rows or columns, mismatched shapes (also with equal entry counts); non-trivial: all dimensions at least 2, resp. a mismatch",
            subs: vec![Sub { name: "f7", cases: 150_000, run: c18::<F7> }, Sub { name: "fbig", cases: 80_000, run: c18::<Fbig> }, Sub { name: "rational", cases: 100_000, run: c18::<Rational> }, Sub { name: "f64", cases: 100_000, run: c18::<f64> }, Sub { name: "shapes", cases: 150_000, run: c18_shapes }, Sub { name: "large_f7", cases: 600, run: large!(c18::<F7>) }, Sub { name: "large_vast_f7", cases: 60, run: vast!(c18::<F7>) }, Sub { name: "large_f64", cases: 300, run: large!(c18::<f64>) }, Sub { name: "large_vast_f64", cases: 60, run: vast!(c18::<f64>) }] },
        Prop { id: "C19", rule: "random histories of writes, swaps and mutable row and column iteration against a two-dimensional array, all constructors and reads, some matrices up to 290 rows or columns; non-trivial: a column written in a non-square matrix, resp. a non-square matrix of at least 2x2",
            subs: vec![Sub { name: "history_f101", cases: 400_000, run: c19_history::<F101> }, Sub { name: "history_rational", cases: 200_000, run: c19_history::<Rational> }, Sub { name: "construct_f101", cases: 300_000, run: c19_construct::<F101> }, Sub { name: "construct_f64", cases: 100_000, run: c19_construct::<f64> }, Sub { name: "large_history", cases: 3_000, run: large!(c19_history::<F101>) }, Sub { name: "large_vast_history", cases: 150, run: vast!(c19_history::<F101>) }, Sub { name: "large_construct", cases: 2_000, run: large!(c19_construct::<F101>) }, Sub { name: "large_vast_construct", cases: 60, run: vast!(c19_construct::<F101>) }] },
        Prop { id: "C20", rule: "random matrices, rows, scalars and permutations, elementary matrix product against in-place operation against the definition, and sequences of operations, some matrices up to 290 rows; non-trivial: distinct rows, several columns, scalar other than 0 and 1, resp. several operations",
            subs: vec![Sub { name: "f7", cases: 200_000, run: c20::<F7> }, Sub { name: "rational", cases: 120_000, run: c20::<Rational> }, Sub { name: "f64", cases: 100_000, run: c20::<f64> }, Sub { name: "sequence_f7", cases: 120_000, run: c20_seq::<F7> }, Sub { name: "sequence_rational", cases: 80_000, run: c20_seq::<Rational> }, Sub { name: "large_f7", cases: 80, run: large!(c20::<F7>) }, Sub { name: "large_f64", cases: 200, run: large!(c20::<f64>) }] },
        Prop { id: "C27", rule: "random value lists and shapes (up to 300000 matrices each), boxes up to 60x60, sometimes up to 700x700 or 9x3000, numbers up to 64 bits in bases from 2 up to 64 bits, beginnings of longer enumerations, enumerations consumed in other ways than one by one (nth, skip, step, fold, count, last, two in turns, size hints), lists with repeated maxima; non-trivial: more than one value and entry, more than one row and column, more than one digit, more than two elements",
            subs: vec![Sub { name: "matrices", cases: 4_000, run: c27_mats }, Sub { name: "digits", cases: 2_000_000, run: c27_digits }, Sub { name: "consume", cases: 60_000, run: c27_consume }, Sub { name: "prefix", cases: 2_000, run: c27_prefix }, Sub { name: "box", cases: 400_000, run: c27_box }, Sub { name: "max", cases: 1_500_000, run: c27_max }] },
    ]
}
