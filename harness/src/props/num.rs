//! C01-C05, C28, C32: numbers and numeric traits.
use crate::engine::*;
use crate::{ensure, large, vast, giant};
use crate::fields::*;
use crate::gens::*;
use crate::model::*;
use algeo::core::num::{EpsilonEquality, Field, Integer, One, Rational, StabilityCmp, Zero};
use algeo::linalg::mat::Mat;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn q(r: &Rational) -> Q { r.r() }
fn noncanon(r: &Rational) -> Option<String> {
    let (n, d) = (r.numer.0 as i128, r.denom.0 as i128);
    if d <= 0 { return Some(format!("denominator {d} of {n}/{d} is not positive")); }
    if gcd128(n, d) != 1 { return Some(format!("{n}/{d} is not in lowest terms")); }
    None
}
const MX: i128 = i64::MAX as i128;
/// do all cross products (and their sum) fit in i64, in either orientation?
fn fits(a: &Rational, b: &Rational) -> bool {
    let (n, d, m, e) = (a.numer.0 as i128, a.denom.0 as i128, b.numer.0 as i128, b.denom.0 as i128);
    (n * e).abs() + (m * d).abs() <= MX && d * e <= MX && (n * m).abs() <= MX
}

// ---- C01 --------------------------------------------------------------------------------------
fn c01_history(cx: &mut Cx) -> R {
    let mut pool: Vec<Rational> = vec![];
    for _ in 0..cx.s.range(1, 3) { let r = rat(&mut cx.s); pool.push(r); }
    let n = cx.s.range(1, 14);
    for _ in 0..n {
        let op = cx.s.weighted(&[4, 4, 4, 4, 1, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2]);
        let (i, j) = (cx.s.idx(pool.len()), cx.s.idx(pool.len()));
        let (a, b) = (pool[i], pool[j]);
        let inv_ok = !q(&a).is_zero();
        let res: Option<(&str, Rational)> = match op {
            0 if fits(&a, &b) => Some(("+", cx.call("add", || a + b)?)),
            1 if fits(&a, &b) => Some(("-", cx.call("sub", || a - b)?)),
            2 if fits(&a, &b) => Some(("*", cx.call("mul", || a * b)?)),
            3 if fits(&a, &b) && b.numer.0 != 0 => Some(("/", cx.call("div", || a / b)?)),
            4 => Some(("neg", cx.call("neg", || -a)?)),
            5 if inv_ok => Some(("recip", cx.call("recip", || a.recip())?)),
            6 if inv_ok => Some(("inv", cx.call("inv", || Field::inv(a))?)),
            7 => {
                let e = cx.s.int(-6, 6);
                let m = (a.numer.0 as i128).abs().max(a.denom.0 as i128);
                if (0..e.unsigned_abs()).try_fold(1i128, |p, _| p.checked_mul(m)).map_or(true, |p| p > MX) || (e < 0 && !inv_ok) { None }
                else { cx.label("pow"); Some(("pow", cx.call("pow", || match e % 3 { 0 => a.pow(Integer(e)), 1 => a.powi(e as i32), _ => a.powi32(e as i32) })?)) }
            }
            8 => { let (n, d) = (cx.s.int(-40, 40), cx.s.int(-40, 40)); if d == 0 { None } else { Some(("new", cx.call("new", || if d % 2 == 0 { Rational::new_i64(n, d) } else { Rational::new(Integer(n), Integer(d)) })?)) } }
            9 => { let (n, d) = (cx.s.int(-i64::MAX, i64::MAX), cx.s.int(-i64::MAX, i64::MAX)); if d == 0 { None } else { Some(("new", cx.call("new", || Rational::new_i64(n, d))?)) } }
            10 => { let n = cx.s.int(-i64::MAX, i64::MAX); Some(("from int", cx.call("from", || if n % 2 == 0 { Rational::from(Integer(n)) } else { Rational::new_int(Integer(n)) })?)) }
            11 if fits(&a, &b) => Some(("assign", cx.call("assign", || {
                let mut x = a;
                match (i + 2 * j) % 4 { 0 => x += b, 1 => x -= b, 2 => x *= b, _ => if b.numer.0 != 0 { x /= b } }
                x
            })?)),
            12 => {
                let k = cx.s.range(0, 5);
                let v: Vec<Rational> = (0..k).map(|_| mkrat(cx.s.int(-12, 12), cx.s.int(1, 12))).collect();
                let p = cx.s.chance(1, 2);
                Some(("sum/product", cx.call("sum/product", || if p { v.iter().copied().product() } else { v.iter().copied().sum() })?))
            }
            13 => { let r = rat(&mut cx.s); Some(("fresh", r)) }
            // common factors between operands: where reduction matters
            14 => { let k = cx.s.int(1, 50); let m = cx.s.int(-50, 50); let d = q(&a).d.min(1000) as i64; Some(("fresh shared", mkrat(m, d * k))) }
            _ => None,
        };
        if let Some((what, r)) = res {
            cx.note(|| format!("{what}({}/{}, {}/{}) -> {}/{}", a.numer, a.denom, b.numer, b.denom, r.numer, r.denom));
            if let Some(m) = noncanon(&r) { return fail(format!("{what} of {}/{} and {}/{}: {m}", a.numer, a.denom, b.numer, b.denom)); }
            let v = q(&r);
            ensure!(r.is_zero() == v.is_zero() && r.is_one() == (v == Q::one()), "zero/one test wrong for {:?}", v);
            cx.nt(v.d > 1 && what.len() < 7);
            cx.label_if(v.d == 1 && (q(&a).d > 1 || q(&b).d > 1), "reduced to integer");
            pool.push(r);
        }
    }
    for a in &pool { for b in &pool {
        let same = q(a) == q(b);
        let (eq, he) = cx.call("==/hash", || (a == b, hash(a) == hash(b)))?;
        ensure!(eq == same, "== says {eq} for {}/{} and {}/{}", a.numer, a.denom, b.numer, b.denom);
        ensure!(!same || he, "equal rationals hash differently: {}/{}", a.numer, a.denom);
    } }
    Ok(())
}
fn c01_routes(cx: &mut Cx) -> R {
    // the same number by different routes
    let (a, b) = (mkrat(cx.s.int(-60, 60), cx.s.int(1, 60)), mkrat(cx.s.int(-60, 60), cx.s.int(1, 60)));
    let z = b.numer.0 == 0;
    cx.note(|| format!("a={}/{} b={}/{}", a.numer, a.denom, b.numer, b.denom));
    let v = cx.call("routes", || {
        let mut v = vec![(a + b) - b, (a - b) + b, -(-a), a + a - a, a * Rational::ONE, a + Rational::ZERO, [a, b, -b].iter().copied().sum()];
        if !z { v.push((a * b) / b); v.push((a / b) * b); v.push(a * b * b.recip()); v.push(a * b * b.powi(-1)); v.push([a, b, b.recip()].iter().copied().product()) }
        if a.numer.0 != 0 { v.push(a.recip().recip()); v.push(a.pow(Integer(-1)).pow(Integer(-1))); v.push(a.powi32(2) / a); v.push((a.powi(-2) * a).recip()); }
        v
    })?;
    for (i, r) in v.iter().enumerate() {
        if let Some(m) = noncanon(r) { return fail(format!("route {i}: {m}")); }
        ensure!(*r == a && hash(r) == hash(&a), "route {i} gives {}/{}, not equal to {}/{}", r.numer, r.denom, a.numer, a.denom);
    }
    cx.nt(q(&a).d > 1 && q(&b).d > 1);
    Ok(())
}

// ---- C02 --------------------------------------------------------------------------------------
fn operands(cx: &mut Cx) -> (Rational, Rational) {
    let a = rat(&mut cx.s);
    let b = match cx.s.weighted(&[4, 1, 1, 1, 1]) {
        0 => rat(&mut cx.s),
        1 => a,
        2 => -a_model(a),
        3 => mkrat(cx.s.int(-1000, 1000), a.denom.0), // same denominator
        _ => { let k = cx.s.int(1, 64); let d = a.denom.0; if d <= MX as i64 / 64 { mkrat(cx.s.int(-1000, 1000), d * k) } else { a } }
    };
    (a, b)
}
fn a_model(a: Rational) -> Rational { mkrat(a.numer.0, a.denom.0) }
fn c02_ops(cx: &mut Cx) -> R {
    let (a, b) = operands(cx);
    let (x, y) = (q(&a), q(&b));
    cx.note(|| format!("a={x:?} b={y:?}"));
    if !fits(&a, &b) { return discard("cross products exceed 64 bits"); }
    cx.nt(x.d > 1 || y.d > 1);
    cx.label_if(x.n.abs() > 1 << 31 || x.d > 1 << 31, "large");
    cx.label_if(x.d == y.d && x.d > 1, "same denominator");
    let zero = y.is_zero();
    let exp = [x.add(&y), x.sub(&y), x.mul(&y), if zero { Q::zero() } else { x.div(&y) }, x.neg()];
    let v = cx.call("operators", || {
        let (mut p, mut m, mut t, mut d) = (a, a, a, a);
        p += b; m -= b; t *= b;
        if !zero { d /= b; } else { d = Rational::ZERO; }
        ([a + b, a - b, a * b, if zero { Rational::ZERO } else { a / b }, -a], [p, m, t, d])
    })?;
    for i in 0..5 { ensure!(q(&v.0[i]) == exp[i], "operator {} of {x:?} and {y:?} gives {}/{}, exact value {:?}", ["+", "-", "*", "/", "neg"][i], v.0[i].numer, v.0[i].denom, exp[i]); }
    for i in 0..4 { ensure!(q(&v.1[i]) == exp[i], "assignment operator {} of {x:?} and {y:?} gives {}/{}", ["+=", "-=", "*=", "/="][i], v.1[i].numer, v.1[i].denom); }
    let s = cx.call("sgn", || a.sgn())?;
    ensure!(s.0 == x.sgn() as i64, "sgn of {x:?} is {s}");
    if !x.is_zero() {
        let (r, i) = cx.call("recip/inv", || (a.recip(), Field::inv(a)))?;
        ensure!(q(&r) == x.inv() && q(&i) == x.inv(), "reciprocal of {x:?} is {}/{}", r.numer, r.denom);
    }
    let c = cx.call("new", || Rational::new(Integer(x.n as i64), Integer(-(x.d as i64))))?;
    ensure!(q(&c) == x.neg(), "new({}, -{}) is {}/{}", x.n, x.d, c.numer, c.denom);
    Ok(())
}
fn c02_pow(cx: &mut Cx) -> R {
    let a = match cx.s.weighted(&[4, 1, 1]) { 0 => mkrat(cx.s.int(-12, 12), cx.s.int(1, 12)), 1 => mkrat(*cx.s.pick(&[1, -1]), 1), _ => rat(&mut cx.s) };
    let x = q(&a);
    let m = x.n.abs().max(x.d);
    // powers of 0, 1 and -1 never overflow (Integer::pow takes the exponent modulo 2^32, as documented)
    if m == 1 && cx.s.chance(1, 2) {
        let e = cx.s.int(i32::MIN as i64, i32::MAX as i64);
        let big = match cx.s.weighted(&[2, 1]) { 0 => e, _ => cx.s.int(-(u32::MAX as i64), u32::MAX as i64) };
        cx.note(|| format!("({x:?})^{e}, ({x:?})^{big}"));
        cx.label("huge exponent");
        let pow = |e: i64| if e == 0 { Q::one() } else if e % 2 == 0 { x.mul(&x) } else { x };
        for e in [e, big] {
            if x.is_zero() && e < 0 { cx.must_panic("0^negative", || a.pow(Integer(e)))?; continue; }
            let r = cx.call("pow", || a.pow(Integer(e)))?;
            ensure!(q(&r) == pow(e) && r.denom.0 > 0, "({x:?})^{e} gives {}/{}", r.numer, r.denom);
        }
        if !(x.is_zero() && e < 0) {
            for r in cx.call("pow", || [a.powi(e as i32), a.powi32(e as i32)])? { ensure!(q(&r) == pow(e) && r.denom.0 > 0, "({x:?})^{e} gives {}/{}", r.numer, r.denom); }
        }
        cx.nt(e != 0);
        return Ok(());
    }
    let e = cx.s.int(-63, 63);
    if m > 1 && (0..e.unsigned_abs()).try_fold(1i128, |p, _| p.checked_mul(m).filter(|p| *p <= MX)).is_none() { return discard("power exceeds 64 bits"); }
    cx.note(|| format!("({x:?})^{e}"));
    cx.nt(e < 0 || (x.n < 0 && e > 1));
    cx.label_if(e < 0 && x.n < 0, "negative base, negative exponent");
    if x.is_zero() && e < 0 {
        cx.label("0^negative");
        cx.must_panic("0^negative", || a.pow(Integer(e)))?;
        cx.must_panic("0^negative", || a.powi(e as i32))?;
        return cx.must_panic("0^negative", || a.powi32(e as i32));
    }
    let exp = if e >= 0 { x.pow(e as u32) } else { x.inv().pow((-e) as u32) };
    let v = cx.call("pow", || [a.pow(Integer(e)), a.powi(e as i32), a.powi32(e as i32)])?;
    for r in v { ensure!(q(&r) == exp && r.denom.0 > 0, "({x:?})^{e} gives {}/{}, exact {:?}", r.numer, r.denom, exp); }
    Ok(())
}
fn c02_fold(cx: &mut Cx) -> R {
    let k = cx.s.len(0, 8, 40, 600);
    let v: Vec<Rational> = (0..k).map(|_| mkrat(cx.s.int(-12, 12), *cx.s.pick(&[1, 2, 3, 4, 6, 12]))).collect();
    cx.note(|| format!("{:?}", v.iter().map(q).collect::<Vec<_>>()));
    let s = v.iter().fold(Q::zero(), |a, b| a.add(&q(b)));
    let r: Rational = cx.call("sum", || v.iter().copied().sum())?;
    ensure!(q(&r) == s, "sum is {}/{}, exact {s:?}", r.numer, r.denom);
    // of a long product only a few factors other than 0, 1 and -1, so that it fits
    let mut left = cx.s.range(0, 6);
    let zeros = cx.s.chance(1, 4);
    let few: Vec<Rational> = v.iter().map(|r| if left > 0 && (k <= 6 || r.numer.0 % 2 == 1) { left -= 1; *r } else { mkrat(match r.numer.0 % 3 { 0 if zeros => 0, 1 | -2 => -1, _ => 1 }, 1) }).collect();
    cx.note(|| format!("product {:?}", few.iter().map(q).collect::<Vec<_>>()));
    let p = few.iter().fold(Q::one(), |a, b| a.mul(&q(b)));
    let r: Rational = cx.call("product", || few.iter().copied().product())?;
    ensure!(q(&r) == p, "product is {}/{}, exact {p:?}", r.numer, r.denom);
    cx.nt(k >= 2);
    cx.label_if(k == 0, "empty");
    Ok(())
}
fn c02_reject(cx: &mut Cx) -> R {
    let a = rat(&mut cx.s);
    let n = cx.s.int(-i64::MAX, i64::MAX);
    let zero = mkrat(0, 1);
    cx.note(|| format!("a={:?} n={n}", q(&a)));
    cx.nt(true);
    cx.must_panic("n/0", || Rational::new_i64(n, 0))?;
    cx.must_panic("n/0", || Rational::new(Integer(n), Integer(0)))?;
    cx.must_panic("a / 0", || a / zero)?;
    cx.must_panic("a /= 0", || { let mut x = a; x /= zero; x })?;
    cx.must_panic("recip 0", || zero.recip())?;
    cx.must_panic("inv 0", || Field::inv(zero))?;
    let e = cx.s.int(1, 40);
    cx.must_panic("0^-e", || zero.pow(Integer(-e)))?;
    cx.must_panic("0^-e", || zero.powi32(-e as i32))?;
    let zz = mkrat(n.max(1) % 1000 + 1, 7);
    cx.must_panic("x/(x-x)", || a / (zz - zz))
}

// ---- C03 --------------------------------------------------------------------------------------
/// two fractions as close together as their size allows: a Farey pair, or large numerators over small denominators
fn close_pair(s: &mut Src) -> (Rational, Rational) {
    let neg = s.chance(1, 2);
    let (a, b) = if s.chance(1, 2) {
        // consecutive convergents of a continued fraction
        let (mut p, mut p0, mut q, mut q0) = (s.int(0, 9) as i128, 1i128, 1i128, 0i128);
        for _ in 0..s.range(1, 40) {
            let k = if s.chance(1, 6) { s.int(1, 100_000) } else { s.int(1, 4) } as i128;
            let (p2, q2) = (k * p + p0, k * q + q0);
            if p2.max(q2) > MX || (p2 * q).max(p * q2) > MX { break; }
            (p, p0, q, q0) = (p2, p, q2, q);
        }
        if q0 == 0 { (mkrat(p as i64, q as i64), mkrat(p as i64 + 1, q as i64)) } else { (mkrat(p as i64, q as i64), mkrat(p0 as i64, q0 as i64)) }
    } else {
        let (u, v) = (s.range(1, 30), s.range(1, 30));
        let (d, e) = (s.int(1, 1 << u) as i128, s.int(1, 1 << v) as i128);
        let x = s.int(0, (MX / d.max(e)) as i64 - 8) as i128;
        let y = (x * e / d + s.int(-1, 2) as i128).min(MX / d);
        (mkrat(x as i64, d as i64), mkrat(y as i64, e as i64))
    };
    let (a, b) = if s.chance(1, 2) { (b, a) } else { (a, b) };
    if neg { (mkrat(-a.numer.0, a.denom.0), mkrat(-b.numer.0, b.denom.0)) } else { (a, b) }
}
fn c03_order(cx: &mut Cx) -> R {
    let (mut a, mut b) = operands(cx);
    match cx.s.weighted(&[6, 2, 3]) {
        1 => { // a neighbour of a
            let k = cx.s.int(1, 40);
            let x = q(&a);
            if x.n.abs() < 1 << 40 && x.d < 1 << 40 { b = mkrat((x.n as i64) * k + cx.s.int(-1, 1), (x.d as i64) * k + cx.s.int(0, 1)); cx.label("close"); }
        }
        2 => { (a, b) = close_pair(&mut cx.s); cx.label("as close as possible"); }
        _ => (),
    }
    let (x, y) = (q(&a), q(&b));
    if (x.n * y.d).abs() > MX || (y.n * x.d).abs() > MX { return discard("cross products exceed 64 bits"); }
    cx.note(|| format!("a={x:?} b={y:?}"));
    let o = x.cmp(&y);
    let (c, p, rel, mm) = cx.call("cmp", || (a.cmp(&b), a.partial_cmp(&b), [a < b, a <= b, a > b, a >= b, a == b], (a.max(b), a.min(b))))?;
    ensure!(c == o && p == Some(o), "cmp({x:?}, {y:?}) = {c:?}, partial_cmp {p:?}, should be {o:?}");
    ensure!(rel == [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq()], "relations of {x:?} and {y:?}: {rel:?}");
    ensure!(q(&mm.0) == if o.is_gt() { x } else { y } && q(&mm.1) == if o.is_gt() { y } else { x }, "max/min of {x:?} and {y:?}");
    cx.nt(x.d > 1 && y.d > 1 && !o.is_eq());
    cx.label_if(x.sgn() < 0 && y.sgn() < 0, "both negative");
    // translation and scaling
    let k = mkrat(cx.s.int(-9, 9), cx.s.int(1, 9));
    let small = |r: &Q| r.n.abs() < 1 << 24 && r.d < 1 << 24;
    if small(&x) && small(&y) {
        let (s, t) = cx.call("cmp", || ((a + k).cmp(&(b + k)), (a * k).cmp(&(b * k))))?;
        ensure!(s == o, "adding {:?} changes the order of {x:?} and {y:?}", q(&k));
        let e = match q(&k).sgn() { 1 => o, -1 => o.reverse(), _ => Ordering::Equal };
        ensure!(t == e, "multiplying by {:?}: order of {x:?}, {y:?} becomes {t:?}", q(&k));
        cx.label("compatibility");
    }
    Ok(())
}
fn c03_sort(cx: &mut Cx) -> R {
    let n = cx.s.len(2, 9, 60, 600);
    let v: Vec<Rational> = (0..n).map(|_| match cx.s.weighted(&[3, 1, 1]) { 0 => mkrat(cx.s.int(-20, 20), cx.s.int(1, 20)), 1 => mkrat(cx.s.int(-(1 << 31) + 1, (1 << 31) - 1), cx.s.int(1, (1 << 31) - 1)), _ => mkrat(cx.s.int(-2, 2), 1) }).collect();
    let mut e: Vec<Q> = v.iter().map(q).collect();
    cx.note(|| format!("{e:?}"));
    e.sort_by(|a, b| a.cmp(b));
    let (s, mx, mn) = cx.call("sort", || { let mut w = v.clone(); w.sort(); (w, v.iter().max().copied(), v.iter().min().copied()) })?;
    ensure!(s.iter().map(q).collect::<Vec<_>>() == e, "sorting gives {:?}", s.iter().map(q).collect::<Vec<_>>());
    ensure!(q(&mx.unwrap()) == e[n - 1] && q(&mn.unwrap()) == e[0], "max/min of a list");
    cx.nt(n > 2);
    Ok(())
}

// ---- C04 --------------------------------------------------------------------------------------
fn ipair(cx: &mut Cx) -> (i64, i64) {
    match cx.s.weighted(&[3, 3, 2, 1]) {
        0 => (cx.s.int(-100, 100), cx.s.int(-100, 100)),
        1 => { let g = cx.s.int(1, 1 << 20); (g * cx.s.int(-(1 << 20), 1 << 20), g * cx.s.int(-(1 << 20), 1 << 20)) }
        2 => (cx.s.int(-i64::MAX, i64::MAX), cx.s.int(-i64::MAX, i64::MAX)),
        _ => { let a = cx.s.int(-i64::MAX, i64::MAX); let k = cx.s.int(1, 1000); (a, a / k) }
    }
}
fn c04_gcd(cx: &mut Cx) -> R {
    let (a, b) = ipair(cx);
    cx.note(|| format!("a={a} b={b}"));
    let g = gcd128(a as i128, b as i128);
    let v = cx.call("gcd", || [Integer::gcd(Integer(a), Integer(b)), Integer::gcd(Integer(b), Integer(a)), Integer::gcd(Integer(-a), Integer(b)), Integer::gcd(Integer(a), Integer(-b)), Integer::gcd(Integer(-a), Integer(-b))])?;
    for r in v { ensure!(r.0 as i128 == g, "gcd of +-{a}, +-{b} is {r}, should be {g}"); }
    cx.nt(g > 1);
    cx.label_if(a == 0 || b == 0, "zero operand");
    let l = if g == 0 { 0 } else { (a as i128 / g * b as i128).abs() };
    if l <= MX {
        let v = cx.call("lcm", || [Integer::lcm(Integer(a), Integer(b)), Integer::lcm(Integer(b), Integer(a)), Integer::lcm(Integer(-a), Integer(b)), Integer::lcm(Integer(a), Integer(-b)), Integer::lcm(Integer(-a), Integer(-b))])?;
        for r in v { ensure!(r.0 as i128 == l, "lcm of +-{a}, +-{b} is {r}, should be {l}"); }
        cx.label("lcm");
    }
    Ok(())
}
fn c04_ops(cx: &mut Cx) -> R {
    let (a, b) = ipair(cx);
    cx.note(|| format!("a={a} b={b}"));
    let (x, y) = (Integer(a), Integer(b));
    let (p, r) = (a as i128, b as i128);
    let chk = |v: i128| v.abs() <= MX;
    if chk(p + r) { let s = cx.call("+", || x + y)?; ensure!(s.0 as i128 == p + r, "{a} + {b} = {s}"); }
    if chk(p - r) { let s = cx.call("-", || x - y)?; ensure!(s.0 as i128 == p - r, "{a} - {b} = {s}"); }
    if chk(p * r) { let s = cx.call("*", || x * y)?; ensure!(s.0 as i128 == p * r, "{a} * {b} = {s}"); cx.nt(p * r != 0); }
    if b != 0 {
        let (d, m) = cx.call("/ %", || (x / y, x % y))?;
        ensure!(d.0 as i128 == p / r && m.0 as i128 == p % r, "{a} / {b} = {d}, {a} % {b} = {m}");
    } else {
        cx.must_panic("a / 0", || x / y)?;
        cx.must_panic("a % 0", || x % y)?;
    }
    let (n, ab, sg, ps, ng) = cx.call("unary", || (-x, x.abs(), x.sgn(), x.is_pos(), x.is_neg()))?;
    ensure!(n.0 == -a && ab.0 == a.abs() && sg.0 == a.signum() && ps == (a > 0) && ng == (a < 0), "neg/abs/sgn/is_pos/is_neg of {a}: {n} {ab} {sg} {ps} {ng}");
    let (c, e, z, o, f, dflt) = cx.call("cmp", || (x.cmp(&y), x == y, x.is_zero(), x.is_one(), Integer::from(a), Integer::default()))?;
    ensure!(c == a.cmp(&b) && e == (a == b) && z == (a == 0) && o == (a == 1) && f.0 == a && dflt.0 == 0, "comparison, zero/one tests or conversion of {a}, {b}");
    let (base, k) = if cx.s.chance(1, 2) { (cx.s.int(-12, 12), cx.s.int(0, 62)) } else { (a, cx.s.int(0, 4)) };
    if let Some(v) = (0..k).try_fold(1i128, |s, _| s.checked_mul(base as i128).filter(|v| chk(*v))) {
        let r = cx.call("pow", || Integer(base).pow(Integer(k)))?;
        ensure!(r.0 as i128 == v, "{base}^{k} = {r}, should be {v}");
        cx.label("pow");
    }
    let unit = cx.s.int(-1, 1);
    let k = cx.s.int(0, u32::MAX as i64);
    let r = cx.call("pow", || Integer(unit).pow(Integer(k)))?;
    ensure!(r.0 == if k == 0 { 1 } else if k % 2 == 0 { unit * unit } else { unit }, "{unit}^{k} = {r}");
    Ok(())
}
fn c04_laws(cx: &mut Cx) -> R {
    // definition of gcd/lcm by search, small operands
    let (a, b) = (cx.s.int(-60, 60), cx.s.int(-60, 60));
    cx.note(|| format!("a={a} b={b}"));
    let div = |d: i64, n: i64| if d == 0 { n == 0 } else { n % d == 0 };
    let g = if a == 0 && b == 0 { 0 } else { (1..=120).rev().find(|d| div(*d, a) && div(*d, b)).unwrap() };
    let l = if a == 0 || b == 0 { 0 } else { (1..=3600).find(|m| div(a, *m) && div(b, *m)).unwrap() };
    let (x, y) = cx.call("gcd/lcm", || (Integer::gcd(Integer(a), Integer(b)), Integer::lcm(Integer(a), Integer(b))))?;
    ensure!(x.0 == g, "gcd({a},{b}) = {x}, should be {g}");
    ensure!(y.0 == l, "lcm({a},{b}) = {y}, should be {l}");
    cx.nt(g > 1);
    cx.label_if((a < 0) != (b < 0), "mixed signs");
    Ok(())
}

// ---- floats ----------------------------------------------------------------------------------
fn flt(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 2, 2, 1]) {
        0 => s.int(-20, 20) as f64,
        1 => s.int(-100000, 100000) as f64 / *s.pick(&[3.0, 7.0, 10.0, 1000.0, 1e7]),
        2 => s.int(-1000, 1000) as f64 * 2f64.powi(s.int(-60, 60) as i32),
        3 => { let b = (s.below(1 << 32) << 32) | s.below(1 << 32); let f = f64::from_bits(b); if f.is_finite() { f } else { 0.5 } }
        _ => *s.pick(&[0.0, -0.0, f64::EPSILON, -f64::EPSILON, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 1.0, -1.0]),
    }
}
fn flt32(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 2, 2, 1]) {
        0 => s.int(-20, 20) as f32,
        1 => s.int(-100000, 100000) as f32 / *s.pick(&[3.0, 7.0, 10.0, 1000.0]),
        2 => s.int(-1000, 1000) as f32 * 2f32.powi(s.int(-30, 30) as i32),
        3 => { let f = f32::from_bits(s.below(1 << 32) as u32); if f.is_finite() { f } else { 0.5 } }
        _ => *s.pick(&[0.0, -0.0, f32::EPSILON, -f32::EPSILON, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, 1.0, -1.0]),
    }
}

// ---- C05 --------------------------------------------------------------------------------------
fn size_key(r: &Rational) -> i128 { let v = q(r); if v.is_zero() { i128::MIN } else { -(v.n.abs() + v.d) } }
fn c05_rat(cx: &mut Cx) -> R {
    let g = |s: &mut Src| match s.weighted(&[3, 2, 1, 2]) { 0 => mkrat(s.int(-6, 6), s.int(1, 6)), 1 => mkrat(s.int(-(1 << 40), 1 << 40), s.int(1, 1 << 40)), 2 => mkrat(0, 1), _ => { let d = s.int(1, (1 << 62) - 8); let n = s.int(-(1 << 62), 1 << 62); if s.chance(1, 2) { mkrat(n, s.int(1, 4)) } else if s.chance(1, 2) { mkrat(s.int(-4, 4), d) } else { mkrat(n, d) } } };
    let a = g(&mut cx.s);
    let b = if cx.s.chance(1, 3) {
        // a sum of numerator and denominator next to (or at) that of the other
        let t = a.numer.0.abs() + a.denom.0 + cx.s.int(-3, 3);
        let d = if cx.s.chance(1, 2) { cx.s.int(1, 5) } else { cx.s.int(1, t.max(1)) };
        let n = (t - d).max(0);
        mkrat(if cx.s.chance(1, 2) { -n } else { n }, d)
    } else { g(&mut cx.s) };
    cx.note(|| format!("a={:?} b={:?}", q(&a), q(&b)));
    let (o, p) = cx.call("stability_cmp", || (a.stability_cmp(&b), b.stability_cmp(&a)))?;
    let e = size_key(&a).cmp(&size_key(&b));
    ensure!(o == Some(e), "stability_cmp({:?}, {:?}) = {o:?}, should be {e:?}", q(&a), q(&b));
    ensure!(p == Some(e.reverse()), "stability_cmp not antisymmetric on {:?}, {:?}", q(&a), q(&b));
    cx.nt(a != b);
    cx.label_if(a.numer.0 == 0 && b.numer.0 == 0, "both zero");
    cx.label_if(a.numer.0 == 0 || b.numer.0 == 0, "zero");
    Ok(())
}
fn c05_float(cx: &mut Cx) -> R {
    let (a, b) = (flt(&mut cx.s), flt(&mut cx.s));
    let (c, d) = (flt32(&mut cx.s), flt32(&mut cx.s));
    cx.note(|| format!("f64 {a:e} {b:e}, f32 {c:e} {d:e}"));
    let (o, p) = cx.call("stability_cmp", || (a.stability_cmp(&b), c.stability_cmp(&d)))?;
    ensure!(o == a.abs().partial_cmp(&b.abs()), "stability_cmp({a:e}, {b:e}) = {o:?}");
    ensure!(p == c.abs().partial_cmp(&d.abs()), "stability_cmp({c:e}, {d:e}) = {p:?}");
    let z = cx.call("stability_cmp", || (0f64.stability_cmp(&a), (-0f64).stability_cmp(&0f64), c.stability_cmp(&0f32)))?;
    ensure!(z.0 == Some(if a == 0.0 { Ordering::Equal } else { Ordering::Less }) && z.1 == Some(Ordering::Equal) && z.2 == Some(if c == 0.0 { Ordering::Equal } else { Ordering::Greater }), "zero not strictly least: {z:?}");
    cx.nt(a != b);
    cx.label_if((a < 0.0) != (b < 0.0), "mixed signs");
    Ok(())
}
/// the pivot search, with `key` the rank of an entry and `zero` the (epsilon) zero test
fn pivot<F: Coef + StabilityCmp + EpsilonEquality>(cx: &mut Cx, m: Mat<F>, better: impl Fn(&F, &F) -> bool, zero: impl Fn(&F) -> Option<bool>) -> R {
    let (rows, cols) = (m.rows(), m.cols());
    let (c, r) = (cx.s.idx(cols), cx.s.idx(rows));
    cx.note(|| format!("{} column {c} from row {r}", showmat(&m)));
    let got = cx.call("get_stable_column_index_under_row", || m.get_stable_column_index_under_row(c, r))?;
    let col: Vec<F> = (r..rows).map(|i| m.entries()[i * cols + c]).collect();
    let zs: Vec<Option<bool>> = col.iter().map(&zero).collect();
    match got {
        Some((i, v)) => {
            ensure!(i >= r && i < rows, "row {i} is not in {r}..{rows}");
            ensure!(m.entries()[i * cols + c] == v, "value {v:?} is not the entry of row {i}");
            ensure!(zero(&v) != Some(true), "picked zero {v:?}");
            for w in &col { ensure!(!better(w, &v), "entry {w:?} outranks the pick {v:?}"); }
            cx.nt(col.len() > 1);
            cx.label_if(r > 0, "from a later row");
            cx.label_if(col.iter().any(|w| *w == F::ZERO), "zeros present");
        }
        None => { ensure!(zs.iter().all(|z| *z != Some(false)), "none, but the entries {col:?} are not all zero"); cx.label("none"); }
    }
    Ok(())
}
fn c05_pivot_rat(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 6, 40);
    let m = matrix::<Rational>(&mut cx.s, r, c, |s| if s.chance(1, 3) { mkrat(0, 1) } else { Rational::gen(s) });
    cx.overflow_ok = true;
    pivot(cx, m, |a, b| size_key(a) > size_key(b), |a| Some(a.numer.0 == 0))
}
fn c05_pivot_f64(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 6, 40);
    let e = (0..r * c).map(|_| match cx.s.weighted(&[3, 3, 1]) { 0 => 0.0, 1 => flt(&mut cx.s), _ => cx.s.int(-8, 8) as f64 * f64::EPSILON / 4.0 }).collect();
    pivot(cx, mk(r, c, e), |a: &f64, b: &f64| a.abs() > b.abs(), |a| if a.abs() < f64::EPSILON { Some(true) } else { Some(false) })
}
fn c05_pivot_f32(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 6, 40);
    let e = (0..r * c).map(|_| match cx.s.weighted(&[3, 3, 1]) { 0 => 0.0, 1 => flt32(&mut cx.s), _ => cx.s.int(-8, 8) as f32 * f32::EPSILON / 4.0 }).collect();
    pivot(cx, mk(r, c, e), |a: &f32, b: &f32| a.abs() > b.abs(), |a| if a.abs() < f32::EPSILON { Some(true) } else { Some(false) })
}
fn c05_pivot_fp(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 6, 60);
    let m = matrix::<F7>(&mut cx.s, r, c, |s| if s.chance(1, 3) { Fp(0) } else { F7::gen(s) });
    pivot(cx, m, |a, b| a.stability_cmp(b) == Some(Ordering::Greater), |a| Some(a.0 == 0))
}

// ---- C28 --------------------------------------------------------------------------------------
/// is the rounded difference the difference (two-sum)?
fn exact_diff(a: f64, b: f64) -> bool { let d = a - b; let bb = a - d; d.is_finite() && bb.is_finite() && (a - (d + bb)) + (bb - b) == 0.0 && bb == b && d + bb == a }
fn c28_scalar(cx: &mut Cx) -> R {
    let a = flt(&mut cx.s);
    let b = match cx.s.weighted(&[2, 3, 1]) { 0 => flt(&mut cx.s), 1 => a + cx.s.int(-16, 16) as f64 * f64::EPSILON / 8.0, _ => a };
    let c = flt32(&mut cx.s);
    let d = match cx.s.weighted(&[2, 3, 1]) { 0 => flt32(&mut cx.s), 1 => c + cx.s.int(-16, 16) as f32 * f32::EPSILON / 8.0, _ => c };
    cx.note(|| format!("f64 {a:e} {b:e}, f32 {c:e} {d:e}"));
    let v = cx.call("epsilon_equals", || (a.epsilon_equals(&b), b.epsilon_equals(&a), a.epsilon_equals(&a), c.epsilon_equals(&d), d.epsilon_equals(&c), c.epsilon_equals(&c)))?;
    ensure!(v.2 && v.5, "not reflexive");
    ensure!(v.0 == v.1 && v.3 == v.4, "not symmetric");
    let (x, y) = ((a - b).abs(), (c - d).abs());
    // one rounding of slack around the threshold
    if x <= f64::EPSILON * 0.99 { ensure!(v.0, "{a:e} and {b:e} differ by {x:e} but are not epsilon-equal"); cx.label("equal"); }
    if x >= f64::EPSILON * 1.01 { ensure!(!v.0, "{a:e} and {b:e} differ by {x:e} but are epsilon-equal"); cx.label("unequal"); }
    if y <= f32::EPSILON * 0.99 { ensure!(v.3, "{c:e} and {d:e} differ by {y:e} but are not epsilon-equal"); }
    if y >= f32::EPSILON * 1.01 { ensure!(!v.3, "{c:e} and {d:e} differ by {y:e} but are epsilon-equal"); }
    // wherever the difference itself is exact, so is the threshold
    if exact_diff(a, b) { ensure!(v.0 == (x < f64::EPSILON), "{a:e} and {b:e} differ by exactly {x:e}, but epsilon_equals is {}", v.0); cx.label("exact difference"); }
    if (c as f64 - d as f64).abs() == y as f64 && exact_diff(c as f64, d as f64) { ensure!(v.3 == (y < f32::EPSILON), "{c:e} and {d:e} differ by exactly {y:e}, but epsilon_equals is {}", v.3); }
    cx.label_if(x == f64::EPSILON, "exactly epsilon");
    cx.nt(a != b);
    let (r, t) = if cx.s.chance(1, 2) {
        (mkrat(cx.s.int(-20, 20), cx.s.int(1, 20)), mkrat(cx.s.int(-20, 20), cx.s.int(1, 20)))
    } else { // neighbours of any size
        let (i, j) = (cx.s.range(1, 62), cx.s.range(0, 62));
        let (n, d) = (cx.s.int(1 << (i - 1), (1 << i) - 1), cx.s.int(1 << j >> 1, (1 << j) - 1).max(1));
        let n = if cx.s.chance(1, 2) { n } else { -n };
        let (x, y) = if cx.s.chance(1, 2) { (n + cx.s.int(-2, 2), d) } else { (n, (d + cx.s.int(-2, 2)).max(1)) };
        (mkrat(n, d), mkrat(x, y))
    };
    cx.note(|| format!("rationals {:?} {:?}", q(&r), q(&t)));
    cx.overflow_ok = true;
    let w = cx.call("epsilon_equals", || (r.epsilon_equals(&t), r.epsilon_equals(&r)))?;
    ensure!(w.0 == (q(&r) == q(&t)) && w.1, "rational epsilon equality of {:?}, {:?}", q(&r), q(&t));
    Ok(())
}
fn c28_mat(cx: &mut Cx) -> R {
    cx.overflow_ok = true;
    let (r, c) = dims(&mut cx.s, 5, 30);
    let a = matrix::<Rational>(&mut cx.s, r, c, |s| mkrat(s.int(-9, 9), s.int(1, 6)));
    let mut e = a.entries().to_vec();
    let k = cx.s.range(0, 2);
    for _ in 0..k { let i = cx.s.idx(r * c); e[i] = mkrat(cx.s.int(-9, 9), cx.s.int(1, 6)); }
    let b = mk(r, c, e);
    cx.note(|| format!("{} vs {}", showmat(&a), showmat(&b)));
    let same = mat_of(&a)? == mat_of(&b)?;
    let v = cx.call("epsilon_equals", || (a.epsilon_equals(&b), b.epsilon_equals(&a), a.epsilon_equals(&a)))?;
    ensure!(v.0 == same && v.1 == same && v.2, "epsilon_equals says {:?}, matrices equal: {same}", v);
    cx.nt(k > 0);
    cx.label_if(!same, "differ");
    Ok(())
}
fn c28_matf(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 5, 20);
    let a: Vec<f64> = (0..r * c).map(|_| cx.s.int(-100, 100) as f64 / 8.0).collect();
    let mut b = a.clone();
    let mut b32: Vec<f32> = a.iter().map(|x| *x as f32).collect();
    for _ in 0..cx.s.range(0, 3) {
        let i = cx.s.idx(r * c);
        let d = cx.s.int(-16, 16) as f64 * *cx.s.pick(&[1e-9, 1e-8, 1e-7, 1e-3, 1.0]);
        b[i] += d;
        b32[i] += d as f32 * 1e4;
    }
    let a32: Vec<f32> = a.iter().map(|x| *x as f32).collect();
    let s: f64 = a.iter().zip(&b).map(|(x, y)| (x - y) * (x - y)).sum();
    let s32: f64 = a32.iter().zip(&b32).map(|(x, y)| (*x as f64 - *y as f64).powi(2)).sum();
    let (ma, mb) = (mk(r, c, a), mk(r, c, b));
    let (na, nb) = (mk(r, c, a32), mk(r, c, b32));
    cx.note(|| format!("{}x{} sum of squared differences {s:e} (f32 {s32:e})", r, c));
    let v = cx.call("epsilon_equals", || (ma.epsilon_equals(&mb), mb.epsilon_equals(&ma), ma.epsilon_equals(&ma), na.epsilon_equals(&nb), nb.epsilon_equals(&na)))?;
    ensure!(v.2, "not reflexive");
    ensure!(v.0 == v.1 && v.3 == v.4, "not symmetric");
    if s <= f64::EPSILON * 0.9 { ensure!(v.0, "difference {s:e} but not epsilon-equal"); cx.label("equal"); }
    if s >= f64::EPSILON * 1.1 { ensure!(!v.0, "difference {s:e} but epsilon-equal"); cx.label("unequal"); }
    if s32 <= f32::EPSILON as f64 * 0.9 { ensure!(v.3, "f32 difference {s32:e} but not epsilon-equal"); }
    if s32 >= f32::EPSILON as f64 * 1.1 { ensure!(!v.3, "f32 difference {s32:e} but epsilon-equal"); }
    cx.nt(s > 0.0);
    Ok(())
}
fn c28_tri<F: Coef>(cx: &mut Cx) -> R {
    let (r, c) = dims(&mut cx.s, 6, 40);
    let keep = cx.s.weighted(&[3, 3, 2, 1, 1]); // 0 upper 1 lower 2 diagonal 3 anything 4 zero
    let mut e = vec![F::ZERO; r * c];
    for i in 0..r { for j in 0..c {
        let on = match keep { 0 => j >= i, 1 => j <= i, 2 => i == j, 3 => true, _ => false };
        if on { e[i * c + j] = F::gen(&mut cx.s); }
    } }
    // at most one entry that may spoil it
    if cx.s.chance(1, 2) { let i = cx.s.idx(r * c); e[i] = F::gen(&mut cx.s); }
    let m = mk(r, c, e.clone());
    cx.note(|| showmat(&m));
    let up = (0..r).all(|i| (0..c).all(|j| j >= i || e[i * c + j].r().is_zero()));
    let lo = (0..r).all(|i| (0..c).all(|j| j <= i || e[i * c + j].r().is_zero()));
    let v = cx.call("is_triangular", || (m.is_upper_triangular(), m.is_lower_triangular()))?;
    ensure!(v.0 == up, "is_upper_triangular says {}", v.0);
    ensure!(v.1 == lo, "is_lower_triangular says {}", v.1);
    cx.nt(r > 1 && c > 1);
    cx.label_if(up && !lo, "upper");
    cx.label_if(lo && !up, "lower");
    cx.label_if(!lo && !up, "neither");
    cx.label_if(r > c, "tall");
    cx.label_if(r < c, "wide");
    Ok(())
}

// ---- C32 --------------------------------------------------------------------------------------
fn c32_rat(cx: &mut Cx) -> R {
    let a = mkrat(cx.s.int(-2000, 2000), cx.s.int(1, 2000));
    let x = q(&a);
    let e = if x.n.abs() <= 1 && x.d == 1 { cx.s.int(i32::MIN as i64, i32::MAX as i64) } else { cx.s.int(-5, 5) } as i32;
    cx.note(|| format!("{x:?} exponent {e}"));
    let v = cx.call("identities", || (a + Rational::ZERO, Rational::ZERO + a, a * Rational::ONE, Rational::ONE * a, a * Rational::ZERO, a.is_zero(), a.is_one(), Rational::ZERO.is_zero(), Rational::ONE.is_one(), Rational::ONE.is_zero(), Rational::ZERO.is_one()))?;
    ensure!([v.0, v.1, v.2, v.3].iter().all(|r| *r == a) && v.4 == Rational::ZERO, "identities fail for {x:?}");
    ensure!(v.5 == x.is_zero() && v.6 == (x == Q::one()) && v.7 && v.8 && !v.9 && !v.10, "zero/one tests fail for {x:?}");
    let c = rat(&mut cx.s);
    cx.note(|| format!("identities with {:?}", q(&c)));
    let v = cx.call("identities", || (c + Rational::ZERO, Rational::ZERO + c, c * Rational::ONE, Rational::ONE * c, c * Rational::ZERO, c.is_zero(), c.is_one(), Integer::is_zero(&c.numer), Integer::is_one(&c.numer)))?;
    ensure!([v.0, v.1, v.2, v.3].iter().all(|r| *r == c) && v.4 == Rational::ZERO, "identities fail for {:?}", q(&c));
    ensure!(v.5 == q(&c).is_zero() && v.6 == (q(&c) == Q::one()) && v.7 == (q(&c).n == 0) && v.8 == (q(&c).n == 1), "zero/one tests fail for {:?}", q(&c));
    if !x.is_zero() {
        let b = mkrat(cx.s.int(-2000, 2000), cx.s.int(1, 2000));
        let w = cx.call("inv", || (a * Field::inv(a), Field::inv(a), Rational::ONE / a, b / a, b * Field::inv(a)))?;
        ensure!(w.0 == Rational::ONE && w.1 == w.2 && w.3 == w.4, "inverse of {x:?}");
    }
    if x.is_zero() && e < 0 { cx.must_panic("0^e", || a.powi32(e))?; }
    else {
        let m = x.n.abs().max(x.d);
        if m == 1 {
            let p = cx.call("powi32", || a.powi32(e))?;
            ensure!(q(&p) == if e == 0 { Q::one() } else if e % 2 == 0 { x.mul(&x) } else { x }, "powi32({x:?}, {e}) = {}/{}", p.numer, p.denom);
        } else if m.pow(e.unsigned_abs()) <= MX {
            let p = cx.call("powi32", || a.powi32(e))?;
            let base = if e < 0 { x.inv() } else { x };
            ensure!(q(&p) == base.pow(e.unsigned_abs()), "powi32({x:?}, {e}) = {}/{}", p.numer, p.denom);
            cx.nt(e != 0 && e != 1);
        }
    }
    Ok(())
}
macro_rules! c32_float {
    ($name:ident, $t:ty, $gen:ident, $lo:expr, $hi:expr) => {
        fn $name(cx: &mut Cx) -> R {
            let a: $t = $gen(&mut cx.s);
            let e = match cx.s.weighted(&[6, 5, 1]) { 0 => cx.s.int(-6, 6), 1 => cx.s.int(-60, 60), _ => cx.s.int(-1200, 1200) } as i32;
            let a = if e.abs() > 60 { let d = cx.s.int(-2000, 2000); (1.0 + d as f64 / 40000.0) as $t * if a < 0.0 { -1.0 } else { 1.0 } } else { a };
            cx.note(|| format!("{a:e} exponent {e}"));
            let u: $t = *cx.s.pick(&[0.0, 1.0, -1.0]);
            let big = cx.s.int(if u == 0.0 { 0 } else { i32::MIN as i64 }, i32::MAX as i64) as i32;
            let r = cx.call("powi32", || u.powi32(big))?;
            ensure!(r == if big == 0 { 1.0 } else if big % 2 == 0 { u * u } else { u }, "powi32({u:e}, {big}) = {r:e}");
            let v = cx.call("identities", || (a + <$t>::ZERO, a * <$t>::ONE, a.is_zero(), a.is_one(), <$t>::ZERO, <$t>::ONE))?;
            ensure!(v.0 == a && v.1 == a && v.2 == (a == 0.0) && v.3 == (a == 1.0) && v.4 == 0.0 && v.5 == 1.0, "zero/one of {a:e}");
            let eps = <$t>::EPSILON;
            if a.abs() > $lo && a.abs() < $hi {
                let i = cx.call("inv", || Field::inv(a))?;
                ensure!((i * a - 1.0).abs() <= 4.0 * eps, "inv({a:e}) = {i:e}");
                cx.nt(a != 1.0);
            }
            let mut p: f64 = 1.0;
            for _ in 0..e.unsigned_abs() { p *= a as f64; }
            if e < 0 { p = 1.0 / p; }
            let pa = p.abs();
            if (a != 0.0 || e >= 0) && (e == 0 || (pa > $lo as f64 && pa < $hi as f64) ) {
                let r = cx.call("powi32", || a.powi32(e))?;
                ensure!((r as f64 - p).abs() <= (e.unsigned_abs() as f64 + 4.0) * 4.0 * eps as f64 * pa, "powi32({a:e}, {e}) = {r:e}, should be {p:e}");
                cx.label("power");
            }
            Ok(())
        }
    };
}
c32_float!(c32_f64, f64, flt, 1e-290, 1e290);
c32_float!(c32_f32, f32, flt32, 1e-30, 1e30);
macro_rules! prim {
    ($cx:expr, $v:expr, $($t:ty)*) => { $(
        let x = $v as $t;
        ensure!(<$t as Zero>::ZERO == 0 as $t && <$t as One>::ONE == 1 as $t, "ZERO/ONE of {}", stringify!($t));
        ensure!(Zero::is_zero(&x) == (x == 0 as $t), "is_zero({x}) of {}", stringify!($t));
        ensure!(One::is_one(&x) == (x == 1 as $t), "is_one({x}) of {}", stringify!($t));
    )* };
}
fn c32_prim(cx: &mut Cx) -> R {
    let v = match cx.s.weighted(&[2, 1]) { 0 => cx.s.int(-3, 3), _ => cx.s.int(i64::MIN + 1, i64::MAX) };
    cx.note(|| format!("{v}"));
    prim!(cx, v, usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128 f32 f64);
    // not only whole or 64-bit values
    let k = *cx.s.pick(&[2i64, 3, 1000, 1 << 40]);
    prim!(cx, v as f64 / k as f64, f32 f64);
    let sh = cx.s.range(1, 64);
    prim!(cx, (v as i128) << sh, i128 u128);
    prim!(cx, v >> (sh % 64), usize u8 u16 u32 u64 isize i8 i16 i32 i64);
    let x = Integer(v);
    ensure!(x.is_zero() == (v == 0) && x.is_one() == (v == 1) && Integer::ZERO.0 == 0 && Integer::ONE.0 == 1, "zero/one of Integer {v}");
    cx.nt(v != 0);
    Ok(())
}
fn c32_default_inv(cx: &mut Cx) -> R {
    // the default method of the field interface, through a field that does not override it
    let a = F101::gen_nz(&mut cx.s);
    let b = F101::gen(&mut cx.s);
    cx.note(|| format!("{a} {b}"));
    let i = cx.call("default inv", || Field::inv(a))?;
    ensure!(i == Fp(1) / a && i * a == Fp(1) && b / a == b * i, "default inverse of {a} is {i}");
    cx.nt(a.0 > 1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "random histories of rational operations over a growing pool (operands up to 63 bits where the cross products fit), and the same number computed by many routes; non-trivial: an operation produced a value with denominator > 1 (histories), both operands non-integers (routes)",
            subs: vec![Sub { name: "history", cases: 1_500_000, run: c01_history }, Sub { name: "routes", cases: 1_500_000, run: c01_routes }] },
        Prop { id: "C02", rule: "random operand pairs (independent, equal, opposite, sharing denominators; up to 63 bits within the cross-product bound), powers, folds (up to 600 summands) and zero divisors against exact i128 rationals; non-trivial: some operand is not an integer, negative exponent or base, two or more summands",
            subs: vec![Sub { name: "ops", cases: 4_000_000, run: c02_ops }, Sub { name: "pow", cases: 3_000_000, run: c02_pow }, Sub { name: "fold", cases: 800_000, run: c02_fold }, Sub { name: "reject", cases: 100_000, run: c02_reject }, Sub { name: "large_fold", cases: 5_000, run: large!(c02_fold) }, Sub { name: "large_vast_fold", cases: 3000, run: vast!(c02_fold) }, Sub { name: "large_giant_fold", cases: 100, run: giant!(c02_fold) }] },
        Prop { id: "C03", rule: "random pairs (independent, close neighbours, equal), lists (up to 600 elements), shifts and scalings against exact comparison; non-trivial: both non-integers and different (pairs), more than two elements (lists)",
            subs: vec![Sub { name: "order", cases: 5_000_000, run: c03_order }, Sub { name: "sort", cases: 600_000, run: c03_sort }, Sub { name: "large_sort", cases: 5_000, run: large!(c03_sort) }, Sub { name: "large_vast_sort", cases: 3000, run: vast!(c03_sort) }, Sub { name: "large_giant_sort", cases: 60, run: giant!(c03_sort) }] },
        Prop { id: "C04", rule: "random integer pairs (small, sharing a factor, full range, multiples) against i128 arithmetic and, for small ones, the definition by search; non-trivial: gcd > 1 resp. nonzero product",
            subs: vec![Sub { name: "gcd_lcm", cases: 5_000_000, run: c04_gcd }, Sub { name: "ops", cases: 5_000_000, run: c04_ops }, Sub { name: "definition", cases: 300_000, run: c04_laws }] },
        Prop { id: "C05", rule: "random value pairs against the documented ranking; random structured matrices (some up to 290 rows or columns), columns and start rows for the pivot search; non-trivial: values differ resp. a pivot among several candidates",
            subs: vec![Sub { name: "rational", cases: 3_000_000, run: c05_rat }, Sub { name: "float", cases: 4_000_000, run: c05_float }, Sub { name: "pivot_rational", cases: 1_000_000, run: c05_pivot_rat }, Sub { name: "pivot_f64", cases: 1_000_000, run: c05_pivot_f64 }, Sub { name: "pivot_f32", cases: 500_000, run: c05_pivot_f32 }, Sub { name: "pivot_fp", cases: 1_000_000, run: c05_pivot_fp }, Sub { name: "large_rational", cases: 4_000, run: large!(c05_pivot_rat) }, Sub { name: "large_vast_rational", cases: 2000, run: vast!(c05_pivot_rat) }, Sub { name: "large_giant_rational", cases: 100, run: giant!(c05_pivot_rat) }, Sub { name: "large_f64", cases: 4_000, run: large!(c05_pivot_f64) }, Sub { name: "large_vast_f64", cases: 2000, run: vast!(c05_pivot_f64) }, Sub { name: "large_giant_f64", cases: 100, run: giant!(c05_pivot_f64) }, Sub { name: "large_fp", cases: 4_000, run: large!(c05_pivot_fp) }] },
        Prop { id: "C28", rule: "random value and matrix pairs, equal, differing in one place or by amounts around the threshold; random triangular and nearly triangular matrices of all shapes, some up to 290 rows or columns; non-trivial: a difference was introduced, at least 2x2",
            subs: vec![Sub { name: "scalar", cases: 3_000_000, run: c28_scalar }, Sub { name: "matrix_rational", cases: 600_000, run: c28_mat }, Sub { name: "matrix_float", cases: 800_000, run: c28_matf }, Sub { name: "triangular_fp", cases: 1_000_000, run: c28_tri::<F7> }, Sub { name: "triangular_rational", cases: 700_000, run: c28_tri::<Rational> }, Sub { name: "triangular_f64", cases: 700_000, run: c28_tri::<f64> }, Sub { name: "large_rational", cases: 3_000, run: large!(c28_mat) }, Sub { name: "large_vast_rational", cases: 1500, run: vast!(c28_mat) }, Sub { name: "large_float", cases: 3_000, run: large!(c28_matf) }, Sub { name: "large_triangular", cases: 4_000, run: large!(c28_tri::<F7>) }, Sub { name: "large_vast_triangular", cases: 3000, run: vast!(c28_tri::<F7>) }, Sub { name: "large_giant_triangular", cases: 100, run: giant!(c28_tri::<F7>) }, Sub { name: "large_triangular_f64", cases: 3_000, run: large!(c28_tri::<f64>) }, Sub { name: "large_vast_triangular_f64", cases: 3000, run: vast!(c28_tri::<f64>) }] },
        Prop { id: "C32", rule: "random values of every number type, exponents -60..60, against exact rationals or repeated multiplication; non-trivial: exponent other than 0 and 1, value other than one",
            subs: vec![Sub { name: "rational", cases: 3_000_000, run: c32_rat }, Sub { name: "f64", cases: 4_000_000, run: c32_f64 }, Sub { name: "f32", cases: 4_000_000, run: c32_f32 }, Sub { name: "primitive", cases: 3_000_000, run: c32_prim }, Sub { name: "default_inverse", cases: 300_000, run: c32_default_inv }] },
    ]
}
