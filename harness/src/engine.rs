//! Choice-sequence property engine: generation, shrinking, statistics, replay.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::OnceLock;

// ---- PRNG ---------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Rng([u64; 4]);
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(bytes: &[u8]) -> u64 {
    bytes.iter().fold(0xcbf29ce484222325, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n]
    pub fn upto(&mut self, n: u64) -> u64 {
        if n == u64::MAX { self.next() } else { ((self.next() as u128 * (n as u128 + 1)) >> 64) as u64 }
    }
}

// ---- dictionary of integer literals in the code under test -------------------------------
pub struct Dict(pub Vec<i64>);
static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let root = std::env::var("ALGEO_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut files = vec![];
        let mut stack = vec![std::path::PathBuf::from(root)];
        while let Some(p) = stack.pop() {
            if p.is_dir() {
                if let Ok(rd) = std::fs::read_dir(&p) {
                    for e in rd.flatten() { stack.push(e.path()); }
                }
            } else if p.extension().map_or(false, |e| e == "rs") { files.push(p); }
        }
        files.sort();
        let mut vals: HashSet<i64> = HashSet::new();
        for f in files {
            let Ok(text) = std::fs::read_to_string(&f) else { continue };
            // unit tests are not part of what is checked; their literals would only dilute
            let text = match text.find("#[cfg(test)]") { Some(i) => text[..i].to_string(), None => text };
            let code: String = text.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
            let b = code.as_bytes();
            let mut i = 0;
            while i < b.len() {
                let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
                if b[i].is_ascii_digit() && !prev_ident {
                    let mut j = i;
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') { j += 1; }
                    let tok: String = code[i..j].chars().filter(|c| *c != '_').collect();
                    let strip = |t: &str| -> String {
                        for s in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "f64", "f32"] {
                            if let Some(x) = t.strip_suffix(s) { return x.to_string(); }
                        }
                        t.to_string()
                    };
                    let t = strip(&tok);
                    let v = if let Some(h) = t.strip_prefix("0x") { i64::from_str_radix(h, 16).ok() }
                        else if let Some(h) = t.strip_prefix("0b") { i64::from_str_radix(h, 2).ok() }
                        else { t.parse::<i64>().ok() };
                    if let Some(v) = v { vals.insert(v); }
                    i = j;
                } else { i += 1; }
            }
        }
        let mut v: Vec<i64> = vals.into_iter().filter(|v| *v > 2).collect();
        v.sort();
        Dict(v)
    })
}

// ---- choice source --------------------------------------------------------------------------
enum Mode { Rand(Rng), Replay(Vec<u64>), Mutated(Vec<Option<u64>>, Rng) }
pub struct Src { mode: Mode, pos: usize, pub rec: Vec<u64>, pub big: bool, pub vast: usize, pub far: bool }
impl Src {
    fn new(mode: Mode) -> Src { share::begin(); Src { mode, pos: 0, rec: vec![], big: false, vast: 1, far: false } }
    pub fn random(seed: u64) -> Src { Src::new(Mode::Rand(Rng::new(seed))) }
    pub fn replay(v: Vec<u64>) -> Src { Src::new(Mode::Replay(v)) }
    /// the given choices; the missing ones, and those after the last, drawn afresh
    #[cfg(feature = "cov")]
    pub fn mutated(v: Vec<Option<u64>>, seed: u64) -> Src { Src::new(Mode::Mutated(v, Rng::new(seed))) }
    fn raw(&mut self, max: u64, pick: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Rand(r) => pick(r).min(max),
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(max),
            Mode::Mutated(c, r) => match c.get(self.pos) { Some(Some(v)) => (*v).min(max), _ => pick(r).min(max) },
        };
        share::push(v);
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 { assert!(n > 0); self.raw(n - 1, |r| r.upto(n - 1)) }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// uniform in [lo, hi]
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below((hi - lo + 1) as u64) as usize }
    /// true with probability num/den (simplest: false)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(1, |r| (r.upto(den - 1) < num) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.idx(v.len()); &v[i] }
    /// index with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        self.raw(w.len() as u64 - 1, |r| {
            let mut x = r.upto(tot - 1);
            for (i, &k) in w.iter().enumerate() { if x < k { return i as u64; } x -= k; }
            0
        }) as usize
    }
    /// biased integer in [lo, hi]; simplest is the one nearest to 0
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        let o = 0i64.clamp(lo, hi);
        let span = (hi as i128 - o as i128).max(o as i128 - lo as i128);
        let enc = |v: i64| -> u64 {
            let d = v as i128 - o as i128;
            (if d >= 0 { 2 * d } else { -2 * d - 1 }) as u64
        };
        let max = (2 * span) as u64;
        let e = self.raw(max, |r| {
            let cl = |v: i128| v.clamp(lo as i128, hi as i128) as i64;
            let sgn = |r: &mut Rng, v: i128| if r.upto(1) == 0 { v } else { -v };
            let v = match r.upto(15) {
                0..=3 => { let k = [3, 9, 20, 100][r.upto(3) as usize]; let m = r.upto(k) as i128; sgn(r, m) }
                4 => match r.upto(5) { 0 => lo as i128, 1 => hi as i128, 2 => lo as i128 + 1, 3 => hi as i128 - 1, 4 => lo as i128 + r.upto(16) as i128, _ => hi as i128 - r.upto(16) as i128 },
                5 | 6 => {
                    let d = &dict().0;
                    if d.is_empty() { r.upto(12) as i128 } else {
                        let base = d[r.upto(d.len() as u64 - 1) as usize] as i128;
                        let v = match r.upto(4) { 0 | 1 => base, 2 => base + 1, 3 => base - 1, _ => base * (1 + r.upto(6) as i128) };
                        sgn(r, v)
                    }
                }
                7 => { let b = r.upto(62); let v = 1i128 << b; let k = r.upto(2) as i128 - 1; sgn(r, v + k) }
                8..=10 => { let b = 1 + r.upto(62); let v = (r.next() >> (64 - b)) as i128; sgn(r, v) }
                _ => { let w = (hi as i128 - lo as i128) as u64; lo as i128 + r.upto(w) as i128 }
            };
            enc(if v < lo as i128 || v > hi as i128 {
                // fold out-of-range picks back in, uniformly
                let w = (hi as i128 - lo as i128) as u64;
                if r.upto(3) == 0 { cl(v) } else { cl(lo as i128 + r.upto(w) as i128) }
            } else { v as i64 })
        });
        let d = if e % 2 == 0 { (e / 2) as i128 } else { -((e / 2) as i128) - 1 };
        (o as i128 + d).clamp(lo as i128, hi as i128) as i64
    }
    /// size in [lo, typ], now and then (1 in 16) a dictionary-based or larger one up to max
    pub fn size(&mut self, lo: usize, typ: usize, max: usize) -> usize {
        let m = (max - lo) as u64;
        let v = self.raw(m, |r| {
            if max > typ && r.upto(15) == 0 {
                let d = &dict().0;
                if r.upto(1) == 0 && !d.is_empty() {
                    let b = d[r.upto(d.len() as u64 - 1) as usize] + [0, 1, -1][r.upto(2) as usize];
                    if b >= lo as i64 && b <= max as i64 { return b as u64 - lo as u64; }
                }
                let x = r.upto(m); let y = r.upto(m);
                x.min(y)
            } else { r.upto((typ - lo) as u64) }
        });
        lo + v as usize
    }
    /// as `size`; in a large sub-check up to `big`, even over the orders of magnitude
    pub fn len(&mut self, lo: usize, typ: usize, max: usize, big: usize) -> usize {
        if !self.big { return self.size(lo, typ, max); }
        let big = self.vast * big;
        let m = (big - lo) as u64;
        let v = self.raw(m, |r| {
            let d = &dict().0;
            if r.upto(7) == 0 && !d.is_empty() {
                let b = d[r.upto(d.len() as u64 - 1) as usize] + [0, 1, -1, 2][r.upto(3) as usize];
                if b >= lo as i64 && b <= big as i64 { return b as u64 - lo as u64; }
            }
            let bits = 64 - m.leading_zeros() as u64;
            // the upper orders more often
            let k = r.upto(bits).max(r.upto(bits));
            r.upto(((1u64 << k) - 1).min(m))
        });
        lo + v as usize
    }
    /// a permutation of 0..n (all-zero choices give the identity)
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n { let j = i + self.idx(n - i); v.swap(i, j); }
        v
    }
}

// ---- the current case in shared memory (guided search only) ----------------------------------------
pub mod share {
    use std::sync::atomic::{AtomicPtr, Ordering::Relaxed};
    static BASE: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
    pub const CAP: usize = 1 << 16;
    /// layout: number of choices, sub-check, choices
    #[cfg(feature = "cov")]
    pub fn attach(f: &std::fs::File) { BASE.store(super::watch::map(f, (CAP + 2) * 8) as *mut u64, Relaxed); }
    #[cfg(feature = "cov")]
    pub fn start(sub: usize) { let b = BASE.load(Relaxed); if !b.is_null() { unsafe { b.add(1).write_volatile(sub as u64) } } }
    #[inline]
    pub fn begin() { let b = BASE.load(Relaxed); if !b.is_null() { unsafe { b.write_volatile(0) } } }
    #[inline]
    pub fn push(v: u64) {
        let b = BASE.load(Relaxed);
        if b.is_null() { return; }
        unsafe {
            let n = b.read_volatile() as usize;
            if n < CAP { b.add(2 + n).write_volatile(v); b.write_volatile(n as u64 + 1); }
        }
    }
    pub fn read(path: &std::path::Path) -> Option<(usize, Vec<u64>)> {
        let b = std::fs::read(path).ok()?;
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let n = (*w.first()? as usize).min(CAP);
        Some((*w.get(1)? as usize, w.get(2..2 + n)?.to_vec()))
    }
}

// ---- steps, panics ------------------------------------------------------------------------------
thread_local! {
    static STEPS: Cell<u64> = Cell::new(0);
    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
#[cfg(feature = "cov")]
fn cov_on(b: bool) { covrt::on(b) }
#[cfg(not(feature = "cov"))]
fn cov_on(_: bool) {}
pub struct StepLimit;
pub struct RefOverflow;
#[inline]
pub fn tick() {
    STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        if v > LIMIT.with(|l| l.get()) { LIMIT.with(|l| l.set(u64::MAX)); std::panic::panic_any(StepLimit); }
    })
}
/// bound on the steps of this thread from here on
pub fn limit_steps(n: u64) { LIMIT.with(|l| l.set(steps().saturating_add(n))); }
pub fn steps() -> u64 { STEPS.with(|s| s.get()) }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
            else if p.downcast_ref::<RefOverflow>().is_some() { "reference overflow".into() }
            else if p.downcast_ref::<StepLimit>().is_some() { "step limit".into() }
            else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{m} [{loc}]"));
    }));
}
fn last_panic() -> String { LAST_PANIC.with(|l| l.borrow().clone()) }

// ---- context of one case ------------------------------------------------------------------------
pub enum Stop { Fail(String), Discard(&'static str) }
pub type R = Result<(), Stop>;
pub fn fail<T>(m: impl Into<String>) -> Result<T, Stop> { Err(Stop::Fail(m.into())) }
pub fn discard<T>(m: &'static str) -> Result<T, Stop> { Err(Stop::Discard(m)) }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::Stop::Fail(format!($($t)*))); } };
}
pub struct Cx {
    pub s: Src,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub notes: Option<Vec<String>>,
    pub limit: u64,
    pub overflow_ok: bool,
    pub max_steps: u64,
}
impl Cx {
    pub fn new(s: Src, verbose: bool) -> Cx {
        Cx { s, labels: vec![], nontrivial: false, notes: if verbose { Some(vec![]) } else { None }, limit: 400_000_000, overflow_ok: false, max_steps: 0 }
    }
    pub fn label(&mut self, l: &'static str) { if !self.labels.contains(&l) { self.labels.push(l) } }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.label(l) } }
    pub fn nt(&mut self, c: bool) { self.nontrivial |= c }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if let Some(n) = &mut self.notes { n.push(f()) } }
    fn guarded<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> {
        STEPS.with(|s| s.set(0));
        LIMIT.with(|l| l.set(self.limit));
        cov_on(true);
        let r = catch_unwind(AssertUnwindSafe(f));
        cov_on(false);
        LIMIT.with(|l| l.set(u64::MAX));
        self.max_steps = self.max_steps.max(steps());
        r
    }
    /// run code under test; a panic is a failure (an overflow a discard where allowed)
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
        match self.guarded(f) {
            Ok(v) => Ok(v),
            Err(p) => {
                if p.downcast_ref::<RefOverflow>().is_some() { return discard("reference overflow"); }
                if p.downcast_ref::<StepLimit>().is_some() {
                    return fail(format!("{what}: still running after {} field/order operations (does not terminate)", self.limit));
                }
                let m = last_panic();
                if self.overflow_ok && m.contains("with overflow") { return discard("64-bit overflow"); }
                fail(format!("{what}: unexpected panic: {m}"))
            }
        }
    }
    /// run code under test that has to panic
    pub fn must_panic<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R {
        match self.guarded(f) {
            Ok(_) => fail(format!("{what}: expected a panic, got a value")),
            Err(p) => if p.downcast_ref::<StepLimit>().is_some() { fail(format!("{what}: does not terminate")) } else { Ok(()) },
        }
    }
}

/// the check over inputs of large size
#[macro_export]
macro_rules! far { ($f:expr) => { |cx: &mut $crate::engine::Cx| { cx.s.far = true; $f(cx) } }; }
/// and of sizes 16 times as large
#[macro_export]
macro_rules! vast { ($f:expr) => { |cx: &mut $crate::engine::Cx| { cx.s.big = true; cx.s.vast = 16; $f(cx) } }; }
/// matrices that are large in both directions
#[macro_export]
macro_rules! square { ($f:expr) => { |cx: &mut $crate::engine::Cx| { cx.s.big = true; cx.s.vast = 9; $f(cx) } }; }
/// sizes beyond sixteen bits; for operations of linear cost
#[macro_export]
macro_rules! giant { ($f:expr) => { |cx: &mut $crate::engine::Cx| { cx.s.big = true; cx.s.vast = 250; $f(cx) } }; }
#[macro_export]
macro_rules! large { ($f:expr) => { |cx: &mut $crate::engine::Cx| { cx.s.big = true; $f(cx) } }; }
pub struct Sub { pub name: &'static str, pub cases: u64, pub run: fn(&mut Cx) -> R }
impl Sub {
    /// can coverage-guided search drive it?  Not where one case is long, or runs in threads or processes of its own.
    pub fn guided(&self) -> bool { !["large", "history_", "threads_", "fresh_"].iter().any(|p| self.name.starts_with(p)) }
}
pub struct Prop { pub id: &'static str, pub rule: &'static str, pub subs: Vec<Sub> }

pub enum Res { Pass, Discard(&'static str), Fail(String) }
pub fn exec(run: fn(&mut Cx) -> R, cx: &mut Cx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| run(cx))) {
        Ok(Ok(())) => Res::Pass,
        Ok(Err(Stop::Discard(d))) => Res::Discard(d),
        Ok(Err(Stop::Fail(m))) => Res::Fail(m),
        Err(p) => {
            LIMIT.with(|l| l.set(u64::MAX));
            if p.downcast_ref::<RefOverflow>().is_some() { Res::Discard("reference overflow") }
            else { Res::Fail(format!("panic while examining what the calls returned: {}", last_panic())) }
        }
    }
}

#[derive(Default)]
struct Stats {
    evals: u64, pass: u64, nontrivial: u64, labels: BTreeMap<&'static str, u64>, discards: BTreeMap<&'static str, u64>,
    distinct: Vec<u64>, samples: Vec<Vec<u64>>, max_steps: u64, max_len: usize, slowest: f64,
}
pub struct Failure { pub sub: &'static str, pub choices: Vec<u64>, pub msg: String, pub notes: Vec<String>, pub execs: u64 }

fn shortlex(a: &[u64], b: &[u64]) -> bool { a.len() < b.len() || (a.len() == b.len() && a < b) }

pub fn shrink(run: fn(&mut Cx) -> R, start: Vec<u64>, msg0: String) -> (Vec<u64>, String, u64) {
    let t0 = std::time::Instant::now();
    let mut best = start;
    let mut msg = msg0;
    let mut execs = 0u64;
    let slow = msg.contains("does not terminate") || msg.contains("terminate)");
    let budget: u64 = if slow { 60 } else { 60_000 };
    let over = std::cell::Cell::new(false);
    let shrink_for: u64 = std::env::var("VERIF_SHRINK_S").ok().and_then(|v| v.parse().ok()).unwrap_or(45);
    let mut try_ = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String, execs: &mut u64| -> bool {
        // minimisation only: the wall clock here never affects the verdict
        if *execs >= budget || t0.elapsed().as_secs() > shrink_for { over.set(true); }
        if over.get() { return false; }
        *execs += 1;
        watch::tick();
        let mut cx = Cx::new(Src::replay(cand), false);
        if let Res::Fail(m) = exec(run, &mut cx) {
            let rec = std::mem::take(&mut cx.s.rec);
            if shortlex(&rec, best) { *best = rec; *msg = m; return true; }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1).next_power_of_two();
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() && !over.get() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if !try_(c, &mut best, &mut msg, &mut execs) { i += if k > 4 { k / 2 } else { 1 }; }
            }
            k /= 2;
        }
        // lower one value and delete a block after it (list lengths)
        for i in 0..best.len() {
            if over.get() { break; }
            if i >= best.len() || best[i] == 0 { continue; }
            'k: for k in 1..=12usize {
                for j in [i + 1, best.len().saturating_sub(k)].into_iter().chain((i + 2)..(i + 14)) {
                    if i < best.len() && best[i] > 0 && j > i && j + k <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(j..j + k);
                        if try_(c, &mut best, &mut msg, &mut execs) { break 'k; }
                    }
                }
            }
        }
        // minimise values
        for i in 0..best.len() {
            if over.get() { break; }
            if i >= best.len() || best[i] == 0 { continue; }
            let mut c = best.clone();
            c[i] = 0;
            if try_(c, &mut best, &mut msg, &mut execs) { continue; }
            let (mut lo, mut guard) = (0u64, 0);
            while i < best.len() && best[i] > lo + 1 && guard < 70 {
                guard += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !try_(c, &mut best, &mut msg, &mut execs) { lo = mid; }
            }
            for d in [1u64, 2] {
                if i < best.len() && best[i] >= d {
                    let mut c = best.clone();
                    c[i] -= d;
                    try_(c, &mut best, &mut msg, &mut execs);
                }
            }
        }
        if best == before || over.get() { break; }
    }
    (best, msg, execs)
}

// ---- watching the workers -------------------------------------------------------------------------
// One slot per shard in memory shared with the parent process: what the shard is doing survives a
// crash of the worker process, and a thread that burns CPU inside one case can be seen from outside.
pub mod watch {
    use std::sync::atomic::{AtomicU64, AtomicPtr, Ordering::Relaxed};
    #[repr(C)]
    #[derive(Default)]
    pub struct Slot { pub sub: AtomicU64, pub seed: AtomicU64, pub ticks: AtomicU64, pub clock: AtomicU64 }
    pub const SLOTS: usize = 16;
    static BASE: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());
    thread_local! { static ME: std::cell::Cell<usize> = std::cell::Cell::new(usize::MAX); }
    extern "C" {
        fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
        fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
        fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    }
    pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); setrlimit(4, &[0, 0]); } }
    /// attach to a file of SLOTS slots
    pub fn map(f: &std::fs::File, len: usize) -> *mut u8 {
        use std::os::fd::AsRawFd;
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 { std::ptr::null_mut() } else { p }
    }
    pub fn attach(f: &std::fs::File) -> bool {
        let p = map(f, SLOTS * std::mem::size_of::<Slot>());
        if p.is_null() { return false; }
        BASE.store(p as *mut Slot, Relaxed);
        true
    }
    pub fn slot(i: usize) -> Option<&'static Slot> {
        let b = BASE.load(Relaxed);
        if b.is_null() || i >= SLOTS { None } else { Some(unsafe { &*b.add(i) }) }
    }
    pub fn enter(i: usize) {
        crate::alloc::local();
        ME.with(|m| m.set(i));
        if let Some(s) = slot(i) {
            let mut id = 0i32;
            unsafe { pthread_getcpuclockid(pthread_self(), &mut id); }
            s.clock.store(id as u32 as u64, Relaxed);
        }
    }
    pub fn me() -> usize { ME.with(|m| m.get()) }
    pub fn leave() { if let Some(s) = slot(ME.with(|m| m.get())) { s.clock.store(0, Relaxed); } ME.with(|m| m.set(usize::MAX)); }
    #[inline]
    pub fn case(sub: u64, seed: u64) {
        if let Some(s) = slot(ME.with(|m| m.get())) { s.sub.store(sub, Relaxed); s.seed.store(seed, Relaxed); s.ticks.fetch_add(1, Relaxed); }
    }
    #[inline]
    pub fn tick() { if let Some(s) = slot(ME.with(|m| m.get())) { s.ticks.fetch_add(1, Relaxed); } }
    fn cpu(id: u64) -> Option<f64> {
        let mut ts = [0i64; 2];
        if id == 0 || unsafe { clock_gettime(id as u32 as i32, &mut ts) } != 0 { return None; }
        Some(ts[0] as f64 + ts[1] as f64 * 1e-9)
    }
    /// calls `stuck(sub, seed)` when one case has used more than `secs` of CPU time
    pub fn start(secs: f64, stuck: impl Fn(u64, u64) + Send + 'static) {
        std::thread::spawn(move || {
            let mut seen = vec![(u64::MAX, u64::MAX, 0.0); SLOTS];
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for i in 0..SLOTS {
                    let Some(s) = slot(i) else { continue };
                    let (t, c) = (s.ticks.load(Relaxed), s.clock.load(Relaxed));
                    let Some(now) = cpu(c) else { continue };
                    if seen[i].0 != t || seen[i].1 != c { seen[i] = (t, c, now); continue; }
                    if now - seen[i].2 > secs { stuck(s.sub.load(Relaxed), s.seed.load(Relaxed)); }
                }
            }
        });
    }
}

pub struct Report { pub head: String, pub tail: String, pub failure: Option<Failure>, pub evals: u64, pub distinct: u64, pub discards: u64 }

pub fn run_prop(p: &Prop, seed: u64, tier: &str, scale: f64, deadline: f64) -> Report {
    const SHARDS: u64 = 8;
    let t0 = std::time::Instant::now();
    let mut total = Stats::default();
    let mut failure: Option<Failure> = None;
    let mut subs_json = vec![];
    let mut samples_json = vec![];
    let only = std::env::var("VERIF_SUB").ok();
    let mut cut = false;
    let mut distinct = 0;
    for (subi, sub) in p.subs.iter().enumerate() {
        if let Some(o) = &only { if o != sub.name { continue; } }
        let stop = AtomicBool::new(false);
        let n = ((sub.cases as f64 * scale).ceil() as u64).max(SHARDS);
        let t1 = std::time::Instant::now();
        let results: Vec<(Stats, Option<Failure>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..SHARDS).map(|sh| {
                let stop = &stop;
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let long = n < 200_000;
                    let base = seed ^ fnv(p.id.as_bytes()).rotate_left(17) ^ fnv(sub.name.as_bytes()).rotate_left(31) ^ sh.wrapping_mul(0xD1342543DE82EF95);
                    let mut seq = base;
                    let my = n / SHARDS + if sh < n % SHARDS { 1 } else { 0 };
                    watch::enter(sh as usize);
                    for i in 0..my {
                        if stop.load(SeqCst) { break; }
                        if i % 64 == 0 && t0.elapsed().as_secs_f64() > deadline { break; }
                        let cs = splitmix(&mut seq);
                        watch::case(subi as u64, cs);
                        let mut cx = Cx::new(Src::random(cs), false);
                        let began = long.then(std::time::Instant::now);
                        let r = exec(sub.run, &mut cx);
                        if let Some(b) = began { st.slowest = st.slowest.max(b.elapsed().as_secs_f64()); }
                        st.evals += 1;
                        st.max_steps = st.max_steps.max(cx.max_steps);
                        st.max_len = st.max_len.max(cx.s.rec.len());
                        match r {
                            Res::Pass => {
                                st.pass += 1;
                                for l in &cx.labels { *st.labels.entry(l).or_default() += 1; }
                                if cx.nontrivial {
                                    st.nontrivial += 1;
                                    let mut b = vec![];
                                    for c in &cx.s.rec { b.extend_from_slice(&c.to_le_bytes()); }
                                    // a count from below: no more than this many are remembered
                                    if st.distinct.len() < 6_000_000 { st.distinct.push(fnv(&b)); }
                                    if sh == 0 && st.samples.len() < 2 && cx.s.rec.len() < 400 { st.samples.push(cx.s.rec.clone()); }
                                }
                            }
                            Res::Discard(d) => *st.discards.entry(d).or_default() += 1,
                            Res::Fail(m) => {
                                stop.store(true, SeqCst);
                                let (choices, msg, execs) = shrink(sub.run, cx.s.rec.clone(), m);
                                let mut v = Cx::new(Src::replay(choices.clone()), true);
                                let _ = exec(sub.run, &mut v);
                                return (st, Some(Failure { sub: sub.name, choices, msg, notes: v.notes.unwrap_or_default(), execs }));
                            }
                        }
                    }
                    watch::leave();
                    (st, None)
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut st = Stats::default();
        for (s, f) in results {
            st.evals += s.evals; st.pass += s.pass; st.nontrivial += s.nontrivial;
            st.max_steps = st.max_steps.max(s.max_steps);
            st.max_len = st.max_len.max(s.max_len);
            st.slowest = st.slowest.max(s.slowest);
            for (k, v) in s.labels { *st.labels.entry(k).or_default() += v; }
            for (k, v) in s.discards { *st.discards.entry(k).or_default() += v; }
            st.distinct.extend(s.distinct);
            st.samples.extend(s.samples);
            if let Some(f) = f {
                if failure.as_ref().map_or(true, |g| g.sub == f.sub && shortlex(&f.choices, &g.choices)) { failure = Some(f); }
            }
        }
        st.distinct.sort_unstable();
        st.distinct.dedup();
        for c in st.samples.iter().take(2) {
            let mut v = Cx::new(Src::replay(c.clone()), true);
            let _ = exec(sub.run, &mut v);
            samples_json.push(format!("{{\"sub\":{},\"case\":{}}}", jstr(sub.name), jstr(&trunc(&v.notes.unwrap_or_default().join("; "), 900))));
        }
        let map = |m: &BTreeMap<&'static str, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        subs_json.push(format!("{{\"sub\":{},\"evaluations\":{},\"passed\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"labels\":{},\"discarded\":{},\"max_choices\":{},\"max_steps_in_one_call\":{},\"slowest_case_s\":{:.2},\"wall_s\":{:.2}}}",
            jstr(sub.name), st.evals, st.pass, st.nontrivial, st.distinct.len(), map(&st.labels), map(&st.discards), st.max_len, st.max_steps, st.slowest, t1.elapsed().as_secs_f64()));
        total.evals += st.evals;
        cut |= st.evals < n && failure.is_none();
        distinct += st.distinct.len();
        for (k, v) in st.discards { *total.discards.entry(k).or_default() += v; }
        if failure.is_some() { break; }
    }
    let hooks = cfg!(algeo_verif);
    let head = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{",
        jstr(p.id), jstr(tier), seed);
    let tail = format!("\"rule\":{},\"samples\":[{}],\"sub_checks\":[{}],\"dictionary\":[{}],\"hooks\":{},\"cut_short_by_time\":{}}},\"assumptions\":[{}],",
        jstr(p.rule), samples_json.join(","), subs_json.join(","),
        dict().0.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","), hooks, cut,
        ["the harness's reference models and prime fields are correct", "rustc compiles library and harness correctly; overflow checks are on", "sampling: absence of a violation is not proved"].iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    Report { head, tail, distinct: distinct as u64, failure, evals: total.evals, discards: total.discards.values().sum() }
}
pub fn trunc(s: &str, n: usize) -> String { if s.chars().count() > n { s.chars().take(n).collect::<String>() + "..." } else { s.to_string() } }
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o + "\""
}
