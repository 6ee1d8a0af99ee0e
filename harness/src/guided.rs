//! Coverage-guided search over choice sequences (built with the feature `cov`): sequences that reach new
//! edges, new edge counts or new distances in comparisons of the code under test are kept and mutated.
use crate::engine::*;

pub struct Found { pub sub: usize, pub msg: String, pub choices: Vec<u64>, pub execs: u64 }
#[derive(Default)]
pub struct GStats { pub evals: u64, pub pass: u64, pub nontrivial: u64, pub distinct: u64, pub discards: u64, pub corpus: usize, pub features: usize }

struct Entry { c: Vec<u64>, owned: u32 }

pub fn mutate(r: &mut Rng, a: &[u64], b: &[u64]) -> Vec<Option<u64>> {
    let mut v: Vec<Option<u64>> = a.iter().map(|x| Some(*x)).collect();
    if r.upto(7) == 0 && !b.is_empty() {
        // cross over
        let i = r.upto(v.len() as u64) as usize;
        let j = if r.upto(1) == 0 { i.min(b.len()) } else { r.upto(b.len() as u64) as usize };
        v.truncate(i);
        v.extend(b[j..].iter().map(|x| Some(*x)));
    }
    for _ in 0..1 + [0, 0, 0, 1, 1, 2, 4, 8][r.upto(7) as usize] {
        if v.is_empty() { break; }
        let i = r.upto(v.len() as u64 - 1) as usize;
        let x = v[i].unwrap_or(0);
        match r.upto(15) {
            0..=3 => v[i] = None,
            4 => v[i] = Some(x.wrapping_add(1)),
            5 => v[i] = Some(x.saturating_sub(1)),
            6 => v[i] = Some(if r.upto(1) == 0 { x.saturating_add(2 << r.upto(5)) } else { x.saturating_sub(2 << r.upto(5)) }),
            7 => v[i] = Some(x ^ 1 << r.upto(63 - x.leading_zeros().min(62) as u64 + 1).min(63)),
            8 => v[i] = Some(if r.upto(1) == 0 { x / 2 } else { x.saturating_mul(2) }),
            9 => v[i] = Some(if r.upto(1) == 0 { 0 } else { u64::MAX }),
            10 | 11 => { // equal values in two places
                let j = r.upto(v.len() as u64 - 1) as usize;
                v[i] = v[j].map(|y| match r.upto(7) { 0 => y ^ 1, 1 => y.saturating_add(2), 2 => y.saturating_sub(2), _ => y });
            }
            12 => { let k = 1 + r.upto(3) as usize; let z = (i + k).min(v.len()); v.drain(i..z); }
            13 => { // repeat a block
                let k = (1 + r.upto(11) as usize).min(v.len() - i);
                let w: Vec<_> = v[i..i + k].to_vec();
                let j = i + if r.upto(1) == 0 { k } else { r.upto((v.len() - i) as u64) as usize };
                v.splice(j..j, w);
            }
            14 => { let k = 1 + r.upto(3) as usize; v.splice(i..i, std::iter::repeat(None).take(k)); }
            _ => for y in v.iter_mut().skip(i).take(1 + r.upto(15) as usize) { *y = None; },
        }
    }
    v.truncate(4000);
    v
}

/// searches one sub-check until about `work` edges were executed
pub fn search(subi: usize, sub: &Sub, seed: u64, work: u64, out_of_time: impl Fn() -> bool) -> (GStats, Option<Found>) {
    let mut r = Rng::new(seed);
    let mut st = GStats::default();
    let mut owner: Vec<u32> = vec![u32::MAX; covrt::CMP + covrt::EDGES * 8];
    let mut feats: Vec<u32> = vec![];
    let mut corpus: Vec<Entry> = vec![];
    let mut seen: std::collections::HashSet<u64> = Default::default();
    let mut got: Vec<u32> = vec![];
    let end = covrt::work().saturating_add(work);
    for i in 0u64.. {
        if covrt::work() > end { break; }
        if i % 64 == 0 && out_of_time() { break; }
        let src = if corpus.len() < 4 || r.upto(4) == 0 { Src::random(r.next()) } else {
            let mut pick = |r: &mut Rng| if r.upto(2) == 0 { corpus.len() - 1 - (r.upto(corpus.len() as u64 - 1).min(r.upto(corpus.len() as u64 - 1))) as usize } else { owner[feats[r.upto(feats.len() as u64 - 1) as usize] as usize] as usize };
            let (a, b) = (pick(&mut r), pick(&mut r));
            let m = mutate(&mut r, &corpus[a].c, &corpus[b].c);
            Src::mutated(m, r.next())
        };
        covrt::reset();
        watch::tick();
        share::start(subi);
        let mut cx = Cx::new(src, false);
        let res = exec(sub.run, &mut cx);
        st.evals += 1;
        match res {
            Res::Pass => {
                st.pass += 1;
                if cx.nontrivial {
                    st.nontrivial += 1;
                    let mut b = vec![];
                    for c in &cx.s.rec { b.extend_from_slice(&c.to_le_bytes()); }
                    if seen.len() < 1_000_000 && seen.insert(fnv(&b)) { st.distinct += 1; }
                }
            }
            Res::Discard(_) => { st.discards += 1; }
            Res::Fail(m) => {
                let (choices, msg, execs) = shrink(sub.run, cx.s.rec.clone(), m);
                return (st, Some(Found { sub: subi, msg, choices, execs }));
            }
        }
        let len = cx.s.rec.len();
        if len > 4000 { continue; }
        got.clear();
        let mut new = false;
        covrt::features(|f| {
            let o = owner[f as usize];
            if o == u32::MAX { new = true; got.push(f); }
            else if len < corpus[o as usize].c.len() && f >= covrt::CMP as u32 { got.push(f); }
        });
        if !new && got.is_empty() { continue; }
        if !new && r.upto(3) != 0 { continue; }
        let id = corpus.len() as u32;
        for f in &got {
            let o = owner[*f as usize];
            if o == u32::MAX { feats.push(*f); } else {
                let e = &mut corpus[o as usize];
                e.owned -= 1;
            }
            owner[*f as usize] = id;
        }
        corpus.push(Entry { c: std::mem::take(&mut cx.s.rec), owned: got.len() as u32 });
    }
    st.corpus = corpus.iter().filter(|e| e.owned > 0).count();
    st.features = feats.len();
    (st, None)
}
