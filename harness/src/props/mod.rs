pub mod num;
pub mod mono;
pub mod ring;
pub mod groebner;
pub mod matrix;
pub mod elim;
pub mod text;
pub mod purity;
pub mod access;
use crate::engine::Prop;
const WEIGHT: [f64; 34] = [1.7, 2.5, 5.0, 4.0, 4.0, 3.0, 3.0, 3.0, 3.0, 4.0, 5.0, 6.0, 7.0, 10.0, 5.0, 6.0, 6.0, 4.0, 6.0, 8.0, 7.0, 12.0, 20.0, 16.0, 16.0, 5.0, 10.0, 4.0, 10.0, 10.0, 4.0, 4.0, 1.0, 8.0];
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(num::props());
    v.extend(mono::props());
    v.extend(ring::props());
    v.extend(groebner::props());
    v.extend(matrix::props());
    v.extend(elim::props());
    v.extend(text::props());
    v.extend(purity::props());
    v.extend(access::props());
    // case counts are written with the sub-checks; this brings the quick tier of each property to some seconds
    for p in &mut v { let w = WEIGHT[p.id[1..].parse::<usize>().unwrap() - 1]; for s in &mut p.subs { s.cases = (s.cases as f64 * w) as u64; } }
    v.sort_by_key(|p| p.id);
    v
}
