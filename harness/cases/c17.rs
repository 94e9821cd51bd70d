//! C17: equality of labels, label sets and points obeys its laws.
use crate::label::{Label, Labels};
use crate::time_point::TimePoint;
use crate::vx_common::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

type L = Vec<(String, String)>;
#[derive(Serialize, Deserialize, Clone)]
pub enum Case { Sets(L, L), Points((u64, u64), (u64, u64)) }
pub struct P;
fn labels(l: &L) -> Labels { Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(k, v)).collect()) }
fn set(r: &mut Rng) -> L { let most = if r.chance(1, 20) { 100 } else { 5 }; let n = r.usize(most); (0..n).map(|_| (if r.chance(1, 4) { r.text() } else { r.name() }, r.text())).collect() }
fn near(r: &mut Rng, a: f64) -> f64 {
    let d = match r.below(6) { 0 => 0.0, 1 => 1e-9, 2 => 0.5e-9, 3 => 2e-9, 4 => 0.999999e-9, _ => f64::from_bits(1e-9f64.to_bits() - 1 + r.below(3)) };
    match r.below(4) { 0 => a + d, 1 => a - d, 2 => f64::from_bits(a.to_bits().wrapping_add(r.below(3)).wrapping_sub(1)), _ => -a }
}
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c17";
    const RULE: &'static str = "pairs of label sets (prefixes, single changes, permutations, key/value splits of the same text) and pairs of finite points around the tolerance; non-trivial: related pairs";
    fn make(_i: u64, r: &mut Rng) -> Case {
        if r.chance(1, 2) {
            let a = set(r);
            let mut b = a.clone();
            match r.below(8) {
                0 => {}
                7 => { let k = b.len(); if k > 0 { let i = r.usize(k); if r.chance(1, 2) { b[i].1 = r.text(); } else { b[i].0 = r.other_case(&a[i].0); } } }
                1 => { b.pop(); }
                2 => b.push((r.name(), r.text())),
                3 => b.reverse(),
                4 => { if let Some(x) = b.last_mut() { x.1 = r.text(); } }
                5 => { if let Some(x) = b.first_mut() { x.0 = r.name(); } }
                _ => { let k = b.len(); if k > 0 { let i = r.usize(k); if let Some(c) = b[i].1.chars().next() { b[i].0.push(c); b[i].1.remove(0); } } else { b = set(r); } }
            }
            if r.chance(1, 2) { Case::Sets(a, b) } else { Case::Sets(b, a) }
        } else {
            let v = match r.below(4) { 0 => 0.0, 1 => 1.0, 2 => (r.below(100) as f64) / 7.0, _ => r.finite() };
            let mut w = if r.chance(1, 8) { r.finite() } else { near(r, v) };
            if !w.is_finite() { w = v; }
            let t = if r.chance(1, 2) { r.below(4) } else { r.u64() };
            let u = match r.below(4) { 0 => r.u64(), 1 => t.wrapping_add(1), 2 => t ^ (1 << r.below(64)), _ => t };
            Case::Points((t, v.to_bits()), (u, w.to_bits()))
        }
    }
    fn check(c: &Case) -> Out {
        match c {
            Case::Sets(a, b) => {
                let (x, y) = (labels(a), labels(b));
                let want = a == b;
                if (x == y) != want || (y == x) != want { return Out::Broken(format!("{:?} == {:?} is {} / {}, should be {}", a, b, x == y, y == x, want)); }
                if (x != y) == want { return Out::Broken(format!("{:?} != {:?} is {}", a, b, x != y)); }
                if want && x.get_hash() != y.get_hash() { return Out::Broken(format!("equal label sets {:?} have different hashes", a)); }
                {
                    use std::hash::{Hash, Hasher};
                    let h = |l: &Labels| { let mut h = std::collections::hash_map::DefaultHasher::new(); l.hash(&mut h); h.finish() };
                    if want && h(&x) != h(&y) { return Out::Broken(format!("equal label sets {:?} hash differently", a)); }
                }
                if x.len() != a.len() { return Out::Broken("length of a label set".into()); }
                for (p, q) in a.iter().zip(b.iter()) {
                    let (l, m) = (Label::from_key_value(&p.0, &p.1), Label::new(q.0.clone(), q.1.clone()));
                    if (l == m) != (p == q) || (m == l) != (p == q) { return Out::Broken(format!("label {:?} == {:?} is {}", p, q, l == m)); }
                    if l == m {
                        use std::hash::{Hash, Hasher};
                        let h = |l: &Label| { let mut h = std::collections::hash_map::DefaultHasher::new(); l.hash(&mut h); h.finish() };
                        if h(&l) != h(&m) { return Out::Broken(format!("equal labels {:?} hash differently", p)); }
                    }
                }
                Out::Held(a.len() > 0 && b.len() > 0)
            }
            Case::Points(a, b) => {
                let (v, w) = (f64::from_bits(a.1), f64::from_bits(b.1));
                let (x, y) = (TimePoint::new(a.0, v), TimePoint::new(b.0, w));
                let d = if v > w { v - w } else { w - v };
                let want = a.0 == b.0 && d < 1e-9;
                if (x == y) != want || (y == x) != want { return Out::Broken(format!("({}, {:e}) == ({}, {:e}) is {} / {}, should be {}", a.0, v, b.0, w, x == y, y == x, want)); }
                let o = a.0.cmp(&b.0);
                if x.cmp(&y) != o || x.partial_cmp(&y) != Some(o) || y.cmp(&x) != o.reverse() { return Out::Broken(format!("order of timestamps {} and {} is {:?}", a.0, b.0, x.cmp(&y))); }
                if (x < y) != (o == Ordering::Less) || (x > y) != (o == Ordering::Greater) { return Out::Broken("comparison operators".into()); }
                Out::Held(a.0 == b.0)
            }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        match c {
            Case::Sets(a, b) => { let mut o: Vec<Case> = shrink_vec(a).into_iter().map(|a| Case::Sets(a, b.clone())).collect(); o.extend(shrink_vec(b).into_iter().map(|b| Case::Sets(a.clone(), b))); o }
            _ => vec![],
        }
    }
}
pub fn main() { run::<P>() }
