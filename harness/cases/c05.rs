//! C05: series-id lists are intersected exactly.
use crate::ops::OrderIntersect;
use crate::utils::intersect_time_series_id_vec;
use crate::vx_common::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case { lists: Vec<Vec<u64>> }
pub struct P;
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c05";
    const THREADS: usize = 4;
    const RULE: &'static str = "0..40 (sometimes 200) strictly increasing lists of 0..200 (sometimes thousands of) ids, drawn from a small universe so that they share ids or with every id missing from at most two of them; non-trivial: at least two lists";
    fn make(i: u64, r: &mut Rng) -> Case {
        let wide = i % 60 == 45;
        let n = if i < 36 { i as usize } else if wide { 1 + r.usize(6) } else if i % 60 == 46 { r.usize(200) } else { match r.below(3) { 0 => r.usize(5), 1 => r.usize(12), _ => r.usize(40) } };
        let uni = if wide { 200 + r.below(6000) } else { match r.below(4) { 0 => 4, 1 => 12, 2 => 50, _ => 200 } };
        let base = match r.below(3) { 0 => 0, 1 => u64::MAX - uni, _ => r.bits(63) };
        let common: Vec<u64> = (0..uni).filter(|_| r.chance(1, 3)).collect();
        let density = r.range(1, 4);
        if r.chance(1, 3) && n > 0 {
            // every list matters: each id of the universe is missing from at most two lists
            let mut lists: Vec<BTreeSet<u64>> = (0..n).map(|_| (0..uni).collect()).collect();
            for x in 0..uni {
                for _ in 0..r.usize(3) { let k = r.usize(n); lists[k].remove(&x); }
            }
            if uni < n as u64 { let (k, x) = (r.usize(n), r.below(uni)); lists[k].remove(&x); }
            return Case { lists: lists.into_iter().map(|s| s.into_iter().map(|x| base + x).collect()).collect() };
        }
        let lists = (0..n).map(|_| {
            if r.chance(1, 30) { return vec![]; }
            let mut s: BTreeSet<u64> = common.iter().cloned().filter(|_| true).collect();
            if r.chance(1, 5) { let k = r.usize(s.len() + 1); s = s.into_iter().take(k).collect(); }
            let sparse = r.chance(1, 6);
            let density = if sparse { 1 } else { density };
            if sparse { s = s.into_iter().filter(|_| r.chance(1, 20)).collect(); }
            for x in 0..uni { if r.chance(density, if sparse { 100 } else { 4 }) { s.insert(x); } }
            s.into_iter().map(|x| base + x).collect()
        }).collect();
        Case { lists }
    }
    fn check(c: &Case) -> Out {
        let want: Vec<u64> = match c.lists.split_first() {
            None => vec![],
            Some((a, rest)) => a.iter().cloned().filter(|x| rest.iter().all(|l| l.binary_search(x).is_ok())).collect(),
        };
        match intersect_time_series_id_vec(c.lists.clone()) {
            Err(e) => return Out::Broken(format!("intersection of {} lists failed: {}", c.lists.len(), e)),
            Ok(got) => if got != want { return Out::Broken(format!("intersection of {} lists is {:?}, got {:?}", c.lists.len(), want, got)); },
        }
        if c.lists.len() >= 2 {
            let (a, b) = (&c.lists[0], &c.lists[1]);
            let want: Vec<u64> = a.iter().cloned().filter(|x| b.binary_search(x).is_ok()).collect();
            let got = a.order_intersect(b);
            if got != want { return Out::Broken(format!("order_intersect of {:?} and {:?} is {:?}", a, b, got)); }
        }
        Out::Held(c.lists.len() >= 2)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut out: Vec<Case> = shrink_vec(&c.lists).into_iter().map(|lists| Case { lists }).collect();
        for i in 0..c.lists.len().min(6) {
            for l in shrink_vec(&c.lists[i]) { let mut lists = c.lists.clone(); lists[i] = l; out.push(Case { lists }); }
        }
        out
    }
}
pub fn main() { run::<P>() }
