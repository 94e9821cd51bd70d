//! C03: a time-range read returns exactly the points in the range (both back ends).
use crate::chunk::ChunkOpts;
use crate::storage::{SledStorage, Storage};
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::{Builder, MonolithErr};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub enum Op { Write(u64, u64, u64), Read(u64, u64, u64) }
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { tikv: bool, ops: Vec<Op> }
pub struct P;
fn bound(r: &mut Rng, s: &Vec<u64>) -> u64 {
    if s.is_empty() { return r.below(20); }
    let t = *r.pick(s);
    match r.below(8) { 0 => t, 1 => t.saturating_add(1), 2 => t.saturating_sub(1), 3 => 0, 4 => u64::MAX, 5 => s[0].saturating_sub(r.below(3)), 6 => s[s.len() - 1].saturating_add(r.below(3)), _ => t ^ r.below(16) }
}
fn go<S: Storage>(st: &S, ops: &Vec<Op>) -> Out {
    let mut m: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
    let mut nt = false;
    for op in ops {
        match op {
            Op::Write(id, t, v) => {
                if m.get(id).map(|s| s[s.len() - 1].0 >= *t).unwrap_or(false) { continue; }
                if let Err(e) = st.write_time_point(*id, *t, f64::from_bits(*v)) { return Out::Broken(format!("write of ({}, {}) failed: {}", id, t, e)); }
                m.entry(*id).or_default().push((*t, *v));
            }
            Op::Read(id, a, b) => {
                let got = st.read_time_series(*id, *a, *b);
                let what = || format!("read of series {} in [{}, {}], written {:?}", id, a, b, m.get(id).map(|s| s.iter().map(|p| p.0).collect::<Vec<_>>()));
                match m.get(id) {
                    None => if let Err(MonolithErr::NotFoundErr) = got {} else { return Out::Broken(format!("{}: should be not found, got {:?}", what(), got)); },
                    Some(s) => {
                        nt = true;
                        let (lo, hi) = (s[0].0, s[s.len() - 1].0);
                        let outside = *b < lo || *a > hi;
                        match got {
                            Err(MonolithErr::OutOfRangeErr(_, _)) if outside || a > b => {}
                            Err(e) => return Out::Broken(format!("{}: failed with {}", what(), e)),
                            Ok(ref g) if a > b && g.is_empty() => {}
                            Ok(_) if outside && a <= b => return Out::Broken(format!("{}: should be out of range", what())),
                            Ok(g) => {
                                let want: Vec<(u64, u64)> = s.iter().filter(|p| *a <= p.0 && p.0 <= *b).cloned().collect();
                                let g: Vec<(u64, u64)> = g.iter().map(|p| (p.timestamp, p.value.to_bits())).collect();
                                if g != want { return Out::Broken(format!("{}: expected {:?}, got {:?}", what(), want, g)); }
                            }
                        }
                    }
                }
            }
        }
    }
    Out::Held(nt)
}
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c03";
    const RULE: &'static str = "histories of writes (strictly increasing per series, some series with thousands of points, read on the way) and reads over 1..5 series with confusable ids, range bounds at, next to and beyond stored timestamps, both back ends; non-trivial: a written series is read";
    fn make(i: u64, r: &mut Rng) -> Case {
        let ids: Vec<u64> = { let k = 1 + r.usize(4); (0..k).map(|_| *r.pick(&[0, 1, 2, 10, 11, 12, 110, 111, 256, 257, 65536, 1 << 56, u64::MAX, u64::MAX - 1, 1 << 32])).collect() };
        let mut ts: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        let mut ops = vec![];
        let n = if i < 20 { 3 + r.usize(6) } else { r.usize(60) };
        let dense = r.chance(1, 2);
        if i >= 20 && i % 64 == 33 || i % 512 == 256 || i % 4096 == 1024 {
            // one long series, read on the way when its length is at or next to a power of two, and now and then
            let s = ts.entry(ids[0]).or_default();
            for _ in 0..r.usize(if i % 4096 == 1024 { 9000 } else if i % 4 == 0 { 400 } else if i % 512 == 33 { 10000 } else { 3000 }) {
                let k = s.len();
                if k > 0 && (k + 1 & k == 0 || k & k - 1 == 0 || (k - 1) & k.saturating_sub(2) == 0 || r.chance(1, 100)) {
                    let (a, b) = if r.chance(1, 2) { (0, u64::MAX) } else { (bound(r, s), bound(r, s)) };
                    ops.push(Op::Read(ids[0], a.min(b), a.max(b)));
                }
                let t = match s.last() { None => r.bits(40), Some(l) => l + 1 + if dense { r.below(3) } else { r.bits(20) } };
                s.push(t);
                ops.push(Op::Write(ids[0], t, r.f64_bits()));
            }
        }
        for _ in 0..n {
            let id = *r.pick(&ids);
            let s = ts.entry(id).or_default();
            if r.chance(3, 5) {
                let t = match s.last() { None => if r.chance(1, 2) { r.below(20) } else { r.bits(62) }, Some(l) => l.saturating_add(1 + if dense { r.below(3) } else { r.bits(20) }) };
                if s.last() == Some(&t) { continue; }
                s.push(t);
                ops.push(Op::Write(id, t, r.f64_bits()));
            } else {
                let (a, b) = (bound(r, s), bound(r, s));
                ops.push(if r.chance(1, 10) { Op::Read(id, a, b) } else { Op::Read(id, a.min(b), a.max(b)) });
            }
        }
        let all: Vec<u64> = ids.clone();
        for id in all {
            let s = ts.entry(id).or_default().clone();
            ops.push(Op::Read(id, 0, u64::MAX));
            for _ in 0..6 { let (a, b) = (bound(r, &s), bound(r, &s)); ops.push(Op::Read(id, a.min(b), a.max(b))); }
            ops.push(Op::Read(id, bound(r, &s), bound(r, &s)));
        }
        ops.push(Op::Read(777, 0, 100));
        Case { tikv: i % 4 != 0, ops }
    }
    fn check(c: &Case) -> Out {
        if c.tikv {
            let d = scratch();
            let t = Tikv::new();
            let st = t.storage_builder().build(d.path().display().to_string(), Some(&ChunkOpts::default()), None).unwrap();
            go(&st, &c.ops)
        } else {
            let d = scratch();
            let st = SledStorage::new(d.path()).unwrap();
            go(&st, &c.ops)
        }
    }
    fn shrink(c: &Case) -> Vec<Case> { shrink_vec(&c.ops).into_iter().map(|ops| Case { tikv: c.tikv, ops }).collect() }
}
pub fn main() { run::<P>() }
