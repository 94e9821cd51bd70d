//! C13: an acknowledged batch write has stored every in-window point.
use crate::db::vx_db;
use crate::indexer::{Indexer, SledIndexerBuilder};
use crate::storage::{SledStorageBuilder, Storage};
use crate::time_point::TimePoint;
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::MonolithDb;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
#[path = "dbkit.rs"] mod dbkit;

/// where a point lies: relative to the start of the active window, to its end, absolute, or the first multiple after the start
#[derive(Serialize, Deserialize, Clone, Copy)]
pub enum At { Start(i64), End(i64), Abs(u64), Round(u64) }
#[derive(Serialize, Deserialize, Clone)]
pub struct Batch { set: usize, perm: u64, points: Vec<(At, u64)>, fail: Option<usize>, rotate: bool, #[serde(default)] more: usize }
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { real: u8, size: u64, sets: Vec<LabelVec>, batches: Vec<Batch> }
pub struct P;
impl Prop for P {
    type Case = Case;
    const PER_RUN: usize = 4000;
    const NAME: &'static str = "c13";
    const RULE: &'static str = "sequences of batches of 0..30 (now and then thousands of) points at, inside and outside the edges of the active window, with rotations between them and one or several failing index or store calls inside a batch, over recording and real back ends; non-trivial: an acknowledged batch with points inside and outside the window";
    fn make(i: u64, r: &mut Rng) -> Case {
        let big = i % 200 == 100;
        let real = match i % 96 { _ if big => 0, 0 => 1, 1..=12 => 2, _ => 0 };
        let n = 1 + r.usize(4);
        let sets = label_sets(r, n, 3);
        let mut sets = sets;
        if real == 0 && r.chance(1, 8) { sets.push(vec![]); } // a series without labels
        let size = *r.pick(&[1_000_000u64, 1_000_000_000, 77_777_777]);
        let mut clock: BTreeMap<usize, i64> = BTreeMap::new();
        let batches = (0..4 + r.usize(if real == 1 { 8 } else { 30 })).map(|_| {
            let set = r.usize(sets.len());
            let rotate = r.chance(1, if real == 1 { 12 } else { 8 });
            if rotate { clock.clear(); }
            let long = big && r.chance(1, 8);
            let k = match r.below(4) { _ if long => 1000 + r.usize(8000), 0 => r.usize(2), 1 => r.usize(30), _ => 1 + r.usize(6) };
            let mut points: Vec<(At, u64)> = vec![];
            for _ in 0..k {
                let out = match r.below(if long { 1000 } else { 8 }) {
                    3 if real == 0 && r.chance(1, 2) => Some(At::Round(*r.pick(&[10, 1000, 60_000, 3_600_000, 86_400_000, 1 << 8, 1 << 16, 1 << 20, 1 << 24]))),
                    0 => Some(At::Start(-1 - r.below(3) as i64)),
                    1 => Some(At::End(1 + r.below(3) as i64)),
                    2 => Some(At::Abs(*r.pick(&[0, 0, 1, u64::MAX, 1 << 63]))),
                    _ => None,
                };
                match out {
                    Some(a) => points.push((a, r.f64_bits())),
                    None => {
                        let c = clock.get(&set).cloned().unwrap_or(-1);
                        if c > 10_000 { continue; }
                        let t = c + 1 + if c == -1 && r.chance(1, 2) { 0 } else if long { 0 } else { r.below(40) as i64 };
                        clock.insert(set, t);
                        points.push((At::Start(t), r.f64_bits()));
                    }
                }
            }
            if r.chance(1, 6) && clock.get(&set).map(|c| *c < 20_000).unwrap_or(true) {
                clock.insert(set, 20_000);
                for e in 0..1 + r.below(3) as i64 { points.push((At::End(e - 1), r.f64_bits())); }
                points.dedup_by_key(|p| match p.0 { At::End(e) => e, At::Start(s) => s + 1_000_000_000_000, At::Abs(a) => a as i64, At::Round(u) => -1 - u as i64 });
            }
            if real == 0 && r.chance(1, 8) && !points.is_empty() {
                // the same point, or the same time, again (the recording store takes it)
                for _ in 0..1 + r.usize(3) { let j = r.usize(points.len()); let mut p = points[j].clone(); if r.chance(1, 2) { p.1 = r.f64_bits(); } let j = if r.chance(2, 3) { j + 1 } else { r.usize(points.len() + 1) }; points.insert(j, p); }
            }
            let fail = if real == 0 && r.chance(1, if long { 2 } else { 4 }) { Some(r.usize(if long { 64 } else { 3 * k + 1 })) } else { None };
            // one call fails, or that and some after it
            let more = if fail.is_none() || r.chance(1, 2) { 0 } else if long { *r.pick(&[255usize, 255, 255, 511, 1023, 63, 127, 256, 4095, usize::MAX]) } else { r.usize(4) };
            Batch { set, perm: r.u64(), points, fail, rotate, more }
        }).collect();
        Case { real, size, sets, batches }
    }
    fn check(c: &Case) -> Out {
        let d = scratch();
        match c.real {
            1 => go(dbkit::open(d.path(), c.size, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).unwrap(), None, c),
            2 => { let t = Tikv::new(); go(dbkit::open(d.path(), c.size, Box::new(t.storage_builder()), Box::new(t.indexer_builder())).unwrap(), None, c) }
            _ => { let b = FakeBuilder::new(); go(dbkit::fake(d.path(), c.size, &b).unwrap(), Some(b), c) }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = shrink_vec(&c.batches).into_iter().map(|b| { let mut d = c.clone(); d.batches = b; d }).collect();
        for (i, b) in c.batches.iter().enumerate() { for p in shrink_vec(&b.points) { let mut d = c.clone(); d.batches[i].points = p; v.push(d); } }
        v
    }
}
type Stored = BTreeMap<LabelVec, Vec<(u64, u64)>>;
/// what the recording back ends hold, by chunk
fn stored(b: &FakeBuilder) -> Vec<Stored> {
    b.all().iter().map(|w| { let w = w.lock().unwrap(); w.index.iter().filter_map(|(l, id)| w.series.get(id).map(|s| (l.clone(), s.clone()))).collect() }).collect()
}
fn loose(b: &FakeBuilder) -> bool {
    b.all().iter().any(|w| { let w = w.lock().unwrap(); w.series.keys().any(|id| !w.index.values().any(|x| x == id)) })
}
fn go<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: Arc<MonolithDb<S, I>>, b: Option<FakeBuilder>, c: &Case) -> Out {
    let mut nt = false;
    let mut all: Stored = Stored::new(); // what was acknowledged, over all chunks (real back ends)
    for (i, x) in c.batches.iter().enumerate() {
        let (_, old) = vx_db::window(&db);
        if x.rotate { if let Err(e) = vx_db::rotate(&db, old + 1) { return Out::Broken(format!("rotation failed: {}", e)); } }
        let (start, end) = vx_db::window(&db);
        let l = shuffled(&c.sets[x.set], &mut Rng::new(x.perm, 0));
        let points: Vec<(u64, u64)> = x.points.iter().map(|p| (match p.0 { At::Start(o) => start.wrapping_add(o as u64), At::End(o) => end.wrapping_add(o as u64), At::Abs(a) => a, At::Round(u) => start / u * u + u }, p.1)).collect();
        let wanted: Vec<(u64, u64)> = points.iter().filter(|p| p.0 != 0 && start <= p.0 && p.0 <= end).cloned().collect();
        let before = b.as_ref().map(stored);
        let world = b.as_ref().and_then(|b| b.all().last().cloned());
        let failed0 = world.as_ref().map(|w| { let mut w = w.lock().unwrap(); w.fail_after = x.fail; w.fail_more = x.more; w.failed }).unwrap_or(0);
        let res = db.write_time_points(labels(&l), points.iter().map(|p| TimePoint::new(p.0, f64::from_bits(p.1))).collect());
        let failed = world.as_ref().map(|w| { let mut w = w.lock().unwrap(); w.fail_after = None; w.fail_more = 0; w.failed - failed0 }).unwrap_or(0);
        let what = format!("batch {} of {:?} for {:?} into [{}, {}]", i, points, l, start, end);
        if failed > 0 && res.is_ok() { return Out::Broken(format!("{}: acknowledged although storing a point failed", what)); }
        if let (Some(b), Some(before)) = (&b, &before) {
            let after = stored(b);
            if loose(b) { return Out::Broken(format!("{}: points stored under an id of no label set", what)); }
            let k = after.len() - 1;
            for j in 0..after.len() {
                let mut want = before.get(j).cloned().unwrap_or_default();
                if j < k { if after[j] != want { return Out::Broken(format!("{}: changed a closed chunk", what)); } continue; }
                if res.is_ok() {
                    if !wanted.is_empty() { want.entry(sorted(&l)).or_default().extend(wanted.iter().cloned()); }
                    if after[j] != want { return Out::Broken(format!("{}: should hold {:?}, holds {:?}", what, want.get(&sorted(&l)), after[j].get(&sorted(&l)))); }
                } else {
                    for (s, p) in &after[j] {
                        let had = want.get(s).cloned().unwrap_or_default();
                        if s != &sorted(&l) && *p != had { return Out::Broken(format!("{}: changed the series {:?}", what, s)); }
                        if !p.starts_with(&had) || p[had.len()..].iter().any(|y| !wanted.contains(y)) { return Out::Broken(format!("{}: stored {:?} after {:?}", what, p, had)); }
                    }
                }
            }
        } else if res.is_ok() {
            all.entry(sorted(&l)).or_default().extend(wanted.iter().cloned());
            match db.query(labels(&l), 0, u64::max_value()) {
                Err(e) => return Out::Broken(format!("{}: query failed: {}", what, e)),
                Ok(g) => {
                    let got: Vec<(u64, u64)> = g.iter().filter(|s| unlabels(&s.0) == sorted(&l)).flat_map(|s| s.1.iter().map(|p| (p.timestamp, p.value.to_bits()))).collect();
                    if got != all[&sorted(&l)] { return Out::Broken(format!("{}: {:?} should be stored, a query gives {:?}", what, all[&sorted(&l)], got)); }
                }
            }
        } else { return Out::Held(nt); }
        nt |= res.is_ok() && !wanted.is_empty() && wanted.len() < points.len();
    }
    Out::Held(nt)
}
pub fn main() { run::<P>() }
