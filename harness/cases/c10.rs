//! C10: a chunk stores a point if and only if it acknowledges it.
use crate::chunk::{Chunk, ChunkOpts};
use crate::indexer::SledIndexer;
use crate::storage::SledStorage;
use crate::time_point::TimePoint;
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::{Builder, MonolithErr};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Op { set: usize, perm: u64, t: u64, v: u64, fail: Option<usize>, #[serde(default)] late: bool }
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { real: u8, start: u64, end: u64, sets: Vec<LabelVec>, ops: Vec<Op>, #[serde(default)] close: Option<usize>, #[serde(default)] many: u64 }
pub struct P;
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c10";
    const RULE: &'static str = "histories of up to 40 inserts of 1..6 (one in 2000: up to 2000 of as many) different label sets (labels in any order) with timestamps at, inside and outside the bounds, into a chunk (one in 1500: with up to 70000 series, one point each) over recording back ends that fail at chosen calls (before or after having done what was asked), or over the real ones, the chunk closed at some point or never; non-trivial: a series is inserted into twice, or an insert is refused or fails";
    fn make(i: u64, r: &mut Rng) -> Case {
        let big = i % 2000 == 1000;
        let real = match i % 96 { _ if big => 0, 0 => 1, 1..=12 => 2, _ => 0 };
        let start = match r.below(12) { 0 | 1 | 2 | 3 => 0, 4 | 5 | 6 | 7 => 1000, 8 => u64::MAX - r.below(15000), _ => r.bits(62) };
        let end = match r.below(4) { _ if start > 0 && r.chance(1, 30) => start - 1 - r.below(start.min(500)), 0 => start, 1 => u64::MAX, _ => start.saturating_add(r.below(1000)) };
        let n = 1 + r.usize(6);
        let sets = if big { (0..2000).map(|k| vec![(r.name(), r.text()), ("#".to_string(), k.to_string())]).collect() } else { label_sets(r, n, 4) };
        let mut sets = sets;
        if r.chance(1, 8) { sets.push(vec![]); } // a series without labels
        let faults = real == 0 && r.chance(2, 3);
        let mut clock: BTreeMap<usize, u64> = BTreeMap::new();
        let ops = (0..1 + r.usize(if big { 3000 } else if real == 1 { 12 } else { 40 })).map(|_| {
            let set = r.usize(sets.len());
            let t = match r.below(if big { 60 } else { 7 }) { 0 => start, 1 => end, 2 => start.wrapping_sub(1), 3 => end.wrapping_add(1), 4 => r.u64(), _ => {
                let c = clock.entry(set).or_insert(start); *c = c.saturating_add(r.below(1 + end.saturating_sub(start) / 8)).min(end.max(start)); *c } };
            Op { set, perm: r.u64(), t, v: r.f64_bits(), fail: if faults && r.chance(1, if big { 200 } else { 4 }) { Some(r.usize(3)) } else { None }, late: r.chance(1, 3) }
        }).collect();
        Case { real, start, end, sets, ops, close: if r.chance(1, 4) { Some(r.usize(20)) } else { None }, many: if real == 0 && i % 1500 == 301 { 5000 + r.below(65000) } else { 0 } }
    }
    fn check(c: &Case) -> Out {
        let mut o = ChunkOpts::default();
        o.start_time = Some(c.start);
        o.end_time = Some(c.end);
        if c.real == 1 {
            let d = scratch();
            let ch = Chunk::new(SledStorage::new(&d.path().join("s")).unwrap(), SledIndexer::new(&d.path().join("i")).unwrap(), &o);
            return real(&ch, c);
        }
        if c.real == 2 {
            let d = scratch();
            let t = Tikv::new();
            let s = t.storage_builder().build(d.path().display().to_string(), Some(&o), None).unwrap();
            let i = t.indexer_builder().build(d.path().display().to_string(), Some(&o), None).unwrap();
            return real(&Chunk::new(s, i, &o), c);
        }
        let w: Shared = Default::default();
        let ch = Chunk::new(FakeStorage(w.clone()), FakeIndexer(w.clone()), &o);
        if ch.start_end_time() != (c.start, c.end) { return Out::Broken("the chunk's range is not the one asked for".into()); }
        if c.many > 0 && c.start <= c.end { if let Some(o) = many(&ch, &w, c) { return o; } return Out::Held(true); }
        let mut known: BTreeMap<LabelVec, u64> = BTreeMap::new();
        let mut used: BTreeMap<u64, LabelVec> = BTreeMap::new();
        let mut stored: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
        let mut nt = false;
        for (k, op) in c.ops.iter().enumerate() {
            // long histories: everything is compared now and then and at the end, what the insert names every time
            let full = c.ops.len() <= 200 || k % 256 == 255 || k + 1 == c.ops.len();
            let l = shuffled(&c.sets[op.set], &mut Rng::new(op.perm, 0));
            let key = sorted(&l);
            let inside = c.start <= op.t && op.t <= c.end;
            let failed0 = { let mut g = w.lock().unwrap(); g.calls.clear(); g.fail_after = op.fail; g.fail_late = op.late; g.failed };
            if c.close == Some(k) { ch.close(); }
            let got = ch.insert(labels(&l), TimePoint::new(op.t, f64::from_bits(op.v)));
            let mut g = w.lock().unwrap();
            g.fail_after = None;
            let failed = g.failed != failed0;
            let writes: Vec<Call> = g.calls.iter().filter(|x| if let Call::Write(..) = x { true } else { false }).cloned().collect();
            let what = format!("insert {} of {:?} at {} into [{}, {}]", k, key, op.t, c.start, c.end);
            nt |= !inside || failed || known.contains_key(&key);
            if !inside {
                if let Err(MonolithErr::OutOfRangeErr(_, _)) = got {} else { return Out::Broken(format!("{}: outside the range, but {:?}", what, got.map_err(|e| e.to_string()))); }
                if g.index.len() != known.len() || (full && g.index != known) || !writes.is_empty() { return Out::Broken(format!("{}: refused, but something changed", what)); }
                continue;
            }
            if failed != got.is_err() { return Out::Broken(format!("{}: {} but {:?}", what, if failed { "index or storage failed" } else { "index and storage accepted" }, got.map_err(|e| e.to_string()))); }
            if got.is_err() {
                if !writes.is_empty() && !op.late { return Out::Broken(format!("{}: failed but stored {:?}", what, writes)); }
                for x in &writes {
                    if let Call::Write(id, t, v) = x {
                        if (*t, *v) != (op.t, op.v) || g.index.get(&key) != Some(id) { return Out::Broken(format!("{}: stored {:?}", what, writes)); }
                        stored.entry(*id).or_default().push((op.t, op.v));
                    }
                }
            } else {
                let id = match g.index.get(&key) { Some(i) => *i, None => return Out::Broken(format!("{}: acknowledged, but the label set has no id", what)) };
                if writes != vec![Call::Write(id, op.t, op.v)] { return Out::Broken(format!("{}: id {}, stored {:?}", what, id, writes)); }
                stored.entry(id).or_default().push((op.t, op.v));
            }
            if let (Some(old), new) = (known.get(&key), g.index.get(&key)) { if new != Some(old) { return Out::Broken(format!("{}: id changed from {} to {:?}", what, old, new)); } }
            if let (false, Some(id)) = (known.contains_key(&key), g.index.get(&key)) {
                if let Some(o) = used.insert(*id, key.clone()) { return Out::Broken(format!("{}: id {} is shared with {:?}", what, id, o)); }
                known.insert(key.clone(), *id);
            }
            if g.index.len() != known.len() || (full && g.index != known) { return Out::Broken(format!("{}: another label set's id changed", what)); }
            if full && g.series != stored { return Out::Broken(format!("{}: stored {:?}, should be {:?}", what, g.series, stored)); }
        }
        Out::Held(nt)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        if c.many > 0 { return vec![c.many / 2, c.many - c.many / 4, c.many - 1].into_iter().filter(|m| *m > 0 && *m < c.many).map(|m| { let mut d = c.clone(); d.many = m; d.ops.clear(); d }).collect(); }
        shrink_vec(&c.ops).into_iter().map(|ops| { let mut d = c.clone(); d.ops = ops; d }).collect() }
}
/// very many series: no two share an id, every point is where it belongs
fn many(ch: &Chunk<FakeStorage, FakeIndexer>, w: &Shared, c: &Case) -> Option<Out> {
    let mut ids: BTreeMap<u64, u64> = BTreeMap::new();
    for k in 0..c.many {
        let l: LabelVec = vec![("#".to_string(), k.to_string())];
        let got = ch.insert(labels(&l), TimePoint::new(c.start, k as f64));
        let mut g = w.lock().unwrap();
        g.calls.clear();
        if let Err(e) = got { return Some(Out::Broken(format!("insert of series {} of {} at {} into [{}, {}] failed: {}", k, c.many, c.start, c.start, c.end, e))); }
        let id = match g.index.get(&l) { Some(id) => *id, None => return Some(Out::Broken(format!("series {} of {} was acknowledged, but has no id", k, c.many))) };
        if let Some(o) = ids.insert(id, k) { return Some(Out::Broken(format!("series {} of {} shares its id {} with series {}", k, c.many, id, o))); }
        if g.series.get(&id) != Some(&vec![(c.start, (k as f64).to_bits())]) { return Some(Out::Broken(format!("series {} of {}: id {} holds {:?}", k, c.many, id, g.series.get(&id)))); }
    }
    None
}
/// over the real back ends: acknowledged inserts are exactly what a query over everything returns
fn real<S: crate::storage::Storage, I: crate::indexer::Indexer>(ch: &Chunk<S, I>, c: &Case) -> Out {
    let mut m: BTreeMap<LabelVec, Vec<(u64, u64)>> = BTreeMap::new();
    let mut nt = false;
    for (k, op) in c.ops.iter().enumerate() {
        if c.close == Some(k) { ch.close(); }
        let l = shuffled(&c.sets[op.set], &mut Rng::new(op.perm, 0));
        let key = sorted(&l);
        let inside = c.start <= op.t && op.t <= c.end;
        let newest = m.get(&key).map(|s| s[s.len() - 1].0);
        if inside && newest.map(|n| n >= op.t).unwrap_or(false) { continue; }
        let got = ch.insert(labels(&l), TimePoint::new(op.t, f64::from_bits(op.v)));
        let what = format!("insert {} of {:?} at {} into [{}, {}]", k, key, op.t, c.start, c.end);
        nt |= !inside || newest.is_some();
        match got {
            Ok(()) if inside => m.entry(key).or_default().push((op.t, op.v)),
            Err(MonolithErr::OutOfRangeErr(_, _)) if !inside => {}
            g => return Out::Broken(format!("{}: {:?}", what, g.map_err(|e| e.to_string()))),
        }
    }
    // (no search finds a series without labels)
    for s in c.sets.iter().filter(|s| !s.is_empty() && c.start <= c.end) {
        let want = m.get(&sorted(s));
        match ch.query(labels(s), c.start, c.end) {
            Err(e) => return Out::Broken(format!("query for {:?} failed: {}", s, e)),
            Ok(g) => {
                let mine: Vec<Vec<(u64, u64)>> = g.iter().filter(|t| unlabels(t.meta_data()) == sorted(s)).map(|t| t.time_points().iter().map(|p| (p.timestamp, p.value.to_bits())).collect()).collect();
                let want: Vec<Vec<(u64, u64)>> = want.into_iter().cloned().collect();
                if mine != want { return Out::Broken(format!("series {:?}: inserted {:?}, query returns {:?}", s, want, mine)); }
            }
        }
    }
    Out::Held(nt)
}
pub fn main() { run::<P>() }
