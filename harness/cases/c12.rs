//! C12: a database query merges all chunks: each series once, in time order.
use crate::chunk::{Chunk, ChunkOpts};
use crate::db::vx_db;
use crate::indexer::{Indexer, SledIndexerBuilder};
use crate::storage::{SledStorageBuilder, Storage};
use crate::time_point::TimePoint;
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::{Builder, MonolithDb};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
#[path = "dbkit.rs"] mod dbkit;

#[derive(Serialize, Deserialize, Clone)]
pub enum Op {
    /// label set, order of its labels, offset into the active chunk's window, value
    Write(usize, u64, u64, u64),
    /// start of the new chunk: this long after the end of the active one (before it: chunks overlap, as they do after a reopening or when the clock is set back)
    Rotate(i64),
    /// labels, bounds relative to the opening time, a call on the n-th newest chunk to fail (recording back ends)
    Query(LabelVec, i64, i64, Option<(usize, usize)>),
}
/// a chunk an earlier run left in the directory: start, length, points (label set, offset, value)
#[derive(Serialize, Deserialize, Clone)]
pub struct Old { start: u64, len: u64, points: Vec<(usize, u64, u64)> }
/// query bounds from here on up are absolute times
const ABS: i64 = 1 << 61;
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { real: u8, size: u64, old: Vec<Old>, sets: Vec<LabelVec>, ops: Vec<Op> }
pub struct P;
const SIZE: u64 = 1_000_000_000;
impl Prop for P {
    type Case = Case;
    const PER_RUN: usize = 4000;
    const NAME: &'static str = "c12";
    const RULE: &'static str = "directories with 0..6 chunks of any size (some reaching beyond the time of opening) left by earlier runs; sequences of writes of 1..5 label sets, 0..5 (one case in 300: up to 40 or 160) chunk rotations and queries at chunk edges, over recording and real back ends; non-trivial: a query returns a series with points from two chunks";
    fn make(i: u64, r: &mut Rng) -> Case {
        let big = i % 300 == 150;
        let real = match i % 96 { _ if big => 0, 0 => 1, 1..=12 => 2, _ => 0 };
        let n = 1 + r.usize(5);
        let sets = label_sets(r, n, 3);
        let size = SIZE;
        let mut old: Vec<Old> = vec![];
        let mut past: Vec<u64> = vec![];
        if real == 0 && r.chance(1, 3) {
            for _ in 0..r.usize(7) {
                let start = if r.chance(1, 8) { r.bits(40) } else { 1 + r.below(40) };
                let len = match r.below(6) { 0 => 0, 1 => r.below(3), 2 => r.bits(38), 3 if r.chance(1, 3) => 1 << 42, _ => r.below(60) };
                if old.iter().any(|o| o.start == start && o.len == len) { continue; }
                let mut points = vec![];
                for s in 0..sets.len() {
                    let mut at = if r.chance(1, 2) { 0 } else { r.below(len + 1) };
                    for _ in 0..r.usize(4) {
                        points.push((s, at, r.f64_bits()));
                        past.push(start + at);
                        at += 1 + if r.chance(1, 3) { r.below(len + 1) } else { r.below(4) };
                        if r.chance(1, 4) && at < len { at = len; }
                        if at > len { break; }
                    }
                }
                past.push(start);
                past.push(start + len);
                old.push(Old { start, len, points });
            }
        }
        let mut ops = vec![];
        let often = big && r.chance(1, 2); // very many rotations
        let (mut rot, mut base) = (0u64, 0u64);
        let mut edges: Vec<u64> = vec![0, size];
        let mut clock: BTreeMap<usize, u64> = BTreeMap::new();
        for _ in 0..4 + r.usize(if big { 1200 } else if real == 1 { 20 } else { 40 }) {
            match r.below(if often { 8 } else if big { 40 } else { 10 }) {
                0 | 1 if rot < if often { 160 } else if big { 40 } else if real == 1 { 2 } else { 5 } => { let g = match r.below(10) { 0 => -(r.below(size - 1) as i64), 1 | 2 => -(r.below(12) as i64), _ => 1 + r.below(3) as i64 }; rot += 1; base = (base as i64 + size as i64 + g) as u64; edges.push(base); edges.push(base + size); clock.clear(); ops.push(Op::Rotate(g)); }
                2 | 3 => ops.push(query(r, &sets, &edges, &past)),
                _ => {
                    let s = r.usize(sets.len());
                    let next = match clock.get(&s) { None => if r.chance(1, 4) { 0 } else if r.chance(1, 8) { r.below(size) } else { r.below(100) }, Some(&size) => continue, Some(t) => t + 1 + r.below(50) };
                    let next = if r.chance(1, 15) { size } else if r.chance(1, 15) { next.max(size - r.below(12)) } else { next.min(size) };
                    if clock.get(&s) == Some(&next) { continue; }
                    clock.insert(s, next);
                    edges.push(base + next);
                    let v = if r.chance(1, 2) { 1.0f64.to_bits() } else { r.f64_bits() };
                    ops.push(Op::Write(s, r.u64(), next, v));
                    // another series takes the same point
                    let o = r.usize(sets.len());
                    if o != s && r.chance(1, 3) && clock.get(&o).map(|t| *t < next).unwrap_or(true) { clock.insert(o, next); ops.push(Op::Write(o, r.u64(), next, v)); }
                }
            }
        }
        for _ in 0..5 { ops.push(query(r, &sets, &edges, &past)); }
        for s in &sets { ops.push(Op::Query(s.clone(), i64::min_value(), i64::max_value(), None)); }
        Case { real, size, old, sets, ops }
    }
    fn check(c: &Case) -> Out {
        let d = scratch();
        match c.real {
            1 => go(dbkit::open(d.path(), c.size, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).unwrap(), None, c),
            2 => { let t = Tikv::new(); go(dbkit::open(d.path(), c.size, Box::new(t.storage_builder()), Box::new(t.indexer_builder())).unwrap(), None, c) }
            _ => {
                let b = FakeBuilder::new();
                for o in &c.old {
                    let dir = d.path().join(format!("{:x}", (o.start as u128) << 64 | (o.start + o.len) as u128));
                    let mut co = ChunkOpts::default();
                    co.start_time = Some(o.start);
                    co.end_time = Some(o.start + o.len);
                    co.write_config_to_dir(&dir).unwrap();
                    let text = dir.display().to_string();
                    let sb: &dyn Builder<FakeStorage> = &b;
                    let ib: &dyn Builder<FakeIndexer> = &b;
                    let chunk = Chunk::new(sb.build(text.clone(), Some(&co), None).unwrap(), ib.build(text, Some(&co), None).unwrap(), &co);
                    for (s, off, v) in &o.points {
                        if let Err(e) = chunk.insert(labels(&c.sets[*s]), TimePoint::new(o.start + off, f64::from_bits(*v))) { return Out::Broken(format!("write into a chunk failed: {}", e)); }
                    }
                }
                go(dbkit::fake(d.path(), c.size, &b).unwrap(), Some(b), c) }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = shrink_vec(&c.ops).into_iter().map(|ops| { let mut d = c.clone(); d.ops = ops; d }).collect();
        v.extend(shrink_vec(&c.old).into_iter().map(|old| { let mut d = c.clone(); d.old = old; d }));
        v
    }
}
fn query(r: &mut Rng, sets: &Vec<LabelVec>, edges: &Vec<u64>, past: &Vec<u64>) -> Op {
    let s = shuffled(r.pick(sets), r);
    let k = 1 + r.usize(s.len());
    let old = if past.is_empty() { 0 } else { r.below(3) };
    let mut k2 = 0;
    let mut e = || { k2 += 1; if old == 2 || old == 1 && k2 == 1 { let x = ABS + *r.pick(past) as i64; return match r.below(6) { 0 => x + 1, 1 if x > ABS => x - 1, 2 => x + 20, _ => x }; } let x = *r.pick(edges) as i64; match r.below(6) { 0 => x + 1, 1 => x - 1, 2 => x + 40, 3 => *r.pick(&[i64::min_value(), i64::max_value()]), _ => x } };
    let (a, b) = (e(), e());
    let fail = if r.chance(1, 6) { { let far = if r.chance(1, 4) { 40 } else { 4 }; Some((r.usize(far), r.usize(4))) } } else { None };
    let abs = |x: &i64| *x >= ABS && *x < i64::max_value();
    let (a, b) = if abs(&a) && !abs(&b) { (a, b) } else if abs(&b) && !abs(&a) { (b, a) } else { (a.min(b), a.max(b)) };
    let mut q: LabelVec = s.into_iter().take(k).collect();
    if r.chance(1, 6) { let x = r.pick(&q).clone(); let at = r.usize(q.len() + 1); q.insert(at, x); } // a label twice
    Op::Query(q, a, b, fail)
}
fn go<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: Arc<MonolithDb<S, I>>, b: Option<FakeBuilder>, c: &Case) -> Out {
    let (t0, e0) = vx_db::window(&db);
    if e0 - t0 != c.size { return Out::Broken(format!("window [{}, {}] is not {} ms", t0, e0, c.size)); }
    let (mut start, mut end) = (t0, e0);
    let mut m: BTreeMap<LabelVec, Vec<(u64, u64, usize)>> = BTreeMap::new();
    for (j, o) in c.old.iter().enumerate() { for (s, off, v) in &o.points { m.entry(sorted(&c.sets[*s])).or_default().push((o.start + off, *v, 1000 + j)); } }
    let mut rot = 0;
    let mut nt = false;
    for op in &c.ops {
        match op {
            Op::Write(s, perm, off, v) => {
                let l = shuffled(&c.sets[*s], &mut Rng::new(*perm, 0));
                let t = start + (*off).min(end - start);
                if m.get(&sorted(&l)).map(|p| p[p.len() - 1].2 == rot && p[p.len() - 1].0 >= t).unwrap_or(false) { continue; }
                if let Err(e) = db.write_time_point(labels(&l), TimePoint::new(t, f64::from_bits(*v))) { return Out::Broken(format!("write at {} into [{}, {}] failed: {}", t, start, end, e)); }
                m.entry(sorted(&l)).or_default().push((t, *v, rot));
            }
            Op::Rotate(g) => {
                let s = (end as i64 + g) as u64;
                if let Err(e) = vx_db::rotate(&db, s) { return Out::Broken(format!("rotation failed: {}", e)); }
                rot += 1;
                start = s;
                end = s + c.size;
                if vx_db::window(&db) != (start, end) { return Out::Broken(format!("after a rotation at {} the active window is {:?}", s, vx_db::window(&db))); }
            }
            Op::Query(l, a, z, fail) => {
                let at = |x: i64| if x == i64::min_value() { 0 } else if x == i64::max_value() { u64::max_value() } else if x >= ABS { (x - ABS) as u64 } else { (t0 as i64 + x).max(0) as u64 };
                let (a, z) = (at(*a), at(*z));
                if a > z { continue; }
                // a chunk opened again ends no later than it was opened, what it holds stays: its points count if the range meets what is left of it
                let capped = c.old.iter().any(|o| o.start + o.len >= t0);
                if capped && t0.saturating_sub(20_000) <= a && a <= t0 { continue; }
                let seen = |k: usize| k < 1000 || { let o = &c.old[k - 1000]; a <= (o.start + o.len).min(t0) && o.start <= z };
                let want: BTreeMap<LabelVec, Vec<(u64, u64, usize)>> = m.iter().filter(|(k, _)| l.iter().all(|x| k.contains(x)))
                    .map(|(k, s)| (k.clone(), s.iter().filter(|p| a <= p.0 && p.0 <= z && seen(p.2)).cloned().collect::<Vec<_>>())).filter(|x| !x.1.is_empty()).collect();
                let what = format!("query for {:?} in [{}, {}] (opened at {}, {} rotations)", l, a as i128 - t0 as i128, z as i128 - t0 as i128, 0, rot);
                let world = match (fail, &b) { (Some((w, n)), Some(b)) => { let v = b.all(); v.len().checked_sub(1 + w).map(|i| (v[i].clone(), *n)) } _ => None };
                let failed0 = world.as_ref().map(|(w, n)| { let mut w = w.lock().unwrap(); w.fail_after = Some(*n); w.failed }).unwrap_or(0);
                let res = db.query(labels(l), a, z);
                let failed = world.as_ref().map(|(w, _)| { let mut w = w.lock().unwrap(); w.fail_after = None; w.failed - failed0 }).unwrap_or(0);
                match res {
                    Err(_) if failed > 0 => {}
                    Err(e) => return Out::Broken(format!("{} failed: {}", what, e)),
                    Ok(g) => {
                        let mut got: BTreeMap<LabelVec, Vec<(u64, u64)>> = BTreeMap::new();
                        for (k, s) in g {
                            let k = unlabels(&k);
                            if s.windows(2).any(|w| w[0].timestamp > w[1].timestamp) { return Out::Broken(format!("{}: {:?} is not in ascending order: {:?}", what, k, s.iter().map(|p| p.timestamp as i128 - t0 as i128).collect::<Vec<_>>())); }
                            let mut s: Vec<(u64, u64)> = s.iter().map(|p| (p.timestamp, p.value.to_bits())).collect();
                            s.sort();
                            if got.insert(k.clone(), s).is_some() { return Out::Broken(format!("{}: {:?} occurs twice", what, k)); }
                        }
                        let plain: BTreeMap<LabelVec, Vec<(u64, u64)>> = want.iter().map(|(k, s)| (k.clone(), { let mut s: Vec<(u64, u64)> = s.iter().map(|p| (p.0, p.1)).collect(); s.sort(); s })).collect();
                        if got != plain { return Out::Broken(format!("{}: should be {:?}, got {:?}{}", what, plain, got, if failed > 0 { " although a read of a chunk failed" } else { "" })); }
                        nt |= want.values().any(|s| s.iter().any(|p| p.2 != s[0].2));
                    }
                }
            }
        }
    }
    Out::Held(nt)
}
pub fn main() { run::<P>() }
