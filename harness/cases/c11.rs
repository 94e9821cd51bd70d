//! C11: a chunk query returns every matching series with exactly its points in range.
use crate::chunk::{Chunk, ChunkOpts};
use crate::indexer::{Indexer, SledIndexer};
use crate::storage::{SledStorage, Storage};
use crate::time_point::TimePoint;
use crate::utils::is_duration_overlap;
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::{Builder, MonolithErr};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Query { labels: LabelVec, from: u64, to: u64, fail: Option<usize> }
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { real: u8, start: u64, end: u64, data: Vec<(LabelVec, Vec<(u64, u64)>)>, queries: Vec<Query> }
pub struct P;
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c11";
    const RULE: &'static str = "chunks with 0..8 (one in 1000: 400) series (shared labels, some without points in range, gaps, sometimes thousands of points) and up to 20 queries with ranges at, inside, across and outside the chunk's bounds, failures at chosen calls, over recording and real back ends; non-trivial: some series matches a query";
    fn make(i: u64, r: &mut Rng) -> Case {
        let big = match i % 1000 { 500 => 2, 100 => 1, _ => 0 };
        let real = match i % 96 { _ if big > 0 => 0, 0 => 1, 1..=12 => 2, _ => 0 };
        let start = match r.below(3) { 0 => 0, 1 => 1000, _ => r.bits(40) };
        let end = start + match r.below(3) { 0 => r.below(3), 1 => 50, _ if big > 0 => 100_000, _ => r.below(1000) };
        let n = r.usize(9);
        let sets = if big == 2 { (0..400).map(|k| vec![("job".to_string(), "x".to_string()), ("#".to_string(), k.to_string())]).collect() } else { label_sets(r, n, 4) };
        let data: Vec<(LabelVec, Vec<(u64, u64)>)> = sets.iter().map(|s| {
            let k = 1 + if big == 1 { 9000 } else { r.usize(6) };
            let mut ts: Vec<u64> = (0..k).map(|_| match r.below(5) { 0 => start, 1 => end, _ => start + r.below(end - start + 1) }).collect();
            ts.sort();
            ts.dedup();
            (s.clone(), ts.into_iter().map(|t| (t, r.f64_bits())).collect())
        }).collect();
        let mut data = data;
        // series that hold the same points
        if data.len() > 1 && r.chance(1, 4) { for _ in 0..1 + r.usize(2) { let (a, b) = (r.usize(data.len()), r.usize(data.len())); let p = data[a].1.clone(); data[b].1 = p; } }
        let mut edges: Vec<u64> = data.iter().flat_map(|d| d.1.iter().map(|p| p.0)).collect();
        edges.push(start);
        edges.push(end);
        let queries = (0..4 + r.usize(16)).map(|_| {
            let mut e = || { let x = *r.pick(&edges); match r.below(6) { 0 => x.saturating_add(1), 1 => x.saturating_sub(1), 2 => r.below(end.saturating_add(100)), 3 => *r.pick(&[0, u64::MAX]), _ => x } };
            let (a, b) = (e(), e());
            let l = if sets.is_empty() || r.chance(1, 10) { label_set(r, 2) } else if r.chance(1, 10) { let s = r.pick(&sets).clone(); label_set_near(&s, r) } else { let s = shuffled(&sets[r.usize(sets.len())], r); let k = 1 + r.usize(s.len()); s.into_iter().take(k).collect() };
            let mut l: LabelVec = l;
            if r.chance(1, 6) { let x = r.pick(&l).clone(); let at = r.usize(l.len() + 1); l.insert(at, x); } // a label twice
            Query { labels: l, from: a.min(b), to: a.max(b), fail: if real == 0 && r.chance(1, 5) { Some(r.usize(5)) } else { None } }
        }).collect();
        Case { real, start, end, data, queries }
    }
    fn check(c: &Case) -> Out {
        let mut o = ChunkOpts::default();
        o.start_time = Some(c.start);
        o.end_time = Some(c.end);
        match c.real {
            1 => { let d = scratch(); go(Chunk::new(SledStorage::new(&d.path().join("s")).unwrap(), SledIndexer::new(&d.path().join("i")).unwrap(), &o), None, c) }
            2 => {
                let d = scratch();
                let t = Tikv::new();
                let s = t.storage_builder().build(d.path().display().to_string(), Some(&o), None).unwrap();
                let i = t.indexer_builder().build(d.path().display().to_string(), Some(&o), None).unwrap();
                go(Chunk::new(s, i, &o), None, c)
            }
            _ => { let w: Shared = Default::default(); go(Chunk::new(FakeStorage(w.clone()), FakeIndexer(w.clone()), &o), Some(w), c) }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = shrink_vec(&c.queries).into_iter().map(|q| { let mut d = c.clone(); d.queries = q; d }).collect();
        v.extend(shrink_vec(&c.data).into_iter().map(|x| { let mut d = c.clone(); d.data = x; d }));
        v
    }
}
fn go<S: Storage, I: Indexer>(ch: Chunk<S, I>, w: Option<Shared>, c: &Case) -> Out {
    if let Some(w) = &w {
        let mut g = w.lock().unwrap();
        for (i, d) in c.data.iter().enumerate() {
            let id = i as u64 + 1;
            g.index.insert(sorted(&d.0), id);
            g.meta.insert(id, sorted(&d.0));
            g.series.insert(id, d.1.clone());
        }
    } else {
        for d in &c.data { for p in &d.1 { if let Err(e) = ch.insert(labels(&d.0), TimePoint::new(p.0, f64::from_bits(p.1))) { return Out::Broken(format!("insert failed: {}", e)); } } }
    }
    let mut nt = false;
    for q in &c.queries {
        let meets = q.from <= c.end && c.start <= q.to;
        let what = format!("query for {:?} in [{}, {}] of a chunk [{}, {}]", q.labels, q.from, q.to, c.start, c.end);
        if ch.is_with_range(q.from, q.to) != meets || is_duration_overlap(c.start, c.end, q.from, q.to) != meets || is_duration_overlap(q.from, q.to, c.start, c.end) != meets {
            return Out::Broken(format!("{}: overlap test is wrong, should be {}", what, meets));
        }
        let want: BTreeMap<LabelVec, Vec<(u64, u64)>> = c.data.iter().filter(|d| q.labels.iter().all(|x| d.0.contains(x)))
            .map(|d| (sorted(&d.0), d.1.iter().filter(|p| q.from <= p.0 && p.0 <= q.to).cloned().collect::<Vec<_>>())).filter(|d| !d.1.is_empty()).collect();
        let failed0 = w.as_ref().map(|w| { let mut g = w.lock().unwrap(); g.fail_after = q.fail; g.failed });
        let got = ch.query(labels(&q.labels), q.from, q.to);
        let failed = w.as_ref().map(|w| { let mut g = w.lock().unwrap(); g.fail_after = None; g.failed }) != failed0;
        match got {
            Err(MonolithErr::OutOfRangeErr(_, _)) if !meets => {}
            g if !meets => return Out::Broken(format!("{}: should be refused as out of range, got {:?}", what, g.map(|v| v.len()).map_err(|e| e.to_string()))),
            Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => return Out::Broken(format!("{}: refused", what)),
            Err(_) if failed => {}
            Err(e) => return Out::Broken(format!("{}: failed: {}", what, e)),
            Ok(_) if failed => return Out::Broken(format!("{}: index or storage failed, but the query succeeded", what)),
            Ok(g) => {
                let mut m: BTreeMap<LabelVec, Vec<(u64, u64)>> = BTreeMap::new();
                for t in &g {
                    if m.insert(unlabels(t.meta_data()), t.time_points().iter().map(|p| (p.timestamp, p.value.to_bits())).collect()).is_some() { return Out::Broken(format!("{}: {:?} occurs twice", what, unlabels(t.meta_data()))); }
                }
                if m != want { return Out::Broken(format!("{}: should be {:?}, got {:?}", what, want, m)); }
                nt |= !want.is_empty();
            }
        }
    }
    Out::Held(nt)
}
pub fn main() { run::<P>() }
