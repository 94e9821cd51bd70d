//! C18: messages and series say the same; a read request gets what the database answers to each of its queries.
use crate::db::vx_db;
use crate::indexer::{Indexer, SledIndexerBuilder};
use crate::option::ServerOpts;
use crate::proto::{ReadRequest, WriteRequest};
use crate::server::MonolithServer;
use crate::storage::{SledStorageBuilder, Storage};
use crate::time_point::TimePoint;
use crate::time_series::TimeSeries;
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::MonolithDb;
use protobuf::Message;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
#[path = "dbkit.rs"] mod dbkit;
#[path = "wire.rs"] mod wire;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step {
    /// series of a remote write: label set (past the end: no labels at all), points relative to the start of the active window
    Write(Vec<(usize, Vec<(i64, u64)>)>, Option<usize>),
    /// queries: label set, labels asked for (bit mask), range: relative to the window, or absolute
    Read(Vec<(usize, u32, Edge, Edge)>, Option<usize>),
    Rotate,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
pub enum Edge { Rel(i64), Abs(i64) }
#[derive(Serialize, Deserialize, Clone)]
pub enum Case { Convert(Vec<(LabelVec, Vec<(i64, u64)>)>), Remote { real: u8, sets: Vec<LabelVec>, steps: Vec<Step> } }
pub struct P;
impl Prop for P {
    type Case = Case;
    const PER_RUN: usize = 3000;
    const NAME: &'static str = "c18";
    const RULE: &'static str = "(two in three) write requests of 0..4 (sometimes hundreds of) series with any labels and samples (sometimes thousands), encoded by hand, decoded, converted to series and back and encoded again; otherwise sequences of remote writes and reads with 0..4 queries over recording and real back ends, with failing index or store calls; non-trivial: a series with labels and samples, or a query that finds points";
    fn make(i: u64, r: &mut Rng) -> Case {
        if i % 3 != 0 {
            let big = if i % 600 == 100 { 1 + r.usize(3) } else { 0 };
            return Case::Convert((0..r.usize(if big == 1 { 500 } else { 5 })).map(|_| {
                let l = (0..r.usize(if big == 2 { 400 } else { 5 })).map(|_| (if r.chance(1, 2) { r.name() } else { r.text() }, r.text())).collect();
                let s = (0..r.usize(if big == 3 { 5000 } else { 6 })).map(|_| (match r.below(6) { 0 => 0, 1 => i64::max_value(), 2 => r.u64() as i64, 3 => -(r.below(5000) as i64), 4 => r.bits(63) as i64 & i64::max_value(), _ => 1_600_000_000_000 + r.below(100_000) as i64 }, r.f64_bits())).collect();
                (l, s)
            }).collect());
        }
        let big = if i % 300 == 150 { 1 + r.usize(3) } else { 0 };
        let real = match i % 60 { _ if big > 0 => 0, 0 => 1, 3 | 6 | 9 => 2, _ => 0 };
        let n = 1 + r.usize(4);
        let sets = label_sets(r, n, 3);
        let mut clock = vec![0i64; sets.len()];
        let steps = (0..3 + r.usize(if real == 1 { 5 } else { 12 })).map(|_| match r.below(9) {
            0 => { for c in clock.iter_mut() { *c = 0 } Step::Rotate }
            1 | 2 | 3 => {
                let ts = (0..r.usize(if big == 1 { 400 } else { 5 })).map(|_| {
                    let s = r.usize(sets.len());
                    if real == 0 && r.chance(1, 12) { return (sets.len(), (0..r.usize(4)).map(|_| (r.below(1000) as i64, r.f64_bits())).collect()); }
                    let mut p = vec![];
                    for _ in 0..r.usize(if big == 2 { 3000 } else { 5 }) { if r.chance(1, 8) { p.push((-1 - r.below(1000) as i64, r.f64_bits())); } else { clock[s] += 1 + r.below(30) as i64; p.push((clock[s], r.f64_bits())); } }
                    (s, p)
                }).collect();
                let mut ts: Vec<(usize, Vec<(i64, u64)>)> = ts;
                // a point twice in one request (the recording store takes it)
                if real == 0 && !ts.is_empty() && r.chance(1, 6) { let at = r.usize(ts.len()); let x = ts[at].clone(); if x.1.len() < 2 { ts.insert(at + 1, x); } }
                Step::Write(ts, if real == 0 && r.chance(1, 6) { Some(r.usize(12)) } else { None })
            }
            _ => {
                let e = |r: &mut Rng| match r.below(8) { 7 => Edge::Abs(r.bits(63) as i64 & i64::max_value()), 0 => Edge::Abs(0), 1 => Edge::Abs(-1), 2 => Edge::Abs(i64::min_value()), 3 => Edge::Abs(i64::max_value()), 4 => Edge::Rel(-5), _ => Edge::Rel(r.below(200) as i64) };
                let q = (0..r.usize(if big == 3 { 300 } else { 5 })).map(|_| {
                    let (a, b) = match r.below(6) { 2 => (e(r), Edge::Abs(i64::max_value())), 0 => (Edge::Abs(i64::min_value()), Edge::Abs(i64::max_value())), 1 => (Edge::Abs(0), e(r)), _ => (e(r), e(r)) };
                    (r.usize(sets.len()), if r.chance(1, 3) { 255 } else { r.u64() as u32 }, a, b)
                }).collect();
                Step::Read(q, if real == 0 && r.chance(1, 8) { Some(r.usize(12)) } else { None })
            }
        }).collect();
        Case::Remote { real, sets, steps }
    }
    fn check(c: &Case) -> Out {
        match c {
            Case::Convert(v) => convert(v),
            Case::Remote { real, sets, steps } => {
                let d = scratch();
                let size = 1_000_000_000;
                match real {
                    1 => remote(dbkit::open(d.path(), size, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).unwrap(), None, sets, steps),
                    2 => { let t = Tikv::new(); remote(dbkit::open(d.path(), size, Box::new(t.storage_builder()), Box::new(t.indexer_builder())).unwrap(), None, sets, steps) }
                    _ => { let b = FakeBuilder::new(); remote(dbkit::fake(d.path(), size, &b).unwrap(), Some(b), sets, steps) }
                }
            }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        match c {
            Case::Convert(v) => {
                let mut o: Vec<Case> = shrink_vec(v).into_iter().map(Case::Convert).collect();
                for i in 0..v.len() {
                    for l in shrink_vec(&v[i].0) { let mut w = v.clone(); w[i].0 = l; o.push(Case::Convert(w)); }
                    for s in shrink_vec(&v[i].1) { let mut w = v.clone(); w[i].1 = s; o.push(Case::Convert(w)); }
                }
                o
            }
            Case::Remote { real, sets, steps } => {
                let mk = |s: Vec<Step>| Case::Remote { real: *real, sets: sets.clone(), steps: s };
                let mut o: Vec<Case> = shrink_vec(steps).into_iter().map(mk).collect();
                for i in 0..steps.len() {
                    let smaller: Vec<Step> = match &steps[i] { Step::Write(v, f) => shrink_vec(v).into_iter().map(|v| Step::Write(v, *f)).collect(), Step::Read(v, f) => shrink_vec(v).into_iter().map(|v| Step::Read(v, *f)).collect(), Step::Rotate => vec![] };
                    for s in smaller { let mut w = steps.clone(); w[i] = s; o.push(mk(w)); }
                }
                o
            }
        }
    }
}
fn inside(t: &TimeSeries) -> wire::Series { (t.meta_data().vec().iter().map(|l| (l.key().clone(), l.value().clone())).collect(), t.time_points().iter().map(|p| (p.timestamp as i64, p.value.to_bits())).collect()) }
fn convert(v: &Vec<wire::Series>) -> Out {
    let mut m = WriteRequest::new();
    if let Err(e) = m.merge_from_bytes(&wire::write_request(v)) { return Out::Broken(format!("{:?}: a valid write request is not decoded: {}", v, e)); }
    if m.timeseries.len() != v.len() { return Out::Broken(format!("{:?}: {} series decoded", v, m.timeseries.len())); }
    for (s, m) in v.iter().zip(m.timeseries.iter()) {
        let t = TimeSeries::from(m);
        if inside(&t) != *s { return Out::Broken(format!("the series {:?} became {:?}", s, inside(&t))); }
        for back in vec![crate::proto::TimeSeries::from(&t), crate::proto::TimeSeries::from(&(t.meta_data().clone(), t.time_points().clone()))] {
            let got: wire::Series = (back.labels.iter().map(|l| (l.name.clone(), l.value.clone())).collect(), back.samples.iter().map(|p| (p.timestamp, p.value.to_bits())).collect());
            if got != *s { return Out::Broken(format!("the series {:?} became the message {:?}", s, got)); }
            let b = back.write_to_bytes().unwrap();
            match wire::rd_series(&b) { Ok(x) if x == *s => {} x => return Out::Broken(format!("the series {:?} was encoded as {:?}, which says {:?}", s, b, x)) }
            if back.compute_size() as usize != b.len() { return Out::Broken(format!("the series {:?}: size {} of {} bytes", s, back.compute_size(), b.len())); }
        }
    }
    Out::Held(v.iter().any(|s| !s.0.is_empty() && !s.1.is_empty()))
}
fn remote<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: Arc<MonolithDb<S, I>>, b: Option<FakeBuilder>, sets: &Vec<LabelVec>, steps: &Vec<Step>) -> Out {
    let server = MonolithServer::new(ServerOpts { port: 0, write_path: "/write", read_path: "/read", worker_num: 1 }, db.clone());
    let mut nt = false;
    // every acknowledged point, for each label set
    let mut all: Vec<Vec<(u64, u64)>> = vec![vec![]; sets.len() + 1];
    let mut known = true;
    let arm = |n: Option<usize>| { if let Some(b) = &b { for w in b.all() { w.lock().unwrap().fail_after = n; } } };
    let failed = || b.as_ref().map(|b| b.all().iter().map(|w| w.lock().unwrap().failed).sum::<usize>()).unwrap_or(0);
    for (i, s) in steps.iter().enumerate() {
        let (start, end) = vx_db::window(&db);
        match s {
            Step::Rotate => { if let Err(e) = vx_db::rotate(&db, end + 1) { return Out::Broken(format!("rotation failed: {}", e)); } }
            Step::Write(v, fail) => {
                let ts: Vec<wire::Series> = v.iter().map(|(s, p)| (sets.get(*s).cloned().unwrap_or_default(), p.iter().map(|(t, b)| ((start as i64).wrapping_add(*t), *b)).collect())).collect();
                let mut m = WriteRequest::new();
                m.merge_from_bytes(&wire::write_request(&ts)).unwrap();
                let f0 = failed();
                arm(*fail);
                let r = server.write(m);
                arm(None);
                let what = format!("step {}: remote write of {:?}", i, ts);
                if failed() > f0 && r.is_ok() { return Out::Broken(format!("{}: acknowledged although storing failed", what)); }
                if failed() == f0 { if let (Err(e), true) = (&r, b.is_some()) { return Out::Broken(format!("{}: refused: {}", what, e)); } }
                if r.is_err() { known = false; }
                for (k, p) in v { all[*k].extend(p.iter().filter(|p| p.0 >= 0).map(|p| ((start as i64 + p.0) as u64, p.1))); }
                if let (Some(b), true) = (&b, known) {
                    let mut got: Vec<(u64, u64)> = b.all().iter().flat_map(|w| w.lock().unwrap().series.values().flatten().cloned().collect::<Vec<_>>()).collect();
                    let mut want: Vec<(u64, u64)> = all.iter().flatten().cloned().collect();
                    got.sort(); want.sort();
                    if got != want { return Out::Broken(format!("{}: acknowledged, stored are {:?}, written were {:?}", what, got, want)); }
                }
            }
            Step::Read(v, fail) => {
                let q: Vec<(i64, i64, LabelVec)> = v.iter().map(|(s, mask, a, b)| {
                    let at = |e: &Edge| match e { Edge::Rel(o) => start as i64 + o, Edge::Abs(t) => *t };
                    let l: LabelVec = sets[*s].iter().enumerate().filter(|(k, _)| mask & (1 << (k % 31)) != 0).map(|x| x.1.clone()).collect();
                    (at(a), at(b), if l.is_empty() { vec![sets[*s][0].clone()] } else { l })
                }).collect();
                let what = format!("step {}: queries {:?}", i, q);
                let mut m = ReadRequest::new();
                m.merge_from_bytes(&wire::read_request(&q)).unwrap();
                let f0 = failed();
                arm(*fail);
                let r = server.query(m);
                arm(None);
                let r = match r {
                    Ok(r) => { if failed() > f0 { return Out::Broken(format!("{}: answered although a read of the database failed", what)); } r }
                    Err(e) => { if failed() == f0 { return Out::Broken(format!("{}: refused: {}", what, e)); } continue; }
                };
                let got = match wire::rd_response(&r.write_to_bytes().unwrap()) { Ok(x) => x, Err(e) => return Out::Broken(format!("{}: the answer cannot be read: {}", what, e)) };
                if got.len() != q.len() { return Out::Broken(format!("{}: {} results", what, got.len())); }
                for (k, ((lo, hi, l), g)) in q.iter().zip(got).enumerate() {
                    let mut want: Vec<wire::Series> = if *hi < 0 { vec![] } else {
                        match db.query(labels(l), (*lo).max(0) as u64, *hi as u64) {
                            Err(e) => return Out::Broken(format!("{}: query {} of the database failed: {}", what, k, e)),
                            Ok(v) => v.iter().map(|(l, p)| (unlabels(l), points(p))).collect(),
                        }
                    };
                    let mut g: Vec<wire::Series> = g.into_iter().map(|(l, p)| (sorted(&l), p)).collect();
                    want.sort(); g.sort();
                    if g != want { return Out::Broken(format!("{}: result {} is {:?}, the database says {:?}", what, k, g, want)); }
                    nt |= !g.is_empty();
                    // and what was acknowledged is found
                    if known && b.is_some() { for (s, set) in sets.iter().enumerate() {
                        if !l.iter().all(|x| set.contains(x)) { continue; }
                        let mut w: Vec<(i64, u64)> = all[s].iter().filter(|p| p.0 as i64 >= *lo && p.0 as i64 <= *hi).map(|p| (p.0 as i64, p.1)).collect();
                        w.sort();
                        let mut found: Vec<(i64, u64)> = g.iter().filter(|x| x.0 == sorted(set)).flat_map(|x| x.1.clone()).collect();
                        found.sort();
                        if w != found { return Out::Broken(format!("{}: result {} has {:?} of the series {:?}, written {:?}", what, k, found, set, w)); }
                    } }
                }
            }
        }
    }
    Out::Held(nt)
}
fn points(p: &Vec<TimePoint>) -> wire::Samples { p.iter().map(|p| (p.timestamp as i64, p.value.to_bits())).collect() }
pub fn main() { run::<P>() }
