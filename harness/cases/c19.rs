//! C19: component identifiers on the shared store.
use crate::chunk::ChunkOpts;
use crate::indexer::{Indexer, TiKvIndexer};
use crate::storage::{Storage, TiKvStorage};
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::Builder;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub enum Op {
    /// ask the backend for a component's identifier
    Init(usize, bool),
    /// the same while the store fails (true: to write)
    Failing(usize, bool, bool),
    /// build a component, or open it again
    Build(usize, bool), Open(usize, bool),
    /// put a point (id, time) into / register a label set with the handle of a chunk's component
    Write(usize, u64, u64), Register(usize, u64),
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { chunks: Vec<Vec<u8>>, ops: Vec<Op> }
fn opts(c: &Case, k: usize) -> ChunkOpts { let mut o = ChunkOpts::default(); o.start_time = Some(1); o.end_time = Some(2); o.identifier = c.chunks[k].clone(); o }
fn set(n: u64) -> LabelVec { vec![("name".into(), format!("v{}", n)), ("all".into(), "x".into())] }
#[derive(Default, Clone)]
struct Rec { ids: [Option<Vec<u8>>; 2], made: [bool; 2], points: BTreeMap<u64, Vec<u64>>, sets: BTreeMap<u64, u64> }

pub struct P;
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c19";
    const RULE: &'static str = "1..4 chunks on one shared store, histories of up to 24 creations, reopenings, writes and registrations of their storages and indexes in any order; store failures; the records and all data are looked at after every step; non-trivial: a reopening after something was written";
    fn make(_i: u64, r: &mut Rng) -> Case {
        let n = 1 + r.usize(4);
        let base: Vec<u8> = (0..16).map(|_| r.u64() as u8).collect();
        let chunks: Vec<Vec<u8>> = (0..n).map(|k| { let mut b = base.clone(); if r.chance(1, 2) { b[r.usize(16)] ^= 1 + k as u8; b[k] ^= 0x80 } else { b = (0..16).map(|_| r.u64() as u8).collect() }; b }).collect();
        let mut chunks2: Vec<Vec<u8>> = vec![];
        for c in chunks { if !chunks2.contains(&c) { chunks2.push(c) } }
        let chunks = chunks2;
        let n = chunks.len();
        let ops = (0..1 + r.usize(24)).map(|i| {
            let k = r.usize(n);
            let x = r.chance(1, 2);
            match r.below(if i < 4 { 6 } else { 12 }) {
                0..=2 => if r.chance(1, 6) { Op::Init(k, x) } else if r.chance(1, 6) { Op::Failing(k, x, r.chance(1, 2)) } else { Op::Build(k, x) },
                3 | 4 => Op::Write(k, 1 + r.below(2), 100 + i as u64),
                5 => Op::Register(k, i as u64 + 1),
                6 | 7 => Op::Open(k, x),
                8 | 9 => Op::Write(k, 1 + r.below(2), 100 + i as u64),
                10 => Op::Register(k, i as u64 + 1),
                _ => Op::Build(k, x),
            }
        }).collect();
        Case { chunks, ops }
    }
    fn check(c: &Case) -> Out {
        let d = scratch();
        let tk = Tikv::new();
        let n = c.chunks.len();
        let mut recs = vec![Rec::default(); n];
        let mut st: Vec<Option<TiKvStorage>> = (0..n).map(|_| None).collect();
        let mut ix: Vec<Option<TiKvIndexer>> = (0..n).map(|_| None).collect();
        let mut all_ids: Vec<Vec<u8>> = vec![];
        let mut nt = false;
        let dir = d.path().display().to_string();
        for (step, op) in c.ops.iter().enumerate() {
            macro_rules! bad { ($($a:tt)*) => { return Out::Broken(format!("step {} {}: {}", step, serde_json::to_string(op).unwrap(), format!($($a)*))) } }
            match op {
                Op::Init(k, x) => {
                    let got = match tk.singleton.get_instance().and_then(|b| b.init_component(c.chunks[*k].clone(), *x)) { Ok(g) => g, Err(e) => bad!("failed: {}", e) };
                    if all_ids.contains(&got) { bad!("identifier {:?} was handed out before", got) }
                    let r = &mut recs[*k];
                    r.ids[*x as usize] = Some(got);
                    r.made[*x as usize] = true;
                    if *x { r.sets.clear(); ix[*k] = None; } else { r.points.clear(); st[*k] = None; }
                }
                Op::Failing(k, x, put) => {
                    if *put { tk.fail_put(Some(0)) } else { tk.fail_get(Some(0)) }
                    let got = tk.singleton.get_instance().and_then(|b| b.init_component(c.chunks[*k].clone(), *x));
                    tk.fail_put(None);
                    tk.fail_get(None);
                    if let Ok(g) = got { bad!("gives {:?} although the store failed", g) }
                }
                Op::Build(k, true) => match tk.indexer_builder().build(dir.clone(), Some(&opts(c, *k)), None) {
                    Ok(i) => { ix[*k] = Some(i); let r = &mut recs[*k]; r.made[1] = true; r.ids[1] = None; r.sets.clear(); }
                    Err(e) => bad!("failed: {}", e),
                },
                Op::Build(k, false) => match tk.storage_builder().build(dir.clone(), Some(&opts(c, *k)), None) {
                    Ok(s) => { st[*k] = Some(s); let r = &mut recs[*k]; r.made[0] = true; r.ids[0] = None; r.points.clear(); }
                    Err(e) => bad!("failed: {}", e),
                },
                Op::Open(k, true) => match tk.indexer_builder().read_from_chunk(d.path(), Some(&opts(c, *k))) {
                    Ok(Some(i)) => { ix[*k] = Some(i); nt |= !recs[*k].sets.is_empty(); if !recs[*k].made[0] && !recs[*k].made[1] { bad!("a chunk that was never created is opened") } if !recs[*k].made[1] { ix[*k] = None; } }
                    Ok(None) => if recs[*k].made[0] || recs[*k].made[1] { bad!("the chunk is not found again") },
                    Err(e) => bad!("failed: {}", e),
                },
                Op::Open(k, false) => match tk.storage_builder().read_from_chunk(d.path(), Some(&opts(c, *k))) {
                    Ok(Some(s)) => { st[*k] = Some(s); nt |= !recs[*k].points.is_empty(); if !recs[*k].made[0] && !recs[*k].made[1] { bad!("a chunk that was never created is opened") } if !recs[*k].made[0] { st[*k] = None; } }
                    Ok(None) => if recs[*k].made[0] || recs[*k].made[1] { bad!("the chunk is not found again") },
                    Err(e) => bad!("failed: {}", e),
                },
                Op::Write(k, id, t) => if let Some(s) = &st[*k] {
                    if let Err(e) = s.write_time_point(*id, *t, *t as f64) { bad!("failed: {}", e) }
                    recs[*k].points.entry(*id).or_default().push(*t);
                },
                Op::Register(k, i) => if let Some(x) = &ix[*k] {
                    if let Err(e) = x.create_index(labels(&set(*i)), *i) { bad!("failed: {}", e) }
                    recs[*k].sets.insert(*i, *i);
                },
            }
            // the records
            let shared = tk.store();
            for k in 0..n {
                let rec = shared.lock().unwrap().map.get(&c.chunks[k]).cloned();
                match rec {
                    None => if recs[k].made[0] || recs[k].made[1] { bad!("chunk {} has no record", k) },
                    Some(v) => {
                        if !(recs[k].made[0] || recs[k].made[1]) { bad!("chunk {} has a record {:?} although none of its components was created", k, v) }
                        if v.len() != 32 { bad!("record of chunk {} is {:?}", k, v) }
                        let part = [v[16..].to_vec(), v[..16].to_vec()];
                        for x in 0..2 {
                            let name = ["storage", "index"][x];
                            if !recs[k].made[x] { if part[x] != vec![0u8; 16] { bad!("chunk {} has {} identifier {:?} although it was never created", k, name, part[x]) } continue }
                            match &recs[k].ids[x] {
                                Some(id) => if *id != part[x] { bad!("the {} identifier of chunk {} is recorded as {:?}, should be {:?}", name, k, part[x], id) },
                                None => {
                                    if part[x] == vec![0u8; 16] { bad!("the {} identifier of chunk {} is not recorded", name, k) }
                                    if all_ids.contains(&part[x]) { bad!("the new {} of chunk {} has the identifier {:?} of another component", name, k, part[x]) }
                                    recs[k].ids[x] = Some(part[x].clone());
                                }
                            }
                            let id = recs[k].ids[x].clone().unwrap();
                            if !all_ids.contains(&id) { all_ids.push(id); }
                        }
                    }
                }
            }
            // the data, through the handles there are
            for k in 0..n {
                if let Some(s) = &st[k] {
                    for id in 1..3 {
                        let got: Vec<u64> = match s.read_time_series(id, 0, u64::MAX) { Ok(v) => v.iter().map(|p| p.timestamp).collect(), Err(crate::MonolithErr::NotFoundErr) => vec![], Err(e) => bad!("reading chunk {} failed: {}", k, e) };
                        let want = recs[k].points.get(&id).cloned().unwrap_or_default();
                        if got != want { bad!("series {} of chunk {} reads {:?}, should be {:?}", id, k, got, want) }
                    }
                }
                if let Some(i) = &ix[k] {
                    let mut got: Vec<u64> = match i.get_series_id_contains_labels(labels(&[("all".to_string(), "x".to_string())])) { Ok(v) => v, Err(e) => bad!("searching chunk {} failed: {}", k, e) };
                    got.sort();
                    let want: Vec<u64> = recs[k].sets.values().cloned().collect();
                    if got != want { bad!("search in chunk {} gives {:?}, should be {:?}", k, got, want) }
                }
            }
        }
        Out::Held(nt)
    }
    fn shrink(c: &Case) -> Vec<Case> { shrink_vec(&c.ops).into_iter().map(|ops| Case { chunks: c.chunks.clone(), ops }).collect() }
}
pub fn main() { run::<P>() }
