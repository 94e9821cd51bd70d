//! C06, C07, C08: the label index (both back ends). One kind of history; each property judges its own answers.
use crate::chunk::ChunkOpts;
use crate::indexer::{Indexer, SledIndexer};
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::Builder;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub enum Op { Register(LabelVec, u64), Lookup(LabelVec), Search(LabelVec, Option<usize>) }
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { tikv: bool, ops: Vec<Op> }

pub fn make(i: u64, r: &mut Rng) -> Case {
    let tikv = if i < 40 { i % 4 != 0 } else { i % 6 != 0 && i % 800 != 400 };
    let n = if i < 40 { 1 + r.usize(3) } else { 1 + r.usize(if tikv { 14 } else { 6 }) };
    let max = 1 + r.usize(4);
    if i % 80 == 41 || i % 800 == 400 { return wide(i, tikv, r); }
    let max = if i > 40 && r.chance(1, 8) { if r.chance(1, 4) { 60 } else { 12 } } else { max };
    let mut sets = label_sets(r, n, max);
    if i > 40 && r.chance(1, 16) {
        // long values
        let k = r.usize(sets.len());
        let n = 1 << r.below(15);
        let mut v = String::new();
        while v.len() < n { v.push_str(&r.text()); v.push('x'); }
        let j = r.usize(sets[k].len());
        sets[k][j].1 = v;
    }
    let mut id = match r.below(4) { 0 => 1, 1 => r.bits(62), 2 => 9, _ => 98 };
    let mut ops = vec![];
    let mut done: Vec<LabelVec> = vec![];
    for s in &sets {
        ops.push(Op::Register(s.clone(), id));
        id += 1 + if r.chance(1, 2) { 0 } else { r.below(300) };
        done.push(s.clone());
        for _ in 0..r.usize(3) { probe(r, &done, &sets, &mut ops, tikv); }
    }
    if r.chance(1, 6) {
        // a series without labels
        let at = r.usize(ops.len() + 1);
        let before = ops[..at].iter().rev().filter_map(|o| if let Op::Register(_, id) = o { Some(*id) } else { None }).next().unwrap_or(0);
        for o in ops[at..].iter_mut() { if let Op::Register(_, id) = o { *id += 1; } }
        ops.insert(at, Op::Register(vec![], before + 1));
    }
    if r.chance(1, 4) { let at = r.usize(ops.len() + 1); ops.insert(at, Op::Lookup(vec![])); ops.push(Op::Lookup(vec![])); }
    for s in &sets { ops.push(Op::Lookup(shuffled(s, r))); ops.push(Op::Search(shuffled(s, r), None)); }
    for _ in 0..12 { probe(r, &done, &sets, &mut ops, tikv); }
    Case { tikv, ops }
}
/// many series that share labels
fn wide(i: u64, tikv: bool, r: &mut Rng) -> Case {
    let n = (if tikv && i % 1600 == 361 { 4000 } else { 0 }) + r.usize(if tikv && i % 1600 == 361 { 5000 } else if !tikv && i % 1600 == 400 { 600 } else if !tikv { 120 } else if i % 160 == 41 { 1500 } else { 300 });
    let mut id = 1 + r.bits(10);
    let mut ops = vec![];
    let set = |k: usize| -> LabelVec { vec![("job".into(), if k % 11 == 5 { "y" } else { "x" }.into()), ("n".into(), format!("{}", k)), ("m".into(), format!("{}", k % 7))] };
    for k in 0..n { ops.push(Op::Register(set(k), id)); id += 1 + if r.chance(1, 20) { r.below(300) } else { 0 }; }
    for _ in 0..8 {
        let k = r.usize(n + 1);
        ops.push(Op::Lookup(shuffled(&set(k), r)));
        ops.push(Op::Search(vec![set(k)[r.usize(3)].clone()], None));
    }
    ops.push(Op::Search(set(0)[..1].to_vec(), None));
    ops.push(Op::Search(vec![set(3)[2].clone(), set(3)[0].clone()], None));
    Case { tikv, ops }
}
fn probe(r: &mut Rng, done: &Vec<LabelVec>, sets: &Vec<LabelVec>, ops: &mut Vec<Op>, tikv: bool) {
    let pool = if r.chance(3, 4) { done } else { sets };
    if pool.is_empty() { return; }
    let mut s = r.pick(pool).clone();
    if r.chance(1, 3) { s = label_set_near(&s, r); }
    s = shuffled(&s, r);
    if r.chance(1, 3) { ops.push(Op::Lookup(s)); return; }
    let k = 1 + r.usize(s.len());
    let mut q: LabelVec = s.into_iter().take(k).collect();
    if r.chance(1, 6) { let o = r.pick(pool).clone(); for l in o { if !q.iter().any(|x| x.0 == l.0) && r.chance(1, 2) { q.push(l); } } }
    if r.chance(1, 5) {
        // a label twice, or two values for one name
        let (k, v) = r.pick(&q).clone();
        let others: Vec<String> = pool.iter().flat_map(|s| s.iter().filter(|x| x.0 == k).map(|x| x.1.clone())).collect();
        let v = if r.chance(1, 3) { v } else if others.is_empty() { r.text() } else { r.pick(&others).clone() };
        let at = r.usize(q.len() + 1);
        q.insert(at, (k, v));
    }
    let fault = if tikv && r.chance(1, 6) { Some(r.usize(2 + q.len() * 2)) } else { None };
    ops.push(Op::Search(q, fault));
}
fn go<I: Indexer>(ix: &I, tk: Option<&Tikv>, ops: &Vec<Op>, prop: u8) -> Out {
    let mut reg: BTreeMap<LabelVec, u64> = BTreeMap::new();
    let mut by_id: BTreeMap<u64, LabelVec> = BTreeMap::new();
    let mut nt = false;
    for op in ops {
        match op {
            Op::Register(l, id) => {
                let k = sorted(l);
                if reg.contains_key(&k) || by_id.keys().next_back().map(|m| m >= id).unwrap_or(false) { continue; }
                if let Err(e) = ix.create_index(labels(l), *id) { return Out::Broken(format!("registration of {:?} failed: {}", l, e)); }
                reg.insert(k.clone(), *id);
                by_id.insert(*id, k);
            }
            Op::Lookup(l) if prop == 6 => {
                let want = reg.get(&sorted(l)).cloned();
                nt |= !reg.is_empty();
                match ix.get_series_id_by_labels(labels(l)) {
                    Ok(g) if g == want => {}
                    Ok(g) => return Out::Broken(format!("lookup of {:?} gives {:?}, should be {:?} (registered: {:?})", l, g, want, reg)),
                    Err(e) => return Out::Broken(format!("lookup of {:?} failed: {} (registered: {:?})", l, e, reg)),
                }
            }
            Op::Search(q, fault) if prop == 7 => {
                let want: Vec<u64> = by_id.iter().filter(|(_, m)| q.iter().all(|x| m.contains(x))).map(|(i, _)| *i).collect();
                nt |= !want.is_empty();
                let before = tk.map(|t| { let s = t.store(); let g = s.lock().unwrap().gets; g });
                if let (Some(t), Some(n)) = (tk, fault) { t.fail_get(Some(*n)); }
                let got = ix.get_series_id_contains_labels(labels(q));
                if let (Some(t), Some(n)) = (tk, fault) {
                    let hit = { let s = t.store(); let g = s.lock().unwrap().gets; g - before.unwrap() > *n };
                    t.fail_get(None);
                    if hit {
                        if let Ok(g) = got { return Out::Broken(format!("search for {:?} gives {:?} although reading the index failed", q, g)); }
                        continue;
                    }
                }
                match got {
                    Ok(g) if g == want => {
                        // the search that also returns the labels finds the same series
                        if let Ok(m) = ix.get_series_metadata_contains_labels(labels(q)) {
                            let mut ids: Vec<u64> = m.iter().map(|(i, _)| *i).collect();
                            ids.sort();
                            if ids != want { return Out::Broken(format!("search with labels for {:?} gives the series {:?}, should be {:?} (registered: {:?})", q, ids, want, reg)); }
                        }
                    }
                    Ok(g) => return Out::Broken(format!("search for {:?} gives {:?}, should be {:?} (registered: {:?})", q, g, want, reg)),
                    Err(e) => return Out::Broken(format!("search for {:?} failed: {} (registered: {:?})", q, e, reg)),
                }
            }
            Op::Search(q, fault) if prop == 8 => {
                let want: Vec<(u64, LabelVec)> = by_id.iter().filter(|(_, m)| q.iter().all(|x| m.contains(x))).map(|(i, m)| (*i, m.clone())).collect();
                nt |= !want.is_empty();
                let before = tk.map(|t| { let s = t.store(); let g = s.lock().unwrap().gets; g });
                if let (Some(t), Some(n)) = (tk, fault) { t.fail_get(Some(*n)); }
                let got = ix.get_series_metadata_contains_labels(labels(q));
                if let (Some(t), Some(n)) = (tk, fault) {
                    let hit = { let s = t.store(); let g = s.lock().unwrap().gets; g - before.unwrap() > *n };
                    t.fail_get(None);
                    if hit {
                        if got.is_ok() { return Out::Broken(format!("search for {:?} succeeds although reading the index failed", q)); }
                        continue;
                    }
                }
                match got {
                    Err(e) => return Out::Broken(format!("search for {:?} failed: {} (registered: {:?})", q, e, reg)),
                    Ok(g) => {
                        let mut g: Vec<(u64, LabelVec)> = g.iter().map(|(i, l)| (*i, unlabels(l))).collect();
                        g.sort();
                        if g != want { return Out::Broken(format!("search for {:?} gives {:?}, should be {:?}", q, g, want)); }
                    }
                }
            }
            _ => {}
        }
    }
    Out::Held(nt)
}
pub fn check(c: &Case, prop: u8) -> Out {
    if c.tikv {
        let d = scratch();
        let t = Tikv::new();
        let ix = t.indexer_builder().build(d.path().display().to_string(), Some(&ChunkOpts::default()), None).unwrap();
        go(&ix, Some(&t), &c.ops, prop)
    } else {
        let d = scratch();
        let ix = SledIndexer::new(d.path()).unwrap();
        go(&ix, None, &c.ops, prop)
    }
}
pub fn shrink(c: &Case) -> Vec<Case> { shrink_vec(&c.ops).into_iter().map(|ops| Case { tikv: c.tikv, ops }).collect() }
