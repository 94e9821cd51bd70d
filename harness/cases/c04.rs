//! C04: the shared-store back end refuses time going backwards, and reports failures.
use crate::chunk::ChunkOpts;
use crate::storage::Storage;
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::{Builder, MonolithErr};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone)]
pub struct Op { id: u64, t: u64, v: u64, fail_get: bool, fail_put: bool }
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { ops: Vec<Op>, #[serde(default)] before: u64 }
pub struct P;
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c04";
    const RULE: &'static str = "histories of up to 40 writes (one in 300: up to 600) to 1..4 series with timestamps before, at and after the newest point, one in 100 after 4000..7000 earlier points of one series, store failures injected into reads and writes; the whole content is read back after every write; non-trivial: at least one refused or failed write";
    fn make(i: u64, r: &mut Rng) -> Case {
        let ids: Vec<u64> = (0..1 + r.usize(3)).map(|_| *r.pick(&[0u64, 1, 2, 255, 256, 1 << 56, u64::MAX])).collect();
        let mut last: BTreeMap<u64, u64> = BTreeMap::new();
        let faults = r.chance(1, 2);
        let before = if i % 100 == 50 { 4000 + r.below(3000) } else { 0 };
        if before > 0 { last.insert(ids[0], 2 * before); }
        let mut ops: Vec<Op> = (0..1 + r.usize(if i % 300 == 150 { 600 } else { 40 })).map(|_| {
            let id = *r.pick(&ids);
            let l = last.get(&id).cloned();
            let t = match l { None => match r.below(3) { 0 => 0, 1 => r.below(1000), _ => r.u64() }, Some(l) => match r.below(8) { 0 => l, 1 => l.wrapping_sub(1), 2 => r.u64(), 3 => l ^ (1 << r.below(64)), _ => l.saturating_add(1 + r.bits(12)) } };
            let fail_get = faults && r.chance(1, 8);
            let fail_put = faults && r.chance(1, 8);
            if !fail_get && !fail_put && l.map(|l| t > l).unwrap_or(true) { last.insert(id, t); }
            Op { id, t, v: r.f64_bits(), fail_get, fail_put }
        }).collect();
        if before > 0 { ops.truncate(40); ops[0].id = ids[0]; }
        Case { ops, before }
    }
    fn check(c: &Case) -> Out {
        let d = scratch();
        let tk = Tikv::new();
        let st = tk.storage_builder().build(d.path().display().to_string(), Some(&ChunkOpts::default()), None).unwrap();
        let mut m: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
        let mut nt = false;
        let mut ids: Vec<u64> = c.ops.iter().map(|o| o.id).collect();
        ids.sort();
        ids.dedup();
        if let Some(o) = c.ops.first() {
            for k in 1..=c.before {
                if let Err(e) = st.write_time_point(o.id, 2 * k, k as f64) { return Out::Broken(format!("write of time {} to series {} (newest {}) was refused: {}", 2 * k, o.id, 2 * k - 2, e)); }
                m.entry(o.id).or_default().push((2 * k, (k as f64).to_bits()));
            }
        }
        for (k, o) in c.ops.iter().enumerate() {
            if o.fail_get { tk.fail_get(Some(0)); }
            if o.fail_put { tk.fail_put(Some(0)); }
            let got = st.write_time_point(o.id, o.t, f64::from_bits(o.v));
            tk.fail_get(None);
            tk.fail_put(None);
            let back = m.get(&o.id).map(|s| s[s.len() - 1].0 >= o.t).unwrap_or(false);
            let what = format!("write {} (series {}, time {}, newest {:?}{}{})", k, o.id, o.t, m.get(&o.id).map(|s| s[s.len() - 1].0), if o.fail_get { ", failing read" } else { "" }, if o.fail_put { ", failing write" } else { "" });
            let want = !back && !o.fail_get && !o.fail_put;
            nt |= !want;
            if got.is_ok() != want { return Out::Broken(format!("{} {}", what, if want { format!("was refused: {}", got.err().unwrap()) } else { "was acknowledged".into() })); }
            if want { m.entry(o.id).or_default().push((o.t, o.v)); }
            for &id in ids.iter() {
                let g = st.read_time_series(id, 0, u64::MAX);
                match (g, m.get(&id)) {
                    (Err(MonolithErr::NotFoundErr), None) => {}
                    (Ok(g), Some(s)) if g.iter().map(|p| (p.timestamp, p.value.to_bits())).collect::<Vec<_>>() == *s => {}
                    (g, s) => return Out::Broken(format!("after {}: series {} reads {}, should be {}", what, id, brief(&g), brief(&s))),
                }
            }
            if o.fail_get {
                tk.fail_get(Some(0));
                let g = st.read_time_series(o.id, 0, u64::MAX);
                tk.fail_get(None);
                match g { Err(MonolithErr::NotFoundErr) | Err(MonolithErr::OutOfRangeErr(_, _)) | Ok(_) => return Out::Broken(format!("a failed read of the store is answered {:?}", g)), _ => {} }
            }
        }
        Out::Held(nt)
    }
    fn shrink(c: &Case) -> Vec<Case> { { let mut out: Vec<Case> = shrink_vec(&c.ops).into_iter().map(|ops| Case { ops, before: c.before }).collect(); for b in [0, c.before / 2, c.before.saturating_sub(1)] { if b < c.before { out.push(Case { ops: c.ops.clone(), before: b }); } } out } }
}
fn brief<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s }
}
pub fn main() { run::<P>() }
