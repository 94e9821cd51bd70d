//! C01: Gorilla compression is lossless.
use crate::compaction::{CompactType, Compactor, Decompactor};
use crate::time_point::TimePoint;
use crate::vx_assert;
use crate::vx_common::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case { points: Vec<(u64, u64)>, #[serde(default)] cut: usize, single: bool }
pub struct P;
/// The payload of points given one by one, all at once, or (cut > 0) in two portions with a payload taken in between.
pub fn compressed(comp: &mut crate::compaction::Compactor, mut tps: Vec<TimePoint>, single: bool, cut: usize) -> Vec<u8> {
    if cut > 0 {
        let rest = tps.split_off(cut.min(tps.len()));
        if single { for t in &tps { comp.compact(t); } let _ = comp.get_bytes_vec(); } else { let _ = comp.compact_vec(tps); }
        tps = rest;
    }
    if single { for t in &tps { comp.compact(t); } comp.get_bytes_vec() } else { comp.compact_vec(tps) }
}

fn points(r: &mut Rng, n: usize) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let mut t = match r.below(4) { 0 => 0, 1 => r.bits(63), 2 => 1_600_000_000_000 + r.below(1000), _ => r.below(5) };
    let mut delta = match r.below(3) { 0 => 0, 1 => r.below(100), _ => r.bits(40) };
    let mut val = r.f64_bits();
    for _ in 0..n {
        v.push((t, val));
        // next delta of delta in a chosen class
        let m = *r.pick(&[0i64, 0, 1, 62, 63, 64, 65, 66, 100, 254, 255, 256, 257, 258, 1000, 2046, 2047, 2048, 2049, 2050, 4096, 65535, 1 << 31, 1 << 32, 1 << 45, 1 << 61]);
        let m = if r.chance(1, 3) { r.bits(14) as i64 } else { m };
        let dod = if r.chance(1, 2) { m } else { -m };
        let nd = delta as i128 + dod as i128;
        delta = if nd < 0 { if r.chance(1, 2) { 0 } else { (-nd) as u64 } } else { nd as u64 };
        if r.chance(1, 40) { delta = r.bits(62); }
        let room = (1u64 << 63) - 1 - t;
        if delta > room { delta = r.below(3).min(room); }
        t += delta;
        val = match r.below(6) {
            0 => val,
            1 => r.f64_bits(),
            2 => { // xor with a chosen number of leading and trailing zero bits
                let l = r.below(64); let tz = r.below(64 - l);
                let w = 64 - l - tz;
                let m = if w == 64 { r.u64() } else { r.u64() & ((1u64 << w) - 1) };
                val ^ ((m | 1 | (1u64 << (w - 1))) << tz)
            }
            3 => val ^ (1u64 << r.below(64)),
            4 => val ^ (r.u64() >> r.below(64)) << r.below(8),
            _ => val ^ (r.bits(16) << r.below(49)),
        };
    }
    v
}
pub fn gen(i: u64, r: &mut Rng) -> Vec<(u64, u64)> {
    let n = match i { x if x % 20000 == 3000 => 65530 + r.usize(6000), x if x % 1000 == 500 => r.usize(9000), 0 => 0, 1 => 1, 2 | 3 => 2, _ => match r.below(5) { 0 => r.usize(4), 1 => 2 + r.usize(8), 2 => r.usize(40), 3 => r.usize(150), _ => r.usize(400) } };
    points(r, n)
}
pub fn same(got: &Vec<TimePoint>, want: &Vec<(u64, u64)>) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} points went in, {} came out", want.len(), got.len()));
    }
    for k in 0..want.len() {
        if got[k].timestamp != want[k].0 { return Some(format!("timestamp {} of point {} came back as {}", want[k].0, k, got[k].timestamp)); }
        if got[k].value.to_bits() != want[k].1 { return Some(format!("value bits {:#x} of point {} came back as {:#x}", want[k].1, k, got[k].value.to_bits())); }
    }
    None
}
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c01";
    const RULE: &'static str = "lists of 0..400 points (one in a thousand: up to 9000, one in twenty thousand: beyond 65536); delta-of-delta and XOR window chosen around every class boundary; non-trivial: at least two points; given one by one, at once, or in two portions with a payload taken in between";
    fn make(i: u64, r: &mut Rng) -> Case { { let points = gen(i, r); let cut = if r.chance(1, 3) { r.usize(points.len() + 1) } else { 0 }; Case { points, cut, single: r.chance(1, 4) } } }
    fn check(c: &Case) -> Out {
        let tps: Vec<TimePoint> = c.points.iter().map(|p| TimePoint::new(p.0, f64::from_bits(p.1))).collect();
        let mut comp = Compactor::new(CompactType::Gorilla);
        let bytes = compressed(&mut comp, tps, c.single, c.cut);
        let mut d = match Decompactor::from(CompactType::Gorilla, bytes) { Ok(d) => d, Err(e) => return Out::Broken(format!("own payload refused: {}", e)) };
        for round in 0..2 {
            match d.decompact() {
                Err(e) => return Out::Broken(format!("decompact failed: {}", e)),
                Ok(got) => if let Some(m) = same(&got, &c.points) { return Out::Broken(format!("{} (decompact call {})", m, round + 1)); },
            }
        }
        vx_assert!(c.points.windows(2).all(|w| w[0].0 <= w[1].0 && w[1].0 < 1 << 63), "generator");
        Out::Held(c.points.len() >= 2)
    }
    fn shrink(c: &Case) -> Vec<Case> { shrink_vec(&c.points).into_iter().map(|points| Case { cut: if c.cut == c.points.len() { points.len() } else { c.cut.min(points.len()) }, points, single: c.single }).collect() }
}
pub fn main() { run::<P>() }
