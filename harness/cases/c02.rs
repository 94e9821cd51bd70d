//! C02: payload tags are checked and the uncompressed codec is lossless.
use crate::compaction::{CompactType, CompactionErr, Compactor, Decompactor};
use crate::time_point::TimePoint;
use crate::vx_common::*;
use crate::MonolithErr;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub enum Case {
    /// any bytes, opened as a kind (1 Gorilla, 3 uncompressed)
    Tag { bytes: Vec<u8>, kind: u8 },
    /// points through the codec of kind `made`, opened as kind `opened`
    Codec { points: Vec<(u64, u64)>, made: u8, opened: u8, #[serde(default)] cut: usize, single: bool },
}
pub struct P;
/// The payload of points given one by one, all at once, or (cut > 0) in two portions with a payload taken in between.
pub fn compressed(comp: &mut crate::compaction::Compactor, mut tps: Vec<TimePoint>, single: bool, cut: usize) -> Vec<u8> {
    if cut > 0 {
        let rest = tps.split_off(cut.min(tps.len()));
        if single { for t in &tps { comp.compact(t); } let _ = comp.get_bytes_vec(); } else { let _ = comp.compact_vec(tps); }
        tps = rest;
    }
    if single { for t in &tps { comp.compact(t); } comp.get_bytes_vec() } else { comp.compact_vec(tps) }
}
fn kind(k: u8) -> CompactType { if k == 1 { CompactType::Gorilla } else { CompactType::None } }
fn mismatch(r: &Result<Decompactor, MonolithErr>) -> bool {
    match r { Err(MonolithErr::CompactionErr(CompactionErr::CompactionTypeDontMatch(_, _))) => true, _ => false }
}
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c02";
    const RULE: &'static str = "byte payloads of 0..40 bytes with every tag byte, opened as either kind; point lists of 0..60 points (one in 500: up to 9000) with any timestamps and bits written (one by one, at once or in two portions) as one kind and opened as either; non-trivial: a payload of at least one byte";
    fn make(i: u64, r: &mut Rng) -> Case {
        if i < 1024 {
            let k = if i % 2 == 0 { 1 } else { 3 };
            let tag = (i / 2 % 256) as u8;
            let n = if i < 512 { 0 } else { r.usize(36) };
            let mut bytes: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            // for Gorilla: the byte before the tag counts unused bits
            if k == 1 { bytes.push(0); }
            bytes.push(tag);
            return Case::Tag { bytes, kind: k };
        }
        if i == 1024 || i == 1025 { return Case::Tag { bytes: vec![], kind: if i == 1024 { 1 } else { 3 } }; }
        if r.chance(1, 3) {
            let n = r.usize(36);
            let mut bytes: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            if r.chance(1, 2) { bytes.push(r.below(5) as u8); }
            return Case::Tag { bytes, kind: *r.pick(&[1, 3]) };
        }
        let n = if i % 500 == 250 { r.usize(9000) } else { match r.below(3) { 0 => r.usize(4), 1 => r.usize(10), _ => r.usize(60) } };
        let made = *r.pick(&[3u8, 3, 3, 1]);
        let mut points: Vec<(u64, u64)> = (0..n).map(|_| (if r.chance(1, 2) { r.u64() } else { r.bits(64) }, r.f64_bits())).collect();
        if made == 1 { for p in points.iter_mut() { p.0 >>= 1; } points.sort(); }
        let cut = if r.chance(1, 3) { r.usize(points.len() + 1) } else { 0 };
        Case::Codec { points, cut, made, opened: *r.pick(&[3u8, 3, 1]), single: r.chance(1, 3) }
    }
    fn check(c: &Case) -> Out {
        match c {
            Case::Tag { bytes, kind: k } => {
                let r = Decompactor::from(kind(*k), bytes.clone());
                let want = bytes.last() != Some(k);
                if mismatch(&r) != want {
                    return Out::Broken(format!("payload {:?} opened as kind {}: {}", bytes, k, if want { "no type mismatch reported" } else { "type mismatch reported, but the tag is right" }));
                }
                if !want && r.is_err() { return Out::Broken("payload with the right tag refused".into()); }
                if let (Ok(mut d), 3) = (r, *k) {
                    // what the uncompressed codec reads from whole records is determined by the format
                    if (bytes.len() - 1) % 16 == 0 {
                        let pts = match d.decompact() { Ok(p) => p, Err(_) => return Out::Broken("whole records refused".into()) };
                        let back = { let mut c = Compactor::new(CompactType::None); c.compact_vec(pts) };
                        if back != *bytes { return Out::Broken(format!("payload {:?} decoded and encoded again is {:?}", bytes, back)); }
                    }
                }
                Out::Held(bytes.len() > 0)
            }
            Case::Codec { points, cut, made, opened, single } => {
                let tps: Vec<TimePoint> = points.iter().map(|p| TimePoint::new(p.0, f64::from_bits(p.1))).collect();
                let mut comp = Compactor::new(kind(*made));
                let bytes = compressed(&mut comp, tps, *single, *cut);
                let r = Decompactor::from(kind(*opened), bytes);
                if made != opened {
                    return if mismatch(&r) { Out::Held(true) } else { Out::Broken(format!("a payload of kind {} opened as kind {} is not refused", made, opened)) };
                }
                let mut d = match r { Ok(d) => d, Err(e) => return Out::Broken(format!("own payload refused: {}", e)) };
                if *made == 3 {
                    let got = match d.decompact() { Ok(g) => g, Err(e) => return Out::Broken(format!("decompact failed: {}", e)) };
                    if got.len() != points.len() { return Out::Broken(format!("{} points went in, {} came out", points.len(), got.len())); }
                    for k in 0..got.len() {
                        if got[k].timestamp != points[k].0 || got[k].value.to_bits() != points[k].1 {
                            return Out::Broken(format!("point {} ({}, {:#x}) came back as ({}, {:#x})", k, points[k].0, points[k].1, got[k].timestamp, got[k].value.to_bits()));
                        }
                    }
                }
                Out::Held(true)
            }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        match c {
            Case::Tag { .. } => vec![],
            Case::Codec { points, cut, made, opened, single } => shrink_vec(points).into_iter().map(|points| Case::Codec { cut: (*cut).min(points.len()), points, made: *made, opened: *opened, single: *single }).collect(),
        }
    }
}
pub fn main() { run::<P>() }
