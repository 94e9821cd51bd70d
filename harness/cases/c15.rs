//! C15: the bytes of a log entry.
use super::{Entry, EntryType};
use crate::vx_common::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case { seq: u64, len: usize, fill: u64, cuts: Vec<usize>, clone_at: usize, defaulted: bool }
pub struct P;
/// CRC-32 (IEEE 802.3), bit by bit
pub fn crc32(b: &[u8]) -> u32 {
    let mut v = !0u32;
    for x in b { v ^= *x as u32; for _ in 0..8 { v = if v & 1 == 1 { v >> 1 ^ 0xedb88320 } else { v >> 1 }; } }
    !v
}
fn want(seq: u64, content: &[u8]) -> Vec<u8> {
    let mut w = seq.to_be_bytes().to_vec();
    w.push(0);
    w.push((content.len() >> 8) as u8);
    w.push(content.len() as u8);
    w.extend(content);
    w.extend(&crc32(content).to_be_bytes());
    w
}
fn same(e: &Entry, seq: u64, content: &[u8], who: &str) -> Result<(), String> {
    let (g, w) = (e.get_bytes(), want(seq, content));
    if g != w {
        let at = g.iter().zip(w.iter()).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        return Err(format!("{} (seq {}, {} content bytes): encoding differs at byte {} ({} bytes, {} expected)", who, seq, content.len(), at, g.len(), w.len()));
    }
    if e.len() != w.len() { return Err(format!("{} ({} content bytes): reported length {}, encoding has {} bytes", who, content.len(), e.len(), w.len())); }
    Ok(())
}
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c15";
    const RULE: &'static str = "entries with any sequence number and 0..65535 content bytes pushed in up to 6 pieces, cloned after any of them and both pushed further; non-trivial: some content";
    const THREADS: usize = 4;
    fn make(_i: u64, r: &mut Rng) -> Case {
        let len = match r.below(10) { 0 => 0, 1 => *r.pick(&[1usize, 255, 256, 257, 32767, 32768, 65534, 65535]), 2 => r.usize(65536), _ => r.usize(600) };
        let mut cuts: Vec<usize> = (0..r.usize(6)).map(|_| r.usize(len + 1)).collect();
        // pieces of no or one byte
        if r.chance(1, 4) { let k = r.usize(cuts.len() + 1); let at = if k < cuts.len() { cuts[k] } else { len }; cuts.push(at.saturating_sub(1)); cuts.push((at + r.usize(2)).min(len)); }
        cuts.sort();
        Case { seq: r.bits(64), len, fill: r.u64(), clone_at: r.usize(7), cuts, defaulted: r.chance(1, 8) }
    }
    fn check(c: &Case) -> Out {
        let mut r = Rng::new(c.fill, 1);
        let content: Vec<u8> = (0..c.len).map(|_| if c.fill % 5 == 0 { match c.fill >> 8 & 3 { 0 => 0, 1 => 255, _ => (c.fill >> 16) as u8 } } else { r.u64() as u8 }).collect();
        let (mut e, seq) = if c.defaulted { (Entry::default(), 0) } else { (Entry::new(c.seq, EntryType::Default), c.seq) };
        let mut cl: Option<Entry> = None;
        let mut at = 0;
        let mut ends = c.cuts.clone();
        ends.push(c.len);
        for (k, to) in ends.iter().enumerate() {
            if k == c.clone_at { cl = Some(e.clone()); }
            if let Some(x) = cl.as_mut() { x.push(content[at..*to].to_vec()); }
            e.push(content[at..*to].to_vec());
            at = *to;
            if let Err(m) = same(&e, seq, &content[..at], "entry") { return Out::Broken(m); }
            if let Some(x) = &cl { if let Err(m) = same(x, seq, &content[..at], "cloned entry") { return Out::Broken(m); } }
        }
        if let Err(m) = same(&e.clone(), seq, &content, "clone") { return Out::Broken(m); }
        Out::Held(c.len > 0)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut out = vec![];
        for n in [0, c.len / 2, c.len.saturating_sub(1)].iter() {
            if *n < c.len { let mut d = c.clone(); d.len = *n; d.cuts = c.cuts.iter().map(|x| *x.min(n)).collect(); out.push(d); }
        }
        for v in shrink_vec(&c.cuts) { let mut d = c.clone(); d.cuts = v; out.push(d); }
        let mut d = c.clone(); d.seq = 0; if c.seq != 0 { out.push(d); }
        out
    }
}
pub fn main() { run::<P>() }
