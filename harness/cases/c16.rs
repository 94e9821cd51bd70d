//! C16: a log segment holds every acknowledged entry, in order, for every flush policy.
use super::segment::Segment;
use super::{Entry, EntryType, FlushPolicy};
use crate::vx_common::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone)]
pub enum Op { Entry { seq: u64, data: Vec<u8>, pieces: usize }, Flush }
#[derive(Serialize, Deserialize, Clone)]
pub enum Policy { Immediate, Num(usize), Size(usize), Time(u64) }
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { policy: Policy, ops: Vec<Op>, accept: usize, fail_at: Option<usize>, fail_flush: Option<usize>, interrupts: bool,
    /// the file keeps what it takes to itself until it is flushed
    #[serde(default)] buffers: bool,
    /// what a failing call says
    #[serde(default)] kind: u8 }
pub struct P;

#[derive(Default)]
struct Disk { bytes: Vec<u8>, held: Vec<u8>, buffers: bool, writes: usize, flushes: usize, failed: bool, accept: usize, fail_at: Option<usize>, fail_flush: Option<usize>, interrupts: bool, kind: u8 }
fn failure(kind: u8, text: &str) -> std::io::Error {
    use std::io::ErrorKind::*;
    std::io::Error::new([Other, WouldBlock, TimedOut, UnexpectedEof, WriteZero, BrokenPipe, PermissionDenied, NotFound, Interrupted][kind as usize % 9], text)
}
/// a file that takes at most `accept` bytes per call, may hold them back until it is flushed, and fails at chosen calls
#[derive(Clone)]
struct W(Arc<Mutex<Disk>>);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut d = self.0.lock().unwrap();
        d.writes += 1;
        if d.interrupts && d.writes % 3 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "try again")); }
        if d.fail_at == Some(d.writes) { d.failed = true; return if d.kind == 255 && !b.is_empty() { Ok(0) } else { Err(failure(d.kind % 8, "disk")) }; }
        let n = if d.accept == 0 { b.len() } else { b.len().min(d.accept) };
        if d.buffers { d.held.extend_from_slice(&b[..n]); } else { d.bytes.extend_from_slice(&b[..n]); }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut d = self.0.lock().unwrap();
        d.flushes += 1;
        if d.fail_flush == Some(d.flushes) { d.failed = true; return Err(failure(d.kind, "flush")); }
        let held = std::mem::replace(&mut d.held, vec![]);
        d.bytes.extend(held);
        Ok(())
    }
}
fn crc32(b: &[u8]) -> u32 {
    let mut v = !0u32;
    for x in b { v ^= *x as u32; for _ in 0..8 { v = if v & 1 == 1 { v >> 1 ^ 0xedb88320 } else { v >> 1 }; } }
    !v
}
/// CRC-64 (ECMA-182, reflected), bit by bit
fn crc64(b: &[u8]) -> u64 {
    let mut v = !0u64;
    for x in b { v ^= *x as u64; for _ in 0..8 { v = if v & 1 == 1 { v >> 1 ^ 0xc96c5795d7870f42 } else { v >> 1 }; } }
    !v
}
fn enc(seq: u64, content: &[u8]) -> Vec<u8> {
    let mut w = seq.to_be_bytes().to_vec();
    w.push(0);
    w.push((content.len() >> 8) as u8);
    w.push(content.len() as u8);
    w.extend(content);
    w.extend(&crc32(content).to_be_bytes());
    w
}
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c16";
    const RULE: &'static str = "up to 30 (one in 500: thousands of) entries and flushes under every policy with limits from 0 up, over a writer that takes 1..all bytes per call, holds them back until flushed or not, is interrupted, or fails at a chosen write or flush in one of nine ways or takes nothing; non-trivial: at least one entry";
    const THREADS: usize = 4;
    fn make(i: u64, r: &mut Rng) -> Case {
        let policy = match r.below(8) { 0 => Policy::Immediate, 1 => Policy::Time(r.below(1000)),
            2 | 3 | 4 => Policy::Num(match r.below(8) { 0 => 0, 1 => 1, 2 => usize::MAX, 3 => r.bits(64) as usize, 4 => 1 + r.usize(300), _ => 1 + r.usize(8) }),
            _ => Policy::Size(match r.below(8) { 0 => 0, 1 => 1, 2 => usize::MAX, 3 => r.bits(64) as usize, 4 => r.usize(20000), _ => r.usize(200) }) };
        let big = i % 500 == 250;
        let most = match r.below(3) { _ if big => 6000, 0 => 4, _ if r.chance(1, 12) => 300, _ => 30 };
        let n = 1 + r.usize(most);
        // how often the history flushes: often, seldom, never
        let calm = match r.below(4) { 0 => 60, 1 if most > 30 => 1000000, _ => 6 };
        let ops = (0..n).map(|_| if r.chance(1, calm) { Op::Flush } else {
            let len = match r.below(6) { 0 => 0, 1 => { let most = if big { 20 } else if r.chance(1, 20) { 65536 } else { 3000 }; if most > 3000 && r.chance(1, 3) { 65500 + r.usize(36) } else { r.usize(most) } } _ => r.usize(20) };
            Op::Entry { seq: r.bits(64), data: (0..len).map(|_| r.u64() as u8).collect(), pieces: 1 + r.usize(3) } }).collect();
        let fail = r.chance(1, 3);
        Case { policy, ops, accept: match r.below(4) { _ if big => 0, 0 => 1, 1 => 1 + r.usize(16), _ => 0 }, interrupts: r.chance(1, 6), buffers: r.chance(1, 3), kind: match r.below(4) { 0 | 1 => 0, 2 => r.below(9) as u8, _ => 255 },
            fail_at: if fail && r.chance(2, 3) { Some(1 + r.usize(n + 4)) } else { None }, fail_flush: if fail && r.chance(1, 2) { Some(1 + r.usize(n + 2)) } else { None } }
    }
    fn check(c: &Case) -> Out {
        let d = Arc::new(Mutex::new(Disk { accept: c.accept, fail_at: c.fail_at, fail_flush: c.fail_flush, interrupts: c.interrupts, buffers: c.buffers, kind: c.kind, ..Default::default() }));
        let policy = match &c.policy { Policy::Immediate => FlushPolicy::Immediate, Policy::Num(n) => FlushPolicy::NumBased(*n), Policy::Size(n) => FlushPolicy::SizeBased(*n),
            Policy::Time(ms) => FlushPolicy::TimeBased(std::time::Duration::from_millis(*ms)) };
        let immediate = if let Policy::Immediate = c.policy { true } else { false };
        let mut s = match Segment::new(policy, W(d.clone())) {
            Ok(s) => s,
            Err(e) => return if d.lock().unwrap().failed { Out::Held(true) } else { Out::Broken(format!("creating the segment failed without a failure of the file: {}", e)) },
        };
        if d.lock().unwrap().failed { return Out::Broken("the file failed while the segment was created, reported as success".into()); }
        let magic = b"WAL\0\0\0\0\0".to_vec();
        let mut want: Vec<u8> = vec![];
        let mut starts = vec![0usize];
        let mut some = false;
        for (k, op) in c.ops.iter().enumerate() {
            let res = match op {
                Op::Entry { seq, data, pieces } => {
                    let mut e = Entry::new(*seq, EntryType::Default);
                    let cut = data.len() / pieces;
                    for i in 0..*pieces { e.push(data[i * cut..if i + 1 == *pieces { data.len() } else { (i + 1) * cut }].to_vec()); }
                    want.extend(enc(*seq, data));
                    starts.push(want.len());
                    some = true;
                    s.write_entry(e).map_err(|e| e.to_string())
                }
                Op::Flush => s.flush().map_err(|e| e.to_string()),
            };
            let g = d.lock().unwrap();
            let what = format!("operation {} ({})", k, match op { Op::Flush => "flush".to_string(), Op::Entry { data, .. } => format!("entry of {} bytes", data.len()) });
            match (g.failed, &res) {
                (true, Ok(_)) => return Out::Broken(format!("{}: the file failed, reported as success", what)),
                (false, Err(e)) => return Out::Broken(format!("{}: {} without a failure of the file", what, e)),
                (true, Err(_)) => return Out::Held(true),
                _ => {}
            }
            if g.bytes.len() < 8 || g.bytes[..8] != magic[..] { return Out::Broken(format!("{}: the file does not start with the magic number", what)); }
            let body = &g.bytes[8..];
            let full = match op { Op::Flush => true, _ => immediate };
            if (full && body != &want[..]) || !want.starts_with(body) { return Out::Broken(format!("{}: the file holds {} bytes of entries, {} were written{}", what, body.len(), want.len(), if want.starts_with(body) { "" } else { " and they differ" })); }
        }
        let res = s.close();
        let g = d.lock().unwrap();
        match (g.failed, &res) {
            (true, Ok(_)) => return Out::Broken("close: the file failed, reported as success".into()),
            (false, Err(e)) => return Out::Broken(format!("close: {} without a failure of the file", e)),
            (true, Err(_)) => return Out::Held(true),
            _ => {}
        }
        let mut all = magic.clone();
        all.extend(&want);
        all.extend(&crc64(&want).to_be_bytes());
        if g.bytes != all {
            let at = g.bytes.iter().zip(all.iter()).position(|(a, b)| a != b).unwrap_or(g.bytes.len().min(all.len()));
            return Out::Broken(format!("after close the file has {} bytes, expected {}; they differ at byte {}", g.bytes.len(), all.len(), at));
        }
        Out::Held(some)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut out: Vec<Case> = shrink_vec(&c.ops).into_iter().map(|v| { let mut d = c.clone(); d.ops = v; d }).collect();
        if c.accept > 0 { let mut d = c.clone(); d.accept = 0; out.push(d); }
        if c.interrupts { let mut d = c.clone(); d.interrupts = false; out.push(d); }
        if c.buffers { let mut d = c.clone(); d.buffers = false; out.push(d); }
        out
    }
}
pub fn main() { run::<P>() }
