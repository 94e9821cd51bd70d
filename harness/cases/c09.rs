//! C09: chunk directory names encode their time range one-to-one.
use crate::utils::{decode_chunk_dir, encode_chunk_dir};
use crate::vx_common::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub enum Case { Range { start: u64, end: u64, start2: u64, end2: u64 }, Name(String) }
pub struct P;
fn num(r: &mut Rng) -> u64 {
    match r.below(4) { 0 => *r.pick(&[0, 1, 15, 16, 255, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 1 << 60, 1 << 16]), 1 => r.u64(), 2 => 1u64 << r.below(64), _ => r.bits(64) }
}
/// the number a name stands for, by the definition of hexadecimal; None if it is none of at most 128 bits
fn hex(s: &str) -> Option<u128> {
    let s = s.strip_prefix('+').unwrap_or(s); // u128::from_str_radix takes a sign
    if s.is_empty() { return None; }
    let mut v = 0u128;
    for c in s.chars() {
        if !c.is_ascii_hexdigit() { return None; }
        if v >> 124 != 0 { return None; }
        v = v << 4 | c.to_digit(16)? as u128;
    }
    Some(v)
}
impl Prop for P {
    type Case = Case;
    const NAME: &'static str = "c09";
    const RULE: &'static str = "pairs of start and end times with every bit length, two pairs compared; names of hex digits of 0..40 characters, with other characters; non-trivial: a range, or a name of at least one character";
    fn make(_i: u64, r: &mut Rng) -> Case {
        if r.chance(3, 4) {
            let (start, end) = (num(r), num(r));
            let (start2, end2) = match r.below(5) { 0 => (end, start), 1 => (start, num(r)), 2 => (num(r), end), 3 => (start ^ (1 << r.below(64)), end), _ => (start, end ^ (1 << r.below(64))) };
            Case::Range { start, end, start2, end2 }
        } else {
            let n = *r.pick(&[0usize, 1, 2, 8, 15, 16, 17, 31, 32, 33, 34, 40]);
            let mut s: String = (0..n).map(|_| *r.pick(&['0', '1', '7', '9', 'a', 'f', 'A', 'F', 'e', 'c'])).collect();
            if r.chance(1, 2) {
                let k = match r.below(3) { 0 => 0, 1 => s.len(), _ => r.usize(s.len() + 1) };
                let bit: String = match r.below(6) {
                    0 => (r.below(128) as u8 as char).to_string(),
                    1 => r.pick(&["#", "0x", "0X", "\\x", "0b", "0o", "h", "u128", "_0", "+0", "-0", "\u{feff}", "\u{a0}", "\u{ff11}", "\u{661}", "/", "\0", "\n", "\r\n", "\t", ".tmp", ".0", "~", "%30"]).to_string(),
                    _ => r.pick(&["g", "x", "0x", ".", "-", " ", "_", "G", "é", "metadata.json", "z", "+"]).to_string(),
                };
                s.insert_str(k, &bit);
            }
            Case::Name(s)
        }
    }
    fn check(c: &Case) -> Out {
        match c {
            Case::Range { start, end, start2, end2 } => {
                let n = encode_chunk_dir(*start, *end);
                match decode_chunk_dir(n.clone()) {
                    Ok(g) if g == (*start, *end) => {}
                    Ok(g) => return Out::Broken(format!("({}, {}) encoded as {} decodes to {:?}", start, end, n, g)),
                    Err(e) => return Out::Broken(format!("({}, {}) encoded as {} is refused: {}", start, end, n, e)),
                }
                if (start, end) != (start2, end2) && encode_chunk_dir(*start2, *end2) == n {
                    return Out::Broken(format!("({}, {}) and ({}, {}) share the directory {}", start, end, start2, end2, n));
                }
                Out::Held(true)
            }
            Case::Name(s) => {
                let want = hex(s);
                match (decode_chunk_dir(s.clone()), want) {
                    (Ok(g), Some(w)) if g == ((w >> 64) as u64, w as u64) => Out::Held(true),
                    (Err(_), None) => Out::Held(s.len() > 0),
                    (g, w) => Out::Broken(format!("name {:?} decodes to {:?}, stands for {:?}", s, g.ok(), w)),
                }
            }
        }
    }
}
pub fn main() { run::<P>() }
