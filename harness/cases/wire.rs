//! Messages of the remote protocol written and read by hand, independently of the generated code.
#![allow(dead_code)]
use crate::vx_kit::LabelVec;
pub type Samples = Vec<(i64, u64)>;
pub type Series = (LabelVec, Samples);
pub fn varint(mut v: u64, o: &mut Vec<u8>) { while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; } o.push(v as u8); }
pub fn bytes(field: u32, b: &[u8], o: &mut Vec<u8>) { varint((field << 3 | 2) as u64, o); varint(b.len() as u64, o); o.extend_from_slice(b); }
pub fn text(field: u32, s: &str, o: &mut Vec<u8>) { if !s.is_empty() { bytes(field, s.as_bytes(), o) } }
pub fn int(field: u32, v: u64, o: &mut Vec<u8>) { if v != 0 { varint((field << 3) as u64, o); varint(v, o); } }
pub fn double(field: u32, b: u64, o: &mut Vec<u8>) { if b != 0 { varint((field << 3 | 1) as u64, o); o.extend_from_slice(&b.to_le_bytes()); } }
pub fn series(s: &Series) -> Vec<u8> {
    let mut o = vec![];
    for (k, v) in &s.0 { let mut l = vec![]; text(1, k, &mut l); text(2, v, &mut l); bytes(1, &l, &mut o); }
    for (t, b) in &s.1 { let mut m = vec![]; double(1, *b, &mut m); int(2, *t as u64, &mut m); bytes(2, &m, &mut o); }
    o
}
pub fn write_request(v: &[Series]) -> Vec<u8> { let mut o = vec![]; for s in v { bytes(1, &series(s), &mut o); } o }
pub fn query(lo: i64, hi: i64, l: &LabelVec) -> Vec<u8> {
    let mut o = vec![];
    int(1, lo as u64, &mut o); int(2, hi as u64, &mut o);
    for (k, v) in l { let mut m = vec![]; text(2, k, &mut m); text(3, v, &mut m); bytes(3, &m, &mut o); }
    o
}
pub fn read_request(q: &[(i64, i64, LabelVec)]) -> Vec<u8> { let mut o = vec![]; for (a, b, l) in q { bytes(1, &query(*a, *b, l), &mut o); } o }

// ---- reading
type R<T> = Result<T, String>;
fn rd_varint(b: &[u8], at: &mut usize) -> R<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*at).ok_or("message ends inside a number")?; *at += 1;
        v |= ((x & 0x7f) as u64).checked_shl(7 * i).unwrap_or(0);
        if x < 0x80 { return Ok(v); }
    }
    Err("number too long".into())
}
/// (field, wire type, number or 0, bytes)
pub fn fields(b: &[u8]) -> R<Vec<(u32, u32, u64, &[u8])>> {
    let (mut at, mut v) = (0, vec![]);
    while at < b.len() {
        let tag = rd_varint(b, &mut at)?;
        let (f, w) = ((tag >> 3) as u32, (tag & 7) as u32);
        let n = match w { 0 => { v.push((f, w, rd_varint(b, &mut at)?, &b[0..0])); continue; } 1 => 8, 5 => 4, 2 => rd_varint(b, &mut at)? as usize, _ => return Err("unknown wire type".into()) };
        let x = b.get(at..at.saturating_add(n)).ok_or("message ends inside a field")?; at += n;
        v.push((f, w, 0, x));
    }
    Ok(v)
}
fn string(b: &[u8]) -> R<String> { String::from_utf8(b.to_vec()).map_err(|e| e.to_string()) }
pub fn rd_series(b: &[u8]) -> R<Series> {
    let mut s: Series = (vec![], vec![]);
    for (f, w, _, x) in fields(b)? {
        match (f, w) {
            (1, 2) => { let mut l = (String::new(), String::new()); for (f, w, _, x) in fields(x)? { match (f, w) { (1, 2) => l.0 = string(x)?, (2, 2) => l.1 = string(x)?, _ => return Err(format!("field {} in a label", f)) } } s.0.push(l) }
            (2, 2) => { let mut p = (0i64, 0u64); for (f, w, n, x) in fields(x)? { match (f, w) { (1, 1) => { let mut a = [0u8; 8]; a.copy_from_slice(x); p.1 = u64::from_le_bytes(a) } (2, 0) => p.0 = n as i64, _ => return Err(format!("field {} in a sample", f)) } } s.1.push(p) }
            _ => return Err(format!("field {} in a series", f)),
        }
    }
    Ok(s)
}
/// the answer to a read request: the series of each result
pub fn rd_response(b: &[u8]) -> R<Vec<Vec<Series>>> {
    let mut v = vec![];
    for (f, w, _, x) in fields(b)? {
        if (f, w) != (1, 2) { return Err(format!("field {} in an answer", f)); }
        let mut r = vec![];
        for (f, w, _, x) in fields(x)? { if (f, w) != (1, 2) { return Err(format!("field {} in a result", f)); } r.push(rd_series(x)?); }
        v.push(r);
    }
    Ok(v)
}

// ---- snappy
/// compressed without looking for repetitions
pub fn pack(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    varint(b.len() as u64, &mut o);
    for c in b.chunks(60) { o.push((c.len() as u8 - 1) << 2); o.extend_from_slice(c); }
    o
}
pub fn unpack(b: &[u8]) -> R<Vec<u8>> {
    let mut at = 0;
    let n = rd_varint(b, &mut at)?;
    if n > u32::max_value() as u64 { return Err("too long".into()); }
    let mut o: Vec<u8> = vec![];
    while at < b.len() {
        let t = b[at] as usize; at += 1;
        let mut le = |k: usize| -> R<usize> { let x = b.get(at..at + k).ok_or("compressed text ends early")?; at += k; Ok(x.iter().rev().fold(0, |a, c| a << 8 | *c as usize)) };
        if t & 3 == 0 {
            let n = if t >> 2 < 60 { t >> 2 } else { le((t >> 2) - 59)? } + 1;
            o.extend_from_slice(b.get(at..at.saturating_add(n)).ok_or("literal ends early")?); at += n;
        } else {
            let (n, off) = match t & 3 { 1 => ((t >> 2 & 7) + 4, (t >> 5) << 8 | le(1)?), 2 => ((t >> 2) + 1, le(2)?), _ => ((t >> 2) + 1, le(4)?) };
            if off == 0 || off > o.len() { return Err("copy from nowhere".into()); }
            for _ in 0..n { let c = o[o.len() - off]; o.push(c); }
        }
        if o.len() as u64 > n { return Err("longer than announced".into()); }
    }
    if o.len() as u64 != n { return Err("shorter than announced".into()); }
    Ok(o)
}
/// what a decoder may make of a message: Err(true) it must be refused, Err(false) unclear (other field types, unknown fields)
pub fn rd_request<T>(b: &[u8], inner: impl Fn(&[u8]) -> Result<T, bool>) -> Result<Vec<T>, bool> {
    let mut v = vec![];
    for (f, w, _, x) in walk(b)? { if (f, w) != (1, 2) { return Err(false); } v.push(inner(x)?); }
    Ok(v)
}
/// Err(true): the bytes are no message at all
fn walk(b: &[u8]) -> Result<Vec<(u32, u32, u64, &[u8])>, bool> {
    let mut at = 0;
    // groups and over-long tags: unclear
    let mut probe = 0;
    while probe < b.len() {
        at = probe;
        let tag = rd_varint(b, &mut at).map_err(|_| true)?;
        if tag > u32::max_value() as u64 { return Err(false); }
        if tag >> 3 == 0 { return Err(true); }
        match tag & 7 { 0 => { rd_varint(b, &mut at).map_err(|_| true)?; } 1 => at += 8, 5 => at += 4, 2 => { let n = rd_varint(b, &mut at).map_err(|_| true)?; if n > b.len() as u64 { return Err(true); } at += n as usize; } 3 | 4 => return Err(false), _ => return Err(true) }
        if at > b.len() { return Err(true); }
        probe = at;
    }
    let _ = at;
    fields(b).map_err(|_| true)
}
fn unique(v: &[(u32, u32, u64, &[u8])]) -> Result<(), bool> { for i in 0..v.len() { for j in 0..i { if v[i].0 == v[j].0 { return Err(false); } } } Ok(()) }
pub fn ck_label(b: &[u8], name: u32) -> Result<(String, String), bool> {
    let v = walk(b)?;
    let mut l = (String::new(), String::new());
    let mut r = Ok(());
    for (f, w, n, x) in &v { if *w == 2 && (*f == name || *f == name + 1) { let s = string(x).map_err(|_| true)?; if *f == name { l.0 = s } else { l.1 = s } } else if name == 2 && (*f, *w) == (1, 0) && *n == 0 {} else { r = Err(false) } }
    r?; unique(&v)?;
    Ok(l)
}
pub fn ck_series(b: &[u8]) -> Result<Series, bool> {
    let mut s: Series = (vec![], vec![]);
    for (f, w, _, x) in walk(b)? {
        match (f, w) {
            (1, 2) => s.0.push(ck_label(x, 1)?),
            (2, 2) => { let v = walk(x)?; unique(&v)?; let mut p = (0i64, 0u64); for (f, w, n, x) in v { match (f, w) { (1, 1) => { let mut a = [0u8; 8]; a.copy_from_slice(x); p.1 = u64::from_le_bytes(a) } (2, 0) => p.0 = n as i64, _ => return Err(false) } } s.1.push(p) }
            _ => return Err(false),
        }
    }
    Ok(s)
}
pub fn ck_query(b: &[u8]) -> Result<(i64, i64, LabelVec), bool> {
    let mut q = (0, 0, vec![]);
    let v = walk(b)?;
    for (f, w, n, x) in &v { match (*f, *w) { (1, 0) => q.0 = *n as i64, (2, 0) => q.1 = *n as i64, (3, 2) => q.2.push(ck_label(x, 2)?), _ => return Err(false) } }
    let only: Vec<_> = v.into_iter().filter(|x| x.0 != 3).collect();
    unique(&only)?;
    Ok(q)
}
