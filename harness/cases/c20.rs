//! C20: every request is answered; what cannot be decompressed or decoded is refused and changes nothing; a write is
//! acknowledged only if everything in it was stored; the server goes on.
use crate::indexer::{Indexer, SledIndexerBuilder};
use crate::option::ServerOpts;
use crate::server::MonolithServer;
use crate::storage::{SledStorageBuilder, Storage};
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::MonolithDb;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::Arc;
use std::time::Duration;
#[path = "dbkit.rs"] mod dbkit;
#[path = "wire.rs"] mod wire;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Msg {
    /// a write: label set and points relative to the time of opening
    Write(Vec<(usize, Vec<(i64, u64)>)>),
    /// queries: label set, or (out of range) one with other labels
    Read(Vec<(usize, i64, i64)>),
    Bytes(Vec<u8>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Edit { Flip(usize, u8), Cut(usize), Grow(Vec<u8>), Insert(usize, Vec<u8>) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Req { method: String, path: String, msg: Msg, inner: Vec<Edit>, /** 0: literals, 1: compressed, 2: not compressed */ packed: u8, outer: Vec<Edit>, /** bytes announced but not sent */ missing: usize, fail: Option<usize> }
/// the paths a server is given for reads and writes
const PATHS: [(&str, &str); 6] = [("/read", "/write"), ("/api/v1/read", "/api/v1/write"), ("/r", "/rw"), ("/a/b", "/a"), ("/READ", "/read"), ("/x/", "/x")];
#[derive(Serialize, Deserialize, Clone)]
pub struct Case { #[serde(default)] paths: usize, real: u8, sets: Vec<LabelVec>, plain: bool, reqs: Vec<Req> }
pub struct P;
fn edits(r: &mut Rng) -> Vec<Edit> {
    (0..1 + r.usize(2)).map(|_| match r.below(4) {
        0 => Edit::Cut(r.usize(200)),
        1 => Edit::Grow((0..1 + r.usize(4)).map(|_| r.u64() as u8).collect()),
        2 => Edit::Insert(r.usize(200), (0..1 + r.usize(3)).map(|_| r.u64() as u8).collect()),
        _ => Edit::Flip(r.usize(200), 1 << r.below(8)),
    }).collect()
}
fn edit(mut b: Vec<u8>, e: &Vec<Edit>) -> Vec<u8> {
    for e in e { match e {
        Edit::Flip(i, m) => { if !b.is_empty() { let n = b.len(); b[i % n] ^= m; } }
        Edit::Cut(i) => { let n = b.len(); if n > 0 { b.truncate(i % n); } }
        Edit::Grow(x) => b.extend_from_slice(x),
        Edit::Insert(i, x) => { let at = i % (b.len() + 1); let t = b.split_off(at); b.extend_from_slice(x); b.extend(t); }
    } }
    b
}
/// a path that looks like another one
fn near(p: &str, r: &mut Rng) -> String {
    match r.below(9) {
        0 => format!("{}/", p),
        1 => format!("{}?q", p),
        2 => format!("{}{}", p, r.pick(&["x", "%20", ".", "//", "/..", "#a", ";v=1"])),
        3 => p[..p.len() - 1].to_string(),
        4 => format!("/{}", p),
        5 => p.to_uppercase(),
        6 => p[1..].to_string(),
        7 => format!("/api{}", p),
        _ => format!("{}/x", p),
    }
}
impl Prop for P {
    type Case = Case;
    const PER_RUN: usize = 400;
    const THREADS: usize = 4;
    const NAME: &'static str = "c20";
    const RULE: &'static str = "1..10 requests sent to a running server over the loopback network: writes (some with hundreds of series or thousands of points) and reads, whole, damaged before or after compression, not compressed, random bytes, bodies shorter than announced, unknown paths, any label names, duplicate and no labels, failing back ends; afterwards a good write and a good read; non-trivial: a request that was refused and one that was not";
    fn make(i: u64, r: &mut Rng) -> Case {
        let big = i % 100 == 50;
        let real = match i % 24 { _ if big => 0, 3 => 1, 5 | 17 => 2, _ => 0 };
        let plain = r.chance(2, 3);
        let n = 1 + r.usize(4);
        let sets: Vec<LabelVec> = if plain { let mut s = label_sets(r, n, 3); if r.chance(1, 8) { s.push(vec![]); } s } else { (0..n).map(|_| (0..r.usize(4)).map(|_| (r.text(), r.text())).collect()).collect() };
        let mut clock = vec![0i64; sets.len()];
        let paths = if r.chance(1, 2) { 0 } else { r.usize(PATHS.len()) };
        let (read, write) = PATHS[paths];
        let reqs = (0..1 + r.usize(10)).map(|_| {
            let msg = match r.below(8) {
                0 => Msg::Bytes((0..r.usize(40)).map(|_| if r.chance(1, 2) { r.u64() as u8 } else { *r.pick(&[0u8, 1, 2, 8, 10, 11, 12, 18, 26, 255, 128]) }).collect()),
                1 | 2 | 3 => Msg::Read((0..r.usize(4)).map(|_| (r.usize(sets.len() + 1), *r.pick(&[0, -1, i64::min_value(), i64::max_value(), 1, 50]), *r.pick(&[0, -1, i64::min_value(), i64::max_value(), i64::max_value(), 1, 50]))).collect()),
                _ => Msg::Write((0..{ let most = if big { *r.pick(&[4, 300]) } else { 4 }; r.usize(most) }).map(|_| { let s = r.usize(sets.len()); let most = if big && r.chance(1, 40) { 4000 } else { 4 }; (s, (0..r.usize(most)).map(|_| { if r.chance(1, 10) { return (r.u64() as i64, r.f64_bits()); } clock[s] += 1 + r.below(30) as i64; (clock[s], r.f64_bits()) }).collect()) }).collect()),
            };
            let home = match msg { Msg::Read(_) => read, Msg::Write(_) => write, _ => *r.pick(&[read, write]) };
            let path = match r.below(10) { 0 => r.pick(&["/", "/other", "/write/", "/readx", "/read?a=b", "/WRITE", "*", "/%72ead"]).to_string(), 1 => (if home == read { write } else { read }).to_string(),
                2 if r.chance(1, 2) => near(home, r), _ => home.to_string() };
            Req {
                method: r.pick(&["POST", "POST", "POST", "GET", "PUT", "DELETE"]).to_string(), path, msg,
                inner: if r.chance(1, 4) { edits(r) } else { vec![] }, packed: *r.pick(&[0, 0, 1, 1, 1, 2]), outer: if r.chance(1, 6) { edits(r) } else { vec![] },
                missing: if r.chance(1, 12) { 1 + r.usize(60) } else { 0 }, fail: if real == 0 && r.chance(1, 6) { Some(r.usize(if big { 400 } else { 8 })) } else { None },
            }
        }).collect();
        Case { paths, real, sets, plain, reqs }
    }
    fn check(c: &Case) -> Out {
        let d = scratch();
        let size = 1_000_000_000;
        match c.real {
            1 => drive(dbkit::open(d.path(), size, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).unwrap(), None, c),
            2 => { let t = Tikv::new(); drive(dbkit::open(d.path(), size, Box::new(t.storage_builder()), Box::new(t.indexer_builder())).unwrap(), None, c) }
            _ => { let b = FakeBuilder::new(); drive(dbkit::fake(d.path(), size, &b).unwrap(), Some(b), c) }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o: Vec<Case> = shrink_vec(&c.reqs).into_iter().map(|reqs| Case { reqs, ..c.clone() }).collect();
        for i in 0..c.reqs.len() {
            let mut put = |q: Req| { let mut w = c.clone(); w.reqs[i] = q; o.push(w) };
            let q = c.reqs[i].clone();
            for m in match &q.msg { Msg::Write(v) => shrink_vec(v).into_iter().map(Msg::Write).collect(), Msg::Read(v) => shrink_vec(v).into_iter().map(Msg::Read).collect(), Msg::Bytes(v) => shrink_vec(v).into_iter().map(Msg::Bytes).collect::<Vec<_>>() } { put(Req { msg: m, ..q.clone() }); }
            for e in shrink_vec(&q.inner) { put(Req { inner: e, ..q.clone() }); }
            for e in shrink_vec(&q.outer) { put(Req { outer: e, ..q.clone() }); }
            if q.missing > 0 { put(Req { missing: 0, ..q.clone() }); }
            if q.fail.is_some() { put(Req { fail: None, ..q.clone() }); }
        }
        o
    }
}
fn send(port: u16, method: &str, path: &str, body: &[u8], missing: usize) -> Result<(u32, Vec<u8>), String> {
    let e = |e: std::io::Error| e.to_string();
    let mut s = TcpStream::connect(("127.0.0.1", port)).map_err(e)?;
    s.set_read_timeout(Some(Duration::from_secs(20))).ok();
    s.set_write_timeout(Some(Duration::from_secs(20))).ok();
    let mut m = format!("{} {} HTTP/1.0\r\nHost: localhost\r\nContent-Length: {}\r\n\r\n", method, path, body.len() + missing).into_bytes();
    m.extend_from_slice(body);
    s.write_all(&m).map_err(e)?;
    s.shutdown(std::net::Shutdown::Write).map_err(e)?;
    let mut a = vec![];
    s.read_to_end(&mut a).map_err(e)?;
    let at = a.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no answer, only {:?}", String::from_utf8_lossy(&a)))?;
    let status = String::from_utf8_lossy(&a[..at]).split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or("no status")?;
    Ok((status, a[at + 4..].to_vec()))
}
/// is it this process that listens on the port (and not a program that took it in the meantime)?
fn ours(port: u16) -> bool {
    let mine: Vec<String> = std::fs::read_dir("/proc/self/fd").map(|d| d.filter_map(|e| std::fs::read_link(e.ok()?.path()).ok()).map(|p| p.display().to_string()).collect()).unwrap_or_default();
    ["/proc/net/tcp", "/proc/net/tcp6"].iter().flat_map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.to_string()).collect::<Vec<_>>()).any(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        w.len() > 9 && w[1].ends_with(&format!(":{:04X}", port)) && w[3] == "0A" && mine.iter().any(|m| *m == format!("socket:[{}]", w[9]))
    })
}
type Stored = Vec<(BTreeMap<u64, Vec<(u64, u64)>>, BTreeMap<LabelVec, u64>, BTreeMap<u64, LabelVec>)>;
fn drive<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: Arc<MonolithDb<S, I>>, b: Option<FakeBuilder>, c: &Case) -> Out {
    let base = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64 + 10_000;
    let (lo, hi) = (base - 5_000, base + 500_000_000);
    let mut port = 0;
    let mut t = None;
    // ports no outgoing connection is given, one server at a time
    static PORT: std::sync::Mutex<u32> = std::sync::Mutex::new(0);
    let mut next = PORT.lock().unwrap();
    let (read, write) = PATHS[c.paths % PATHS.len()];
    for _ in 0..2000 {
        *next += 1;
        port = 10_000 + ((std::process::id() * 577 + *next) % 22_000) as u16;
        if TcpListener::bind(("127.0.0.1", port)).is_err() { continue; }
        let db = db.clone();
        let j = std::thread::spawn(move || { let _ = MonolithServer::new(ServerOpts { port: port as i32, write_path: write, read_path: read, worker_num: 1 }, db).serve(); });
        for _ in 0..2000 { if j.is_finished() || TcpStream::connect(("127.0.0.1", port)).is_ok() { break; } std::thread::sleep(Duration::from_millis(1)); }
        if !j.is_finished() && ours(port) { t = Some(j); break; }
    }
    drop(next);
    let t = match t { Some(t) => t, None => return Out::Held(false) };
    let stored = || -> Stored { b.iter().flat_map(|b| b.all()).map(|w| { let w = w.lock().unwrap(); (w.series.clone(), w.index.clone(), w.meta.clone()) }).collect() };
    let arm = |n: Option<usize>| { if let Some(b) = &b { for w in b.all() { w.lock().unwrap().fail_after = n; } } };
    let failed = || b.as_ref().map(|b| b.all().iter().map(|w| w.lock().unwrap().failed).sum::<usize>()).unwrap_or(0);
    let (mut good, mut bad) = (false, false);
    // everything acknowledged so far; None: something unknown may be stored
    let mut known: Option<Vec<(LabelVec, Vec<(i64, u64)>)>> = if c.plain { Some(vec![]) } else { None };
    let full = |(l, p): wire::Series| (l, p.into_iter().map(|(t, b)| (base.wrapping_add(t), b)).collect::<Vec<_>>());
    let probe = vec![("vxprobe".to_string(), "yes".to_string())];
    let n = c.reqs.len();
    for i in 0..n + 2 {
        let last = Req { method: "POST".into(), path: if i == n { write } else { read }.into(), msg: Msg::Bytes(vec![]), inner: vec![], packed: 1, outer: vec![], missing: 0, fail: None };
        let q = c.reqs.get(i).unwrap_or(&last);
        let mut body = if i == n { wire::write_request(&[(probe.clone(), vec![(base + 1, 7)])]) } else if i > n { wire::read_request(&[(0, i64::max_value(), probe.clone())]) } else {
            match &q.msg {
                Msg::Bytes(b) => b.clone(),
                Msg::Write(v) => wire::write_request(&v.iter().map(|(s, p)| full((c.sets[*s].clone(), p.clone()))).collect::<Vec<_>>()),
                Msg::Read(v) => wire::read_request(&v.iter().map(|(s, a, z)| { let at = |t: i64| if t > 0 && t < 1000 { base + t } else { t }; (at(*a), at(*z), c.sets.get(*s).cloned().unwrap_or(vec![("no".into(), "such".into())])) }).collect::<Vec<_>>()),
            }
        };
        body = edit(body, &q.inner);
        body = match q.packed { 0 => wire::pack(&body), 1 => snap::raw::Encoder::new().compress_vec(&body).unwrap(), _ => body };
        body = edit(body, &q.outer);
        let what = if i < n { format!("request {} {:?}, body {:?}", i, q, body) } else { format!("after everything, a good {}", &q.path[1..]) };
        let before = stored();
        let f0 = failed();
        arm(q.fail);
        let a = send(port, &q.method, &q.path, &body, q.missing);
        arm(None);
        if t.is_finished() { return Out::Broken(format!("{}: the server died", what)); }
        let (status, answer) = match a { Ok(x) => x, Err(_) if q.missing > 0 => { known = None; continue } Err(e) => return Out::Broken(format!("{}: not answered: {}", what, e)) };
        let lost = failed() > f0;
        let unpacked = wire::unpack(&body);
        let refuse = |why: &str| if status < 400 { Some(format!("{}: answered {} although {}", what, status, why)) } else if stored() != before { Some(format!("{}: something was stored although {}", what, why)) } else { None };
        let mut err = None;
        if q.path != read && q.path != write { err = refuse("the path is unknown"); bad = true; }
        else if let Err(e) = &unpacked { err = refuse(&format!("the body cannot be decompressed ({})", e)); bad = true; }
        else if q.path == write {
            match wire::rd_request(unpacked.as_ref().unwrap(), wire::ck_series) {
                Err(true) => { err = refuse("the body is no write request"); bad = true; }
                Err(false) => known = None,
                Ok(v) => {
                    good |= !lost && !v.is_empty();
                    if lost && status < 400 { err = Some(format!("{}: answered {} although storing failed", what, status)); }
                    if !lost && b.is_some() && status != 200 { err = Some(format!("{}: answered {} although nothing failed", what, status)); }
                    if i >= n && status != 200 { err = Some(format!("{}: answered {}", what, status)); }
                    // duplicate names, names out of order: not a label set
                    if v.iter().any(|s| s.0.iter().any(|x| x.0.is_empty() || !x.0.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')) || (1..s.0.len()).any(|k| s.0[..k].iter().any(|x| x.0 == s.0[k].0))) { known = None; }
                    // times near the window's edges, or going backwards on a back end that refuses it
                    if v.iter().any(|s| s.1.iter().any(|p| p.0 >= 0 && !(p.0 > lo && p.0 < hi) && (p.0 - base).abs() < 2_000_000_000)) { known = None; }
                    if status >= 400 { known = None; }
                    if let (Some(k), true) = (&mut known, status < 400) { for s in v { k.push((sorted(&s.0), s.1.into_iter().filter(|p| p.0 > lo && p.0 < hi).collect())); } }
                    if let Some(k) = &known {
                        let mut last: BTreeMap<&LabelVec, i64> = BTreeMap::new();
                        if !k.iter().all(|(l, p)| p.iter().all(|p| last.insert(l, p.0).map(|t| t < p.0) != Some(false))) { known = None; }
                    }
                    if status < 400 && b.is_some() && known.is_some() {
                        let now: usize = stored().iter().flat_map(|w| w.0.values()).map(|s| s.len()).sum();
                        let want: usize = known.as_ref().unwrap().iter().map(|x| x.1.len()).sum();
                        if now != want { err = Some(format!("{}: acknowledged, {} of {} points are stored", what, now, want)); }
                    }
                }
            }
        } else {
            match wire::rd_request(unpacked.as_ref().unwrap(), wire::ck_query) {
                Err(true) => { err = refuse("the body is no read request"); bad = true; }
                Err(false) => {}
                Ok(v) => {
                    if stored() != before { err = Some(format!("{}: a read stored something", what)); }
                    if lost && status < 400 { err = Some(format!("{}: answered {} although reading failed", what, status)); }
                    if !lost && !v.is_empty() && status != 200 && (b.is_some() || i >= n) { err = Some(format!("{}: answered {} although nothing failed", what, status)); }
                    if status < 400 {
                        good |= !v.is_empty();
                        match wire::unpack(&answer).and_then(|x| wire::rd_response(&x)) {
                            Err(e) => err = Some(format!("{}: the answer {:?} cannot be read: {}", what, answer, e)),
                            Ok(a) => {
                                if a.len() != v.len() { err = Some(format!("{}: {} results", what, a.len())); }
                                if let Some(k) = &known { for ((from, to, l), g) in v.iter().zip(a) {
                                    if l.is_empty() || (1..l.len()).any(|k| l[..k].iter().any(|x| x.0 == l[k].0)) { continue; }
                                    let mut want: BTreeMap<LabelVec, Vec<(i64, u64)>> = BTreeMap::new();
                                    for (s, p) in k { if l.iter().all(|x| s.contains(x)) { want.entry(s.clone()).or_default().extend(p.iter().filter(|p| *from <= p.0 && p.0 <= *to)); } }
                                    let mut want: Vec<_> = want.into_iter().filter(|x| !x.1.is_empty()).collect();
                                    let mut g: Vec<_> = g.into_iter().map(|(l, p)| (sorted(&l), p)).collect();
                                    for x in want.iter_mut().chain(g.iter_mut()) { x.1.sort(); }
                                    want.sort(); g.sort();
                                    if want != g { err = Some(format!("{}: the query {:?} is answered {:?}, written {:?}", what, (from, to, l), g, want)); }
                                } }
                            }
                        }
                    }
                }
            }
        }
        if let Some(e) = err { return Out::Broken(e); }
    }
    Out::Held(good && bad)
}
pub fn main() { run::<P>() }
