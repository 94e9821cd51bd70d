//! C14: reopening a data directory keeps its chunks and refuses another back end.
use crate::chunk::{Chunk, ChunkOpts};
use crate::common::label::Labels;
use crate::db::vx_db;
use crate::indexer::{Indexer, SledIndexer, SledIndexerBuilder, TiKvIndexer};
use crate::option::DbOpts;
use crate::storage::{SledStorage, SledStorageBuilder, Storage, TiKvStorage};
use crate::time_point::TimePoint;
use crate::vx_common::*;
use crate::vx_kit::*;
use crate::{Builder, HasTypeName, MonolithDb, MonolithErr, Result, Timestamp, Value, DB_METADATA_FILENAME};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{SystemTime, UNIX_EPOCH};
#[path = "dbkit.rs"] mod dbkit;

/// the end of a chunk on disk: a time, or relative to now
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
pub enum T { Abs(u64), Now(i64) }
#[derive(Serialize, Deserialize, Clone)]
pub struct OnDisk { start: T, end: T, id: Vec<u8>, points: Vec<(usize, u64, u64)>,
    /// the window in the chunk's own options: 0 the one in the name, 1 another
    #[serde(default)] noted: u8 }
#[derive(Serialize, Deserialize, Clone)]
pub struct Other { name: Vec<u8>, dir: bool, meta: bool }
#[derive(Serialize, Deserialize, Clone)]
pub enum Case {
    /// a directory with these entries is opened (0 recording, 1 sled, 2 TiKV back ends)
    Scan { real: u8, base: String, chunks: Vec<OnDisk>, others: Vec<Other>, sets: Vec<LabelVec> },
    /// opened, written to and rotated, opened again
    Again { base: String, sets: Vec<LabelVec>, writes: Vec<Vec<(usize, u64)>>, opens: u8 },
    /// opened with one pair of back ends, then with others
    Pairs { base: String, first: (u8, u8), then: Vec<(u8, u8)> },
}
pub struct P;
const SIZE: u64 = 1_000_000_000;
const NAMES: &[&str] = &["", "data", "été", "日本/x y", "a b", "0a", "é"];
const OTHERS: &[&str] = &["wal", "lost+found", "-1", "0x12", "g", "1g", " 1f", "1f ", "1_0", "日本", "é1", ".DS_Store", "tmp.json", "metadata", "100000000000000000000000000000000", "ffffffffffffffffffffffffffffffffff", "zz", "storage", "indexer", "1f.bak", "--", "１"];
fn now() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64 }
impl Prop for P {
    type Case = Case;
    const PER_RUN: usize = 1200;
    const NAME: &'static str = "c14";
    const RULE: &'static str = "data directories (ASCII or not) with 0..8 (sometimes 100) chunk directories of past, running and future windows and entries that are no chunks; directories opened, written, rotated and opened again; every pair of recorded and requested back ends; non-trivial: two chunks are reopened, or a pair is refused";
    fn make(i: u64, r: &mut Rng) -> Case {
        let base = r.pick(NAMES).to_string();
        let n = 1 + r.usize(3);
        let sets = label_sets(r, n, 3);
        match i % 16 {
            0 | 1 | 2 | 3 => {
                let n = 1 + r.usize(4);
                let mut p = || (r.below(7) as u8, r.below(8) as u8);
                let first = p();
                let mut then: Vec<(u8, u8)> = (0..n).map(|_| p()).collect();
                if r.chance(1, 2) { then.push(first); }
                if first.0 == 2 || first.0 > 4 { then.push((*r.pick(&[2, 5, 6]), first.1)); }
                if r.chance(1, 2) { then.push((first.0, (first.1 + 1) % 8)); }
                if r.chance(1, 2) { then.push(((first.0 + 1) % 7, first.1)); }
                Case::Pairs { base, first, then }
            }
            4 | 5 | 6 => {
                let n = 1 + r.usize(4);
                let writes = (0..n).map(|_| (0..r.usize(5)).map(|_| (r.usize(sets.len()), r.f64_bits())).collect()).collect();
                Case::Again { base, sets, writes, opens: 1 + r.below(3) as u8 }
            }
            _ => {
                let real = match i % 48 { 7 | 23 => 1, 8 | 9 | 24 | 25 => 2, _ => 0 };
                let most = if real == 1 { 4 } else if real == 0 && r.chance(1, 40) { 120 } else { 9 };
                let k = r.usize(most);
                let mut chunks: Vec<OnDisk> = vec![];
                for _ in 0..k {
                    let start = match r.below(8) { 0 => T::Abs(r.below(3)), 1 => T::Abs(r.bits(40)), 2 => T::Now(-(r.below(10_000_000) as i64) - 10_000), 3 => T::Now(r.below(1000) as i64 * 100_000 + 1_000_000), 4 => T::Abs(r.u64() | 1 << 63), _ => T::Abs(1 + r.below(20 + 2 * k as u64) * 1000) };
                    let end = match (start, r.below(6)) {
                        (T::Abs(s), _) if s > 0 && r.chance(1, 20) => T::Abs(s - 1 - r.below(s.min(50))),
                        (T::Abs(s), 0) if s < 1 << 40 => T::Now(r.below(1000) as i64 * 100_000 + 1_000_000),
                        (T::Abs(s), 1) => T::Abs(s),
                        (T::Abs(s), 2) if s < 1 << 40 => T::Abs(u64::max_value() - r.below(3)),
                        (T::Abs(s), 3) if s < 1 << 40 => T::Now(-10_000 - (r.below(1000) as i64)),
                        (T::Abs(s), _) => T::Abs(s.saturating_add(r.bits(20))),
                        (T::Now(s), 0) => T::Now(s),
                        (T::Now(s), 1) => T::Abs(u64::max_value()),
                        (T::Now(s), _) => T::Now(s + 20_000_000 + r.below(1 << 30) as i64),
                    };
                    if chunks.iter().any(|c| c.start == start && c.end == end) { continue; }
                    let mut points = vec![];
                    let mut at = 0;
                    for s in 0..sets.len() { for _ in 0..r.usize(3) { points.push((s, at, r.f64_bits())); at += 1; } }
                    chunks.push(OnDisk { start, end, id: (0..r.usize(20)).map(|_| r.u64() as u8).collect(), points, noted: if r.chance(1, 4) { 1 } else { 0 } });
                }
                let mut others: Vec<Other> = vec![];
                for _ in 0..r.usize(5) {
                    let name = match r.below(6) {
                        0 => vec![b'1', 0xff, b'f'],
                        1 => vec![0xc3, 0x28],
                        2 => { let mut n = format!("{:x}", r.u64()).into_bytes(); let k = r.usize(n.len() + 1); n.insert(k, *r.pick(&[b'g', b'.', b' ', b'-', b'x'])); n }
                        _ => r.pick(OTHERS).as_bytes().to_vec(),
                    };
                    if others.iter().all(|o| o.name != name) { let dir = r.chance(1, 2); others.push(Other { name, dir, meta: dir && r.chance(1, 2) }); }
                }
                Case::Scan { real, base, chunks, others, sets }
            }
        }
    }
    fn check(c: &Case) -> Out {
        let d = scratch();
        match c {
            Case::Scan { real, base, chunks, others, sets } => {
                let dir = d.path().join(base);
                fs::create_dir_all(&dir).unwrap();
                match real {
                    1 => scan::<SledStorage, SledIndexer>(&dir, chunks, others, sets, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new()), || (Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())), None),
                    2 => { let t = Tikv::new(); scan::<TiKvStorage, TiKvIndexer>(&dir, chunks, others, sets, Box::new(t.storage_builder()), Box::new(t.indexer_builder()), || (Box::new(t.storage_builder()), Box::new(t.indexer_builder())), None) }
                    _ => { let b = FakeBuilder::new(); scan::<FakeStorage, FakeIndexer>(&dir, chunks, others, sets, Box::new(b.clone()), Box::new(b.clone()), || (Box::new(b.clone()), Box::new(b.clone())), Some(&b)) }
                }
            }
            Case::Again { base, sets, writes, opens } => {
                let dir = d.path().join(base);
                fs::create_dir_all(&dir).unwrap();
                again(&dir, sets, writes, *opens)
            }
            Case::Pairs { base, first, then } => {
                let dir = d.path().join(base);
                fs::create_dir_all(&dir).unwrap();
                pairs(&dir, *first, then)
            }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        match c {
            Case::Scan { real, base, chunks, others, sets } => {
                let mut v: Vec<Case> = shrink_vec(chunks).into_iter().map(|chunks| Case::Scan { real: *real, base: base.clone(), chunks, others: others.clone(), sets: sets.clone() }).collect();
                v.extend(shrink_vec(others).into_iter().map(|others| Case::Scan { real: *real, base: base.clone(), chunks: chunks.clone(), others, sets: sets.clone() }));
                v
            }
            Case::Again { base, sets, writes, opens } => shrink_vec(writes).into_iter().filter(|w| w.len() > 0).map(|writes| Case::Again { base: base.clone(), sets: sets.clone(), writes, opens: *opens }).collect(),
            Case::Pairs { base, first, then } => shrink_vec(then).into_iter().map(|then| Case::Pairs { base: base.clone(), first: *first, then }).collect(),
        }
    }
}
type Made<S, I> = (Box<dyn Builder<S> + Sync + Send>, Box<dyn Builder<I> + Sync + Send>);
fn scan<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(dir: &Path, chunks: &Vec<OnDisk>, others: &Vec<Other>, sets: &Vec<LabelVec>, sb: Box<dyn Builder<S> + Sync + Send>, ib: Box<dyn Builder<I> + Sync + Send>, mk: impl Fn() -> Made<S, I>, fake: Option<&FakeBuilder>) -> Out {
    let base = now();
    let at = |t: T| match t { T::Abs(t) => t, T::Now(d) => (base as i64 + d) as u64 };
    let mut want: Vec<(u64, u64)> = vec![];
    let mut seen: BTreeMap<LabelVec, Vec<(u64, u64)>> = BTreeMap::new();
    let mut ids: BTreeMap<PathBuf, (u64, u64, Vec<u8>)> = BTreeMap::new();
    for c in chunks {
        let (s, e) = (at(c.start), at(c.end));
        if want.contains(&(s, e)) { continue; }
        want.push((s, e));
        let path = dir.join(format!("{:x}", (s as u128) << 64 | e as u128));
        let mut o = ChunkOpts::default();
        o.start_time = Some(s);
        o.end_time = Some(e);
        if fake.is_some() { o.identifier = c.id.clone(); }
        match c.noted { 1 => { o.start_time = Some(s ^ 1); o.end_time = Some(e.wrapping_add(7)); } _ => {} }
        o.write_config_to_dir(&path).unwrap();
        o.start_time = Some(s);
        o.end_time = Some(e);
        sb.write_to_chunk(&path).unwrap();
        ib.write_to_chunk(&path).unwrap();
        let text = path.display().to_string();
        let chunk = Chunk::new(sb.build(text.clone(), Some(&o), None).unwrap(), ib.build(text, Some(&o), None).unwrap(), &o);
        // points at the start of the window, unless that lies ahead
        for (k, (set, off, v)) in c.points.iter().enumerate() {
            let t = s.saturating_add(*off).min(e);
            if t > base || t < s || e < base && t > e || c.points[..k].iter().any(|p| p.0 == *set && s.saturating_add(p.1).min(e) >= t) { continue; }
            if let Err(x) = chunk.insert(labels(&sets[*set]), TimePoint::new(t, f64::from_bits(*v))) { return Out::Broken(format!("write into a chunk failed: {}", x)); }
            seen.entry(sorted(&sets[*set])).or_default().push((t, *v));
        }
        if let Some(b) = fake { b.opened.lock().unwrap().clear(); }
        ids.insert(path, (s, e, o.identifier.clone()));
    }
    for o in others {
        let p = dir.join(PathBuf::from(std::ffi::OsString::from_vec(o.name.clone())));
        if o.dir { fs::create_dir_all(&p).unwrap(); } else { fs::write(&p, b"x").unwrap(); }
        if o.meta { let mut c = ChunkOpts::default(); c.start_time = Some(1); c.end_time = Some(2); c.write_config_to_dir(&p).unwrap(); }
    }
    drop(sb);
    drop(ib);
    let (sb, ib) = mk();
    let t0 = now();
    let db = match dbkit::open(dir, SIZE, sb, ib) { Ok(d) => d, Err(e) => return Out::Broken(format!("opening a directory with {} chunks and {:?} failed: {}", want.len(), others.iter().map(|o| String::from_utf8_lossy(&o.name).to_string()).collect::<Vec<_>>(), e)) };
    let t1 = now();
    let got = vx_db::closed(&db);
    match fs::read_to_string(dir.join(DB_METADATA_FILENAME)) {
        Ok(text) if text.contains(S::get_type_name()) && text.contains(I::get_type_name()) => {}
        x => return Out::Broken(format!("a directory without recorded back ends, holding {} chunks and {:?}, was opened: the record is {:?}", want.len(), others.iter().map(|o| String::from_utf8_lossy(&o.name).to_string()).collect::<Vec<_>>(), x.map_err(|e| e.to_string()))),
    }
    if got.iter().any(|c| !c.2) { return Out::Broken(format!("a chunk was reopened but not closed: {:?}", got)); }
    if got.windows(2).any(|w| w[0].0 > w[1].0) { return Out::Broken(format!("reopened chunks are not in order of start: {:?}", got)); }
    let mut left = want.clone();
    for g in &got {
        match left.iter().position(|w| w.0 == g.0 && if w.1 < t0 { g.1 == w.1 } else { w.1.min(t0) <= g.1 && g.1 <= w.1.min(t1) }) {
            Some(k) => { left.remove(k); }
            None => return Out::Broken(format!("chunks with windows {:?} on disk, opened at {}: {:?}", want, t0, got)),
        }
    }
    if !left.is_empty() { return Out::Broken(format!("chunks {:?} were not reopened: {:?}", left, got)); }
    if let Some(b) = fake {
        for (p, s, e, id) in b.opened.lock().unwrap().iter() {
            match p.parent().and_then(|d| ids.get(d)) {
                Some(w) if *id != w.2 => return Out::Broken(format!("{:?} was opened with identifier {:?}, it is {:?}", p, id, w.2)),
                Some(w) if *s != Some(w.0) || e.map(|e| e > w.1 || e > t1 || (e < w.1 && e < t0)).unwrap_or(true) => return Out::Broken(format!("{:?} was opened with window {:?}, it is {:?}", p, (s, e), w)),
                _ => {}
            }
        }
    }
    for l in sets {
        let want: BTreeMap<LabelVec, Vec<(u64, u64)>> = seen.iter().filter(|(k, _)| l.iter().all(|x| k.contains(x))).map(|(k, s)| { let mut s = s.clone(); s.sort(); (k.clone(), s) }).collect();
        match db.query(labels(l), 0, base) {
            Err(e) => return Out::Broken(format!("query for {:?} after reopening failed: {}", l, e)),
            Ok(g) => {
                let got: BTreeMap<LabelVec, Vec<(u64, u64)>> = g.into_iter().map(|(k, s)| (unlabels(&k), { let mut s: Vec<(u64, u64)> = s.iter().map(|p| (p.timestamp, p.value.to_bits())).collect(); s.sort(); s })).collect();
                if got != want { return Out::Broken(format!("after reopening, a query for {:?} gives {:?}, stored were {:?}", l, got, want)); }
            }
        }
    }
    Out::Held(got.len() > 1)
}
fn again(dir: &Path, sets: &Vec<LabelVec>, writes: &Vec<Vec<(usize, u64)>>, opens: u8) -> Out {
    let b = FakeBuilder::new();
    let mut windows: Vec<(u64, u64)> = vec![];
    let mut seen: BTreeMap<LabelVec, Vec<(u64, u64)>> = BTreeMap::new();
    for round in 0..=opens {
        let t0 = now();
        let db = match dbkit::fake(dir, SIZE, &b) { Ok(d) => d, Err(e) => return Out::Broken(format!("opening number {} failed: {}", round + 1, e)) };
        let t1 = now();
        let got = vx_db::closed(&db);
        let mut left = windows.clone();
        for g in &got {
            match left.iter().position(|w| w.0 == g.0 && if w.1 < t0 { g.1 == w.1 } else { w.1.min(t0) <= g.1 && g.1 <= w.1.min(t1) } && g.2) {
                Some(k) => { left.remove(k); }
                None => return Out::Broken(format!("opening number {} at {} has chunks {:?}, made were {:?}", round + 1, t0, got, windows)),
            }
        }
        if !left.is_empty() { return Out::Broken(format!("opening number {} at {} lost chunks {:?}: {:?}", round + 1, t0, left, got)); }
        if got.windows(2).any(|w| w[0].0 > w[1].0) { return Out::Broken(format!("reopened chunks are not in order of start: {:?}", got)); }
        for l in sets {
            let want: BTreeMap<LabelVec, Vec<(u64, u64)>> = seen.iter().filter(|(k, _)| l.iter().all(|x| k.contains(x))).map(|(k, s)| { let mut s = s.clone(); s.sort(); (k.clone(), s) }).collect();
            match db.query(labels(l), 0, t0) {
                Err(e) => return Out::Broken(format!("query for {:?} after reopening failed: {}", l, e)),
                Ok(g) => {
                    let got: BTreeMap<LabelVec, Vec<(u64, u64)>> = g.into_iter().map(|(k, s)| (unlabels(&k), { let mut s: Vec<(u64, u64)> = s.iter().map(|p| (p.timestamp, p.value.to_bits())).collect(); s.sort(); s })).collect();
                    if got != want { return Out::Broken(format!("opening number {}: a query for {:?} gives {:?}, stored were {:?}", round + 1, l, got, want)); }
                }
            }
        }
        windows.push(vx_db::window(&db));
        for (k, w) in writes.iter().enumerate() {
            let (s, _) = vx_db::window(&db);
            for (j, (set, v)) in w.iter().enumerate() {
                let t = s + j as u64;
                if let Err(e) = db.write_time_point(labels(&sets[*set]), TimePoint::new(t, f64::from_bits(*v))) { return Out::Broken(format!("write failed: {}", e)); }
                seen.entry(sorted(&sets[*set])).or_default().push((t, *v));
            }
            if k + 1 < writes.len() {
                if let Err(e) = vx_db::rotate(&db, s + 8) { return Out::Broken(format!("rotation failed: {}", e)); }
                windows.push(vx_db::window(&db));
            }
        }
        // two openings at the same moment would share a directory
        let last = windows.iter().map(|w| w.0).max().unwrap() + 10;
        while now() <= last { std::thread::sleep(std::time::Duration::from_millis(1)); }
    }
    Out::Held(windows.len() > 2)
}

// ---------- other back ends: their names are what counts ----------
pub struct OtherStorage(FakeStorage);
pub struct OtherIndexer(FakeIndexer);
impl HasTypeName for OtherStorage { fn get_type_name() -> &'static str { "OtherStorage" } }
impl HasTypeName for OtherIndexer { fn get_type_name() -> &'static str { "FakeIndexer2" } }
/// named like the storage it is used with
pub struct SameName(FakeIndexer);
impl HasTypeName for SameName { fn get_type_name() -> &'static str { "OtherStorage" } }
/// named like another one but for the case of a letter, the end, a space
pub struct LowerName(FakeIndexer);
impl HasTypeName for LowerName { fn get_type_name() -> &'static str { "fakeIndexer2" } }
pub struct ShortName(FakeIndexer);
impl HasTypeName for ShortName { fn get_type_name() -> &'static str { "FakeIndexe" } }
pub struct SpaceName(FakeIndexer);
impl HasTypeName for SpaceName { fn get_type_name() -> &'static str { "FakeIndexer2 " } }
macro_rules! other_indexer { ($t:ident) => {
    impl Indexer for $t {
        fn get_series_metadata_contains_labels(&self, l: Labels) -> Result<Vec<(u64, Labels)>> { self.0.get_series_metadata_contains_labels(l) }
        fn get_series_id_contains_labels(&self, l: Labels) -> Result<Vec<u64>> { self.0.get_series_id_contains_labels(l) }
        fn get_series_id_by_labels(&self, l: Labels) -> Result<Option<u64>> { self.0.get_series_id_by_labels(l) }
        fn create_index(&self, l: Labels, id: u64) -> Result<()> { self.0.create_index(l, id) }
    }
    impl Builder<$t> for FakeBuilder {
        fn build(&self, p: String, _: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<$t> { Ok($t(FakeIndexer(self.world(Path::new(&p))))) }
        fn write_to_chunk(&self, _: &Path) -> Result<()> { Ok(()) }
        fn read_from_chunk(&self, d: &Path, _: Option<&ChunkOpts>) -> Result<Option<$t>> { Ok(Some($t(FakeIndexer(self.world(d.parent().unwrap()))))) }
        fn write_config(&self, _: &Path) -> Result<()> { Ok(()) }
        fn read_config(&self, _: &Path) -> Result<()> { Ok(()) }
    }
} }
other_indexer!(OtherIndexer);
other_indexer!(SameName);
other_indexer!(LowerName);
other_indexer!(ShortName);
other_indexer!(SpaceName);
/// named like another storage but for the case of a letter, the end
pub struct LowerStorage(FakeStorage);
impl HasTypeName for LowerStorage { fn get_type_name() -> &'static str { "otherStorage" } }
pub struct LongStorage(FakeStorage);
impl HasTypeName for LongStorage { fn get_type_name() -> &'static str { "OtherStorage\n" } }
macro_rules! other_storage { ($t:ident) => {
    impl Storage for $t {
        fn write_time_point(&self, id: u64, t: Timestamp, v: Value) -> Result<()> { self.0.write_time_point(id, t, v) }
        fn read_time_series(&self, id: u64, a: Timestamp, b: Timestamp) -> Result<Vec<TimePoint>> { self.0.read_time_series(id, a, b) }
    }
    impl Builder<$t> for FakeBuilder {
        fn build(&self, p: String, _: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<$t> { Ok($t(FakeStorage(self.world(Path::new(&p))))) }
        fn write_to_chunk(&self, _: &Path) -> Result<()> { Ok(()) }
        fn read_from_chunk(&self, d: &Path, _: Option<&ChunkOpts>) -> Result<Option<$t>> { Ok(Some($t(FakeStorage(self.world(d.parent().unwrap()))))) }
        fn write_config(&self, _: &Path) -> Result<()> { Ok(()) }
        fn read_config(&self, _: &Path) -> Result<()> { Ok(()) }
    }
} }
other_storage!(OtherStorage);
other_storage!(LowerStorage);
other_storage!(LongStorage);
fn open_pair(dir: &Path, p: (u8, u8), t: &Tikv, b: &FakeBuilder) -> Result<()> {
    fn with<S: Storage + Send + Sync + 'static>(dir: &Path, s: Box<dyn Builder<S> + Sync + Send>, i: u8, t: &Tikv, b: &FakeBuilder) -> Result<()> {
        match i {
            0 => MonolithDb::<S, FakeIndexer>::new(dbkit::opts(dir, SIZE), s, Box::new(b.clone())).map(|_| ()),
            1 => MonolithDb::<S, OtherIndexer>::new(dbkit::opts(dir, SIZE), s, Box::new(b.clone())).map(|_| ()),
            2 => MonolithDb::<S, SameName>::new(dbkit::opts(dir, SIZE), s, Box::new(b.clone())).map(|_| ()),
            3 => MonolithDb::<S, SledIndexer>::new(dbkit::opts(dir, SIZE), s, Box::new(SledIndexerBuilder::new())).map(|_| ()),
            5 => MonolithDb::<S, LowerName>::new(dbkit::opts(dir, SIZE), s, Box::new(b.clone())).map(|_| ()),
            6 => MonolithDb::<S, ShortName>::new(dbkit::opts(dir, SIZE), s, Box::new(b.clone())).map(|_| ()),
            7 => MonolithDb::<S, SpaceName>::new(dbkit::opts(dir, SIZE), s, Box::new(b.clone())).map(|_| ()),
            _ => MonolithDb::<S, TiKvIndexer>::new(dbkit::opts(dir, SIZE), s, Box::new(t.indexer_builder())).map(|_| ()),
        }
    }
    match p.0 {
        0 | 1 => with::<FakeStorage>(dir, Box::new(b.clone()), p.1, t, b),
        2 => with::<OtherStorage>(dir, Box::new(b.clone()), p.1, t, b),
        5 => with::<LowerStorage>(dir, Box::new(b.clone()), p.1, t, b),
        6 => with::<LongStorage>(dir, Box::new(b.clone()), p.1, t, b),
        3 => with::<SledStorage>(dir, Box::new(SledStorageBuilder::new()), p.1, t, b),
        _ => with::<TiKvStorage>(dir, Box::new(t.storage_builder()), p.1, t, b),
    }
}
fn pairs(dir: &Path, first: (u8, u8), then: &Vec<(u8, u8)>) -> Out {
    let (t, b) = (Tikv::new(), FakeBuilder::new());
    let kind = |p: (u8, u8)| (p.0.max(1), p.1);
    if let Err(e) = open_pair(dir, first, &t, &b) { return Out::Broken(format!("opening a fresh directory failed: {}", e)); }
    let read = || { let mut v: Vec<(PathBuf, Vec<u8>)> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.is_file()).map(|p| { let c = fs::read(&p).unwrap(); (p, c) }).collect(); v.sort(); v };
    let recorded = read();
    if !recorded.iter().any(|x| x.0.ends_with(DB_METADATA_FILENAME) && x.1.len() > 0) { return Out::Broken("a fresh directory got no configuration recorded".into()); }
    let mut sled = first.0 == 3 || first.1 == 3;
    let mut nt = false;
    for p in then {
        // the embedded store of this process still holds its files
        if kind(*p) == kind(first) && sled { continue; }
        std::thread::sleep(std::time::Duration::from_millis(2));
        let res = open_pair(dir, *p, &t, &b);
        if kind(*p) == kind(first) {
            if let Err(e) = res { return Out::Broken(format!("opening {:?} again with the same back ends failed: {}", p, e)); }
            sled |= p.0 == 3 || p.1 == 3;
        } else {
            nt = true;
            match res {
                Err(MonolithErr::OptionErr) => {}
                Err(e) => return Out::Broken(format!("made with {:?}, opened with {:?}: failed, but with: {}", first, p, e)),
                Ok(_) => return Out::Broken(format!("made with {:?}, opened with {:?}: accepted", first, p)),
            }
        }
        if read() != recorded { return Out::Broken(format!("made with {:?}, opened with {:?}: the recorded configuration changed", first, p)); }
    }
    Out::Held(nt)
}
pub fn main() { run::<P>() }
