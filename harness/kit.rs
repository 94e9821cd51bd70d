//! Storages, indexers and builders for the searches: the real back ends on scratch directories and an in-process TiKV
//! stand-in, and recording back ends that follow the documented contracts and fail on demand.
#![allow(dead_code)]
use crate::chunk::ChunkOpts;
use crate::indexer::Indexer;
use crate::label::{Label, Labels};
use crate::option::DbOpts;
use crate::storage::Storage;
use crate::time_point::TimePoint;
use crate::{Builder, HasTypeName, MonolithErr, Result, Timestamp, Value};
use crate::vx_common::Rng;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub type LabelVec = Vec<(String, String)>;
pub fn labels(l: &[(String, String)]) -> Labels {
    Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(k, v)).collect())
}
pub fn unlabels(l: &Labels) -> LabelVec {
    let mut v: LabelVec = l.vec().iter().map(|x| (x.key().clone(), x.value().clone())).collect();
    v.sort();
    v
}
pub fn sorted(l: &LabelVec) -> LabelVec {
    let mut v = l.clone();
    v.sort();
    v
}
pub fn shuffled(l: &LabelVec, r: &mut Rng) -> LabelVec {
    let mut v = l.clone();
    for i in (1..v.len()).rev() {
        let j = r.usize(i + 1);
        v.swap(i, j);
    }
    v
}
/// 1..=max labels with distinct names
pub fn label_set(r: &mut Rng, max: usize) -> LabelVec {
    let n = 1 + r.usize(max);
    let mut m = BTreeMap::new();
    for _ in 0..n { m.insert(r.name(), r.text()); }
    // seldom: a great many labels
    if max > 1 && r.chance(1, 60) { for k in 0..r.usize(70) { m.insert(format!("l{}", k), if r.chance(1, 4) { r.text() } else { "v".to_string() }); } }
    let v: LabelVec = m.into_iter().collect();
    shuffled(&v, r)
}
/// a different label set close to `l`
pub fn label_set_near(l: &LabelVec, r: &mut Rng) -> LabelVec {
    let mut m: BTreeMap<String, String> = l.iter().cloned().collect();
    let k: String = { let ks: Vec<&String> = m.keys().collect(); (*r.pick(&ks)).clone() };
    match r.below(9) {
        7 => { let v = if r.chance(1, 2) { m[&k].clone() } else { r.text() }; m.insert(r.other_case(&k), v); }
        8 => { let v = m[&k].clone(); m.insert(k, r.other_case(&v)); }
        0 => { m.insert(r.name(), r.text()); }
        1 => { if m.len() > 1 { m.remove(&k); } }
        2 => { m.insert(k, r.text()); }
        3 => { let v = m[&k].clone(); m.insert(k, format!("{},{}={}", v, r.name(), r.text())); }
        4 => { // two labels merged into one value
            let ks: Vec<String> = m.keys().cloned().collect();
            if ks.len() > 1 { let b = m.remove(&ks[1]).unwrap(); let a = m[&ks[0]].clone(); m.insert(ks[0].clone(), format!("{},{}={}", a, ks[1], b)); }
        }
        5 => { let v = m.remove(&k).unwrap(); m.insert(format!("{}{}", r.pick(&["R", "L", "a", "_"]), k), v); }
        _ => { let v = m[&k].clone(); m.insert(k, format!("{}{}", v, r.pick(&["\\", ",", "=", "x", "\\,"]))); }
    }
    let v: LabelVec = m.into_iter().collect();
    shuffled(&v, r)
}
/// label sets that are pairwise different
pub fn label_sets(r: &mut Rng, n: usize, max: usize) -> Vec<LabelVec> {
    let mut out: Vec<LabelVec> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    while out.len() < n {
        let l = if !out.is_empty() && r.chance(1, 2) { let b = r.pick(&out).clone(); label_set_near(&b, r) } else { label_set(r, max) };
        if seen.insert(sorted(&l)) || r.chance(1, 50) {
            if !out.iter().any(|o| sorted(o) == sorted(&l)) { out.push(l); }
        }
        if r.chance(1, 200) { break; }
    }
    out
}

// ---------- the TiKV stand-in ----------
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub struct Tikv { pub endpoint: String, pub singleton: crate::backend::TiKvRawBackendSingleton }
impl Tikv {
    pub fn new() -> Tikv {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let endpoint = format!("pd{}", n);
        let singleton = crate::backend::TiKvRawBackendSingleton::new(tikv_client::Config::new(vec![endpoint.clone()])).unwrap();
        Tikv { endpoint, singleton }
    }
    pub fn store(&self) -> tikv_client::Shared { tikv_client::store(&[self.endpoint.clone()]) }
    pub fn fail_put(&self, n: Option<usize>) { self.store().lock().unwrap().fail_put_after = n; }
    pub fn fail_get(&self, n: Option<usize>) { self.store().lock().unwrap().fail_get_after = n; }
    pub fn storage_builder(&self) -> crate::storage::TiKvStorageBuilder { crate::storage::TiKvStorageBuilder::new(self.singleton.clone()).unwrap() }
    pub fn indexer_builder(&self) -> crate::indexer::TiKvIndexerBuilder { crate::indexer::TiKvIndexerBuilder::new(self.singleton.clone()).unwrap() }
}
pub fn scratch() -> tempfile::TempDir {
    let shm = Path::new("/dev/shm");
    tempfile::TempDir::new_in(shm).or_else(|_| tempfile::TempDir::new()).unwrap()
}

// ---------- recording back ends ----------
/// what a store or index call did
#[derive(Clone, Debug, PartialEq)]
pub enum Call { Lookup(LabelVec), Create(LabelVec, u64), Write(u64, u64, u64), Read(u64, u64, u64), Search(LabelVec) }

#[derive(Default)]
pub struct World {
    pub series: BTreeMap<u64, Vec<(u64, u64)>>,
    pub index: BTreeMap<LabelVec, u64>,
    pub meta: BTreeMap<u64, LabelVec>,
    pub calls: Vec<Call>,
    /// fail the n-th call from now on (0: the next)
    pub fail_after: Option<usize>,
    /// and as many calls after it fail too
    pub fail_more: usize,
    /// a failing create or write has done its work (the answer got lost)
    pub fail_late: bool,
    pub failed: usize,
    /// calls so far; decides which kind of error a failure is
    pub asked: u64,
}
impl World {
    fn due(&mut self) -> bool {
        self.asked += 1;
        match self.fail_after {
            Some(0) => { if self.fail_more > 0 { self.fail_more -= 1 } else { self.fail_after = None } self.failed += 1; true }
            Some(n) => { self.fail_after = Some(n - 1); false }
            None => false,
        }
    }
}
pub type Shared = Arc<Mutex<World>>;
/// an injected failure: any error a back end may report, but those that mean "no such series" or "no point there"
fn boom(w: &World) -> MonolithErr {
    match w.asked % 4 {
        0 => MonolithErr::IoError("injected".into()),
        1 => MonolithErr::InternalErr("injected".into()),
        2 => MonolithErr::ParseErr,
        _ => MonolithErr::OptionErr,
    }
}
/// a failing write may say anything
fn boom_write(w: &World) -> MonolithErr {
    match w.asked % 7 { 4 => MonolithErr::NotFoundErr, 5 => MonolithErr::OutOfRangeErr(w.asked, w.asked + 1), 6 => MonolithErr::OutOfRangeErr(0, u64::max_value()), _ => boom(w) }
}

#[derive(Clone)]
pub struct FakeStorage(pub Shared);
#[derive(Clone)]
pub struct FakeIndexer(pub Shared);
impl HasTypeName for FakeStorage { fn get_type_name() -> &'static str { "FakeStorage" } }
impl HasTypeName for FakeIndexer { fn get_type_name() -> &'static str { "FakeIndexer" } }
impl Storage for FakeStorage {
    fn write_time_point(&self, id: u64, timestamp: Timestamp, value: Value) -> Result<()> {
        let mut w = self.0.lock().unwrap();
        let due = w.due();
        if due && !w.fail_late { return Err(boom_write(&w)); }
        w.calls.push(Call::Write(id, timestamp, value.to_bits()));
        w.series.entry(id).or_default().push((timestamp, value.to_bits()));
        if due { Err(boom_write(&w)) } else { Ok(()) }
    }
    fn read_time_series(&self, id: u64, a: Timestamp, b: Timestamp) -> Result<Vec<TimePoint>> {
        let mut w = self.0.lock().unwrap();
        if w.due() { return Err(boom(&w)); }
        w.calls.push(Call::Read(id, a, b));
        match w.series.get(&id) {
            None => Err(MonolithErr::NotFoundErr),
            Some(s) if s.is_empty() => Err(MonolithErr::NotFoundErr),
            Some(s) => {
                let (lo, hi) = (s[0].0, s[s.len() - 1].0);
                if lo > b || hi < a { return Err(MonolithErr::OutOfRangeErr(lo, hi)); }
                Ok(s.iter().filter(|p| a <= p.0 && p.0 <= b).map(|p| TimePoint::new(p.0, f64::from_bits(p.1))).collect())
            }
        }
    }
}
impl Indexer for FakeIndexer {
    fn get_series_metadata_contains_labels(&self, l: Labels) -> Result<Vec<(u64, Labels)>> {
        let ids = self.get_series_id_contains_labels(l)?;
        let w = self.0.lock().unwrap();
        Ok(ids.into_iter().map(|i| (i, labels(&w.meta[&i]))).collect())
    }
    fn get_series_id_contains_labels(&self, l: Labels) -> Result<Vec<u64>> {
        let mut w = self.0.lock().unwrap();
        if w.due() { return Err(boom(&w)); }
        let want = unlabels(&l);
        w.calls.push(Call::Search(want.clone()));
        if want.is_empty() { return Ok(vec![]); }
        Ok(w.meta.iter().filter(|(_, m)| want.iter().all(|x| m.contains(x))).map(|(i, _)| *i).collect())
    }
    fn get_series_id_by_labels(&self, l: Labels) -> Result<Option<u64>> {
        let mut w = self.0.lock().unwrap();
        if w.due() { return Err(boom(&w)); }
        let k = unlabels(&l);
        w.calls.push(Call::Lookup(k.clone()));
        Ok(w.index.get(&k).cloned())
    }
    fn create_index(&self, l: Labels, id: u64) -> Result<()> {
        let mut w = self.0.lock().unwrap();
        let due = w.due();
        if due && !w.fail_late { return Err(boom_write(&w)); }
        let k = unlabels(&l);
        w.calls.push(Call::Create(k.clone(), id));
        if w.index.contains_key(&k) { return Err(MonolithErr::InternalErr("duplicate".into())); }
        w.index.insert(k.clone(), id);
        w.meta.insert(id, k);
        if due { Err(boom_write(&w)) } else { Ok(()) }
    }
}
/// builds recording back ends; both components of one chunk directory share one World
#[derive(Clone)]
pub struct FakeBuilder { pub worlds: Arc<Mutex<Vec<(PathBuf, Shared)>>>, pub opened: Arc<Mutex<Vec<(PathBuf, Option<u64>, Option<u64>, Vec<u8>)>>> }
impl FakeBuilder {
    pub fn new() -> FakeBuilder { FakeBuilder { worlds: Arc::new(Mutex::new(vec![])), opened: Arc::new(Mutex::new(vec![])) } }
    pub fn world(&self, chunk_dir: &Path) -> Shared {
        let mut w = self.worlds.lock().unwrap();
        if let Some(x) = w.iter().find(|x| x.0 == chunk_dir) { return x.1.clone(); }
        let s: Shared = Default::default();
        w.push((chunk_dir.to_path_buf(), s.clone()));
        s
    }
    /// the worlds in the order they were made
    pub fn all(&self) -> Vec<Shared> { self.worlds.lock().unwrap().iter().map(|x| x.1.clone()).collect() }
}
macro_rules! fake_builder {
    ($t:ty, $mk:expr, $sub:expr) => {
        impl Builder<$t> for FakeBuilder {
            fn build(&self, path: String, _: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<$t> { Ok($mk(self.world(Path::new(&path)))) }
            fn write_to_chunk(&self, _dir: &Path) -> Result<()> { Ok(()) }
            fn read_from_chunk(&self, dir: &Path, o: Option<&ChunkOpts>) -> Result<Option<$t>> {
                if let Some(o) = o { self.opened.lock().unwrap().push((dir.to_path_buf(), o.start_time, o.end_time, o.identifier.clone())); }
                Ok(Some($mk(self.world(dir.parent().unwrap()))))
            }
            fn write_config(&self, _dir: &Path) -> Result<()> { Ok(()) }
            fn read_config(&self, _dir: &Path) -> Result<()> { Ok(()) }
        }
    };
}
fake_builder!(FakeStorage, FakeStorage, "storage");
fake_builder!(FakeIndexer, FakeIndexer, "indexer");
