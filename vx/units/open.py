"""Opening a data directory and starting a new chunk (C14, and the order of chunks that C12 rests on)."""
import re
from . import lib, chunk, utils, db, backend
from .. import unit, rust
DB = "src/db.rs"
CH = "src/chunk/chunk.rs"

FS = r"""
// ---- the file system: readable text files, and the names found in a directory. Paths are their components; names that are not
// UTF-8 have no text
type P = Seq<Seq<char>>;
#[verifier::external_body] struct Path {}
#[verifier::external_body] struct OsStr {}
#[verifier::external_body] struct OsString {}
uninterp spec fn text_of(p: P) -> Seq<char>;
uninterp spec fn path_of(t: Seq<char>) -> P;
trait VxPath { spec fn p(&self) -> P; }
impl VxPath for Path { spec fn p(&self) -> P { self@ } }
impl VxPath for &Path { spec fn p(&self) -> P { (*self)@ } }
impl VxPath for &&Path { spec fn p(&self) -> P { (**self)@ } }
trait VxName { spec fn n(&self) -> Seq<char>; }
impl VxName for &str { spec fn n(&self) -> Seq<char> { (*self)@ } }
impl VxName for String { spec fn n(&self) -> Seq<char> { self@ } }
impl VxName for &String { spec fn n(&self) -> Seq<char> { (*self)@ } }
impl Path {
    uninterp spec fn view(&self) -> P;
    // the last component, if it is UTF-8
    uninterp spec fn last(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn join<N: VxName>(&self, n: N) -> (r: Path) ensures r@ == self@.push(n.n()) { loop {} }
    #[verifier::external_body]
    fn as_path(&self) -> (r: &Path) ensures r == self { loop {} }
    #[verifier::external_body]
    fn to_path_buf(&self) -> (r: Path) ensures r@ == self@, r.last() == self.last() { loop {} }
    #[verifier::external_body]
    fn exists(&self, vx_fs: &VxFs) -> (r: bool) ensures r == vx_fs.present(self@) { loop {} }
    #[verifier::external_body]
    fn file_name(&self) -> (r: Option<&OsStr>) ensures r matches Some(n) ==> n.text() == self.last(), r is None ==> self.last() is None { loop {} }
    // the text of a path; the directories are assumed to have UTF-8 names
    #[verifier::external_body]
    fn vx_text(&self) -> (r: String) ensures path_of(r@) == self@ { loop {} }
}
impl OsStr {
    uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => self.text() == Some(s@), None => self.text() is None } { loop {} }
}
trait VxNameText { fn vx_to_str(self) -> Option<&'static str> where Self: Sized; }
#[verifier::external_body]
fn vx_name_text<'a>(n: Option<&'a OsStr>) -> (r: Option<&'a str>)
    ensures match r { Some(s) => n matches Some(o) && o.text() == Some(s@), None => n is None || n->0.text() is None },
{ loop {} }
#[verifier::external_body]
fn vx_path_from(s: String) -> (r: Path) ensures r@ == path_of(s@) { loop {} }
#[verifier::external_body] struct VxEntry {}
impl VxEntry {
    uninterp spec fn view(&self) -> P;
    uninterp spec fn last(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn path(&self) -> (r: Path) ensures r@ == self@, r.last() == self.last() { loop {} }
}
#[verifier::external_body] struct VxFs {}
impl VxFs {
    uninterp spec fn files(&self) -> Map<P, Seq<char>>;
    uninterp spec fn present(&self, p: P) -> bool;
    // the names in a directory that are UTF-8
    uninterp spec fn names(&self, p: P) -> Set<Seq<char>>;
    #[verifier::external_body]
    fn read_to_string<Q: VxPath>(&self, p: Q) -> (r: Result<String>)
        ensures match r { Ok(s) => self.present(p.p()) && self.files().contains_key(p.p()) && self.files()[p.p()] == s@, Err(e) => e is IoError },
    { loop {} }
    #[verifier::external_body]
    fn create<Q: VxPath>(&mut self, p: Q) -> (r: Result<VxFile>)
        ensures match r { Ok(f) => f@ == p.p() && f.at_end() && final(self).files() == old(self).files().insert(p.p(), Seq::empty()) && final(self).present(p.p()), Err(e) => e is IoError && *final(self) == *old(self) },
            forall|q: P| old(self).present(q) ==> #[trigger] final(self).present(q), forall|q: P| q != p.p() ==> #[trigger] final(self).present(q) == old(self).present(q),
            forall|d: P, n: Seq<char>| #[trigger] final(self).names(d).contains(n) <==> old(self).names(d).contains(n) || (r is Ok && p.p() == d.push(n)),
    { loop {} }
    #[verifier::external_body]
    fn create_dir_all<Q: VxPath>(&mut self, p: Q) -> (r: Result<()>)
        ensures final(self).files() == old(self).files(), r matches Err(e) ==> e is IoError,
    { loop {} }
    // every entry once, in any order; reading on may fail
    #[verifier::external_body]
    fn read_dir<Q: VxPath>(&self, p: Q) -> (r: Result<Vec<Result<VxEntry>>>)
        ensures match r { Ok(v) => listing_of(v@, p.p(), self.names(p.p())), Err(e) => e is IoError },
    { loop {} }
}
spec fn entry_name(x: Result<VxEntry>) -> Option<Seq<char>> { match x { Ok(e) => e.last(), Err(_) => None } }
spec fn seen(v: Seq<Result<VxEntry>>, at: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < at && entry_name(#[trigger] v[i]) == Some(n) }
spec fn listing_of(v: Seq<Result<VxEntry>>, dir: P, names: Set<Seq<char>>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> match #[trigger] v[i] { Ok(e) => e.last() matches Some(n) ==> e@ == dir.push(n) && names.contains(n), Err(e) => e is IoError })
    && (forall|i: int, j: int| 0 <= i < j < v.len() && entry_name(#[trigger] v[i]) is Some ==> entry_name(v[i]) != entry_name(#[trigger] v[j]))
    && ((forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Ok) ==> forall|n: Seq<char>| #[trigger] names.contains(n) ==> exists|i: int| 0 <= i < v.len() && entry_name(#[trigger] v[i]) == Some(n))
}
// a file being written front to back
#[verifier::external_body] struct VxFile {}
impl VxFile { uninterp spec fn view(&self) -> P; uninterp spec fn at_end(&self) -> bool; }
#[verifier::external_body] struct BufWriter {}
impl BufWriter {
    uninterp spec fn path(&self) -> P;
    // all that was handed over so far, if every call has succeeded
    uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn new(f: VxFile) -> (r: BufWriter) requires f.at_end(), ensures r.path() == f@, r.text() == Some(Seq::<char>::empty()) { loop {} }
    #[verifier::external_body]
    fn flush(&mut self, vx_fs: &mut VxFs) -> (r: Result<()>)
        ensures final(self).path() == old(self).path(), final(self).text() == old(self).text(), only_file(*old(vx_fs), *final(vx_fs), old(self).path()),
            r is Ok && old(self).text() is Some ==> final(vx_fs).files()[old(self).path()] == old(self).text()->0, r matches Err(e) ==> e is IoError,
    { loop {} }
}
spec fn only_file(a: VxFs, b: VxFs, p: P) -> bool {
    b.files().contains_key(p) && (forall|q: P| q != p ==> (#[trigger] b.files().contains_key(q) <==> a.files().contains_key(q))) && (forall|q: P| q != p && a.files().contains_key(q) ==> #[trigger] b.files()[q] == a.files()[q])
    && (forall|q: P| #[trigger] b.present(q) == a.present(q)) && (forall|d: P| #[trigger] b.names(d) == a.names(d))
}
// ---- JSON: what serde writes for a value it reads back as an equal value
trait VxJson: Sized { spec fn json(&self) -> Seq<char>; spec fn read_as(&self, s: Seq<char>) -> bool; }
#[verifier::external_body]
fn vx_from_json<T: VxJson>(s: &str) -> (r: Result<T>)
    ensures match r { Ok(v) => v.read_as(s@), Err(e) => e is SerdeJsonErr && forall|v: T| !#[trigger] v.read_as(s@) },
{ loop {} }
// part of what was handed over may reach the file at once
#[verifier::external_body]
fn vx_to_json<T: VxJson>(w: &mut BufWriter, v: &T, vx_fs: &mut VxFs) -> (r: Result<()>)
    ensures final(w).path() == old(w).path(), only_file(*old(vx_fs), *final(vx_fs), old(w).path()), match r { Ok(_) => old(w).text() matches Some(t) ==> final(w).text() == Some(t + v.json()), Err(e) => e is SerdeJsonErr && final(w).text() is None },
{ loop {} }
"""

META = r"""
// ---- the recorded back ends
uninterp spec fn meta_text(i: Seq<char>, s: Seq<char>) -> Seq<char>;
uninterp spec fn meta_of(t: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
broadcast axiom fn ax_meta(i: Seq<char>, s: Seq<char>) ensures #[trigger] meta_of(meta_text(i, s)) == Some((i, s));
impl VxJson for DbMetadata {
    spec fn json(&self) -> Seq<char> { meta_text(self.indexer_type@, self.storage_type@) }
    spec fn read_as(&self, s: Seq<char>) -> bool { meta_of(s) == Some((self.indexer_type@, self.storage_type@)) }
}
spec fn meta(m: DbMetadata) -> (Seq<char>, Seq<char>) { (m.indexer_type@, m.storage_type@) }
// the record of a directory after opening it with the back ends m, or why it was not opened
spec fn checked(a: VxFs, b: VxFs, p: P, m: (Seq<char>, Seq<char>), r: Result<()>) -> bool {
    (a.present(p) ==> b == a)
    && (r is Ok && a.present(p) ==> a.files().contains_key(p) && meta_of(a.files()[p]) == Some(m))
    && (r is Ok && !a.present(p) ==> b.files() =~= a.files().insert(p, meta_text(m.0, m.1)))
    && (r matches Err(e) ==> e is IoError || e is SerdeJsonErr || (e is OptionErr && a.files().contains_key(p) && meta_of(a.files()[p]) is Some && meta_of(a.files()[p]) != Some(m)))
}
// ---- the options of a chunk
uninterp spec fn opts_text(s: Option<u64>, e: Option<u64>, id: Seq<u8>) -> Seq<char>;
uninterp spec fn opts_of(t: Seq<char>) -> Option<(Option<u64>, Option<u64>, Seq<u8>)>;
broadcast axiom fn ax_opts(s: Option<u64>, e: Option<u64>, id: Seq<u8>) ensures #[trigger] opts_of(opts_text(s, e, id)) == Some((s, e, id));
impl VxJson for ChunkOpts {
    spec fn json(&self) -> Seq<char> { opts_text(self.start_time, self.end_time, self.identifier@) }
    spec fn read_as(&self, s: Seq<char>) -> bool { opts_of(s) == Some((self.start_time, self.end_time, self.identifier@)) }
}
impl ChunkOpts {
    // start and end empty, a random identifier
    #[verifier::external_body]
    fn default() -> (r: ChunkOpts) ensures r.start_time is None, r.end_time is None { loop {} }
}
"""

BUILDERS = r"""
// ---- what a builder of storages (indexes) is: `at` says where a component lives; building and reopening at the same place under the
// same identifier give the same component
trait StorageBuilder<S: Storage> {
    spec fn at(&self, dir: P, id: Seq<u8>, x: S) -> bool;
    // a component was made there
    spec fn has(&self, dir: P, id: Seq<u8>) -> bool;
    // nothing was stored there before
    spec fn untouched(&self, dir: P, id: Seq<u8>) -> bool;
    fn build(&self, path: String, o: Option<&ChunkOpts>, d: Option<&DbOpts>) -> (r: Result<S>)
        ensures r matches Ok(x) ==> (o matches Some(q) ==> self.at(path_of(path@).push("storage"@), q.identifier@, x) && (self.untouched(path_of(path@).push("storage"@), q.identifier@) ==> no_points(x)));
    fn write_to_chunk(&self, dir: &Path) -> (r: Result<()>);
    fn read_from_chunk(&self, dir: &Path, o: Option<&ChunkOpts>) -> (r: Result<Option<S>>)
        ensures o matches Some(q) ==> (r matches Ok(Some(x)) ==> self.at(dir@, q.identifier@, x)) && (r matches Ok(None) ==> !self.has(dir@, q.identifier@));
    fn write_config(&self, dir: &Path) -> (r: Result<()>);
    fn read_config(&self, dir: &Path) -> (r: Result<()>);
}
trait IndexerBuilder<I: Indexer> {
    spec fn at(&self, dir: P, id: Seq<u8>, x: I) -> bool;
    spec fn has(&self, dir: P, id: Seq<u8>) -> bool;
    spec fn untouched(&self, dir: P, id: Seq<u8>) -> bool;
    fn build(&self, path: String, o: Option<&ChunkOpts>, d: Option<&DbOpts>) -> (r: Result<I>)
        ensures r matches Ok(x) ==> (o matches Some(q) ==> self.at(path_of(path@).push("indexer"@), q.identifier@, x) && (self.untouched(path_of(path@).push("indexer"@), q.identifier@) ==> x.holds(Seq::empty())));
    fn write_to_chunk(&self, dir: &Path) -> (r: Result<()>);
    fn read_from_chunk(&self, dir: &Path, o: Option<&ChunkOpts>) -> (r: Result<Option<I>>)
        ensures o matches Some(q) ==> (r matches Ok(Some(x)) ==> self.at(dir@, q.identifier@, x)) && (r matches Ok(None) ==> !self.has(dir@, q.identifier@));
    fn write_config(&self, dir: &Path) -> (r: Result<()>);
    fn read_config(&self, dir: &Path) -> (r: Result<()>);
}
spec fn no_points<S: Storage>(x: S) -> bool { forall|id: u64| #[trigger] (x.all())(id) == (Seq::<(u64, u64)>::empty(), true) }
"""

SPEC = r"""
// ---- the chunks of a directory
spec fn chunk_name(n: Seq<char>, s: u64, e: u64) -> bool { hex128(n) == Some(pack(s, e)) }
proof fn lemma_unpack(n: Seq<char>)
    requires hex128(n) is Some,
    ensures chunk_name(n, (hex128(n)->0 >> 64u128) as u64, hex128(n)->0 as u64),
{ let h = hex128(n)->0; assert(h == ((((h >> 64u128) as u64) as u128) << 64u128) | ((h as u64) as u128)) by (bit_vector); }
spec fn recorded(fs: VxFs, dir: P) -> Option<Seq<u8>> {
    let p = dir.push(CHUNK_METADATA_FILENAME@);
    if fs.files().contains_key(p) { match opts_of(fs.files()[p]) { Some(o) => Some(o.2), None => None } } else { None }
}
// c is the chunk of the entry n of dir, closed, with the range in its name, its end capped at the time of opening
spec fn reopened<S: Storage, I: Indexer>(fs: VxFs, dir: P, n: Seq<char>, sb: Box<dyn StorageBuilder<S>>, ib: Box<dyn IndexerBuilder<I>>, c: Chunk<S, I>) -> bool {
    recorded(fs, dir.push(n)) matches Some(id) && sb.at(dir.push(n).push("storage"@), id, c.storage) && ib.at(dir.push(n).push("indexer"@), id, c.indexer) && c.closed@
    && ranged(n, c.start_time, c.end_time)
}
spec fn ranged(n: Seq<char>, s: u64, end: u64) -> bool { exists|e: u64| #[trigger] chunk_name(n, s, e) && exists|now: u64| #[trigger] vx_clock(now) && end == (if e > now { now } else { e }) }
// every chunk of the directory, once each
spec fn all_reopened<S: Storage, I: Indexer>(fs: VxFs, dir: P, names: Set<Seq<char>>, sb: Box<dyn StorageBuilder<S>>, ib: Box<dyn IndexerBuilder<I>>, v: Seq<Chunk<S, I>>, src: Seq<Seq<char>>) -> bool {
    v.len() == src.len() && src.no_duplicates()
    && (forall|k: int| 0 <= k < v.len() ==> names.contains(#[trigger] src[k]) && reopened(fs, dir, src[k], sb, ib, v[k]))
    && (forall|n: Seq<char>| #[trigger] names.contains(n) && hex128(n) is Some ==> src.contains(n) || missing(fs, dir.push(n), sb, ib))
}
// the chunk never got both of its components
spec fn missing<S: Storage, I: Indexer>(fs: VxFs, dir: P, sb: Box<dyn StorageBuilder<S>>, ib: Box<dyn IndexerBuilder<I>>) -> bool {
    recorded(fs, dir) matches Some(id) && (!sb.has(dir.push("storage"@), id) || !ib.has(dir.push("indexer"@), id))
}
spec fn by_start<S: Storage, I: Indexer>(v: Seq<Chunk<S, I>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).start_time <= (#[trigger] v[j]).start_time }
// chunks sorted: a rearrangement, in the order of Chunk::cmp (under contract above)
#[verifier::external_body]
fn vx_sort_chunks<S: Storage, I: Indexer>(v: &mut Vec<Chunk<S, I>>) -> (r: Ghost<spec_fn(int) -> int>)
    ensures by_start(final(v)@), final(v)@.len() == old(v)@.len(), rearranged(old(v)@, final(v)@, r@),
{ loop {} }
spec fn rearranged<T>(a: Seq<T>, b: Seq<T>, f: spec_fn(int) -> int) -> bool {
    a.len() == b.len() && (forall|k: int| 0 <= k < b.len() ==> 0 <= #[trigger] f(k) < a.len() && b[k] == a[f(k)]) && (forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] f(i) != #[trigger] f(j))
    && (forall|k: int| 0 <= k < a.len() ==> #[trigger] has_pre(f, b.len() as int, k))
}
spec fn has_pre(f: spec_fn(int) -> int, n: int, k: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] f(i) == k }
proof fn lemma_rearranged<S: Storage, I: Indexer>(fs: VxFs, dir: P, names: Set<Seq<char>>, sb: Box<dyn StorageBuilder<S>>, ib: Box<dyn IndexerBuilder<I>>, a: Seq<Chunk<S, I>>, src: Seq<Seq<char>>, b: Seq<Chunk<S, I>>, f: spec_fn(int) -> int)
    requires all_reopened(fs, dir, names, sb, ib, a, src), rearranged(a, b, f),
    ensures all_reopened(fs, dir, names, sb, ib, b, Seq::new(b.len(), |k: int| src[f(k)])),
{
    let t = Seq::new(b.len(), |k: int| src[f(k)]);
    assert forall|k: int| 0 <= k < b.len() implies names.contains(#[trigger] t[k]) && reopened(fs, dir, t[k], sb, ib, b[k]) by { assert(names.contains(src[f(k)])); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(f(i) != f(j)) by { if i < j { } else { assert(f(j) != f(i)); } } assert(src[f(i)] != src[f(j)]); }
    assert forall|n: Seq<char>| #[trigger] names.contains(n) && hex128(n) is Some implies t.contains(n) || missing(fs, dir.push(n), sb, ib) by {
        if src.contains(n) { let k = choose|k: int| 0 <= k < src.len() && src[k] == n; assert(has_pre(f, b.len() as int, k)); let i = choose|i: int| 0 <= i < b.len() && #[trigger] f(i) == k; assert(t[i] == n); }
    }
}
"""
ROLL = r"""
// ---- starting a new chunk
impl<S: Storage, I: Indexer> Clone for Chunk<S, I> {
    // another reference to the same chunk
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { loop {} }
}
spec fn rolled<S: Storage, I: Indexer>(v: Seq<Chunk<S, I>>, cur: Chunk<S, I>, v2: Seq<Chunk<S, I>>) -> bool { v2.len() == v.len() + 1 && v2.drop_last() =~= v && same_but_closed(v2.last(), cur) }
spec fn same_but_closed<S: Storage, I: Indexer>(a: Chunk<S, I>, b: Chunk<S, I>) -> bool {
    a.storage == b.storage && a.indexer == b.indexer && a.start_time == b.start_time && a.end_time == b.end_time && a.id_generator.0@ == b.id_generator.0@
}
// a chunk of the window s .. e that was just made in dir: under a chunk name, its options recorded, its components where they are looked for on reopening
spec fn made<S: Storage, I: Indexer>(a: VxFs, b: VxFs, dir: P, sb: Box<dyn StorageBuilder<S>>, ib: Box<dyn IndexerBuilder<I>>, s: u64, e: u64, c: Chunk<S, I>) -> bool {
    c.start_time == s && c.end_time == e && !c.closed@ && c.id_generator.0@ == 1
    && exists|n: Seq<char>, id: Seq<u8>| #[trigger] chunk_name(n, s, e) && #[trigger] made_as(a, b, dir.push(n), sb, ib, s, e, id, c)
}
spec fn made_as<S: Storage, I: Indexer>(a: VxFs, b: VxFs, cd: P, sb: Box<dyn StorageBuilder<S>>, ib: Box<dyn IndexerBuilder<I>>, s: u64, e: u64, id: Seq<u8>, c: Chunk<S, I>) -> bool {
    b.files() =~= a.files().insert(cd.push(CHUNK_METADATA_FILENAME@), opts_text(Some(s), Some(e), id))
    && sb.at(cd.push("storage"@), id, c.storage) && ib.at(cd.push("indexer"@), id, c.indexer)
    && (sb.untouched(cd.push("storage"@), id) ==> no_points(c.storage)) && (ib.untouched(cd.push("indexer"@), id) ==> c.indexer.holds(Seq::empty()))
}
"""
NEW = r"""
impl<S: Storage, I: Indexer> Clone for MonolithDb<S, I> {
    // another reference to the same database
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { loop {} }
}
spec fn named<S: HasTypeName, I: HasTypeName>(m: (Seq<char>, Seq<char>)) -> bool { m == (S::type_name(), I::type_name()) || m == (I::type_name(), S::type_name()) }
// nothing recorded yet, or these back ends (in whatever order they are recorded)
spec fn same_back_ends<S: HasTypeName, I: HasTypeName>(a: VxFs, base: P) -> bool {
    let p = base.push(DB_METADATA_FILENAME@);
    a.present(p) ==> a.files().contains_key(p) && (meta_of(a.files()[p]) matches Some(m) && named::<S, I>(m))
}
// the back ends are recorded, the chunks that were there are closed ones now, a fresh chunk is active
spec fn opened<S: Storage + HasTypeName, I: Indexer + HasTypeName>(a: VxFs, b: VxFs, o: DbOpts, sb: Box<dyn StorageBuilder<S>>, ib: Box<dyn IndexerBuilder<I>>, d: MonolithDb<S, I>) -> bool {
    d.options == o && d.storage_builder == sb && d.indexer_builder == ib && by_start(d.secondary_chunks@)
    && exists|fs: VxFs, m: (Seq<char>, Seq<char>), src: Seq<Seq<char>>, now: u64| named::<S, I>(m) && #[trigger] checked(a, fs, o.base_dir@.push(DB_METADATA_FILENAME@), m, Ok(()))
       && #[trigger] all_reopened(fs, o.base_dir@, fs.names(o.base_dir@), sb, ib, d.secondary_chunks@, src)
       && #[trigger] vx_clock(now) && made(fs, b, o.base_dir@, sb, ib, now, (now + o.chunk_size@) as u64, d.current_chuck)
}
"""
ROLL_TOP = r"""
// C12: a rotation loses and doubles nothing; the new chunk is readable at once
proof fn lemma_rotation<S: Storage, I: Indexer>(v: Seq<Chunk<S, I>>, cur: Chunk<S, I>, v2: Seq<Chunk<S, I>>, cur2: Chunk<S, I>, l: Seq<Lab>, lo: u64, hi: u64)
    requires rolled(v, cur, v2), no_points(cur2.storage),
    ensures tail_pts(v2, 0, cur2, l, lo, hi) =~= tail_pts(v, 0, cur, l, lo, hi),
{ lemma_rotation_from(v, cur, v2, cur2, l, lo, hi, 0); }
proof fn lemma_rotation_from<S: Storage, I: Indexer>(v: Seq<Chunk<S, I>>, cur: Chunk<S, I>, v2: Seq<Chunk<S, I>>, cur2: Chunk<S, I>, l: Seq<Lab>, lo: u64, hi: u64, k: int)
    requires rolled(v, cur, v2), no_points(cur2.storage), 0 <= k <= v.len(),
    ensures tail_pts(v2, k, cur2, l, lo, hi) =~= tail_pts(v, k, cur, l, lo, hi),
    decreases v.len() - k,
{
    assert(v2.drop_last()[k] == v2[k] || k == v.len());
    if k < v.len() { assert(v[k] == v2[k]); lemma_rotation_from(v, cur, v2, cur2, l, lo, hi, k + 1); }
    else {
        assert(chunk_pts(v2[k], l, lo, hi) == chunk_pts(cur, l, lo, hi));
        assert((cur2.storage.all())(id_of(the_reg(cur2), l)).0.len() == 0);
        assert(chunk_pts(cur2, l, lo, hi) =~= Seq::empty());
        assert(tail_pts(v2, k + 1, cur2, l, lo, hi) =~= Seq::empty());
    }
}
proof fn lemma_fresh<S: Storage, I: Indexer>(c: Chunk<S, I>)
    requires no_points(c.storage), c.indexer.holds(Seq::empty()), c.id_generator.0@ == 1,
    ensures c.fit(Seq::empty()), c.ordered(Seq::empty()), sorted_reg(c),
{ assert(wf_reg(Seq::empty())); assert(c.fit(Seq::empty())); lemma_readable(c, Seq::empty()); }
"""
SLED = r"""
// ---- the embedded store: what matters here is which directory it keeps its content in
#[verifier::external_body] struct VxSled {}
impl VxSled {
    uninterp spec fn dir(&self) -> P;
    #[verifier::external_body]
    fn start_default<Q: VxPath>(p: Q) -> (r: Result<VxSled>) ensures r matches Ok(d) ==> d.dir() == p.p() { loop {} }
    #[verifier::external_body]
    fn start(c: VxSledConfig) -> (r: Result<VxSled>) ensures r matches Ok(d) ==> c.dir() == Some(d.dir()) { loop {} }
}
#[verifier::external_body] struct VxSledConfig {}
impl VxSledConfig {
    uninterp spec fn dir(&self) -> Option<P>;
    #[verifier::external_body] fn default() -> (r: VxSledConfig) ensures r.dir() is None { loop {} }
    #[verifier::external_body] fn path<Q: VxPath>(self, p: Q) -> (r: VxSledConfig) ensures r.dir() == Some(p.p()) { loop {} }
    #[verifier::external_body] fn read_only(self, b: bool) -> (r: VxSledConfig) ensures r.dir() == self.dir() { loop {} }
    #[verifier::external_body] fn build(self) -> (r: VxSledConfig) ensures r.dir() == self.dir() { loop {} }
}
"""
SLEDS = [(r"\bsled\s*::\s*Db\b", "VxSled", "sled written VxSled"), (r"\bsled\s*::\s*ConfigBuilder\b", "VxSledConfig", "sled written VxSled"), (r"(?<![\w:])Db\b", "VxSled", "sled written VxSled"), (r"\bPathBuf::from\(", "vx_path_from(", "path of a text"), (r"\bPathBuf\b", "Path", "one type for paths")]
T = [(r"Box\s*<\s*dyn\s+Builder\s*<\s*S\s*>[^>]*>", "Box<dyn StorageBuilder<S>>", "builder of storages, thread bounds dropped"),
     (r"Box\s*<\s*dyn\s+Builder\s*<\s*I\s*>[^>]*>", "Box<dyn IndexerBuilder<I>>", "builder of indexes, thread bounds dropped"),
     (r"\bArc\s*<\s*(Chunk\s*<\s*S\s*,\s*I\s*>)\s*>", r"\1", "chunk without its reference count"), (r"\bPathBuf\b", "Path", "one type for paths")]
FSS = [(r"\bfs::(read_to_string|read_dir|create_dir_all)\(", r"vx_fs.\1(", "file system made explicit"), (r"\bstd::vx_fs", "vx_fs", "path"), (r"\bFile::create\(", "vx_fs.create(", "file system made explicit"),
       (r"\.exists\(\)", ".exists(vx_fs)", "file system made explicit"), (r"\.flush\(\)", ".flush(vx_fs)", "file system made explicit"),
       (r"serde_json::from_str\(", "vx_from_json(", "serde_json written vx_from_json"), (r"serde_json::to_writer\(\s*&mut\s+(\w+)\s*,\s*([^;]+?),?\s*\)(?=\s*[?;])", r"vx_to_json(&mut \1, \2, vx_fs)", "serde_json written vx_to_json"),
       (r"PathBuf::from\((\w+_FILENAME)\)", r"\1", "name of one component used as it is"), (r"&self\.clone\(\)", "self", "copy of a shared reference"),
       (r"\.unwrap_err\(\)\.into\(\)", ".unwrap_err()", "error already converted"), (r"(\w+)\.file_name\(\)\s*\.and_then\(\|(\w+)\| \2\.to_str\(\)\)", r"vx_name_text(\1.file_name())", "closure of one call written as the call"),
       (r"\.(?:as_path\(\)\.)?display\(\)\.to_string\(\)", ".vx_text()", "text of a path"), (r"\.as_str\(\)", ".as_str()", "")]
ARC = [(r"(let mut \w+) = Vec::new\(\)", r"\1: Vec<Chunk<S, I>> = Vec::new()", "type written down"), (r"(\(&mut (\w+)\))\.push", r"\2.push", "parentheses"), (r"\bArc::new\(", "(", "reference count dropped"), (r"\bRwLock::new\(", "(", "lock dropped"), (r"let chunk = Chunk", "let mut chunk = Chunk", "chunk closed through an exclusive handle"),
       (r"(\w+)\.sort\(\)", r"let vx_f = vx_sort_chunks(&mut \1)", "sort written vx_sort_chunks")]

ARCDB = [(r"\bArc\s*<\s*Self\s*>", "Self", "database without its reference count")]
NEWS = [(lib.drop_statements(r"thread\s*::\s*spawn\b"), None, "the rotation timer and the rotating thread are left out"), (lib.drop_statements(r"let\s*\(\s*\w+\s*,\s*\w+\s*\)\s*=\s*channel\b"), None, "the channel to the rotating thread is left out")]
LOCKS = [(r"self\s*\.(current_chuck|secondary_chunks)\s*\.(?:read|write)\(\)\s*\.unwrap\(\)\s*\.", r"self.\1.", "lock not looked at"), (r"self\s*\.(current_chuck|secondary_chunks)\s*\.read\(\)\s*\.unwrap\(\)", r"&self.\1", "lock not looked at"),
         (r"let mut (\w+) = self\s*\.(current_chuck|secondary_chunks)\s*\.write\(\)\s*\.unwrap\(\)", r"let \1 = &mut self.\2", "lock not looked at")]


def distinct(names):
    """a place where two names differ, for each pair"""
    out = " ".join("reveal_strlit(%s);" % n[1] for n in names)
    for i, a in enumerate(names):
        for b in names[:i]:
            x, y = a[1][1:-1], b[1][1:-1]
            k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), None)
            if k is not None:
                out += " assert(%s@[%d] != %s@[%d]);" % (a[1], k, b[1], k)
    return out


def last_arg_fs():
    return [(lib.last_arg("read_config_from_dir|write_config_to_dir|read_or_create_metadata|read_existing_chunk", "vx_fs"), None, "file system made explicit")]


def build():
    U = chunk.build()
    U.name = "open"
    U.raw(db.SHIMS + db.SPEC)
    U.item("src/common/metadata.rs", "struct", "DbMetadata")
    U.item("src/lib.rs", "const", "DB_METADATA_FILENAME")
    U.item("src/lib.rs", "const", "CHUNK_METADATA_FILENAME")
    U.raw("#[verifier::external_body] struct Duration {}\nimpl Duration { uninterp spec fn view(&self) -> u128; #[verifier::external_body] fn as_millis(&self) -> (r: u128) ensures r == self@ { loop {} } }\n")
    U.item("src/common/option.rs", "struct", "DbOpts", subs=T)
    U.raw(FS + META + BUILDERS)
    utils.chunk_dir(U)
    U.raw(SPEC)
    c = r"^impl ChunkOpts$"
    U.open("impl ChunkOpts")
    U.fn(CH, "read_config_from_dir", c, label="ChunkOpts::read_config_from_dir", subs=T + FSS, sig_subs=T, ghost="vx_fs: &VxFs",
         spec="""ensures match r { Ok(o) => vx_fs.files().contains_key(dir@.push(CHUNK_METADATA_FILENAME@)) && o.read_as(vx_fs.files()[dir@.push(CHUNK_METADATA_FILENAME@)]), Err(e) => e is NotFoundErr || e is SerdeJsonErr }""")
    U.fn(CH, "write_config_to_dir", c, label="ChunkOpts::write_config_to_dir", subs=FSS + T, sig_subs=T, ghost="vx_fs: &mut VxFs",
         spec="""ensures r is Ok && self.start_time is Some && self.end_time is Some ==> final(vx_fs).files() =~= old(vx_fs).files().insert(dir@.push(CHUNK_METADATA_FILENAME@), self.json()),
            forall|q: P| q != dir@.push(CHUNK_METADATA_FILENAME@) && #[trigger] old(vx_fs).files().contains_key(q) ==> final(vx_fs).files().contains_key(q) && final(vx_fs).files()[q] == old(vx_fs).files()[q]""")
    U.close()
    U.item(DB, "struct", "MonolithDb", subs=[
        (r"RwLock<Arc<(Chunk<S, I>)>>", r"\1", "chunk without its lock and reference count", True), (r"RwLock<Vec<Arc<(Chunk<S, I>)>>>", r"Vec<\1>", "chunks without lock and reference counts", True)] + T + [
        (r"\+ Sync \+ Send|\+ Send \+ Sync", "", "thread bounds dropped")], prefix="#[verifier::reject_recursive_types(S)]\n#[verifier::reject_recursive_types(I)]\n")
    U.open(db.G)
    U.fn(DB, "read_or_create_metadata", db.C, label="MonolithDb::read_or_create_metadata", subs=FSS + T, sig_subs=T, ghost="vx_fs: &mut VxFs", pre="broadcast use ax_meta;",
         spec="""ensures checked(*old(vx_fs), *final(vx_fs), base_dir@.push(DB_METADATA_FILENAME@), meta(*db_metadata), r)""")
    U.fn(DB, "read_existing_chunk", db.C, label="MonolithDb::read_existing_chunk", subs=FSS + T + ARC + [(r"read_config_from_dir\(([^()]*)\)", r"read_config_from_dir(\1, vx_fs)", "file system made explicit")], sig_subs=T, ghost="vx_fs: &VxFs",
         spec="""ensures r matches Ok(v) ==> by_start(v@) && exists|src: Seq<Seq<char>>| #[trigger] all_reopened(*vx_fs, dir@, vx_fs.names(dir@), *storage_builder, *indexer_builder, v@, src)""",
         pre="let ghost mut vx_src = Seq::<Seq<char>>::empty();",
         loops=[{"desugar": "vx_it", "iter": None,
                 "inv": """listing_of(vx_it.seq(), dir@, vx_fs.names(dir@)), 0 <= vx_it.at() <= vx_it.seq().len(), forall|i: int| 0 <= i < vx_it.at() ==> (#[trigger] vx_it.seq()[i]) is Ok,
                     res@.len() == vx_src.len(), vx_src.no_duplicates(),
                     forall|k: int| 0 <= k < res@.len() ==> vx_fs.names(dir@).contains(#[trigger] vx_src[k]) && reopened(*vx_fs, dir@, vx_src[k], *storage_builder, *indexer_builder, res@[k]),
                     forall|k: int| 0 <= k < res@.len() ==> seen(vx_it.seq(), vx_it.at(), #[trigger] vx_src[k]),
                     forall|i: int| 0 <= i < vx_it.at() ==> (entry_name(#[trigger] vx_it.seq()[i]) matches Some(n) ==> (hex128(n) is Some ==> vx_src.contains(n) || missing(*vx_fs, dir@.push(n), *storage_builder, *indexer_builder)))""",
                 "start": """let ghost vx_i = vx_it.at(); let ghost vx_n = res@.len(); let ghost vx_src0 = vx_src; proof {
                     if vx_i < vx_it.seq().len() {
                        if entry_name(vx_it.seq()[vx_i]) is Some { let n = entry_name(vx_it.seq()[vx_i])->0; if hex128(n) is Some { lemma_unpack(n); } }
                        assert forall|n: Seq<char>| entry_name(vx_it.seq()[vx_i]) == Some(n) implies !#[trigger] vx_src.contains(n) by {
                            if vx_src.contains(n) { let k = choose|k: int| 0 <= k < vx_src.len() && vx_src[k] == n; assert(seen(vx_it.seq(), vx_i, vx_src[k])); let i = choose|i: int| 0 <= i < vx_i && entry_name(#[trigger] vx_it.seq()[i]) == Some(n); assert(entry_name(vx_it.seq()[i]) != entry_name(vx_it.seq()[vx_i])); } }
                        assert forall|k: int| 0 <= k < vx_src.len() implies seen(vx_it.seq(), vx_i + 1, #[trigger] vx_src[k]) by { assert(seen(vx_it.seq(), vx_i, vx_src[k])); let i = choose|i: int| 0 <= i < vx_i && entry_name(#[trigger] vx_it.seq()[i]) == Some(vx_src[k]); }
                     } }""",
                 "end": """proof { if res@.len() > vx_n { let n = entry_name(vx_it.seq()[vx_i])->0; vx_src = vx_src.push(n); assert(vx_src[vx_n as int] == n); assert(seen(vx_it.seq(), vx_i + 1, n));
                        assert forall|m: Seq<char>| vx_src0.contains(m) implies #[trigger] vx_src.contains(m) by { let k = choose|k: int| 0 <= k < vx_src0.len() && vx_src0[k] == m; assert(vx_src[k] == m); } } }""",
                 "after": """let ghost vx_v = res@; proof { assert forall|n: Seq<char>| #[trigger] vx_fs.names(dir@).contains(n) && hex128(n) is Some implies vx_src.contains(n) || missing(*vx_fs, dir@.push(n), *storage_builder, *indexer_builder) by {
                        let i = choose|i: int| 0 <= i < vx_it.seq().len() && entry_name(#[trigger] vx_it.seq()[i]) == Some(n); }
                     assert(all_reopened(*vx_fs, dir@, vx_fs.names(dir@), *storage_builder, *indexer_builder, vx_v, vx_src)); }""",
                 "dec": "vx_it.seq().len() - vx_it.at()", "ens": "vx_it.at() == vx_it.seq().len()"}],
         tail="""proof { assert forall|f: spec_fn(int) -> int, b: Seq<Chunk<S, I>>| #[trigger] rearranged(vx_v, b, f) implies exists|src: Seq<Seq<char>>| #[trigger] all_reopened(*vx_fs, dir@, vx_fs.names(dir@), *storage_builder, *indexer_builder, b, src) by { lemma_rearranged(*vx_fs, dir@, vx_fs.names(dir@), *storage_builder, *indexer_builder, vx_v, vx_src, b, f); } }""")
    FSA = last_arg_fs()
    U.raw("}\n" + ROLL)
    U.raw("trait HasTypeName { spec fn type_name() -> Seq<char>; fn get_type_name() -> (r: &'static str) ensures r@ == Self::type_name(); }\n")
    U.raw(NEW + db.G.replace("S: Storage", "S: Storage + HasTypeName").replace("I: Indexer", "I: Indexer + HasTypeName") + " {\n")
    U.fn(DB, "new", db.C, label="MonolithDb::new", ret="r", subs=FSS + T + ARC + LOCKS + FSA + NEWS, sig_subs=T + ARCDB, ghost="vx_fs: &mut VxFs",
         spec="""requires ops.chunk_size@ < 0x4000_0000_0000_0000,
        ensures r matches Ok(d) ==> opened::<S, I>(*old(vx_fs), *final(vx_fs), ops, storage_builder, indexer_builder, d),
            !same_back_ends::<S, I>(*old(vx_fs), ops.base_dir@) ==> r is Err && (r matches Err(e) ==> e is OptionErr || e is IoError || e is SerdeJsonErr) && *final(vx_fs) == *old(vx_fs)""",
         pre="let ghost vx_fs0 = *vx_fs; let ghost vx_base = ops.base_dir@; let ghost vx_size = ops.chunk_size@; let ghost vx_sb = storage_builder; let ghost vx_ib = indexer_builder; broadcast use ax_meta;",
         tail="""proof { let c = db.current_chuck; let now = c.start_time;
              assert forall|fs: VxFs, n: Seq<char>, id: Seq<u8>| #[trigger] checked(vx_fs0, fs, vx_base.push(DB_METADATA_FILENAME@), meta(db_metadata), Ok(())) && #[trigger] hex128(n) == Some(pack(now, (now + vx_size) as u64)) && #[trigger] vx_sb.at(vx_base.push(n).push("storage"@), id, c.storage)
                 && made_as(fs, *vx_fs, vx_base.push(n), vx_sb, vx_ib, now, (now + vx_size) as u64, id, c) && c.end_time == now + vx_size && !c.closed@ && c.id_generator.0@ == 1
                 implies made(fs, *vx_fs, vx_base, vx_sb, vx_ib, now, (now + vx_size) as u64, c) by { assert(chunk_name(n, now, (now + vx_size) as u64)); } }""")
    U.close()
    U.open(db.G)
    U.fn(DB, "swap", db.C, label="MonolithDb::swap", subs=FSS + T + ARC + LOCKS + FSA, sig_subs=T + lib.MUT_SELF, ghost="vx_fs: &mut VxFs",
         spec="""requires start_time + old(self).options.chunk_size@ <= u64::MAX,
        ensures final(self).options == old(self).options, final(self).storage_builder == old(self).storage_builder, final(self).indexer_builder == old(self).indexer_builder,
            r is Ok ==> rolled(old(self).secondary_chunks@, old(self).current_chuck, final(self).secondary_chunks@)
                && made(*old(vx_fs), *final(vx_fs), old(self).options.base_dir@, old(self).storage_builder, old(self).indexer_builder, start_time, (start_time + old(self).options.chunk_size@) as u64, final(self).current_chuck),
            r is Err ==> final(self).secondary_chunks == old(self).secondary_chunks && final(self).current_chuck == old(self).current_chuck""",
         pre="let ghost vx_fs0 = *vx_fs; let ghost vx_v0 = self.secondary_chunks@; let ghost vx_c0 = self.current_chuck; let ghost vx_e = (start_time + self.options.chunk_size@) as u64;",
         tail="""proof {
              assert forall|n: Seq<char>, id: Seq<u8>| #[trigger] hex128(n) == Some(pack(start_time, vx_e)) && #[trigger] self.storage_builder.at(self.options.base_dir@.push(n).push("storage"@), id, self.current_chuck.storage)
                 && made_as(vx_fs0, *vx_fs, self.options.base_dir@.push(n), self.storage_builder, self.indexer_builder, start_time, vx_e, id, self.current_chuck)
                 implies made(vx_fs0, *vx_fs, self.options.base_dir@, self.storage_builder, self.indexer_builder, start_time, vx_e, self.current_chuck) by { assert(chunk_name(n, start_time, vx_e)); }
              assert(rolled(vx_v0, vx_c0, self.secondary_chunks@)); }""")
    U.close()
    U.raw(ROLL_TOP + SLED)
    names = []
    for t, f, sub in (("SledStorage", "src/storage/sled_storage.rs", "storage"), ("SledIndexer", "src/indexer/sled_indexer.rs", "indexer"),
                      ("TiKvStorage", "src/storage/tikv_storage.rs", ""), ("TiKvIndexer", "src/indexer/tikv_indexer.rs", "")):
        lit = re.findall(r'"[^"\\]*"', rust.strip_comments(unit.locate(f, "get_type_name", "^impl HasTypeName for %s$" % t).body))
        if len(lit) != 1:
            raise rust.Lost("%s::get_type_name: no single name" % t)
        names.append((t, lit[0]))
        if sub:
            U.item(f, "struct", t, subs=SLEDS)
            U.open("impl %s" % t)
            U.fn(f, "new", "^impl %s$" % t, label=t + "::new", subs=SLEDS, sig_subs=T, spec="ensures r matches Ok(x) ==> x.storage.dir() == %s@" % lib.param(f, "new", "^impl %s$" % t))
            U.close()
            U.item(f, "struct", t + "Builder")
            c = "Builder < %s > for %sBuilder" % (t, t)
            U.open("impl %sBuilder" % t)
            U.fn(f, "build", c, label=t + "Builder::build", subs=SLEDS, sig_subs=backend.SIG + T, spec='ensures r matches Ok(x) ==> x.storage.dir() == path_of(%s@).push("%s"@)' % (lib.param(f, "build", c), sub))
            U.fn(f, "read_from_chunk", c, label=t + "Builder::read_from_chunk", subs=SLEDS, sig_subs=backend.SIG + T, spec="ensures r matches Ok(o) ==> o is Some && o->0.storage.dir() == %s@" % lib.param(f, "read_from_chunk", c))
            for n in ("write_to_chunk", "write_config", "read_config"):
                U.fn(f, n, c, label=t + "Builder::" + n, sig_subs=backend.SIG + T, spec="ensures r is Ok")
            U.close()
        else:
            U.raw("struct %s {}\n" % t)
        U.open("impl HasTypeName for %s" % t)
        U.raw("spec fn type_name() -> Seq<char> { %s@ }\n" % lit[0])
        U.fn(f, "get_type_name", "^impl HasTypeName for %s$" % t, label=t + "::get_type_name")
        U.close()
    U.raw("// a data directory of one back end is never taken for one of another\nproof fn vx_type_names_differ()\n    ensures %s,\n{ %s }\n" % (
        ", ".join("%s@ != %s@" % (a[1], b[1]) for i, a in enumerate(names) for b in names[:i]), distinct(names)))
    return U
