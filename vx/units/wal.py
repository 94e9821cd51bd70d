"""Write-ahead log: entry encoding and segments (C15, C16), with the crc crate they use."""
import glob, os, re
from . import lib
W = "src/wal/mod.rs"
S = "src/wal/segment.rs"

CRC = r"""
// ---- CRC, bit by bit (reflected, complemented before and after), as the standards define it
spec fn cbit32(p: u32, v: u32) -> u32 { if v & 1 == 1 { (v >> 1) ^ p } else { v >> 1 } }
spec fn cbits32(p: u32, v: u32, n: nat) -> u32
    decreases n,
{ if n == 0 { v } else { cbit32(p, cbits32(p, v, (n - 1) as nat)) } }
spec fn run32(p: u32, v: u32, d: Seq<u8>) -> u32
    decreases d.len(),
{ if d.len() == 0 { v } else { cbits32(p, run32(p, v, d.drop_last()) ^ (d.last() as u32), 8) } }
// checksum after more bytes, given the checksum so far
spec fn crc32(p: u32, sum: u32, d: Seq<u8>) -> u32 { !run32(p, !sum, d) }
spec fn tab32(p: u32, t: [u32; 256]) -> bool { forall|i: int| 0 <= i < 256 ==> #[trigger] t[i] == cbits32(p, i as u32, 8) }
proof fn lemma_nn32(x: u32) ensures !!x == x { assert(!!x == x) by (bit_vector); }
proof fn lemma_run32(p: u32, v: u32, a: Seq<u8>, b: Seq<u8>)
    ensures run32(p, run32(p, v, a), b) == run32(p, v, a + b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_run32(p, v, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
proof fn lemma_crc32(p: u32, s: u32, a: Seq<u8>, b: Seq<u8>)
    ensures crc32(p, crc32(p, s, a), b) == crc32(p, s, a + b), crc32(p, s, Seq::empty()) == s,
{ lemma_run32(p, !s, a, b); lemma_nn32(run32(p, !s, a)); lemma_nn32(s); }
proof fn lemma_bit32(p: u32, x: u32, y: u32, k: u32)
    requires k < 8,
    ensures cbit32(p, x ^ ((y >> (k as u32)) << 0u32)) == cbit32(p, x) ^ (y >> (k as u32) >> 1u32) || (y >> (k as u32)) & 1 == 1,
{
    let z = y >> k;
    assert(z << 0u32 == z) by (bit_vector);
    if z & 1 != 1 {
        assert((x ^ z) & 1 == x & 1) by (bit_vector) requires z & 1 != 1;
        assert((x ^ z) >> 1 == (x >> 1) ^ (z >> 1)) by (bit_vector);
        let a = x >> 1; let b = z >> 1;
        assert((a ^ b) ^ p == (a ^ p) ^ b) by (bit_vector);
    }
}
// the low byte alone decides which polynomials are added; the rest only moves down
proof fn lemma_low32(p: u32, x: u32, n: nat)
    requires n <= 8,
    ensures cbits32(p, x, n) == cbits32(p, x & 0xff, n) ^ ((x & !0xffu32) >> (n as u32)),
    decreases n,
{
    let h = x & !0xffu32;
    if n == 0 {
        assert((x & 0xff) ^ (h >> 0u32) == x) by (bit_vector) requires h == x & !0xffu32;
    } else {
        lemma_low32(p, x, (n - 1) as nat);
        let k = (n - 1) as u32; let m = n as u32;
        let l = cbits32(p, x & 0xff, (n - 1) as nat);
        assert((h >> k) & 1 != 1) by (bit_vector) requires h == x & !0xffu32, k < 8;
        lemma_bit32(p, l, h, k);
        assert((h >> k) << 0u32 == h >> k) by (bit_vector);
        assert((h >> k) >> 1u32 == h >> m) by (bit_vector) requires k < 8, m == add(k, 1);
    }
}
proof fn lemma_table32(p: u32, v: u32, b: u8, t: [u32; 256])
    requires tab32(p, t),
    ensures cbits32(p, v ^ (b as u32), 8) == t[((v as u8) ^ b) as int] ^ (v >> 8),
{
    let x = v ^ (b as u32);
    lemma_low32(p, x, 8);
    let i = (v as u8) ^ b;
    assert(x & 0xff == i as u32) by (bit_vector) requires x == v ^ (b as u32), i == (v as u8) ^ b;
    assert((x & !0xffu32) >> 8u32 == v >> 8) by (bit_vector) requires x == v ^ (b as u32);
    assert(t[i as int] == cbits32(p, i as u32, 8));
}
"""


def both(text):
    """the same for 64 bits"""
    t = re.sub(r"\bu32\b", "u64", text).replace("u32", "u64")
    t = re.sub(r"(\w)32\b", r"\g<1>64", t)
    return t


DIGEST = r"""
impl Crc32 {
    // the table is the polynomial's
    spec fn is(&self, p: u32) -> bool { tab32(p, self.table) }
}
"""
SHIMS = r"""
const CRC32_IEEE: u32 = 0xedb88320;
const CRC32_CASTAGNOLI: u32 = 0x82f63b78;
const CRC32_KOOPMAN: u32 = 0xeb31d82e;
const CRC64_ECMA: u64 = 0xc96c5795d7870f42;
const CRC64_ISO: u64 = 0xd800000000000000;
// ---- files: a writer takes some of the bytes, or all, or fails
#[verifier::external_body] struct VxIoErr {}
impl From<VxIoErr> for MonolithErr {
    #[verifier::external_body]
    fn from(e: VxIoErr) -> (r: MonolithErr) { loop {} }
}
type VxIo<T> = core::result::Result<T, VxIoErr>;
trait VxWrite: Sized {
    spec fn written(&self) -> Seq<u8>;
    // how much of it a flush has passed on
    spec fn synced(&self) -> Seq<u8>;
    fn write(&mut self, bytes: &[u8]) -> (r: VxIo<usize>)
        ensures r matches Ok(n) ==> n <= bytes@.len() && final(self).written() == old(self).written() + bytes@.take(n as int);
    fn write_all(&mut self, bytes: &[u8]) -> (r: VxIo<()>)
        ensures r is Ok ==> final(self).written() == old(self).written() + bytes@;
    fn flush(&mut self) -> (r: VxIo<()>)
        ensures r is Ok ==> final(self).written() == old(self).written() && final(self).synced() == final(self).written();
}
#[verifier::external_body] struct VxHandle {}
#[verifier::external_body] fn vx_handle() -> (r: VxHandle) { loop {} }
#[verifier::external_body]
fn vx_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { v.drain(..).collect() }
"""
ENTRY = r"""
// the encoding of an entry
spec fn ebytes(e: Entry) -> Seq<u8> {
    be64(e.seq_id) + seq![e.entry_type] + ben(e.content@.len() as u16 as u64, 2) + e.content@ + ben(crc32(CRC32_IEEE, 0, e.content@) as u64, 4)
}
spec fn entry_ok(e: Entry) -> bool { e.crc.is(CRC32_IEEE) && e.crc.value == crc32(CRC32_IEEE, 0, e.content@) }
spec fn same_entry(a: Entry, b: Entry) -> bool { a.seq_id == b.seq_id && a.entry_type == b.entry_type && a.content@ == b.content@ }
spec fn same_entries(a: Seq<Entry>, b: Seq<Entry>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_entry(#[trigger] a[i], b[i]) && entry_ok(a[i]) }
spec fn all_ok(s: Seq<Entry>) -> bool { forall|i: int| 0 <= i < s.len() ==> entry_ok(#[trigger] s[i]) }
spec fn flat(s: Seq<Entry>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + ebytes(s.last()) } }
proof fn lemma_flat_same(a: Seq<Entry>, b: Seq<Entry>)
    requires same_entries(a, b),
    ensures flat(a) == flat(b),
    decreases a.len(),
{ if a.len() > 0 { assert(same_entry(a[a.len() - 1], b[b.len() - 1])); assert forall|i: int| 0 <= i < a.len() - 1 implies same_entry(#[trigger] a.drop_last()[i], b.drop_last()[i]) && entry_ok(a.drop_last()[i]) by { assert(same_entry(a[i], b[i])); } lemma_flat_same(a.drop_last(), b.drop_last()); } }
proof fn lemma_flat(s: Seq<Entry>)
    ensures flat(s).len() >= 15 * s.len(), forall|e: Entry| #[trigger] flat(s.push(e)) == flat(s) + ebytes(e), flat(Seq::<Entry>::empty()) == Seq::<u8>::empty(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] flat(s.take(i + 1)) == flat(s.take(i)) + ebytes(s[i]), s.take(0) =~= Seq::empty(), s.take(s.len() as int) =~= s,
    decreases s.len(),
{
    assert forall|e: Entry| #[trigger] flat(s.push(e)) == flat(s) + ebytes(e) by { assert(s.push(e).drop_last() =~= s); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] flat(s.take(i + 1)) == flat(s.take(i)) + ebytes(s[i]) by { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
    if s.len() > 0 { lemma_flat(s.drop_last()); }
}
"""
# Vec::clone on entries clones each entry
CLONES = r"""
fn vx_clone_entries(v: &Vec<Entry>) -> (r: Vec<Entry>)
    requires all_ok(v@),
    ensures same_entries(r@, v@),
{
    let mut r: Vec<Entry> = Vec::new();
    for i in 0..v.len()
        invariant r@.len() == i, all_ok(v@), forall|k: int| 0 <= k < i ==> same_entry(#[trigger] r@[k], v@[k]) && entry_ok(r@[k]),
    { r.push(v[i].clone()); }
    r
}
"""
SEG = r"""
spec fn magic() -> Seq<u8> { be64(0x57414C0000000000u64) }
spec fn ecma(sum: u64, d: Seq<u8>) -> u64 { crc64(CRC64_ECMA, sum, d) }
// entries the segment still holds back
spec fn held(c: FlushCache) -> Seq<Entry> {
    match c { FlushCache::None => Seq::empty(), FlushCache::NumBased { cache, .. } => cache@, FlushCache::SizeBased { cache, .. } => cache@, FlushCache::TimeBased { cache, .. } => cache@ }
}
spec fn cache_ok(c: FlushCache) -> bool {
    all_ok(held(c)) && match c { FlushCache::NumBased { idx, cache, .. } => idx <= cache@.len(), FlushCache::SizeBased { size, cache, .. } => size <= flat(cache@).len(), _ => true }
}
impl<W: VxWrite> Segment<W> {
    spec fn ok(&self) -> bool { cache_ok(self.cache) && self.crc.is(CRC64_ECMA) }
    // bytes went to the file and into the checksum
    spec fn passed(&self, to: Self, d: Seq<u8>) -> bool { to.writer.written() =~= self.writer.written() + d && to.crc.value == ecma(self.crc.value, d) && to.crc.is(CRC64_ECMA) }
    // a flush: everything held back is in the file
    spec fn flushed(&self, to: Self) -> bool { to.ok() && self.passed(to, flat(held(self.cache))) && held(to.cache).len() == 0 && to.writer.synced() == to.writer.written() }
    // an entry was accepted: held back, or passed on after what was held back
    spec fn took(&self, to: Self, e: Entry) -> bool { to.ok() && exists|d: Seq<u8>| #[trigger] self.passed(to, d) && d + flat(held(to.cache)) =~= flat(held(self.cache)) + ebytes(e) }
    // the file, past what was in it before, is the magic number and the entry bytes the checksum is of; with those held back they are the log
    spec fn body_is(&self, base: Seq<u8>, body: Seq<u8>) -> bool { self.writer.written() =~= base + magic() + body && self.crc.value == ecma(0, body) }
    spec fn good(&self, base: Seq<u8>, log: Seq<u8>) -> bool { self.ok() && exists|body: Seq<u8>| #[trigger] self.body_is(base, body) && body + flat(held(self.cache)) =~= log }
    // C16, step by step over any history: a new segment, an entry, a flush, the close
    proof fn lemma_passed(a: Self, b: Self, d: Seq<u8>, base: Seq<u8>, body: Seq<u8>)
        requires a.body_is(base, body), a.passed(b, d),
        ensures b.body_is(base, body + d),
    { lemma_crc64(CRC64_ECMA, 0, body, d); }
    proof fn vx_after_entry(a: Self, b: Self, e: Entry, base: Seq<u8>, log: Seq<u8>)
        requires a.good(base, log), a.took(b, e),
        ensures b.good(base, log + ebytes(e)),
    {
        let body = choose|body: Seq<u8>| #[trigger] a.body_is(base, body) && body + flat(held(a.cache)) =~= log;
        let d = choose|d: Seq<u8>| #[trigger] a.passed(b, d) && d + flat(held(b.cache)) =~= flat(held(a.cache)) + ebytes(e);
        Self::lemma_passed(a, b, d, base, body);
        assert(body + d + flat(held(b.cache)) =~= body + (d + flat(held(b.cache))));
        assert(log + ebytes(e) =~= body + (flat(held(a.cache)) + ebytes(e)));
        assert(b.body_is(base, body + d));
    }
    proof fn vx_after_flush(a: Self, b: Self, base: Seq<u8>, log: Seq<u8>)
        requires a.good(base, log), a.flushed(b),
        ensures b.good(base, log), b.writer.synced() =~= base + magic() + log,
    {
        let body = choose|body: Seq<u8>| #[trigger] a.body_is(base, body) && body + flat(held(a.cache)) =~= log;
        Self::lemma_passed(a, b, flat(held(a.cache)), base, body);
        assert(flat(held(b.cache)) =~= Seq::<u8>::empty());
        assert(b.body_is(base, log));
    }
    proof fn vx_after_close(a: Self, b: Self, base: Seq<u8>, log: Seq<u8>)
        requires a.good(base, log), a.closed(b),
        ensures b.writer.synced() =~= base + magic() + log + be64(ecma(0, log)),
    {
        let m = choose|m: Self| #[trigger] a.flushed(m) && b.writer.synced() =~= m.writer.written() + be64(m.crc.value);
        Self::vx_after_flush(a, m, base, log);
        let body = choose|body: Seq<u8>| #[trigger] m.body_is(base, body) && body + flat(held(m.cache)) =~= log;
        assert(flat(held(m.cache)) =~= Seq::<u8>::empty());
        assert(body =~= log);
    }
    spec fn closed(&self, to: Self) -> bool { exists|m: Self| #[trigger] self.flushed(m) && to.writer.synced() =~= m.writer.written() + be64(m.crc.value) }
    spec fn fresh(&self, w: W) -> bool { self.ok() && held(self.cache).len() == 0 && self.crc.value == 0 && self.writer.written() =~= w.written() + magic() }
    proof fn vx_after_new(b: Self, w: W)
        requires b.fresh(w),
        ensures b.good(w.written(), Seq::empty()),
    { assert(flat(held(b.cache)) =~= Seq::<u8>::empty()); lemma_crc64(CRC64_ECMA, 0, Seq::empty(), Seq::empty()); assert(b.body_is(w.written(), Seq::empty())); }
}
"""
SUBS = lib.BE_SUBS + [
    (r"crc::crc(32|64)::Digest", r"Crc\1", "path of the crc crate"), (r"crc::crc(32|64)::(IEEE|CASTAGNOLI|KOOPMAN|ECMA|ISO)", r"CRC\1_\2", "path of a crc constant"),
    (r"Vec::<u8>::from\(&([\w.]+\.vx_to_be_bytes\(\))\[\.\.\]\)", r"vx_vec_from(&\1)", "Vec::from(&array[..]) written vx_vec_from"),
    (r"(\.vx_to_be_bytes\(\))\[\.\.\]", r"\1", "full-range slice of an array written as the array"),
    (r"\.append\((?:&mut )?([\w.()]+)\.as_mut\(\)\)", r".append(&mut \1)", "as_mut() of a vector written &mut"),
    (r"std::io::Result<", "VxIo<", "std::io::Result written VxIo"),
    (r"\.lock\(\)\.unwrap\(\)", "", "mutex taken as its content"),
    (r"Arc::new\(Mutex::new\((vec!\[\])\)\)", r"\1", "mutex taken as its content"),
    (r"(\w+)\.drain\(\.\.\)\.collect\(\)", r"vx_drain(\1)", "drain(..).collect() written vx_drain"),
    (r"\bcache\.clone\(\)", "vx_clone_entries(cache)", "Vec::clone of entries written as the loop over Entry::clone"),
    (r"std::thread::spawn\(\|\| \{\}\)", "vx_handle()", "thread that does nothing dropped"),
    (r"&mut\s+(FlushCache::\w+)(\s*\{[^{}]*\})?(\s*=>)", lambda m: m.group(1) + re.sub(r"\bref\s+(mut\s+)?", "", m.group(2) or "") + m.group(3), "pattern &mut V { ref x } written V { x }"),
]
SIG = [(r"std::io::Result<", "VxIo<", "std::io::Result written VxIo")]


def crate():
    lock = open(os.path.join(lib_repo(), "Cargo.lock")).read()
    from ..rust import Lost
    m = re.search(r'name = "crc"\nversion = "([^"]+)"', lock)
    if not m:
        raise Lost("Cargo.lock: no crc crate")
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    g = glob.glob(os.path.join(home, "registry/src/*/crc-%s/src" % m.group(1)))
    if not g:
        raise Lost("sources of crc-%s not in the cargo registry" % m.group(1))
    return g[0]


def lib_repo():
    from .. import cfg
    return cfg.REPO


def crc(U):
    d = crate()
    for n in (32, 64):
        T = (lambda s: s) if n == 32 else both
        U.raw(T(CRC))
        ref = [(r"for &(\w+) in ([^{]*)\{", r"for vx_\1 in \2{ let \1 = *vx_\1;", "pattern &x in a for loop")]
        u = d + "/util.rs"
        U.fn(u, "make_table_crc%d" % n, None, label="crc crate make_table_crc%d" % n, spec="ensures tab%d(poly, r)" % n,
             loops=[{"iter": "it", "inv": T("forall|k: int| 0 <= k < i ==> #[trigger] table[k] == cbits32(poly, k as u32, 8)")},
                    {"iter": "jt", "inv": T("value == cbits32(poly, i as u32, jt.index@ as nat), 0 <= i < 256, forall|k: int| 0 <= k < i ==> #[trigger] table[k] == cbits32(poly, k as u32, 8)"), "start": T("assert(cbits32(poly, i as u32, (jt.index@ + 1) as nat) == bit32(poly, value));") if False else ""}])
        U.raw(T("use make_table_crc32 as make_table;\n") if n == 32 else "")
        f = d + "/crc%d.rs" % n
        mk = [(r"\bmake_table\(", "make_table_crc%d(" % n, "imported name"), (r"\bupdate\(", "update%d(" % n, "name"), (r"\bDigest\b", "Crc%d" % n, "name")]
        s = U.item(f, "struct", "Digest", subs=mk)
        U.raw(T(DIGEST))
        U.fn(f, "update", None, rename="update%d" % n, label="crc crate crc%d::update" % n, subs=ref + mk,
             spec=T("requires exists|p: u32| tab32(p, *table),\n ensures forall|p: u32| #[trigger] tab32(p, *table) ==> r == crc32(p, value, bytes@)"),
             pre=T("let ghost v0 = !value; let ghost vs = bytes@; proof { assert(vs.take(0) =~= Seq::empty()); }"),
             loops=[{"iter": "it", "inv": T("it.seq().len() == vs.len(), forall|k: int| 0 <= k < vs.len() ==> *it.seq()[k] == vs[k], forall|p: u32| #[trigger] tab32(p, *table) ==> value == run32(p, v0, vs.take(it.index@))"),
                     "start": T("proof { assert forall|p: u32| #[trigger] tab32(p, *table) implies cbits32(p, value ^ (*vx_i as u32), 8) == table[((value as u8) ^ *vx_i) as int] ^ (value >> 8) by { lemma_table32(p, value, *vx_i, *table); } assert(vs.take(it.index@ + 1).drop_last() =~= vs.take(it.index@)); assert(vs.take(it.index@ + 1).last() == *vx_i); }"),
                     "after": "proof { assert(vs.take(vs.len() as int) =~= vs); }"}])
        U.open("impl Crc%d" % n)
        P = "forall|p: u%d| #[trigger] old(self).is(p) ==> final(self).is(p) && final(self).value == crc%d(p, old(self).value, bytes@)" % (n, n)
        U.fn(f, "new", "^impl Digest$", label="crc crate crc%d::Digest::new" % n, subs=mk, sig_subs=mk, spec="ensures r.is(poly), r.value == 0")
        U.fn(f, "new_with_initial", "^impl Digest$", label="crc crate crc%d::Digest::new_with_initial" % n, subs=mk, sig_subs=mk, spec="ensures r.is(poly), r.value == initial")
        U.fn(f, "write", "^impl Hasher%d for Digest$" % n, label="crc crate crc%d::Digest::write" % n, subs=mk, spec="requires exists|p: u%d| old(self).is(p),\n ensures %s" % (n, P))
        U.fn(f, "sum%d" % n, "^impl Hasher%d for Digest$" % n, label="crc crate crc%d::Digest::sum" % n, subs=mk, spec="ensures r == self.value")
        if n == 64:
            U.fn(f, "finish", "^impl Hasher for Digest$", label="crc crate crc64::Digest::finish", subs=mk, spec="ensures r == self.value")
        U.close()


def build():
    from ..unit import Unit
    U = Unit("wal")
    lib.errors(U)
    U.raw(lib.BYTES + lib.BE + lib.SIZES)
    crc(U)
    U.raw(SHIMS)
    U.item(W, "enum", "EntryType")
    U.item(W, "struct", "Entry", subs=SUBS)
    U.item(W, "enum", "FlushPolicy", subs=[(r"std::time::Duration", "u64", "duration opaque")])
    U.item(W, "enum", "FlushCache", subs=[(r"std::thread::JoinHandle<\(\)>", "VxHandle", "thread handle opaque"), (r"Arc<Mutex<(Vec<\w+>)>>", r"\1", "mutex taken as its content")])
    U.item(W, "const", "WAL_MAGIC_NUMBER")
    U.raw(ENTRY + "// no vector is longer than isize::MAX bytes\naxiom fn vx_vec_len(v: &Vec<u8>) ensures v@.len() <= isize::MAX;\n")
    c = "^impl Entry$"
    U.open("impl Entry")
    U.fn(W, "clone", "^impl Clone for Entry$", subs=SUBS, spec="requires entry_ok(*self),\n ensures same_entry(r, *self), entry_ok(r)")
    U.fn(W, "default", "^impl Default for Entry$", subs=SUBS, spec="ensures entry_ok(r), r.seq_id == 0, r.entry_type == 0, r.content@.len() == 0", pre="proof { lemma_crc32(CRC32_IEEE, 0, Seq::empty(), Seq::empty()); assert forall|v: Seq<u8>| v.len() == 0 implies v == Seq::<u8>::empty() by { assert(v =~= Seq::empty()); } }")
    U.fn(W, "new", c, subs=SUBS, spec="ensures entry_ok(r), r.seq_id == seq_id, r.entry_type == 0, r.content@.len() == 0", pre="proof { lemma_crc32(CRC32_IEEE, 0, Seq::empty(), Seq::empty()); assert forall|v: Seq<u8>| v.len() == 0 implies v == Seq::<u8>::empty() by { assert(v =~= Seq::empty()); } }")
    U.fn(W, "len", c, subs=SUBS, spec="ensures r == ebytes(*self).len()", pre="proof { vx_vec_len(&self.content); }")
    U.fn(W, "get_bytes", c, subs=SUBS, spec="requires entry_ok(*self),\n ensures r@ =~= ebytes(*self)")
    U.fn(W, "push", c, subs=SUBS, spec="requires entry_ok(*old(self)),\n ensures entry_ok(*final(self)), final(self).seq_id == old(self).seq_id, final(self).entry_type == old(self).entry_type, final(self).content@ == old(self).content@ + content@",
         pre="proof { lemma_crc32(CRC32_IEEE, 0, self.content@, content@); }")
    U.close()
    U.raw(CLONES)
    U.item(S, "struct", "Segment", subs=SUBS + [(r"W:\s*Write", "W: VxWrite", "bound Write written VxWrite")])
    U.raw(SEG)
    U.open("impl<W: VxWrite> Segment<W>")
    K = r"^impl < ?W[^>]*> Segment <"
    L = r"Write for Segment <"
    U.fn(S, "write", L, label="Write for Segment::write", subs=SUBS, sig_subs=SIG, spec="""requires old(self).crc.is(CRC64_ECMA),
        ensures final(self).cache == old(self).cache, r matches Ok(n) ==> n == bytes@.len() && old(self).passed(*final(self), bytes@)""")
    U.fn(S, "flush", L, label="Write for Segment::flush", subs=SUBS, sig_subs=SIG, spec="""requires all_ok(held(old(self).cache)), old(self).crc.is(CRC64_ECMA),
        ensures r is Ok ==> old(self).flushed(*final(self))""",
         pre="let ghost vx_0 = *self; let ghost vx_h = held(self.cache); proof { lemma_flat(vx_h); lemma_crc64(CRC64_ECMA, self.crc.value, Seq::empty(), Seq::empty()); }",
         loops=[{"iter": "it", "inv": "same_entries(it.seq(), vx_h), cache_ok(self.cache), held(self.cache).len() == 0, vx_0.crc.is(CRC64_ECMA), self.crc.is(CRC64_ECMA), vx_0.passed(*self, flat(vx_h.take(it.index@)))",
                 "start": """proof { lemma_flat(vx_h); assert(same_entry(it.seq()[it.index@], vx_h[it.index@])); lemma_crc64(CRC64_ECMA, vx_0.crc.value, flat(vx_h.take(it.index@)), ebytes(vx_h[it.index@]));
                     assert(ebytes(entry) == ebytes(vx_h[it.index@])); assert(flat(vx_h.take(it.index@ + 1)) == flat(vx_h.take(it.index@)) + ebytes(vx_h[it.index@])); }"""}])
    U.fn(S, "new", K, label="Segment::new", subs=SUBS, sig_subs=SIG, spec="ensures r matches Ok(s) ==> s.fresh(writer)")
    U.fn(S, "close", K, label="Segment::close", subs=SUBS, sig_subs=SIG, spec="""requires old(self).ok(),
        ensures r is Ok ==> old(self).closed(*final(self))""")
    U.fn(S, "write_entry", K, label="Segment::write_entry", subs=SUBS, sig_subs=SIG, spec="""requires old(self).ok(), entry_ok(entry), flat(held(old(self).cache)).len() + ebytes(entry).len() + 1 <= usize::MAX,
        ensures r is Ok ==> old(self).took(*final(self), entry)""",
         pre="let ghost vx_h = held(self.cache); let ghost vx_e = entry; proof { lemma_flat(vx_h); lemma_crc64(CRC64_ECMA, self.crc.value, Seq::empty(), Seq::empty()); lemma_flat(vx_h.push(vx_e)); assert(flat(vx_h.push(vx_e)) == flat(vx_h) + ebytes(vx_e)); assert forall|x: u64| #[trigger] ecma(x, Seq::empty()) == x by { lemma_crc64(CRC64_ECMA, x, Seq::empty(), Seq::empty()); } assert(flat(Seq::<Entry>::empty()) =~= Seq::<u8>::empty()); } let ghost vx_0 = *self;",
         tail="""proof {
            assert(held(self.cache).len() == 0 ==> held(self.cache) =~= Seq::<Entry>::empty());
            assert(held(self.cache).len() > 0 ==> held(self.cache) =~= vx_h.push(vx_e));
            let d = if held(self.cache).len() > 0 { Seq::<u8>::empty() } else { flat(vx_h) + ebytes(vx_e) };
            assert(flat(vx_h) + ebytes(vx_e) =~= flat(vx_h.push(vx_e)));
            if vx_h.len() == 0 { assert(vx_h =~= Seq::empty()); assert(flat(vx_h) + ebytes(vx_e) =~= ebytes(vx_e)); }
            assert(ebytes(vx_e) + Seq::empty() =~= ebytes(vx_e));
            assert(vx_0.passed(*self, d));
            assert(d + flat(held(self.cache)) =~= flat(vx_h) + ebytes(vx_e));
         }""")
    U.close()
    return U
