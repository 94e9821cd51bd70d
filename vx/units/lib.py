"""Specification text shared by the units: bit and byte mathematics, and the assumed contracts of std functions."""
import re
from .. import unit, rust

BYTES = r"""
// ---------- bits and bytes ----------
spec fn bit8(b: u8, k: int) -> bool { (b >> (k as u8)) & 1u8 == 1u8 }
// bit k (0 = least significant) of a 64 bit word
spec fn bit64(x: u64, k: int) -> bool { (x >> (k as u64)) & 1u64 == 1u64 }
// the first n bits of a byte string, most significant bit of each byte first
spec fn bits_of(d: Seq<u8>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bit8(d[i / 8], 7 - i % 8)) }
// the low n bits of x, most significant first
spec fn low_bits(x: u64, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bit64(x, n - 1 - i)) }
// big-endian bytes
spec fn be64(x: u64) -> Seq<u8> { Seq::new(8, |k: int| (x >> ((56 - 8 * k) as u64)) as u8) }

proof fn lemma_byte_bit(x: u64, k: u64, j: u64)
    requires k < 8, j < 8,
    ensures bit8((x >> ((56 - 8 * k) as u64)) as u8, 7 - j) == bit64(x, 63 - (8 * k + j)),
{
    let s = (56 - 8 * k) as u64;
    let a = (7 - j) as u8;
    let t = (63 - (8 * k + j)) as u64;
    assert(t == s + a);
    assert((((x >> s) as u8) >> a) & 1u8 == 1u8 <==> (x >> t) & 1u64 == 1u64) by (bit_vector)
        requires s <= 56, a <= 7, t == s + (a as u64);
}
// the bits of the big-endian bytes of x are the bits of x
proof fn lemma_be64_bits(x: u64)
    ensures be64(x).len() == 8, bits_of(be64(x), 64) =~= low_bits(x, 64),
{
    assert forall|i: int| 0 <= i < 64 implies bits_of(be64(x), 64)[i] == low_bits(x, 64)[i] by {
        lemma_byte_bit(x, (i / 8) as u64, (i % 8) as u64);
    }
}
proof fn lemma_bit64_eq(x: u64, y: u64)
    requires forall|k: int| 0 <= k < 64 ==> bit64(x, k) == bit64(y, k),
    ensures x == y,
{
    lemma_eq_below(x, y, 64);
    assert(x == y) by (bit_vector) requires (x ^ y) >> 63u64 >> 1u64 == 0u64, ((x ^ y) & 0xffff_ffff_ffff_ffffu64) == 0u64;
}
spec fn ones(n: int) -> u64 { if n >= 64 { 0xffff_ffff_ffff_ffffu64 } else { sub(1u64 << (n as u64), 1u64) } }
proof fn lemma_eq_below(x: u64, y: u64, n: int)
    requires 0 <= n <= 64, forall|k: int| 0 <= k < n ==> bit64(x, k) == bit64(y, k),
    ensures (x ^ y) & ones(n) == 0u64, (x ^ y) >> 63u64 >> 1u64 == 0u64,
    decreases n,
{
    assert((x ^ y) >> 63u64 >> 1u64 == 0u64) by (bit_vector);
    if n == 0 {
        assert((x ^ y) & sub(1u64 << 0u64, 1u64) == 0u64) by (bit_vector);
    } else {
        lemma_eq_below(x, y, n - 1);
        let m = (n - 1) as u64;
        assert(bit64(x, n - 1) == bit64(y, n - 1));
        if n == 64 {
            assert((x ^ y) & 0xffff_ffff_ffff_ffffu64 == 0u64) by (bit_vector)
                requires (x ^ y) & sub(1u64 << 63u64, 1u64) == 0u64, ((x >> 63u64) & 1u64 == 1u64) == ((y >> 63u64) & 1u64 == 1u64);
        } else {
            let n1 = n as u64;
            assert((x ^ y) & sub(1u64 << n1, 1u64) == 0u64) by (bit_vector)
                requires m < 63, n1 == add(m, 1u64), (x ^ y) & sub(1u64 << m, 1u64) == 0u64, ((x >> m) & 1u64 == 1u64) == ((y >> m) & 1u64 == 1u64);
        }
    }
}
proof fn lemma_bit8_eq(x: u8, y: u8)
    requires forall|k: int| 0 <= k < 8 ==> bit8(x, k) == bit8(y, k),
    ensures x == y,
{
    assert(bit8(x, 0) == bit8(y, 0) && bit8(x, 1) == bit8(y, 1) && bit8(x, 2) == bit8(y, 2) && bit8(x, 3) == bit8(y, 3)
        && bit8(x, 4) == bit8(y, 4) && bit8(x, 5) == bit8(y, 5) && bit8(x, 6) == bit8(y, 6) && bit8(x, 7) == bit8(y, 7));
    assert(x == y) by (bit_vector) requires
        ((x >> 0u8) & 1u8 == 1u8) == ((y >> 0u8) & 1u8 == 1u8), ((x >> 1u8) & 1u8 == 1u8) == ((y >> 1u8) & 1u8 == 1u8),
        ((x >> 2u8) & 1u8 == 1u8) == ((y >> 2u8) & 1u8 == 1u8), ((x >> 3u8) & 1u8 == 1u8) == ((y >> 3u8) & 1u8 == 1u8),
        ((x >> 4u8) & 1u8 == 1u8) == ((y >> 4u8) & 1u8 == 1u8), ((x >> 5u8) & 1u8 == 1u8) == ((y >> 5u8) & 1u8 == 1u8),
        ((x >> 6u8) & 1u8 == 1u8) == ((y >> 6u8) & 1u8 == 1u8), ((x >> 7u8) & 1u8 == 1u8) == ((y >> 7u8) & 1u8 == 1u8);
}
proof fn lemma_be64_inj(x: u64, y: u64)
    requires be64(x) =~= be64(y),
    ensures x == y,
{
    lemma_be64_bits(x); lemma_be64_bits(y);
    assert forall|k: int| 0 <= k < 64 implies bit64(x, k) == bit64(y, k) by {
        assert(low_bits(x, 64)[63 - k] == low_bits(y, 64)[63 - k]);
    }
    lemma_bit64_eq(x, y);
}
"""

# assumed contracts of std byte conversions; each is differential-tested by the harness (case `shims`).
# `x.to_be_bytes()` / `T::from_be_bytes(b)` are written x.vx_to_be_bytes() / T::vx_from_be_bytes(b) in the unit, because
# Verus cannot name the array length in the std signature; a trait keeps the dispatch by type as it is in the code.
def be_impl(ty, n, pre, post):
    return """impl VxBe for %(ty)s {
    type A = [u8; %(n)d];
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; %(n)d])
        ensures %(pre)s,
    { self.to_be_bytes() }
    #[verifier::external_body]
    fn vx_from_be_bytes(b: [u8; %(n)d]) -> (r: %(ty)s)
        ensures %(post)s,
    { %(ty)s::from_be_bytes(b) }
}
""" % dict(ty=ty, n=n, pre=pre, post=post)


BE_TRAIT = r"""
trait VxBe: Sized {
    type A;
    fn vx_to_be_bytes(self) -> Self::A;
    fn vx_from_be_bytes(b: Self::A) -> Self;
}
// `bytes.try_into().unwrap()` for a slice of the right length
#[verifier::external_body]
fn vx_arr<const N: usize>(b: &[u8]) -> (r: [u8; N])
    requires b@.len() == N,
    ensures r@ == b@,
{ b.try_into().unwrap() }
// the 64 bits of a float; floats are only ever moved as bits here
pub uninterp spec fn fbits(v: f64) -> u64;
// big-endian bytes of the low n bytes of x
spec fn ben(x: u64, n: int) -> Seq<u8> { Seq::new(n as nat, |k: int| (x >> ((8 * (n - 1 - k)) as u64)) as u8) }
"""
BE = BE_TRAIT + be_impl("u8", 1, "r@ == seq![self]", "r == b[0]") \
    + be_impl("u64", 8, "r@ == be64(self)", "be64(r) == b@") \
    + be_impl("i64", 8, "r@ == be64(self as u64)", "be64(r as u64) == b@") \
    + be_impl("f64", 8, "r@ == be64(fbits(self))", "be64(fbits(r)) == b@") \
    + be_impl("u32", 4, "r@ == ben(self as u64, 4)", "ben(r as u64, 4) == b@") \
    + be_impl("u16", 2, "r@ == ben(self as u64, 2)", "ben(r as u64, 2) == b@") \
    + be_impl("i8", 1, "r@ == ben(self as i64 as u64, 1)", "ben(r as i64 as u64, 1) == b@") \
    + be_impl("i16", 2, "r@ == ben(self as i64 as u64, 2)", "ben(r as i64 as u64, 2) == b@") \
    + be_impl("i32", 4, "r@ == ben(self as i64 as u64, 4)", "ben(r as i64 as u64, 4) == b@")
BE_SUBS = [(r"\.to_be_bytes\(\)", ".vx_to_be_bytes()", "to_be_bytes called through a trait with the same dispatch"),
           (r"::from_be_bytes\(", "::vx_from_be_bytes(", "from_be_bytes called through a trait with the same dispatch"),
           (r"([\w.]+?(?:\.as_slice\(\))?)\.try_into\(\)\.unwrap\(\)", r"vx_arr(\1)", "x.try_into().unwrap() from slice to array written vx_arr(x)")]


def errors(U):
    """MonolithErr with the payloads of foreign types made opaque"""
    U.item("src/compaction/mod.rs", "enum", "CompactionErr")
    U.raw("#[verifier::external_body] struct VxOpaque {}\n")
    U.item("src/error.rs", "enum", "MonolithErr", subs=[
        (r"\b(?:serde_json|serde_yaml|tikv_client)::[\w:]+|crate::wal::WalErr", "VxOpaque", "payload of foreign error type made opaque"),
        (r"crate::compaction::CompactionErr", "CompactionErr", "path")])
    U.raw("""#[verifier::external]
impl std::fmt::Debug for MonolithErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
""")
    U.item("src/error.rs", "type", "Result")


PANIC = r"""
// a reachable panic is a failed obligation
#[verifier::external_body]
fn vx_panic<T>() -> (r: T)
    requires false,
{ panic!() }
"""
PANIC_SUBS = [(r"\b(?:unimplemented|panic|unreachable|todo)!\s*\([^()]*(?:\([^()]*\)[^()]*)*\)", "vx_panic()", "panicking macro written vx_panic(), which requires false")]
REF_SUBS = [(r"&\s*mut\s+((?:Compactor|Decompactor)::\w+)\(\s*ref\s+(?:mut\s+)?(\w+)\s*\)", r"\1(\2)", "pattern &mut V(ref mut x) written V(x)"),
            (r"&\s*mut\s+((?:Compactor|Decompactor)::\w+)\b", r"\1", "pattern &mut V written V"),
            (r"&((?:Compactor|Decompactor)::\w+)\(\s*ref\s+(\w+)\s*\)", r"\1(\2)", "pattern &V(ref x) written V(x)"),
            (r"&((?:Compactor|Decompactor)::\w+)(\s*=>)", r"\1\2", "pattern &V written V")]

CHUNKS = r"""
// slice::chunks
#[verifier::external_body]
fn vx_chunks<'a>(v: &'a Vec<u8>, n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0,
    ensures r@.len() == (v@.len() + n - 1) / (n as int),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@.subrange(i * n, if (i + 1) * n <= v@.len() { (i + 1) * n } else { v@.len() as int }),
{ v.chunks(n).collect() }
"""
CHUNK_SUBS = [(r"in\s+(\w+)\s*\.chunks\(([^{]*)\)\s*\{", r"in vx_chunks(&\1, \2) {", "slice::chunks written vx_chunks")]

SIZES = r"""
global size_of u64 == 8;
#[verifier::external_body]
fn vx_size_of_f64() -> (r: usize) ensures r == 8 { std::mem::size_of::<f64>() }
#[verifier::external_body]
fn vx_vec_from(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { Vec::from(s) }
#[verifier::external_body]
fn vx_range<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int),
{ &s[a..b] }
"""
SIZE_SUBS = [(r"(?:std::)?mem::size_of::<(?:Value|f64)>\(\)", "vx_size_of_f64()", "size_of::<f64>() written vx_size_of_f64()"),
             (r"Vec::from\(&([\w.]+?(?:\.(?:vx_)?to_be_bytes\(\))?)\[\.\.\]\)", r"vx_vec_from(&\1)", "Vec::from(&array[..]) written vx_vec_from"),
             (r"extend_from_slice\(&(\w+)\[\.\.\]\)", r"extend_from_slice(&\1)", "full-range slice of an array written as the array")]

TEXT = r"""
// ---- text: utf8 is one-to-one; decimal text of a number is one-to-one and consists of digits
uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
axiom fn ax_utf8(a: Seq<char>, b: Seq<char>)
    requires utf8(a) == utf8(b),
    ensures a == b;
uninterp spec fn dec(x: u64) -> Seq<char>;
axiom fn ax_dec(a: u64, b: u64)
    requires dec(a) == dec(b),
    ensures a == b;
// what `{}` prints
trait VxShow { spec fn show(&self) -> Seq<char>; }
impl VxShow for u64 { spec fn show(&self) -> Seq<char> { dec(*self) } }
impl VxShow for str { spec fn show(&self) -> Seq<char> { self@ } }
impl VxShow for String { spec fn show(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { spec fn show(&self) -> Seq<char> { (**self).show() } }
#[verifier::external_body]
fn vx_cat<A: VxShow, B: VxShow>(a: A, b: B) -> (r: String)
    ensures r@ == a.show() + b.show(),
{ loop {} }
#[verifier::external_body]
fn vx_text<A: VxShow>(a: A) -> (r: String)
    ensures r@ == a.show(),
{ loop {} }
"""
def _format(s):
    """format!("a{}b{}", x, y) as nested vx_cat calls"""
    from .. import rust
    n, at = 0, 0
    while True:
        m = re.compile(r"\bformat!\s*\(").search(s, at)
        if not m:
            return s, n
        c = rust.code(rust.lex(s))
        i = next(i for i, t in enumerate(c) if t[2] == m.end() - 1)
        j = rust.match(c, i)
        args, d, st = [], 0, c[i][3]
        for t in c[i + 1:j]:
            if t[1] in "([{":
                d += 1
            elif t[1] in ")]}":
                d -= 1
            elif t[1] == "," and d == 0:
                args.append(s[st:t[2]].strip())
                st = t[3]
        args.append(s[st:c[j][2]].strip())
        args = [a for a in args if a]
        lit = args[0]
        pieces = re.split(r"\{\}", lit[1:-1])
        if not (lit.startswith('"') and lit.endswith('"')) or len(pieces) != len(args) or any("{" in p or "}" in p for p in pieces):
            at = m.end()
            continue
        parts = []
        for k, p in enumerate(pieces):
            if p:
                parts.append('"%s"' % p)
            if k + 1 < len(pieces):
                parts.append(args[k + 1])
        e = parts[0] if len(parts) > 1 else "vx_text(%s)" % (parts[0] if parts else '""')
        for p in parts[1:]:
            e = "vx_cat(%s, %s)" % (e, p)
        s = s[:m.start()] + e + s[c[j][3]:]
        n += 1


FORMAT = (_format, None, "format! with plain {} written as concatenation (vx_cat)")
TEXT_SUBS = [(r'format!\(\s*"\{\}\{\}"\s*,\s*([^,()]+?)\s*,\s*([^,()]+?)\s*,?\s*\)', r"vx_cat(\1, \2)", 'format!("{}{}", a, b) written vx_cat(a, b)'),
             (r"std::fmt::Display", "VxShow", "bound Display written VxShow (the text that {} prints)")]

KV = r"""
// ---- key-value stores: sled's Db/Tree and the TiKV client are assumed to be maps from byte strings to byte strings whose
// operations either do what they say or fail with an error of their own and change nothing.
type Kv = Map<Seq<u8>, Seq<u8>>;
// an error that comes out of the store; never one of the two that monolith itself makes for "nothing there"
uninterp spec fn vx_store_err0(e: MonolithErr) -> bool;
spec fn vx_store_err(e: MonolithErr) -> bool { vx_store_err0(e) && !(e is NotFoundErr) && !(e is OutOfRangeErr) }
trait VxBytes { spec fn bytes(&self) -> Seq<u8>; }
impl VxBytes for String { spec fn bytes(&self) -> Seq<u8> { utf8(self@) } }
impl VxBytes for str { spec fn bytes(&self) -> Seq<u8> { utf8(self@) } }
impl VxBytes for Vec<u8> { spec fn bytes(&self) -> Seq<u8> { self@ } }
impl VxBytes for [u8] { spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBytes for [u8; N] { spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<T: VxBytes + ?Sized> VxBytes for &T { spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
#[verifier::external_body] struct IVec {}
impl IVec {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { loop {} }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { loop {} }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { loop {} }
}
impl VxBytes for IVec { spec fn bytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body] struct Db {}
type Tree = Db;
impl Db {
    uninterp spec fn view(&self) -> Kv;
    #[verifier::external_body]
    fn get<K: VxBytes>(&self, key: K) -> (r: Result<Option<IVec>>)
        ensures match r { Ok(Some(v)) => self@.contains_key(key.bytes()) && v@ == self@[key.bytes()], Ok(None) => !self@.contains_key(key.bytes()), Err(e) => vx_store_err(e) },
    { loop {} }
    #[verifier::external_body]
    fn set<K: VxBytes, V: VxBytes>(&mut self, key: K, value: V) -> (r: Result<Option<IVec>>)
        ensures match r { Ok(_) => final(self)@ == old(self)@.insert(key.bytes(), value.bytes()), Err(e) => final(self)@ == old(self)@ && vx_store_err(e) },
    { loop {} }
}
"""
SHARED_HANDLE = "shared handle of the store taken as exclusive (the store is behind interior mutability)"
KV_SUBS = [(r"let (\w+)(?:: &Tree)? = &self\.storage;", r"let \1 = &mut self.storage;", SHARED_HANDLE),
           (r"AsRef::<\[u8\]>::as_ref\(&(\w+)\)\.to_vec\(\)", r"\1.to_vec()", "AsRef::<[u8]>::as_ref(&v).to_vec() written v.to_vec()")]
MUT_SELF = [(r"\(\s*&self\b", "(&mut self", "&self taken as &mut self where the method changes the store")]

TIKV = r"""
// the shared store; its one-line implementation over the network client is assumed
trait TiKvRawBackend {
    spec fn view(&self) -> Kv;
    fn set(&mut self, key: Vec<u8>, value: Vec<u8>) -> (r: Result<()>)
        ensures match r { Ok(_) => final(self)@ == old(self)@.insert(key@, value@), Err(e) => final(self)@ == old(self)@ && vx_store_err(e) };
    fn get(&self, key: Vec<u8>) -> (r: Result<Option<Vec<u8>>>)
        ensures match r { Ok(Some(v)) => self@.contains_key(key@) && v@ == self@[key@], Ok(None) => !self@.contains_key(key@), Err(e) => vx_store_err(e) };
}
"""

CONST_SUBS = [(r":\s*&str", ": &'static str", "lifetime of a constant spelled out")]


def last_arg(names, arg, skip=()):
    """substitution: calls `.name(` / `::name(` get one more argument, at the end"""
    from .. import rust

    def f(s):
        n, at = 0, 0
        while True:
            m = re.compile(r"(?:\.|::)\s*(%s)\s*\(" % names).search(s, at)
            if not m:
                return s, n
            c = rust.code(rust.lex(s))
            i = next(i for i, t in enumerate(c) if t[2] == m.end() - 1)
            j = rust.match(c, i)
            sep = "" if c[j - 1][1] == "(" else " " if c[j - 1][1] == "," else ", "
            s = s[:c[j][2]] + sep + arg + s[c[j][2]:]
            n, at = n + 1, m.end()
    return f


def drop_statements(head):
    """substitution: statements that begin with `head` are left out"""
    from .. import rust

    def f(s):
        n, at = 0, 0
        while True:
            m = re.compile(r"(?<=[;{}])\s*(%s)" % head).search(s, at)
            if not m:
                return s, n
            c = rust.code(rust.lex(s))
            i = next(i for i, t in enumerate(c) if t[2] >= m.start(1))
            while c[i][1] != ";":
                if c[i][1] in rust.OPEN:
                    i = rust.match(c, i)
                i += 1
            s = s[:m.start(1)] + s[c[i][3]:]
            n += 1
    return f

# loops over vectors and iterator chains
ITER = r"""
// a vector taken apart front to back, as a for loop does
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxIter<T> { v: std::vec::IntoIter<T> }
impl<T> VxIter<T> {
    uninterp spec fn seq(&self) -> Seq<T>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(), match r {
            Some(x) => 0 <= old(self).at() < old(self).seq().len() && x == old(self).seq()[old(self).at()] && final(self).at() == old(self).at() + 1,
            None => old(self).at() == old(self).seq().len() && final(self).at() == old(self).at() },
    { self.v.next() }
}
#[verifier::external_body]
fn vx_iter<T>(v: Vec<T>) -> (r: VxIter<T>) ensures r.seq() == v@, r.at() == 0 { loop {} }
"""
REFS = r"""
#[verifier::external_body]
fn vx_refs<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { v.iter().collect() }
"""


def param(f, name, c):
    """the name of the first argument"""
    m = re.search(r"\(\s*(?:&\s*(?:mut\s+)?self\s*,\s*)?(\w+)\s*:", unit.locate(f, name, c).sig)
    if not m:
        raise rust.Lost("%s: no argument" % name)
    return m.group(1)
