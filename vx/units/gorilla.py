"""Gorilla codec: the compactor appends enc_pt of each point, the decompactor reads the points back."""
from . import lib, bstream
G = "src/compaction/gorilla.rs"
C = "src/compaction/mod.rs"

SPEC = r"""
use vstd::std_specs::bits::*;
global size_of u64 == 8;
#[verifier::external_body]
fn vx_size_of_f64() -> (r: usize) ensures r == 8 { std::mem::size_of::<f64>() }
// points as (timestamp, bits of the value)
spec fn pt(p: TimePoint) -> (u64, u64) { (p.timestamp, fbits(p.value)) }
spec fn pts(s: Seq<TimePoint>) -> Seq<(u64, u64)> { s.map_values(|p: TimePoint| pt(p)) }

// the state both sides go through
struct GS { t: u64, v: u64, lead: int, tail: int, d: int, len: int }
spec fn gs0() -> GS { GS { t: 0, v: 0, lead: 0, tail: 0, d: 0, len: 0 } }
spec fn clz(x: u64) -> int { if u64_leading_zeros(x) < 31 { u64_leading_zeros(x) as int } else { 31 } }
spec fn ctz(x: u64) -> int { u64_trailing_zeros(x) as int }
spec fn reuse(s: GS, v: u64) -> bool { s.len > 1 && clz(v ^ s.v) >= s.lead && ctz(v ^ s.v) >= s.tail }
spec fn new_lead(s: GS, v: u64) -> int { if v ^ s.v == 0 || reuse(s, v) { s.lead } else { clz(v ^ s.v) } }
spec fn new_tail(s: GS, v: u64) -> int { if v ^ s.v == 0 || reuse(s, v) { s.tail } else { ctz(v ^ s.v) } }
spec fn enc_sig(x: u64, l: int, t: int) -> Seq<bool> { low_bits(x >> (t as u64), 64 - l - t) }
spec fn enc_val(s: GS, v: u64) -> Seq<bool> {
    let x = v ^ s.v;
    if x == 0 { seq![false] }
    else if reuse(s, v) { seq![true, false] + enc_sig(x, s.lead, s.tail) }
    else { seq![true, true] + low_bits(clz(x) as u64, 5) + low_bits((64 - clz(x) - ctz(x)) as u64, 6) + enc_sig(x, clz(x), ctz(x)) }
}
spec fn dod(s: GS, t: u64) -> int { t - s.t - s.d }
spec fn w(x: int) -> u64 { (x as i64) as u64 }
spec fn enc_ts(s: GS, t: u64) -> Seq<bool> {
    let x = dod(s, t);
    if s.len == 0 { low_bits(t, 64) }
    else if s.len == 1 { low_bits(w(t - s.t), 64) }
    else if x == 0 { seq![false] }
    else if -0x80 < x < 0x80 { seq![true, false] + low_bits(w(x), 8) }
    else if -0x8000 < x < 0x8000 { seq![true, true, false] + low_bits(w(x), 16) }
    else if -0x8000_0000 < x < 0x8000_0000 { seq![true, true, true, false] + low_bits(w(x), 32) }
    else { seq![true, true, true, true] + low_bits(w(x), 64) }
}
spec fn enc_pt(s: GS, p: (u64, u64)) -> Seq<bool> {
    enc_ts(s, p.0) + (if s.len == 0 { low_bits(p.1, 64) } else { enc_val(s, p.1) })
}
spec fn step(s: GS, p: (u64, u64)) -> GS {
    GS { t: p.0, v: p.1, lead: if s.len == 0 { s.lead } else { new_lead(s, p.1) }, tail: if s.len == 0 { s.tail } else { new_tail(s, p.1) },
         d: if s.len == 0 { s.d } else { p.0 - s.t }, len: s.len + 1 }
}
spec fn gs_ok(s: GS) -> bool {
    &&& 0 <= s.lead <= 31 && 0 <= s.tail && s.lead + s.tail <= 63
    &&& 0 <= s.d <= s.t && s.t < 0x8000_0000_0000_0000 && s.len >= 0 && (s.len == 0 ==> s.d == 0)
}
// points that may follow state s: timestamps below 2^63 that do not go backwards
spec fn may_follow(s: GS, p: (u64, u64)) -> bool { p.0 < 0x8000_0000_0000_0000 && (s.len > 0 ==> s.t <= p.0) }
spec fn valid(s: GS, q: Seq<(u64, u64)>) -> bool
    decreases q.len(),
{ q.len() == 0 || (may_follow(s, q[0]) && valid(step(s, q[0]), q.drop_first())) }
spec fn enc_all(s: GS, q: Seq<(u64, u64)>) -> Seq<bool>
    decreases q.len(),
{ if q.len() == 0 { Seq::empty() } else { enc_pt(s, q[0]) + enc_all(step(s, q[0]), q.drop_first()) } }
spec fn run(s: GS, q: Seq<(u64, u64)>) -> GS
    decreases q.len(),
{ if q.len() == 0 { s } else { run(step(s, q[0]), q.drop_first()) } }

proof fn lemma_push(s: GS, q: Seq<(u64, u64)>, p: (u64, u64))
    ensures enc_all(s, q.push(p)) =~= enc_all(s, q) + enc_pt(run(s, q), p), run(s, q.push(p)) == step(run(s, q), p),
        valid(s, q.push(p)) == (valid(s, q) && may_follow(run(s, q), p)),
    decreases q.len(),
{
    reveal_with_fuel(run, 2); reveal_with_fuel(valid, 2); reveal_with_fuel(enc_all, 2);
    assert(q.push(p)[0] == (if q.len() == 0 { p } else { q[0] }));
    if q.len() == 0 {
        assert(q.push(p).drop_first() =~= Seq::<(u64, u64)>::empty());
        assert(q =~= Seq::<(u64, u64)>::empty());
        assert(enc_all(step(s, p), q.push(p).drop_first()) =~= Seq::<bool>::empty());
    } else {
        lemma_push(step(s, q[0]), q.drop_first(), p);
        assert(q.push(p).drop_first() =~= q.drop_first().push(p));
    }
}
proof fn lemma_valid_take(s: GS, q: Seq<(u64, u64)>, n: int)
    requires valid(s, q), 0 <= n <= q.len(),
    ensures valid(s, q.take(n)), n < q.len() ==> may_follow(run(s, q.take(n)), q[n]),
    decreases n,
{
    if n == 0 { assert(q.take(0) =~= Seq::<(u64, u64)>::empty()); }
    else {
        lemma_valid_take(step(s, q[0]), q.drop_first(), n - 1);
        assert(q.take(n).drop_first() =~= q.drop_first().take(n - 1));
    }
}
proof fn lemma_run_ok(s: GS, q: Seq<(u64, u64)>)
    requires gs_ok(s), valid(s, q),
    ensures gs_ok(run(s, q)), run(s, q).len == s.len + q.len(),
    decreases q.len(),
{ if q.len() > 0 { lemma_step_ok(s, q[0]); lemma_run_ok(step(s, q[0]), q.drop_first()); } }

// leading and trailing zeros
proof fn lemma_zeros(x: u64)
    requires x != 0,
    ensures 0 <= clz(x) <= 31, 0 <= ctz(x), clz(x) + ctz(x) <= 63,
        forall|k: int| 0 <= k < ctz(x) ==> !#[trigger] bit64(x, k),
        forall|k: int| 64 - clz(x) <= k < 64 ==> !#[trigger] bit64(x, k),
{
    axiom_u64_leading_zeros(x); axiom_u64_trailing_zeros(x);
    let l = u64_leading_zeros(x); let t = u64_trailing_zeros(x);
    assert(x == 0 <==> l == 64);
    assert forall|k: int| 0 <= k < t implies !#[trigger] bit64(x, k) by {
        let s = k as u64; assert((x >> s) & 1u64 == 0u64);
    }
    assert forall|k: int| 64 - l <= k < 64 implies !#[trigger] bit64(x, k) by {
        let s = k as u64; assert((x >> s) & 1u64 == 0u64);
    }
    let s = (63 - l) as u64;
    if (x >> s) & 1u64 != 1u64 { assert((x >> s) & 1u64 == 0u64) by (bit_vector) requires (x >> s) & 1u64 != 1u64; assert(false); }
    assert(bit64(x, 63 - l));
}
proof fn lemma_step_ok(s: GS, p: (u64, u64))
    requires gs_ok(s), may_follow(s, p),
    ensures gs_ok(step(s, p)), enc_pt(s, p).len() > 0, s.len > 0 ==> -0x8000_0000_0000_0000 < dod(s, p.0) < 0x8000_0000_0000_0000,
{
    let x = p.1 ^ s.v;
    if x != 0 { lemma_zeros(x); }
}
proof fn lemma_xor(a: u64, b: u64)
    ensures a ^ (b ^ a) == b, (a ^ b == 0) == (a == b),
{
    assert(a ^ (b ^ a) == b) by (bit_vector);
    assert((a ^ b == 0) == (a == b)) by (bit_vector);
}
// the significant bits, read back left-aligned and shifted right, are the word
proof fn lemma_sig(x: u64, l: int, t: int, d: Seq<u8>, b: u64)
    requires 0 <= l, 0 <= t, l + t <= 63, d.len() == 8, be64(b) == d,
        forall|k: int| 0 <= k < t ==> !#[trigger] bit64(x, k),
        forall|k: int| 64 - l <= k < 64 ==> !#[trigger] bit64(x, k),
        forall|i: int| 0 <= i < 64 ==> #[trigger] bit8(d[i / 8], 7 - i % 8) == (i < 64 - l - t && enc_sig(x, l, t)[i]),
    ensures b >> (l as u64) == x,
{
    lemma_be64_bits(b);
    let n = 64 - l - t;
    assert forall|k: int| 0 <= k < 64 implies bit64(b >> (l as u64), k) == bit64(x, k) by {
        lemma_shr64(b, l, k);
        if k + l < 64 {
            let i = 63 - (k + l);
            assert(bits_of(be64(b), 64)[i] == low_bits(b, 64)[i]);
            assert(bit64(b, k + l) == bit8(d[i / 8], 7 - i % 8));
            if i < n {
                lemma_shr64(x, t, n - 1 - i);
                assert(enc_sig(x, l, t)[i] == bit64(x >> (t as u64), n - 1 - i));
                assert(n - 1 - i + t == k);
            } else { assert(k < t); }
        }
    }
    lemma_bit64_eq(b >> (l as u64), x);
}
proof fn lemma_shr64(x: u64, n: int, k: int)
    requires 0 <= k < 64, 0 <= n < 64,
    ensures bit64(x >> (n as u64), k) == (k + n < 64 && bit64(x, k + n)),
{
    let s = k as u64; let m = n as u64;
    if k + n < 64 {
        let t = (k + n) as u64;
        assert(((x >> m) >> s) & 1u64 == 1u64 <==> (x >> t) & 1u64 == 1u64) by (bit_vector) requires t == add(s, m), s < 64, m < 64, t < 64;
    } else {
        assert(!(((x >> m) >> s) & 1u64 == 1u64)) by (bit_vector) requires s < 64, m < 64, add(s, m) >= 64;
    }
}
// n whole bytes holding the low 8n bits of x are the low n big-endian bytes of x
proof fn lemma_bytes(d: Seq<u8>, x: u64, n: int)
    requires 0 <= n <= 8, d.len() == n, bits_of(d, 8 * n) =~= low_bits(x, 8 * n),
    ensures d =~= ben(x, n),
{
    assert forall|j: int| 0 <= j < n implies d[j] == ben(x, n)[j] by {
        assert forall|k: int| 0 <= k < 8 implies bit8(d[j], k) == bit8(ben(x, n)[j], k) by {
            let i = 8 * j + 7 - k;
            assert(bits_of(d, 8 * n)[i] == low_bits(x, 8 * n)[i]);
            lemma_byte_bit(x, (8 - n + j) as u64, (7 - k) as u64);
        }
        lemma_bit8_eq(d[j], ben(x, n)[j]);
    }
}
proof fn lemma_ben8(x: u64) ensures ben(x, 8) =~= be64(x) {}
proof fn lemma_small(x: i64, y: i64, n: int)
    requires ben(x as u64, n) == ben(y as u64, n),
        (n == 1 && -0x80 <= x < 0x80 && -0x80 <= y < 0x80) || (n == 2 && -0x8000 <= x < 0x8000 && -0x8000 <= y < 0x8000)
        || (n == 4 && -0x8000_0000 <= x < 0x8000_0000 && -0x8000_0000 <= y < 0x8000_0000),
    ensures x == y,
{
    let a = x as u64; let b = y as u64;
    assert(ben(a, n)[n - 1] == ben(b, n)[n - 1]);
    assert((a >> 0u64) as u8 == (b >> 0u64) as u8);
    if n == 1 {
        assert(x == y) by (bit_vector) requires a == x as u64, b == y as u64, (a >> 0u64) as u8 == (b >> 0u64) as u8, -0x80i64 <= x, x < 0x80i64, -0x80i64 <= y, y < 0x80i64;
    } else {
        assert(ben(a, n)[n - 2] == ben(b, n)[n - 2]);
        assert((a >> 8u64) as u8 == (b >> 8u64) as u8);
        if n == 2 {
            assert(x == y) by (bit_vector) requires a == x as u64, b == y as u64, (a >> 0u64) as u8 == (b >> 0u64) as u8, (a >> 8u64) as u8 == (b >> 8u64) as u8,
                -0x8000i64 <= x, x < 0x8000i64, -0x8000i64 <= y, y < 0x8000i64;
        } else {
            assert(ben(a, n)[1] == ben(b, n)[1]);
            assert(ben(a, n)[0] == ben(b, n)[0]);
            assert((a >> 16u64) as u8 == (b >> 16u64) as u8);
            assert((a >> 24u64) as u8 == (b >> 24u64) as u8);
            assert(x == y) by (bit_vector) requires a == x as u64, b == y as u64, (a >> 0u64) as u8 == (b >> 0u64) as u8, (a >> 8u64) as u8 == (b >> 8u64) as u8,
                (a >> 16u64) as u8 == (b >> 16u64) as u8, (a >> 24u64) as u8 == (b >> 24u64) as u8,
                -0x8000_0000i64 <= x, x < 0x8000_0000i64, -0x8000_0000i64 <= y, y < 0x8000_0000i64;
        }
    }
}
proof fn lemma_low_skip(x: u64, n: int)
    requires 0 <= n <= 64,
    ensures bits_of(be64(x), 64).skip(64 - n) =~= low_bits(x, n),
{ lemma_be64_bits(x); }
// the flag bytes
proof fn lemma_flags()
    ensures
        bits_of(seq![0u8], 1) =~= seq![false], bits_of(seq![128u8], 2) =~= seq![true, false], bits_of(seq![192u8], 3) =~= seq![true, true, false],
        bits_of(seq![224u8], 4) =~= seq![true, true, true, false], bits_of(seq![240u8], 4) =~= seq![true, true, true, true],
        low_zero(0u8, 7), low_zero(128u8, 6), low_zero(192u8, 5), low_zero(224u8, 4), low_zero(240u8, 4),
        forall|b: u8| #[trigger] (b & 128u8) == 0u8 <==> !bit8(b, 7),
        forall|b: u8| #[trigger] (b & 192u8) == 128u8 <==> bit8(b, 7) && !bit8(b, 6),
        forall|b: u8| #[trigger] (b & 224u8) == 192u8 <==> bit8(b, 7) && bit8(b, 6) && !bit8(b, 5),
        forall|b: u8| #[trigger] (b & 240u8) == 224u8 <==> bit8(b, 7) && bit8(b, 6) && bit8(b, 5) && !bit8(b, 4),
{
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(0u8, k) == (false) by { let s = k as u8; assert((0u8 >> s) & 1u8 == 1u8 <==> false) by (bit_vector) requires s < 8; }
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(128u8, k) == (k == 7) by { let s = k as u8; assert((128u8 >> s) & 1u8 == 1u8 <==> s == 7) by (bit_vector) requires s < 8; }
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(192u8, k) == (k >= 6) by { let s = k as u8; assert((192u8 >> s) & 1u8 == 1u8 <==> s >= 6) by (bit_vector) requires s < 8; }
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(224u8, k) == (k >= 5) by { let s = k as u8; assert((224u8 >> s) & 1u8 == 1u8 <==> s >= 5) by (bit_vector) requires s < 8; }
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(240u8, k) == (k >= 4) by { let s = k as u8; assert((240u8 >> s) & 1u8 == 1u8 <==> s >= 4) by (bit_vector) requires s < 8; }
    assert(bit8(128u8, 7) && !bit8(128u8, 6));
    assert(bit8(192u8, 7) && bit8(192u8, 6) && !bit8(192u8, 5));
    assert(bit8(224u8, 7) && bit8(224u8, 6) && bit8(224u8, 5) && !bit8(224u8, 4));
    assert(bit8(240u8, 7) && bit8(240u8, 6) && bit8(240u8, 5) && bit8(240u8, 4));
    assert(!bit8(0u8, 7));
    assert forall|b: u8| #[trigger] (b & 128u8) == 0u8 <==> !bit8(b, 7) by { assert((b & 128u8) == 0u8 <==> !((b >> 7u8) & 1u8 == 1u8)) by (bit_vector); }
    assert forall|b: u8| #[trigger] (b & 192u8) == 128u8 <==> bit8(b, 7) && !bit8(b, 6) by {
        assert((b & 192u8) == 128u8 <==> ((b >> 7u8) & 1u8 == 1u8) && !((b >> 6u8) & 1u8 == 1u8)) by (bit_vector); }
    assert forall|b: u8| #[trigger] (b & 224u8) == 192u8 <==> bit8(b, 7) && bit8(b, 6) && !bit8(b, 5) by {
        assert((b & 224u8) == 192u8 <==> ((b >> 7u8) & 1u8 == 1u8) && ((b >> 6u8) & 1u8 == 1u8) && !((b >> 5u8) & 1u8 == 1u8)) by (bit_vector); }
    assert forall|b: u8| #[trigger] (b & 240u8) == 224u8 <==> bit8(b, 7) && bit8(b, 6) && bit8(b, 5) && !bit8(b, 4) by {
        assert((b & 240u8) == 224u8 <==> ((b >> 7u8) & 1u8 == 1u8) && ((b >> 6u8) & 1u8 == 1u8) && ((b >> 5u8) & 1u8 == 1u8) && !((b >> 4u8) & 1u8 == 1u8)) by (bit_vector); }
}
#[verifier::external_body]
fn vx_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { std::cmp::min(a, b) }
#[verifier::external_body]
fn vx_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x) { v.contains(x) }
#[verifier::external_body]
fn vx_to_vec8(v: &[u8; 8]) -> (r: Vec<u8>) ensures r@ == v@ { v.to_vec() }
impl GorillaCompactor {
    spec fn gs(self) -> GS { GS { t: self.t, v: fbits(self.v), lead: self.leading as int, tail: self.tailing as int, d: self.d as int, len: self.len as int } }
    spec fn wf(self) -> bool { self.bstream.wf() && gs_ok(self.gs()) }
}
impl GorillaDecompactor {
    spec fn gs(self) -> GS { GS { t: self.t, v: fbits(self.v), lead: self.leading as int, tail: self.tailing as int, d: self.d as int, len: self.idx as int } }
    spec fn wf(self) -> bool { self.source.ok() && gs_ok(self.gs()) }
}
"""

SUBS = lib.BE_SUBS + [
    (r"std::mem::size_of::<Value>\(\)", "vx_size_of_f64()", "size_of::<f64>() written vx_size_of_f64()"),
    (r"std::cmp::min\(", "vx_min(", "std::cmp::min on u32 written vx_min"),
    (r"\bvec!\[([^\]]*)\]\.contains\(", r"vx_contains(&vec![\1], ", "Vec::contains written vx_contains"),
    (r"&value\.(vx_)?to_be_bytes\(\)\.to_vec\(\)", r"&vx_to_vec8(&value.vx_to_be_bytes())", "[u8; 8]::to_vec written vx_to_vec8"),
]


def items(U):
    U.item("src/lib.rs", "type", "Timestamp")
    U.item("src/lib.rs", "type", "Value")
    U.item("src/common/time_point.rs", "struct", "TimePoint")
    U.item(G, "struct", "GorillaCompactor")
    U.item(G, "struct", "GorillaDecompactor")
    U.open("impl TimePoint")
    U.fn("src/common/time_point.rs", "new", "^impl TimePoint$", spec="ensures r.timestamp == timestamp, r.value == value")
    U.close()


def encoder(U):
    c = "^impl GorillaCompactor$"
    U.raw(SPEC)
    U.fn(G, "convert_to_u64", None, subs=SUBS, spec="ensures r == fbits(v)", hints=[], pre="proof { assert forall|a: u64, b: u64| #[trigger] be64(a) == #[trigger] be64(b) implies a == b by { lemma_be64_inj(a, b); } }")
    U.fn(G, "convert_to_f64", None, subs=SUBS, spec="ensures fbits(r) == v", pre="proof { assert forall|a: u64, b: u64| #[trigger] be64(a) == #[trigger] be64(b) implies a == b by { lemma_be64_inj(a, b); } }")
    U.fn(G, "xor_f64", None, spec="ensures fbits(r) == fbits(a) ^ fbits(b)")
    U.fn(G, "vec_with_len", None, spec="ensures r@.len() == len, forall|i: int| 0 <= i < len ==> r@[i] == 0u8",
         loops=[{"iter": "it", "inv": "v@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> v@[i] == 0u8"}])
    U.fn(G, "in_bit_range", None, spec="requires nbits == 8 || nbits == 16 || nbits == 32, ensures r == (if nbits == 8 { -0x80 < t < 0x80 } else if nbits == 16 { -0x8000 < t < 0x8000 } else { -0x8000_0000 < t < 0x8000_0000 })",
         pre="""proof { assert(1i64 << 7u8 == 0x80i64) by (bit_vector); assert(1i64 << 15u8 == 0x8000i64) by (bit_vector); assert(1i64 << 31u8 == 0x8000_0000i64) by (bit_vector); }""")
    U.open("impl GorillaCompactor")
    U.fn(G, "new", c, spec="ensures r.bstream.wf(), r.bstream@ =~= Seq::<bool>::empty(), r.bstream.data@.len() == 0, r.len == 0, r.t == 0, r.leading == 0, r.tailing == 0, r.d == 0")
    U.fn(G, "compact_value", c, subs=SUBS, attrs="#[verifier::spinoff_prover] #[verifier::rlimit(60)]",
         spec="""requires old(self).bstream.wf(), old(self).leading <= 31, old(self).leading + old(self).tailing <= 63, old(self).len >= 1, old(self).bstream.data@.len() + 30 < maxlen(),
         ensures final(self).bstream.wf(), final(self).bstream@ =~= old(self).bstream@ + enc_val(old(self).gs(), fbits(*value)),
            final(self).bstream.data@.len() <= old(self).bstream.data@.len() + 26,
            final(self).leading == new_lead(old(self).gs(), fbits(*value)), final(self).tailing == new_tail(old(self).gs(), fbits(*value)),
            final(self).t == old(self).t, final(self).v == old(self).v, final(self).d == old(self).d, final(self).len == old(self).len""",
         pre="""proof {
            let s = self.gs(); let x = fbits(*value) ^ s.v;
            if x != 0 { lemma_zeros(x); axiom_u64_leading_zeros(x); axiom_u64_trailing_zeros(x); }
            assert forall|y: u64, n: int| 0 <= n <= 64 implies #[trigger] bits_of(be64(y), 64).skip(64 - n) == low_bits(y, n) by { lemma_low_skip(y, n); }
            let b = self.bstream@;
            let e0 = b.push(true).push(false); let e1 = b.push(true).push(true);
            assert(e0 + enc_sig(x, s.lead, s.tail) =~= b + (seq![true, false] + enc_sig(x, s.lead, s.tail)));
            let p = low_bits(clz(x) as u64, 5); let q = low_bits((64 - clz(x) - ctz(x)) as u64, 6); let r = enc_sig(x, clz(x), ctz(x));
            assert(e1 + p + q + r =~= b + (seq![true, true] + p + q + r));
         }""")
    U.fn(G, "compact", c, subs=SUBS, attrs="#[verifier::spinoff_prover] #[verifier::rlimit(60)]",
         spec="""requires old(self).wf(), may_follow(old(self).gs(), pt(*tp)), old(self).bstream.data@.len() + 60 < maxlen(), old(self).len < usize::MAX,
         ensures final(self).wf(), final(self).bstream@ =~= old(self).bstream@ + enc_pt(old(self).gs(), pt(*tp)), final(self).gs() == (GS { v: pt(*tp).1, ..step(old(self).gs(), pt(*tp)) }),
            final(self).bstream.data@.len() <= old(self).bstream.data@.len() + 50""",
         pre="""proof {
            let s = self.gs(); let b = self.bstream@; let p = pt(*tp);
            lemma_flags(); lemma_step_ok(s, p);
            assert forall|y: u64, n: int| 0 <= n <= 64 implies #[trigger] bits_of(be64(y), 64).skip(64 - n) == low_bits(y, n) by { lemma_low_skip(y, n); }
            lemma_be64_bits(p.0); lemma_be64_bits(p.1); lemma_be64_bits(w(p.0 - s.t));
            assert forall|x: Seq<bool>, y: Seq<bool>, z: Seq<bool>| #[trigger] ((x + y) + z) == x + (y + z) by { assert((x + y) + z =~= x + (y + z)); }
            assert(be64(p.0).len() == 8 && be64(p.1).len() == 8);
            assert forall|y: u64| #[trigger] low_zero(be64(y).last(), 0) by {}
         }""")
    U.fn(G, "as_bytes_vec", c, spec="ensures r@ =~= self.bstream.data@.push(self.bstream.remaining)")
    U.close()



def decoder(U):
    c = "^impl GorillaDecompactor$"
    U.raw(r"""
impl GorillaDecompactor {
    // the bits still to be read are the encoding of value v followed by rest
    spec fn at_val(self, v: u64, rest: Seq<bool>) -> bool {
        &&& self.source.ok() && self.leading <= 31 && self.leading + self.tailing <= 63
        &&& self.source.left() =~= enc_val(self.gs(), v) + rest
    }
    spec fn at(self, q: Seq<(u64, u64)>) -> bool { self.wf() && valid(self.gs(), q) && self.source.left() =~= enc_all(self.gs(), q) }
}
proof fn lemma_bits1(d: Seq<u8>, n: int, i: int)
    requires 0 <= i < n,
    ensures bits_of(d, n)[i] == bit8(d[i / 8], 7 - i % 8),
{}
// shifting the top n bits of a byte down gives the number they spell
proof fn lemma_top(b: u8, x: u64, n: int)
    requires n == 5 || n == 6, forall|i: int| 0 <= i < n ==> #[trigger] bit8(b, 7 - i) == bit64(x, n - 1 - i), x < 64, n == 5 ==> x < 32,
    ensures (b >> ((8 - n) as u8)) == x as u8,
{
    let y = b >> ((8 - n) as u8); let z = x as u8;
    assert forall|k: int| 0 <= k < 8 implies bit8(y, k) == bit8(z, k) by {
        lemma_shr(b, 8 - n, k);
        let s = k as u64; let s8 = k as u8;
        assert((z >> s8) & 1u8 == 1u8 <==> (x >> s) & 1u64 == 1u64) by (bit_vector) requires x < 64, z == x as u8, s == s8 as u64, s < 8;
        if k < n { assert(bit8(b, 7 - (n - 1 - k)) == bit64(x, k)); }
        else {
            if n == 5 { assert((x >> s) & 1u64 == 0u64) by (bit_vector) requires x < 32, s >= 5, s < 8; }
            else { assert((x >> s) & 1u64 == 0u64) by (bit_vector) requires x < 64, s >= 6, s < 8; }
        }
    }
    lemma_bit8_eq(y, z);
}
// 64 is written in 6 bits as 0
proof fn lemma_sig6(x: u64)
    requires 1 <= x <= 64,
    ensures low_bits(x, 6) =~= low_bits(x % 64, 6),
{
    if x == 64 {
        assert forall|i: int| 0 <= i < 6 implies low_bits(64, 6)[i] == low_bits(0, 6)[i] by {
            let s = (5 - i) as u64;
            assert((64u64 >> s) & 1u64 == 0u64) by (bit_vector) requires s < 6;
            assert((0u64 >> s) & 1u64 == 0u64) by (bit_vector) requires s < 6;
        }
    }
}
""")
    U.open("impl GorillaDecompactor")
    U.fn(G, "new", c, spec="ensures r.source.data == bstream, r.source.cursor == 0, r.t == 0, r.idx == 0, r.leading == 0, r.tailing == 0, r.d == 0")
    U.fn(G, "decompact_values", c, subs=SUBS, ghost="Ghost(v): Ghost<u64>, Ghost(rest): Ghost<Seq<bool>>",
         attrs="#[verifier::spinoff_prover] #[verifier::rlimit(100)]",
         spec="""requires old(self).at_val(v, rest), old(self).idx >= 1,
         ensures r.is_some(), fbits(r.unwrap()) == v, final(self).source.ok(), final(self).source.left() =~= rest, fbits(final(self).v) == v,
            final(self).leading == new_lead(old(self).gs(), v), final(self).tailing == new_tail(old(self).gs(), v),
            final(self).t == old(self).t, final(self).d == old(self).d, final(self).idx == old(self).idx""",
         pre="""let ghost s = self.gs(); let ghost x = v ^ s.v; let ghost left0 = self.source.left();
         proof {
            lemma_flags(); lemma_xor(s.v, v); lemma_xor(v, s.v);
            if x != 0 { lemma_zeros(x); lemma_sig6((64 - clz(x) - ctz(x)) as u64); }
            let e = enc_val(s, v);
            assert(left0.len() == e.len() + rest.len());
            assert(left0[0] == e[0]);
            assert(e.len() > 1 ==> left0[1] == e[1]);
            assert forall|d: Seq<u8>, n: int, i: int| 0 <= i < n implies #[trigger] bits_of(d, n)[i] == bit8(d[i / 8], 7 - i % 8) by {}
         }""",
         hints=[
            (r"\.read_next_n_bit\(next_bytes\.as_mut_slice\(\), 2\);", "after", """proof {
                let e = enc_val(s, v);
                assert(rl == 1 || rl == 2);
                assert(bits_of(next_bytes@, rl as int)[0] == left0[0]);
                assert(rl == 2 ==> bits_of(next_bytes@, rl as int)[1] == left0[1]);
                assert(self.source.left() =~= left0.skip(rl as int));
                if x == 0 { assert(left0.skip(1) =~= rest); }
                else if reuse(s, v) { assert(left0.skip(2) =~= enc_sig(x, s.lead, s.tail) + rest); }
                else { assert(left0.skip(2) =~= low_bits(clz(x) as u64, 5) + (low_bits((64 - clz(x) - ctz(x)) as u64, 6) + (enc_sig(x, clz(x), ctz(x)) + rest))); }
            }"""),
            (r"\.read_next_n_bit\(bytes\.as_mut_slice\(\), len\);", "after", """proof {
                let e = enc_sig(x, s.lead, s.tail);
                assert(self.source.left() =~= rest);
                assert(left0.skip(2).take(len as int) =~= e);
                assert forall|i: int| 0 <= i < 64 implies #[trigger] bit8(bytes@[i / 8], 7 - i % 8) == (i < 64 - s.lead - s.tail && e[i]) by {
                    if i < len { assert(bits_of(bytes@, len as int)[i] == e[i]); }
                    else if i < (len + 7) / 8 * 8 { } else { assert(bytes@[i / 8] == 0u8); lemma_consts(7 - i % 8); }
                }
                assert forall|b: u64| #[trigger] be64(b) == bytes@ implies b >> (s.lead as u64) == x by { lemma_sig(x, s.lead, s.tail, bytes@, b); }
            }"""),
            (r"\.read_next_n_bit\(leading_zeros_bytes\.as_mut_slice\(\), 5\);", "after", """proof {
                let e = low_bits(clz(x) as u64, 5);
                assert(self.source.left() =~= low_bits((64 - clz(x) - ctz(x)) as u64, 6) + (enc_sig(x, clz(x), ctz(x)) + rest));
                assert(left0.skip(2).take(5) =~= e);
                assert forall|i: int| 0 <= i < 5 implies #[trigger] bit8(leading_zeros_bytes@[0], 7 - i) == bit64(clz(x) as u64, 4 - i) by { assert(bits_of(leading_zeros_bytes@, 5)[i] == e[i]); }
                lemma_top(leading_zeros_bytes@[0], clz(x) as u64, 5);
            } let ghost left1 = self.source.left();"""),
            (r"\.read_next_n_bit\(sigbits_len\.as_mut_slice\(\), 6\);", "after", """proof {
                let z = ((64 - clz(x) - ctz(x)) as u64) % 64;
                let e = low_bits(z, 6);
                assert(self.source.left() =~= enc_sig(x, clz(x), ctz(x)) + rest);
                assert(left1.take(6) =~= e);
                assert forall|i: int| 0 <= i < 6 implies #[trigger] bit8(sigbits_len@[0], 7 - i) == bit64(z, 5 - i) by { assert(bits_of(sigbits_len@, 6)[i] == e[i]); }
                lemma_top(sigbits_len@[0], z, 6);
            } let ghost left2 = self.source.left();"""),
            (r"\.read_next_n_bit\(sigbit\.as_mut_slice\(\), sig_len as usize\);", "after", """proof {
                let e = enc_sig(x, clz(x), ctz(x)); let len = sig_len as int;
                assert(self.source.left() =~= rest);
                assert(left2.take(len) =~= e);
                assert forall|i: int| 0 <= i < 64 implies #[trigger] bit8(sigbit@[i / 8], 7 - i % 8) == (i < 64 - clz(x) - ctz(x) && e[i]) by {
                    if i < len { assert(bits_of(sigbit@, len)[i] == e[i]); }
                    else if i < (len + 7) / 8 * 8 { } else { assert(sigbit@[i / 8] == 0u8); lemma_consts(7 - i % 8); }
                }
                assert forall|b: u64| #[trigger] be64(b) == sigbit@ implies b >> (clz(x) as u64) == x by { lemma_sig(x, clz(x), ctz(x), sigbit@, b); }
            }"""),
         ])
    U.fn(G, "decompact_timestamp", c, subs=SUBS, ghost="Ghost(x): Ghost<i64>, Ghost(rest): Ghost<Seq<bool>>",
         spec="""requires old(self).source.ok(), range == 8 || range == 16 || range == 32 || range == 64, old(self).source.left() =~= low_bits(x as u64, range as int) + rest,
            range == 8 ==> -0x80 <= x < 0x80, range == 16 ==> -0x8000 <= x < 0x8000, range == 32 ==> -0x8000_0000 <= x < 0x8000_0000,
            0 <= old(self).d + x < 0x8000_0000_0000_0000, old(self).t + old(self).d + x < 0x8000_0000_0000_0000, old(self).d >= 0,
         ensures r == Some((old(self).t + old(self).d + x) as u64), final(self).d == old(self).d + x, final(self).source.ok(), final(self).source.left() =~= rest,
            final(self).t == old(self).t, final(self).v == old(self).v, final(self).leading == old(self).leading, final(self).tailing == old(self).tailing, final(self).idx == old(self).idx""",
         hints=[(r"\.read_next_n_bit\(bytes\.as_mut_slice\(\), range\);", "after", """proof {
                assert(self.source.left() =~= rest);
                assert(old(self).source.left().take(range as int) =~= low_bits(x as u64, range as int));
                lemma_bytes(bytes@, x as u64, range as int / 8);
                lemma_ben8(x as u64);
                assert forall|y: i64| range == 8 && -0x80 <= y < 0x80 && #[trigger] ben(y as u64, 1) == bytes@ implies y == x by { lemma_small(x, y, 1); }
                assert forall|y: i64| range == 16 && -0x8000 <= y < 0x8000 && #[trigger] ben(y as u64, 2) == bytes@ implies y == x by { lemma_small(x, y, 2); }
                assert forall|y: i64| range == 32 && -0x8000_0000 <= y < 0x8000_0000 && #[trigger] ben(y as u64, 4) == bytes@ implies y == x by { lemma_small(x, y, 4); }
                assert forall|y: i64| #[trigger] be64(y as u64) == be64(x as u64) implies y == x by { lemma_be64_inj(x as u64, y as u64); assert(x == y) by (bit_vector) requires x as u64 == y as u64; }
            }""")],
         pre="""proof { assert(vec_of4()[0] == 8 && vec_of4()[1] == 16 && vec_of4()[2] == 32 && vec_of4()[3] == 64); assert(vec_of4().contains(8) && vec_of4().contains(16) && vec_of4().contains(32) && vec_of4().contains(64));
            assert forall|q: Seq<usize>| q =~= vec_of4() implies #[trigger] q.contains(range) by {} }""")
    U.fn(G, "next", "^impl Iterator for GorillaDecompactor$", ghost="Ghost(q): Ghost<Seq<(u64, u64)>>", attrs="#[verifier::spinoff_prover] #[verifier::rlimit(100)]",
         sig_subs=[(r"Self::Item", "TimePoint", "Self::Item is TimePoint")],
         subs=SUBS + [
            (r"\.decompact_values\(\)", ".decompact_values(Ghost(gv), Ghost(grest))", "erased ghost arguments"),
            (r"\.decompact_timestamp\((\d+)\)", r".decompact_timestamp(\1, Ghost(dod(gs, q[0].0) as i64), Ghost(enc_val(gs, gv) + grest))", "erased ghost arguments")],
         spec="""requires old(self).at(q), old(self).idx < usize::MAX,
         ensures q.len() == 0 ==> r.is_none(), q.len() > 0 ==> r.is_some() && pt(r.unwrap()) == q[0] && final(self).at(q.drop_first()) && final(self).idx == old(self).idx + 1""",
         pre="""let ghost gs = self.gs(); let ghost left0 = self.source.left();
         let ghost gv = q[0].1; let ghost gnext = step(gs, q[0]); let ghost grest = enc_all(gnext, q.drop_first());
         proof {
            lemma_flags();
            if q.len() > 0 {
                lemma_step_ok(gs, q[0]);
                lemma_next(gs, q, left0);
            } else { assert(left0.len() == 0); }
            assert forall|a: u64, b: u64| #[trigger] be64(a) == #[trigger] be64(b) implies a == b by { lemma_be64_inj(a, b); }
            assert forall|a: i64, b: i64| #[trigger] be64(a as u64) == #[trigger] be64(b as u64) implies a == b by { lemma_be64_inj(a as u64, b as u64); assert(a == b) by (bit_vector) requires a as u64 == b as u64; }
         }""",
         hints=[
            (r"\.read_next_n_bit\(delta_v\.as_mut_slice\(\), timestamp_size\);", "after", """proof {
                if q.len() > 0 { lemma_bytes(delta_v@, w(q[0].0 - gs.t), 8); lemma_ben8(w(q[0].0 - gs.t)); }
            }"""),
            (r"\.read_next_n_bit\(dod_flag_bytes\.as_mut_slice\(\), 4\);", "after", """proof {
                if q.len() > 0 {
                    assert(l >= 2);
                    let b = dod_flag_bytes@[0];
                    assert(bits_of(dod_flag_bytes@, l as int)[0] == left0[0] && left0[0] == bit8(b, 7));
                    assert(bits_of(dod_flag_bytes@, l as int)[1] == left0[1] && left0[1] == bit8(b, 6));
                    if l > 2 { assert(bits_of(dod_flag_bytes@, l as int)[2] == left0[2] && left0[2] == bit8(b, 5)); }
                    if l > 3 { assert(bits_of(dod_flag_bytes@, l as int)[3] == left0[3] && left0[3] == bit8(b, 4)); }
                }
            }"""),
         ])
    U.close()
    U.raw(COLLECT)
    U.raw("spec fn vec_of4() -> Seq<usize> { seq![8usize, 16usize, 32usize, 64usize] }\n")


COLLECT = r"""
// how the bits of the next point lie in the stream
spec fn dod_at(left0: Seq<bool>, x: int, tl: Seq<bool>) -> bool {
    &&& left0.len() >= 2
    &&& x == 0 ==> !left0[0] && left0.skip(1) == tl
    &&& x != 0 ==> left0.len() > 4 && left0[0]
    &&& x != 0 && -0x80 < x < 0x80 ==> !left0[1] && left0.skip(2) == low_bits(w(x), 8) + tl
    &&& !(-0x80 < x < 0x80) ==> left0[1]
    &&& !(-0x80 < x < 0x80) && -0x8000 < x < 0x8000 ==> !left0[2] && left0.skip(3) == low_bits(w(x), 16) + tl
    &&& !(-0x8000 < x < 0x8000) ==> left0[2]
    &&& !(-0x8000 < x < 0x8000) && -0x8000_0000 < x < 0x8000_0000 ==> !left0[3] && left0.skip(4) == low_bits(w(x), 32) + tl
    &&& !(-0x8000_0000 < x < 0x8000_0000) ==> left0[3] && left0.skip(4) == low_bits(w(x), 64) + tl
}
spec fn halves(d: Seq<u8>, p: (u64, u64)) -> bool { d.subrange(0, 8) == be64(p.0) && d.subrange(8, 16) == be64(p.1) }
spec fn first_at(left0: Seq<bool>, p: (u64, u64), grest: Seq<bool>) -> bool {
    &&& left0.len() >= 128 && left0.skip(128) == grest
    &&& forall|d: Seq<u8>| d.len() == 16 && #[trigger] bits_of(d, 128) == left0.take(128) ==> halves(d, p)
}
proof fn lemma_first(left0: Seq<bool>, p: (u64, u64), grest: Seq<bool>)
    requires left0 =~= low_bits(p.0, 64) + low_bits(p.1, 64) + grest,
    ensures first_at(left0, p, grest),
{
    assert(left0.take(128) =~= low_bits(p.0, 64) + low_bits(p.1, 64)); assert(left0.skip(128) =~= grest);
    assert forall|d: Seq<u8>| d.len() == 16 && #[trigger] bits_of(d, 128) == left0.take(128) implies halves(d, p) by {
        let a = d.subrange(0, 8); let b = d.subrange(8, 16);
        assert forall|i: int| 0 <= i < 64 implies bits_of(a, 64)[i] == low_bits(p.0, 64)[i] by { assert(bits_of(d, 128)[i] == left0.take(128)[i]); }
        assert forall|i: int| 0 <= i < 64 implies bits_of(b, 64)[i] == low_bits(p.1, 64)[i] by { assert(bits_of(d, 128)[i + 64] == left0.take(128)[i + 64]); }
        lemma_bytes(a, p.0, 8); lemma_ben8(p.0); lemma_bytes(b, p.1, 8); lemma_ben8(p.1);
    }
    assert(left0.len() >= 128);
    assert(left0.skip(128) == grest);
    assert(forall|d: Seq<u8>| d.len() == 16 && #[trigger] bits_of(d, 128) == left0.take(128) ==> halves(d, p));
}
proof fn lemma_dod(s: GS, t: u64, left0: Seq<bool>, tl: Seq<bool>)
    requires s.len >= 2, left0 == enc_ts(s, t) + tl, tl.len() >= 1,
    ensures dod_at(left0, dod(s, t), tl),
{
    let x = dod(s, t); let e = enc_ts(s, t);
    if x == 0 { assert(e == seq![false]); assert(left0.skip(1) =~= tl); }
    else if -0x80 < x < 0x80 { assert(e == seq![true, false] + low_bits(w(x), 8)); assert(left0.skip(2) =~= low_bits(w(x), 8) + tl); }
    else if -0x8000 < x < 0x8000 { assert(e == seq![true, true, false] + low_bits(w(x), 16)); assert(left0.skip(3) =~= low_bits(w(x), 16) + tl); }
    else if -0x8000_0000 < x < 0x8000_0000 { assert(e == seq![true, true, true, false] + low_bits(w(x), 32)); assert(left0.skip(4) =~= low_bits(w(x), 32) + tl); }
    else { assert(e == seq![true, true, true, true] + low_bits(w(x), 64)); assert(left0.skip(4) =~= low_bits(w(x), 64) + tl); }
}
proof fn lemma_next(gs: GS, q: Seq<(u64, u64)>, left0: Seq<bool>)
    requires gs_ok(gs), q.len() > 0, left0 =~= enc_all(gs, q),
    ensures ({
        let grest = enc_all(step(gs, q[0]), q.drop_first()); let tl = enc_val(gs, q[0].1) + grest;
        &&& gs.len == 0 ==> first_at(left0, q[0], grest)
        &&& gs.len == 1 ==> left0.len() >= 65 && left0.take(64) == low_bits(w(q[0].0 - gs.t), 64) && left0.skip(64) == tl
        &&& gs.len >= 2 ==> dod_at(left0, dod(gs, q[0].0), tl)
    }),
{
    let p = q[0]; let grest = enc_all(step(gs, p), q.drop_first()); let e = enc_ts(gs, p.0); let ev = enc_val(gs, p.1);
    assert(left0 == enc_pt(gs, p) + grest);
    if gs.len == 0 { lemma_first(left0, p, grest); }
    else {
        assert(ev.len() >= 1);
        assert(left0 =~= e + (ev + grest));
        if gs.len == 1 { assert(left0.take(64) =~= e); assert(left0.skip(64) =~= ev + grest); }
        else { lemma_dod(gs, p.0, left0, ev + grest); }
    }
}
impl GorillaDecompactor {
    #[verifier::external_body]
    fn clone(&self) -> (r: GorillaDecompactor) ensures r == *self { unimplemented!() }
}
// Vec::from_iter(it): calls next until it returns None
fn vx_collect(it: GorillaDecompactor, Ghost(q): Ghost<Seq<(u64, u64)>>) -> (r: Vec<TimePoint>)
    requires it.at(q), it.idx == 0, q.len() < usize::MAX,
    ensures pts(r@) =~= q,
{
    let mut it = it;
    let mut r: Vec<TimePoint> = Vec::new();
    proof { assert(q.skip(0) =~= q); assert(pts(r@) =~= q.take(0)); }
    loop
        invariant it.at(q.skip(r@.len() as int)), it.idx == r@.len(), r@.len() <= q.len() < usize::MAX, pts(r@) =~= q.take(r@.len() as int),
        decreases q.len() - r@.len(),
    {
        let ghost rest = q.skip(r@.len() as int);
        match it.next(Ghost(rest)) {
            Some(p) => {
                proof { assert(rest.drop_first() =~= q.skip(r@.len() as int + 1)); }
                r.push(p);
                proof { assert(pts(r@) =~= q.take(r@.len() as int)); }
            }
            None => { proof { assert(q.take(r@.len() as int) =~= q); } return r; }
        }
    }
}
"""

SPEC2 = r"""
#[verifier::external_body]
fn vx_str() -> (r: String) { String::new() }
// a run of points in the uncompressed codec
spec fn raw1(p: (u64, u64)) -> Seq<u8> { be64(p.0) + be64(p.1) }
spec fn raw(q: Seq<(u64, u64)>) -> Seq<u8>
    decreases q.len(),
{ if q.len() == 0 { Seq::empty() } else { raw(q.drop_last()) + raw1(q.last()) } }
proof fn lemma_raw(q: Seq<(u64, u64)>, k: int)
    requires 0 <= k < q.len(),
    ensures raw(q).len() == 16 * q.len(), raw(q).subrange(16 * k, 16 * k + 16) =~= raw1(q[k]),
    decreases q.len(),
{
    if q.len() == 1 { assert(raw(q.drop_last()) =~= Seq::<u8>::empty()); } else { lemma_raw(q.drop_last(), if k < q.len() - 1 { k } else { 0 }); }
    let d = raw(q.drop_last());
    if k < q.len() - 1 { assert(raw(q).subrange(16 * k, 16 * k + 16) =~= d.subrange(16 * k, 16 * k + 16)); }
}
proof fn lemma_raw_len(q: Seq<(u64, u64)>)
    ensures raw(q).len() == 16 * q.len(),
{ if q.len() > 0 { lemma_raw(q, 0); } }
impl Compactor {
    spec fn nv(self) -> Vec<u8> { match self { Compactor::None(v) => v, _ => arbitrary() } }
    spec fn g(self) -> GorillaCompactor { match self { Compactor::Gorilla(g) => g, _ => arbitrary() } }
    spec fn is_g(self) -> bool { self matches Compactor::Gorilla(_) }
    spec fn fresh_for(self, q: Seq<(u64, u64)>) -> bool {
        match self {
            Compactor::Gorilla(c) => c.wf() && valid(c.gs(), q) && c.bstream.data@.len() + 60 * q.len() + 120 < maxlen() && c.len + q.len() < usize::MAX,
            Compactor::None(v) => true,
            Compactor::Simple => false,
        }
    }
    // the bytes handed out for the current state
    spec fn payload(self) -> Seq<u8> {
        match self {
            Compactor::Gorilla(c) => c.bstream.data@.push(c.bstream.remaining).push(1u8),
            Compactor::None(v) => v@.push(3u8),
            Compactor::Simple => Seq::empty(),
        }
    }
    // self became fin by compacting the points q
    spec fn grew(self, fin: Compactor, q: Seq<(u64, u64)>) -> bool {
        match (self, fin) {
            (Compactor::Gorilla(a), Compactor::Gorilla(b)) => b.wf() && b.bstream@ =~= a.bstream@ + enc_all(a.gs(), q) && b.gs() == run(a.gs(), q)
                && b.bstream.data@.len() <= a.bstream.data@.len() + 50 * q.len() && b.len == a.len + q.len(),
            (Compactor::None(a), Compactor::None(b)) => b@ =~= a@ + raw(q),
            _ => false,
        }
    }
}
impl Decompactor {
    spec fn g(self) -> GorillaDecompactor { match self { Decompactor::Gorilla(g) => g, _ => arbitrary() } }
    // the payload of a fresh Gorilla compactor that compacted q
    spec fn holds_gorilla(self, q: Seq<(u64, u64)>) -> bool {
        match self { Decompactor::Gorilla(d) => d.source.cursor == 0 && d.idx == 0 && d.at(q), _ => false }
    }
}
spec fn tag(t: CompactType) -> u8 { match t { CompactType::Gorilla => 1, CompactType::Simple => 2, CompactType::None => 3 } }
"""

STEPS = r"""
proof fn lemma_gstep(s: GS, q: Seq<(u64, u64)>, i: int)
    requires valid(s, q), 0 <= i < q.len(),
    ensures q.take(i + 1) == q.take(i).push(q[i]), enc_all(s, q.take(i + 1)) =~= enc_all(s, q.take(i)) + enc_pt(run(s, q.take(i)), q[i]),
        run(s, q.take(i + 1)) == step(run(s, q.take(i)), q[i]), may_follow(run(s, q.take(i)), q[i]),
{ assert(q.take(i + 1) =~= q.take(i).push(q[i])); lemma_push(s, q.take(i), q[i]); lemma_valid_take(s, q, i); }
proof fn lemma_rstep(q: Seq<(u64, u64)>, i: int)
    requires 0 <= i < q.len(),
    ensures q.take(i + 1) == q.take(i).push(q[i]), raw(q.take(i + 1)) =~= raw(q.take(i)) + raw(seq![q[i]]),
{
    assert(q.take(i + 1) =~= q.take(i).push(q[i])); assert(q.take(i).push(q[i]).drop_last() =~= q.take(i));
    reveal_with_fuel(raw, 2); assert(seq![q[i]].drop_last() =~= Seq::<(u64, u64)>::empty());
}
"""

TOP = r"""
// ---------- the property: compress, then decompress, through the public entry points ----------
fn vx_roundtrip_gorilla(data: Vec<TimePoint>) -> (r: Vec<TimePoint>)
    requires valid_times(data@), 60 * data@.len() + 120 < maxlen(),
    ensures pts(r@) =~= pts(data@),
{
    let ghost q = pts(data@);
    proof { lemma_valid_times(data@, data@.len() as int); assert(data@.take(data@.len() as int) =~= data@); }
    let mut c = Compactor::new(CompactType::Gorilla);
    let ghost c0 = c;
    proof { lemma_any_start(c0.g().gs(), q); }
    let p = c.compact_vec(data);
    proof {
        let b = c.g();
        assert(b.bstream@ =~= enc_all(c0.g().gs(), q));
        assert(p@.drop_last() =~= b.bstream.data@.push(b.bstream.remaining));
        assert(p@.drop_last().drop_last() =~= b.bstream.data@);
    }
    match Decompactor::from(CompactType::Gorilla, p) {
        Ok(d) => {
            let mut d = d;
            proof { let g = d.g(); lemma_any_start(g.gs(), q); assert(g.source.data@ =~= c.g().bstream@); assert(g.source.left() =~= g.source.data@); }
            match d.decompact(Ghost(q)) { Ok(v) => v, Err(_) => vx_panic() }
        }
        Err(_) => vx_panic(),
    }
}
fn vx_roundtrip_none(data: Vec<TimePoint>) -> (r: Vec<TimePoint>)
    requires data@.len() < 0x100_0000_0000,
    ensures pts(r@) =~= pts(data@),
{
    let ghost q = pts(data@);
    let mut c = Compactor::new(CompactType::None);
    let p = c.compact_vec(data);
    proof { assert(p@.drop_last() =~= raw(q)); }
    match Decompactor::from(CompactType::None, p) {
        Ok(d) => { let mut d = d; match d.decompact(Ghost(q)) { Ok(v) => v, Err(_) => vx_panic() } }
        Err(_) => vx_panic(),
    }
}
spec fn valid_times(s: Seq<TimePoint>) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].timestamp < 0x8000_0000_0000_0000 && (i > 0 ==> s[i - 1].timestamp <= s[i].timestamp)
}
proof fn lemma_valid_times(s: Seq<TimePoint>, n: int)
    requires valid_times(s), 0 <= n <= s.len(),
    ensures valid(gs0(), pts(s.take(n))), run(gs0(), pts(s.take(n))).len == n, n > 0 ==> run(gs0(), pts(s.take(n))).t == s[n - 1].timestamp,
    decreases n,
{
    if n == 0 { assert(pts(s.take(0)) =~= Seq::<(u64, u64)>::empty()); }
    else {
        lemma_valid_times(s, n - 1);
        assert(pts(s.take(n)) =~= pts(s.take(n - 1)).push(pt(s[n - 1])));
        lemma_push(gs0(), pts(s.take(n - 1)), pt(s[n - 1]));
        if n > 1 { assert(s[n - 2].timestamp <= s[n - 1].timestamp) by { let i = n - 1; assert(s[i - 1].timestamp <= s[i].timestamp); } }
    }
}
// the value fields of the two start states are never looked at
proof fn lemma_any_start(s: GS, q: Seq<(u64, u64)>)
    requires s.len == 0, s.lead == 0, s.tail == 0, s.d == 0,
    ensures enc_all(s, q) == enc_all(gs0(), q), valid(s, q) == valid(gs0(), q),
{
    if q.len() > 0 { assert(step(s, q[0]) == step(gs0(), q[0])); assert(enc_pt(s, q[0]) == enc_pt(gs0(), q[0])); }
}
"""


def codec(U):
    subs = SUBS + lib.REF_SUBS + lib.PANIC_SUBS + [
        (r"compaction_error!\(([^;]*?)\)\);", r"MonolithErr::CompactionErr(\1));", "macro compaction_error! expanded"),
        (r'"[^"]*"\.into\(\)', "vx_str()", "text of an error message dropped"),
        (r"Vec::from_iter\((\w+)\.clone\(\)\)", r"vx_collect(\1.clone(), Ghost(q))", "Vec::from_iter(iterator) written as the loop over next()"),
        (r"in (\w+)\.chunks\(([^{]*)\)\s*\{", r"in vx_chunks(\1, \2) {", "slice::chunks written vx_chunks"),
    ]
    lib.errors(U)
    U.raw(lib.PANIC)
    U.item(C, "enum", "CompactType", prefix="#[derive(Clone, Copy)]\n")
    U.item(C, "enum", "Compactor")
    U.item(C, "enum", "Decompactor")
    U.raw(SPEC2)
    U.raw(r"""
// slice::chunks
#[verifier::external_body]
fn vx_chunks<'a>(v: &'a Vec<u8>, n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0,
    ensures r@.len() == (v@.len() + n - 1) / (n as int),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@.subrange(i * n, if (i + 1) * n <= v@.len() { (i + 1) * n } else { v@.len() as int }),
{ v.chunks(n).collect() }
""")
    U.raw(STEPS)
    U.open("impl Compactor")
    c = "^impl Compactor$"
    U.fn(C, "new", c, subs=subs, spec="""ensures name == CompactType::Gorilla ==> (r matches Compactor::Gorilla(g) && g.wf() && g.bstream@ =~= Seq::<bool>::empty() && g.bstream.data@.len() == 0 && g.gs() == (GS { v: g.gs().v, ..gs0() })),
        name == CompactType::None ==> (r matches Compactor::None(v) && v@.len() == 0), name == CompactType::Simple ==> r == Compactor::Simple""")
    U.fn(C, "compact", c, subs=subs, spec="""requires old(self).fresh_for(seq![pt(*timepoint)]),
        ensures old(self).grew(*final(self), seq![pt(*timepoint)])""",
        loops=[{"iter": "it", "inv": "v0@ + be64(timepoint.timestamp).take(it.index@) =~= _v@"}, {"iter": "it", "inv": "v0@ + be64(timepoint.timestamp) + be64(fbits(timepoint.value)).take(it.index@) =~= _v@"}],
        pre="""let ghost v0: Vec<u8> = self.nv();
        proof {
            let q = seq![pt(*timepoint)];
            reveal_with_fuel(enc_all, 2); reveal_with_fuel(run, 2); reveal_with_fuel(raw, 2); reveal_with_fuel(valid, 2);
            assert(q.drop_first() =~= Seq::<(u64, u64)>::empty()); assert(q.drop_last() =~= Seq::<(u64, u64)>::empty());
            assert(q[0] == pt(*timepoint) && q.last() == pt(*timepoint));
            assert forall|x: Seq<u8>| #[trigger] x.take(8) =~= x || x.len() != 8 by {}
        }""")
    U.fn(C, "get_bytes_vec", c, subs=subs, spec="requires !(self matches Compactor::Simple), ensures r@ =~= self.payload()")
    U.fn(C, "compact_vec", c, subs=subs, attrs="#[verifier::spinoff_prover] #[verifier::rlimit(40)]",
         spec="""requires old(self).fresh_for(pts(data@)),
         ensures old(self).grew(*final(self), pts(data@)), r@ =~= final(self).payload()""",
         pre="""let ghost c0 = *self; let ghost ds = data@; let ghost q = pts(data@);
         proof {
            reveal_with_fuel(enc_all, 1); reveal_with_fuel(run, 1);
            assert(q.take(0) =~= Seq::<(u64, u64)>::empty()); assert(q.take(q.len() as int) =~= q);
         }""",
         loops=[{"iter": "it", "inv": "it.seq() == ds, q == pts(ds), c0.fresh_for(q), c0.grew(Compactor::Gorilla(*compator), q.take(it.index@))", "start": "proof { lemma_gstep(c0.g().gs(), q, it.index@); assert(pt(tp) == q[it.index@]); }"},
                {"iter": "it", "inv": "it.seq() == ds, q == pts(ds), c0 matches Compactor::None(_), c0.grew(*self, q.take(it.index@))", "start": "proof { lemma_rstep(q, it.index@); assert(pt(tp) == q[it.index@]); }"}])
    U.close()
    U.open("impl Decompactor")
    d = "^impl Decompactor$"
    U.fn(C, "from", d, subs=subs, spec="""ensures
            // wrong tag (or no tag) is an error of the mismatch kind, the right tag is not
            (t == CompactType::Gorilla || t == CompactType::None) ==> (r.is_ok() <==> data@.len() > 0 && data@.last() == tag(t)),
            (t == CompactType::Gorilla || t == CompactType::None) && r.is_err() ==> (r matches Err(MonolithErr::CompactionErr(CompactionErr::CompactionTypeDontMatch(a, b))) && a == tag(t) && b == (if data@.len() > 0 { data@.last() } else { 0u8 })),
            t == CompactType::Simple ==> r.is_err(),
            t == CompactType::None && r.is_ok() ==> (r matches Ok(Decompactor::None(v)) && v@ =~= data@.drop_last()),
            t == CompactType::Gorilla && r.is_ok() ==> (r matches Ok(Decompactor::Gorilla(g)) && g.idx == 0 && g.t == 0 && g.leading == 0 && g.tailing == 0 && g.d == 0 && g.source.cursor == 0
                && (data@.len() > 1 ==> g.source.data.data@ =~= data@.drop_last().drop_last() && g.source.data.remaining == data@.drop_last().last()))""")
    U.fn(C, "decompact", d, subs=subs, ghost="Ghost(q): Ghost<Seq<(u64, u64)>>",
         spec="""requires old(self).holds_gorilla(q) || (*old(self) matches Decompactor::None(v) && v@ =~= raw(q)), q.len() < 0x800_0000_0000_0000,
         ensures r.is_ok(), pts(r.unwrap()@) =~= q""",
         pre="""proof { lemma_raw_len(q); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] raw(q).subrange(i * 16, i * 16 + 16)) == raw1(q[i]) by { lemma_raw(q, i); }
             assert forall|k: int| 0 <= k < q.len() implies raw1(#[trigger] q[k]).subrange(0, 8) =~= be64(q[k].0) && raw1(q[k]).subrange(8, 16) =~= be64(q[k].1) by {}
             assert forall|a: u64, b: u64| #[trigger] be64(a) == #[trigger] be64(b) implies a == b by { lemma_be64_inj(a, b); } }""",
         loops=[{"iter": "it", "inv": "timepoint_size == 16, it.seq().len() == q.len(), res@.len() == it.index@, pts(res@) =~= q.take(it.index@), raw(q).len() == 16 * q.len(), forall|i: int| 0 <= i < q.len() ==> (#[trigger] it.seq()[i])@ == raw(q).subrange(i * 16, i * 16 + 16), forall|i: int| 0 <= i < q.len() ==> (#[trigger] raw(q).subrange(i * 16, i * 16 + 16)) == raw1(q[i]), forall|k: int| 0 <= k < q.len() ==> raw1(#[trigger] q[k]).subrange(0, 8) =~= be64(q[k].0) && raw1(q[k]).subrange(8, 16) =~= be64(q[k].1), forall|a: u64, b: u64| #[trigger] be64(a) == #[trigger] be64(b) ==> a == b", "start": "proof { assert(_b@ == raw1(q[it.index@])); }"}])
    U.close()
    U.raw(TOP)


def build():
    from ..unit import Unit
    U = Unit("gorilla")
    U.raw(lib.BYTES)
    bstream.add(U)
    items(U)
    encoder(U)
    decoder(U)
    codec(U)
    return U
