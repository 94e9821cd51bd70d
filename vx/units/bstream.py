"""Bstream / BstreamSeeker: the bit stream is a sequence of bits."""
from . import lib
F = "src/compaction/mod.rs"

SPEC = r"""
proof fn lemma_or(x: u8, y: u8, k: int)
    requires 0 <= k < 8,
    ensures bit8(x | y, k) == (bit8(x, k) || bit8(y, k)),
{
    let s = k as u8;
    assert(((x | y) >> s) & 1u8 == 1u8 <==> ((x >> s) & 1u8 == 1u8 || (y >> s) & 1u8 == 1u8)) by (bit_vector);
}
proof fn lemma_and(x: u8, y: u8, k: int)
    requires 0 <= k < 8,
    ensures bit8(x & y, k) == (bit8(x, k) && bit8(y, k)),
{
    let s = k as u8;
    assert(((x & y) >> s) & 1u8 == 1u8 <==> ((x >> s) & 1u8 == 1u8 && (y >> s) & 1u8 == 1u8)) by (bit_vector);
}
proof fn lemma_shr(x: u8, n: int, k: int)
    requires 0 <= k < 8, 0 <= n < 8,
    ensures bit8(x >> (n as u8), k) == (k + n < 8 && bit8(x, k + n)),
{
    let s = k as u8; let m = n as u8;
    if k + n < 8 {
        let t = (k + n) as u8;
        assert(((x >> m) >> s) & 1u8 == 1u8 <==> (x >> t) & 1u8 == 1u8) by (bit_vector) requires t == add(s, m), s < 8, m < 8, t < 8;
    } else {
        assert(!(((x >> m) >> s) & 1u8 == 1u8)) by (bit_vector) requires s < 8, m < 8, add(s, m) >= 8;
    }
}
proof fn lemma_shl(x: u8, n: int, k: int)
    requires 0 <= k < 8, 0 <= n < 8,
    ensures bit8(x << (n as u8), k) == (k >= n && bit8(x, k - n)),
{
    let s = k as u8; let m = n as u8;
    if k >= n {
        let t = (k - n) as u8;
        assert(((x << m) >> s) & 1u8 == 1u8 <==> (x >> t) & 1u8 == 1u8) by (bit_vector) requires t == sub(s, m), s < 8, m < 8, m <= s;
    } else {
        assert(!(((x << m) >> s) & 1u8 == 1u8)) by (bit_vector) requires s < 8, m < 8, s < m;
    }
}
proof fn lemma_consts(k: int)
    requires 0 <= k < 8,
    ensures !bit8(0u8, k), bit8(128u8, k) == (k == 7), bit8(1u8, k) == (k == 0), bit8(255u8, k),
{
    let s = k as u8;
    assert(!((0u8 >> s) & 1u8 == 1u8)) by (bit_vector);
    assert((128u8 >> s) & 1u8 == 1u8 <==> s == 7u8) by (bit_vector) requires s < 8;
    assert((1u8 >> s) & 1u8 == 1u8 <==> s == 0u8) by (bit_vector) requires s < 8;
    assert((255u8 >> s) & 1u8 == 1u8) by (bit_vector) requires s < 8;
}
// last n bits of a byte string
spec fn tail_bits(d: Seq<u8>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bit8(d[(d.len() * 8 - n + i) / 8], 7 - (d.len() * 8 - n + i) % 8)) }
spec fn low_zero(b: u8, n: int) -> bool { forall|k: int| 0 <= k < n ==> !#[trigger] bit8(b, k) }
spec fn maxlen() -> int { 0x80_0000_0000_0000 }

impl BstreamSeeker {
    spec fn ok(self) -> bool { self.data.wf() && self.cursor <= self.data.blen() }
    spec fn left(self) -> Seq<bool> { self.data@.skip(self.cursor as int) }
}
impl Bstream {
    spec fn blen(self) -> int { self.data@.len() * 8 - self.remaining }
    spec fn wf(self) -> bool {
        &&& self.remaining <= 7
        &&& self.data@.len() == 0 ==> self.remaining == 0
        &&& self.data@.len() > 0 ==> low_zero(self.data@.last(), self.remaining as int)
        &&& self.data@.len() <= maxlen()
    }
    spec fn view(self) -> Seq<bool> { bits_of(self.data@, self.blen()) }
}
"""

ASSUME = lib.BE + r"""
#[verifier::external_body]
fn vx_vec_from(b: &[u8]) -> (r: Vec<u8>)
    ensures r@ == b@,
{ Vec::from(b) }
pub assume_specification [u8::checked_shr](x: u8, n: u32) -> (r: Option<u8>)
    ensures n < 8 ==> r == Some(x >> (n as u8)), n >= 8 ==> r.is_none();
"""
AS_MUT = [(r"\.append\(\s*([^()]*(?:\([^()]*\)[^()]*)*?)\.as_mut\(\)\s*\)", r".append(&mut \1)", "`x.as_mut()` on a Vec written `&mut x`")]


def add(U):
    U.item(F, "struct", "Bstream")
    U.item(F, "struct", "BstreamSeeker")
    U.raw(ASSUME)
    U.raw(SPEC)
    U.open("impl Bstream")
    U.fn(F, "new", "^impl Bstream$", spec="ensures r.wf(), r@ =~= Seq::<bool>::empty(), r.data@.len() == 0")
    U.fn(F, "from", "^impl Bstream$", spec="ensures r.data == data, r.remaining == remaining")
    U.fn(F, "from_bytes", "^impl Bstream$", subs=lib.BE_SUBS,
         spec="ensures data@.len() > 0 ==> r.data@ == data@.drop_last() && r.remaining == data@.last(), data@.len() == 0 ==> r.data@.len() == 0 && r.remaining == 0")
    U.fn(F, "write", "^impl Bstream$",
         spec="""requires old(self).wf(), old(self).data@.len() < maxlen(),
         ensures final(self).wf(), final(self)@ =~= old(self)@.push(bit), final(self).data@.len() <= old(self).data@.len() + 1""",
         pre="""proof {
            assert forall|k: int| 0 <= k < 8 implies !#[trigger] bit8(0u8, k) && bit8(128u8, k) == (k == 7) by { lemma_consts(k); }
            if self.remaining > 0 && self.data@.len() > 0 {
                let r = (self.remaining - 1) as u8;
                let x = self.data@.last();
                assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(x | (1u8 << r), k) == (bit8(x, k) || k == r) by {
                    lemma_or(x, 1u8 << r, k); lemma_shl(1u8, r as int, k); if k >= r { lemma_consts(k - r); }
                }
                assert(!bit8(x, r as int));
            }
         }""",
         at_end="""proof {
            let d0 = old(self).data@; let d1 = self.data@; let n = old(self).blen();
            assert(self.blen() == n + 1);
            assert forall|i: int| 0 <= i < n + 1 implies #[trigger] bit8(d1[i / 8], 7 - i % 8) == (if i < n { bit8(d0[i / 8], 7 - i % 8) } else { bit }) by {
                let q = i / 8; let k = 7 - i % 8; let x = old(self).remaining as int - 1;
                lemma_consts(k);
                if old(self).remaining == 0 {
                    if q < d0.len() { assert(d1[q] == d0[q]); } else { assert(q == d0.len() && k == 7); }
                } else if q < d0.len() - 1 { assert(d1[q] == d0[q]); }
                else {
                    assert(q == d0.len() - 1);
                    assert(!bit8(d0.last(), x));
                    if i < n { assert(k > x); } else { assert(k == x); }
                    if bit { assert(d1[q] == d0.last() | (1u8 << (x as u8))); assert(bit8(d1[q], k) == (bit8(d0.last(), k) || k == x)); } else { assert(d1[q] == d0.last()); }
                }
            }
            assert forall|k: int| 0 <= k < self.remaining implies !#[trigger] bit8(d1.last(), k) by {
                lemma_consts(k);
                if old(self).remaining > 0 { assert(!bit8(d0.last(), k)); if bit { assert(bit8(d1.last(), k) == (bit8(d0.last(), k) || k == old(self).remaining - 1)); } else { assert(d1.last() == d0.last()); } }
            }
         }""")
    U.fn(F, "bitlen", "^impl Bstream$",
         spec="requires self.data@.len() <= maxlen(), self.remaining <= self.data@.len() * 8, ensures r == self.blen()")
    U.fn(F, "append", "^impl Bstream$",
         attrs="#[verifier::spinoff_prover] #[verifier::rlimit(40)]",
         subs=AS_MUT,
         spec="""requires old(self).wf(), bstream.wf(), old(self).data@.len() + bstream.data@.len() < maxlen(),
         ensures final(self).wf(), final(self)@ =~= old(self)@ + bstream@, final(self).data@.len() <= old(self).data@.len() + bstream.data@.len()""",
         pre="""let ghost d0 = self.data@; let ghost r = self.remaining as int; let ghost b = bstream.data@; let ghost n0 = d0.len() as int;
         proof { lemma_append_bits(); }""",
         loops=[{"iter": "it", "inv": """self.remaining == r, 1 <= r <= 7, bstream.data@ == b, b.len() >= 1, n0 >= 1, d0.len() == n0,
                 self.data@.len() == n0 + i, bstream.wf(),
                 forall|j: int| 0 <= j < n0 - 1 ==> self.data@[j] == d0[j],
                 self.data@[n0 - 1] == d0[n0 - 1] | (b[0] >> ((8 - r) as u8)),
                 forall|j: int| n0 <= j < n0 + i ==> self.data@[j] == #[trigger] shl_or(b, j - n0, r)"""}],
         at_end="""proof {
            let d1 = self.data@; let m = b.len() as int; let n = old(self).blen(); let bl = bstream.blen();
            assert(self.blen() == n + bl);
            assert forall|i: int| 0 <= i < n + bl implies #[trigger] bit8(d1[i / 8], 7 - i % 8) == (if i < n { bit8(d0[i / 8], 7 - i % 8) } else { bit8(b[(i - n) / 8], 7 - (i - n) % 8) }) by {
                lemma_append_at(d0, r, b, d1, i);
            }
            assert forall|k: int| 0 <= k < self.remaining implies !#[trigger] bit8(d1.last(), k) by {
                assert(d1.last() == app_byte(d0, r, b, d1.len() - 1));
                assert(r > 0 && k < r ==> !bit8(d0.last(), k));
                if r == 0 { assert(d1.last() == b.last()); assert(!bit8(b.last(), k)); }
                else if k - r >= 0 && k - r < bstream.remaining { assert(!bit8(b.last(), k - r)); }
                else if k + 8 - r < bstream.remaining { assert(!bit8(b.last(), k + 8 - r)); }
            }
         }""")
    U.fn(F, "append_bytes", "^impl Bstream$", subs=[(r"\bVec::from\(", "vx_vec_from(", "Vec::from(slice) written vx_vec_from(slice)")],
         spec="""requires old(self).wf(), remaining <= 7, bytes@.len() == 0 ==> remaining == 0, bytes@.len() > 0 ==> low_zero(bytes@.last(), remaining as int),
            old(self).data@.len() + bytes@.len() < maxlen(),
         ensures final(self).wf(), final(self)@ =~= old(self)@ + bits_of(bytes@, bytes@.len() * 8 - remaining), final(self).data@.len() <= old(self).data@.len() + bytes@.len()""")
    U.fn(F, "write_bits", "^impl Bstream$",
         spec="""requires old(self).wf(), 1 <= nbits <= 64, old(self).data@.len() + 9 < maxlen(),
         ensures final(self).wf(), final(self)@ =~= old(self)@ + bits_of(bytes@, 64).skip(64 - nbits), final(self).data@.len() <= old(self).data@.len() + 8""",
         pre="""proof {
            lemma_append_bits();
            let o = self@; let lead = 64 - nbits as int; let f = lead / 8; let m = lead % 8;
            let v = bytes@[f] << (m as u8);
            assert forall|k: int| 0 <= k < m implies !#[trigger] bit8(v, k) by { lemma_shl(bytes@[f], m, k); }
            let p1 = bits_of(seq![v], 8 - m); let rest = bytes@.subrange(f + 1, 8);
            let p2 = bits_of(rest, (rest.len() * 8) as int);
            assert(p1 + p2 =~= bits_of(bytes@, 64).skip(lead)) by {
                assert forall|i: int| 0 <= i < nbits implies #[trigger] (p1 + p2)[i] == bits_of(bytes@, 64).skip(lead)[i] by {
                    let g = lead + i;
                    if i < 8 - m { assert(g / 8 == f && g % 8 == m + i); lemma_shl(bytes@[f], m, 7 - i); assert(p1[i] == bit8(v, 7 - i)); }
                    else { let j = i - (8 - m); assert(rest[j / 8] == bytes@[f + 1 + j / 8]); assert(g / 8 == f + 1 + j / 8 && g % 8 == j % 8); }
                }
            }
            assert(o + p1 + p2 =~= o + (p1 + p2));
         }""")
    U.fn(F, "write_one", "^impl Bstream$",
         spec="""requires old(self).wf(), old(self).data@.len() < maxlen(),
         ensures final(self).wf(), final(self)@ =~= old(self)@.push(true), final(self).data@.len() <= old(self).data@.len() + 1""")
    U.fn(F, "write_zero", "^impl Bstream$",
         spec="""requires old(self).wf(), old(self).data@.len() < maxlen(),
         ensures final(self).wf(), final(self)@ =~= old(self)@.push(false), final(self).data@.len() <= old(self).data@.len() + 1""")
    U.fn(F, "read_bytes", "^impl Bstream$",
         spec="""ensures idx >= self.data@.len() ==> r.is_none(), idx < self.data@.len() ==> r.is_some() && r.unwrap().0 == self.data@[idx as int]""")
    U.fn(F, "as_bytes_vec", "^impl Bstream$", subs=lib.BE_SUBS,
         spec="""ensures r@ =~= self.data@.push(self.remaining)""")
    U.close()
    U.open("impl BstreamSeeker")
    U.fn(F, "new", "^impl BstreamSeeker$", spec="ensures r.data == data, r.cursor == 0")
    U.fn(F, "reset_cursor", "^impl BstreamSeeker$", spec="ensures final(self).cursor == pos, final(self).data == old(self).data")
    U.fn(F, "get_cursor", "^impl BstreamSeeker$", spec="ensures r == self.cursor")
    U.fn(F, "read_next_n_bit", "^impl BstreamSeeker$",
         attrs="#[verifier::spinoff_prover] #[verifier::rlimit(60)]",
         spec="""requires old(self).data.wf(), n <= old(data)@.len() * 8, old(self).cursor + n < usize::MAX,
         ensures final(self).data == old(self).data, final(data)@.len() == old(data)@.len(),
            old(self).cursor <= old(self).data.blen() ==> {
                let c = old(self).cursor as int; let m = min_int(n as int, old(self).data.blen() - c);
                &&& r == m
                &&& final(self).cursor == c + m
                &&& forall|i: int| 0 <= i < (m + 7) / 8 * 8 ==> #[trigger] bit8(final(data)@[i / 8], 7 - i % 8) == (i < m && old(self).data@[c + i])
                &&& forall|j: int| (m + 7) / 8 <= j < old(data)@.len() ==> final(data)@[j] == old(data)@[j]
            },
            old(self).ok() ==> {
                &&& final(self).ok()
                &&& r == min_int(n as int, old(self).left().len() as int)
                &&& bits_of(final(data)@, r as int) == old(self).left().take(r as int)
                &&& final(self).left() == old(self).left().skip(r as int)
            },
            old(self).cursor > old(self).data.blen() ==> r == 0 && final(self).cursor == old(self).cursor && final(data)@ == old(data)@""",
         pre="""let ghost c = self.cursor as int; let ghost d = self.data.data@; let ghost lead = c % 8; let ghost bl = self.data.blen(); let ghost d_in = data@;
         proof {
            lemma_append_bits();
            assert forall|x: u8, k: int| 0 <= k < 8 implies #[trigger] bit8((x & (255u8 >> (lead as u8))) << (lead as u8), k) == (k >= lead && bit8(x, k - lead)) by {
                if k >= lead { lemma_and(x, 255u8 >> (lead as u8), k - lead); lemma_consts(k); }
            }
         }""",
         loops=[{"inv": """self.cursor == c, self.data.data@ == d, self.data == old(self).data, self.data.wf(), bl == self.data.blen(), c + n <= bl, n <= data@.len() * 8, data@.len() == d_in.len(),
                 leading == lead, 0 <= lead < 8, lead == c % 8, c <= bl, cur * 8 < n + 8,
                 forall|j: int| 0 <= j < cur ==> #[trigger] data@[j] == rd_byte(d, c, j),
                 forall|j: int| cur <= j < data@.len() ==> data@[j] == d_in[j]""", "dec": "n + 8 - cur * 8",
                 "after": "let ghost d_mid = data@;"}],
         hints=[(r"self\.cursor \+= n;", "before", """proof {
            let m = n as int;
            if cur > 0 { lemma_cut(d_mid[cur - 1], data@[cur - 1], m); }
            lemma_read_done(self.data, c, m, cur as int, d_in, d_mid, data@);
         }""")])
    U.close()
    U.raw(r"""
spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }
// the 8 bits at bit position c + 8j, zero filled
spec fn rd_byte(d: Seq<u8>, c: int, j: int) -> u8 {
    let q = c / 8 + j; let lead = c % 8;
    let first = (d[q] & (255u8 >> (lead as u8))) << (lead as u8);
    let next = if q + 1 < d.len() { d[q + 1] } else { 0u8 };
    first | (if lead == 0 { 0u8 } else { next >> ((8 - lead) as u8) })
}
proof fn lemma_rd_byte(d: Seq<u8>, c: int, i: int)
    requires 0 <= c, 0 <= i, c / 8 + i / 8 < d.len(),
    ensures bit8(rd_byte(d, c, i / 8), 7 - i % 8) == (c + i < d.len() * 8 && bit8(d[(c + i) / 8], 7 - (c + i) % 8)),
{
    let j = i / 8; let k = 7 - i % 8; let lead = c % 8; let q = c / 8 + j;
    let a = (d[q] & (255u8 >> (lead as u8))) << (lead as u8);
    let next = if q + 1 < d.len() { d[q + 1] } else { 0u8 };
    let b = if lead == 0 { 0u8 } else { next >> ((8 - lead) as u8) };
    lemma_or(a, b, k);
    lemma_shl(d[q] & (255u8 >> (lead as u8)), lead, k);
    lemma_consts(k);
    if k >= lead {
        lemma_and(d[q], 255u8 >> (lead as u8), k - lead);
        lemma_shr(255u8, lead, k - lead);
        lemma_consts(k);
        assert((c + i) / 8 == q && 7 - (c + i) % 8 == k - lead);
        if lead > 0 { lemma_shr(next, 8 - lead, k); }
    } else {
        lemma_shr(next, 8 - lead, k);
        assert((c + i) / 8 == q + 1 && 7 - (c + i) % 8 == k + 8 - lead);
        lemma_consts(k + 8 - lead);
    }
}
spec fn cut(n: int) -> u8 { if n % 8 == 0 { 255u8 } else { 255u8 << ((8 - n % 8) as u8) } }
// a byte with its last bits masked out keeps the others
proof fn lemma_cut(x: u8, y: u8, n: int)
    requires n >= 0, y == cut(n) & x,
    ensures forall|k: int| 0 <= k < 8 ==> #[trigger] bit8(y, k) == (k >= (8 - n % 8) % 8 && bit8(x, k)),
{
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(y, k) == (k >= (8 - n % 8) % 8 && bit8(x, k)) by {
        lemma_and(cut(n), x, k);
        if n % 8 != 0 {
            lemma_shl(255u8, 8 - n % 8, k);
            if k >= 8 - n % 8 { lemma_consts(k - (8 - n % 8)); }
        } else { lemma_consts(k); }
    }
}
proof fn lemma_read_done(s: Bstream, c: int, m: int, cur: int, d_in: Seq<u8>, mid: Seq<u8>, out: Seq<u8>)
    requires s.wf(), 0 <= c, 0 <= m, c + m <= s.blen(), cur == (m + 7) / 8, cur <= mid.len(), mid.len() == out.len(), mid.len() == d_in.len(),
        forall|j: int| 0 <= j < cur ==> #[trigger] mid[j] == rd_byte(s.data@, c, j),
        forall|j: int| cur <= j < mid.len() ==> mid[j] == d_in[j],
        forall|j: int| 0 <= j < mid.len() && j != cur - 1 ==> #[trigger] out[j] == mid[j],
        cur > 0 ==> forall|k: int| 0 <= k < 8 ==> #[trigger] bit8(out[cur - 1], k) == (k >= (8 - m % 8) % 8 && bit8(mid[cur - 1], k)),
    ensures
        forall|i: int| 0 <= i < (m + 7) / 8 * 8 ==> #[trigger] bit8(out[i / 8], 7 - i % 8) == (i < m && s@[c + i]),
        forall|j: int| cur <= j < mid.len() ==> out[j] == d_in[j],
        bits_of(out, m) == s@.skip(c).take(m), s@.skip(c + m) == s@.skip(c).skip(m),
{
    assert forall|i: int| 0 <= i < (m + 7) / 8 * 8 implies #[trigger] bit8(out[i / 8], 7 - i % 8) == (i < m && s@[c + i]) by {
        let j = i / 8; let k = 7 - i % 8;
        lemma_rd_byte(s.data@, c, i);
        assert(mid[j] == rd_byte(s.data@, c, j));
        if j == cur - 1 {} else { assert(out[j] == mid[j]); }
    }
    let l = s@.skip(c);
    assert(bits_of(out, m) =~= l.take(m)) by {
        assert forall|i: int| 0 <= i < m implies bits_of(out, m)[i] == l.take(m)[i] by { assert(bit8(out[i / 8], 7 - i % 8) == s@[c + i]); }
    }
    assert(s@.skip(c + m) =~= l.skip(m));
}
spec fn shl_or(b: Seq<u8>, j: int, r: int) -> u8 { (b[j] << (r as u8)) | (b[j + 1] >> ((8 - r) as u8)) }
// byte q of the result of appending b to d0 with r free bits
spec fn app_byte(d0: Seq<u8>, r: int, b: Seq<u8>, q: int) -> u8 {
    let n0 = d0.len() as int;
    if r == 0 { if q < n0 { d0[q] } else { b[q - n0] } }
    else if q < n0 - 1 { d0[q] }
    else if q == n0 - 1 { d0[q] | (b[0] >> ((8 - r) as u8)) }
    else if q - n0 + 1 < b.len() { shl_or(b, q - n0, r) }
    else { b[q - n0] << (r as u8) }
}
proof fn lemma_append_at(d0: Seq<u8>, r: int, b: Seq<u8>, d1: Seq<u8>, i: int)
    requires 0 <= r <= 7, d0.len() == 0 ==> r == 0, b.len() >= 1, 0 <= i < (d0.len() + b.len()) * 8 - r,
        d1[i / 8] == app_byte(d0, r, b, i / 8), d0.len() > 0 ==> low_zero(d0.last(), r),
    ensures bit8(d1[i / 8], 7 - i % 8) == (if i < d0.len() * 8 - r { bit8(d0[i / 8], 7 - i % 8) } else { bit8(b[(i - (d0.len() * 8 - r)) / 8], 7 - (i - (d0.len() * 8 - r)) % 8) }),
{
    lemma_append_bits();
    let n0 = d0.len() as int; let n = n0 * 8 - r; let q = i / 8; let k = 7 - i % 8; let j = i - n;
    if r > 0 && q >= n0 - 1 {
        if i < n {
            assert(q == n0 - 1);
            assert(k >= r);
        } else if q == n0 - 1 {
            assert(k < r);
            assert(j / 8 == 0 && 7 - j % 8 == k + 8 - r);
        } else if k >= r {
            assert(j / 8 == q - n0 && 7 - j % 8 == k - r);
        } else {
            assert(j / 8 == q - n0 + 1 && 7 - j % 8 == k + 8 - r);
        }
    }
}
proof fn lemma_append_bits()
    ensures
        forall|x: u8, y: u8, k: int| 0 <= k < 8 ==> #[trigger] bit8(x | y, k) == (bit8(x, k) || bit8(y, k)),
        forall|x: u8, n: u8, k: int| 0 <= k < 8 && n < 8 ==> #[trigger] bit8(x >> n, k) == (k + n < 8 && bit8(x, k + n)),
        forall|x: u8, n: u8, k: int| 0 <= k < 8 && n < 8 ==> #[trigger] bit8(x << n, k) == (k >= n && bit8(x, k - n)),
{
    assert forall|x: u8, y: u8, k: int| 0 <= k < 8 implies #[trigger] bit8(x | y, k) == (bit8(x, k) || bit8(y, k)) by { lemma_or(x, y, k); }
    assert forall|x: u8, n: u8, k: int| 0 <= k < 8 && n < 8 implies #[trigger] bit8(x >> n, k) == (k + n < 8 && bit8(x, k + n)) by { lemma_shr(x, n as int, k); }
    assert forall|x: u8, n: u8, k: int| 0 <= k < 8 && n < 8 implies #[trigger] bit8(x << n, k) == (k >= n && bit8(x, k - n)) by { lemma_shl(x, n as int, k); }
}
""")


def build():
    from ..unit import Unit
    U = Unit("bstream")
    U.raw(lib.BYTES)
    add(U)
    return U
