"""The generated codec of the remote protocol's messages: what is decoded, what is encoded, and that one undoes the other (C18, C20)."""
import re
from . import lib
PT = "src/proto/types.rs"
PR = "src/proto/remote.rs"
RLIMIT = 60

# shared with the server unit
WIRE = r"""
// ---- the wire format of messages (protocol buffers, encoding version 3)
// numbers: seven bits a byte, the lowest first
spec fn vint(n: nat) -> Seq<u8> decreases n { if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + vint(n / 128) } }
spec fn unraw(s: Seq<u8>, k: nat) -> Option<(nat, Seq<u8>)> decreases k {
    if k == 0 || s.len() == 0 { None }
    else if s[0] < 128 { Some((s[0] as nat, s.skip(1))) }
    else { match unraw(s.skip(1), (k - 1) as nat) { Some((n, r)) => Some(((s[0] - 128 + 128 * n) as nat, r)), None => None } }
}
spec fn unvint(s: Seq<u8>) -> Option<(nat, Seq<u8>)> { match unraw(s, 10) { Some((n, r)) => Some((n % 0x1_0000_0000_0000_0000, r)), None => None } }
spec fn tag(f: int, w: int) -> Seq<u8> { vint((f * 8 + w) as nat) }
spec fn untag(s: Seq<u8>) -> Option<(int, int, Seq<u8>)> {
    match unvint(s) { Some((n, r)) => { let t = n % 0x1_0000_0000; if t / 8 == 0 || t % 8 > 5 { None } else { Some((t as int / 8, t as int % 8, r)) } }, None => None }
}
// a length and that many bytes; lengths of texts are cut to 32 bits
spec fn unchunk(s: Seq<u8>, m: nat) -> Option<(Seq<u8>, Seq<u8>)> {
    match unvint(s) { Some((n, r)) => if n % m <= r.len() { Some((r.take((n % m) as int), r.skip((n % m) as int))) } else { None }, None => None }
}
spec fn chunk(b: Seq<u8>) -> Seq<u8> { vint(b.len()) + b }
spec fn unmsg(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { unchunk(s, 0x1_0000_0000_0000_0000) }
spec fn untext(s: Seq<u8>) -> Option<(Seq<char>, Seq<u8>)> { match unchunk(s, 0x1_0000_0000) { Some((b, r)) => match unutf8(b) { Some(t) => Some((t, r)), None => None }, None => None } }
uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
uninterp spec fn unutf8(b: Seq<u8>) -> Option<Seq<char>>;
axiom fn ax_utf8(s: Seq<char>) ensures unutf8(utf8(s)) == Some(s);
uninterp spec fn le8(b: u64) -> Seq<u8>;
uninterp spec fn unle8(s: Seq<u8>) -> Option<(u64, Seq<u8>)>;
axiom fn ax_le8(b: u64, r: Seq<u8>) ensures le8(b).len() == 8, unle8(le8(b) + r) == Some((b, r));
// what is not looked at
uninterp spec fn skipped(s: Seq<u8>, w: int) -> Option<Seq<u8>>;
uninterp spec fn skipped_enums(s: Seq<u8>, w: int) -> Option<Seq<u8>>;
uninterp spec fn hints_ok(s: Seq<u8>) -> bool;

// ---- reading a message field by field
spec fn run<A>(step: spec_fn(A, int, int, Seq<u8>) -> Option<(A, Seq<u8>)>, a: A, s: Seq<u8>) -> Option<A> decreases s.len() {
    if s.len() == 0 { Some(a) } else { match untag(s) { None => None, Some((f, w, r)) => match step(a, f, w, r) { None => None, Some((b, t)) => if t.len() < s.len() { run(step, b, t) } else { None } } } }
}
type TextPair = (Seq<char>, Seq<char>);
type TimeBits = (int, u64);
type SeriesSays = (Seq<TextPair>, Seq<TimeBits>);
type QuerySays = (int, int, Seq<TextPair>);
spec fn other<A>(a: A, w: int, s: Seq<u8>) -> Option<(A, Seq<u8>)> { match skipped(s, w) { Some(r) => Some((a, r)), None => None } }
spec fn pair_step(n: int, a: TextPair, f: int, w: int, s: Seq<u8>) -> Option<(TextPair, Seq<u8>)> {
    if f == n || f == n + 1 { if w != 2 { None } else { match untext(s) { None => None, Some((t, r)) => Some((if f == n { (t, a.1) } else { (a.0, t) }, r)) } } }
    else { other(a, w, s) }
}
spec fn label_step() -> spec_fn(TextPair, int, int, Seq<u8>) -> Option<(TextPair, Seq<u8>)> { |a: TextPair, f: int, w: int, s: Seq<u8>| pair_step(1, a, f, w, s) }
spec fn matcher_step() -> spec_fn(TextPair, int, int, Seq<u8>) -> Option<(TextPair, Seq<u8>)> {
    |a: TextPair, f: int, w: int, s: Seq<u8>| if f == 1 { if w != 0 { None } else { match unvint(s) { None => None, Some((n, r)) => Some((a, r)) } } } else { pair_step(2, a, f, w, s) }
}
spec fn blank_pair() -> TextPair { (Seq::empty(), Seq::empty()) }
spec fn dec_label(s: Seq<u8>) -> Option<TextPair> { run(label_step(), blank_pair(), s) }
spec fn dec_matcher(s: Seq<u8>) -> Option<TextPair> { run(matcher_step(), blank_pair(), s) }
spec fn as_i64(n: nat) -> int { if n < 0x8000_0000_0000_0000 { n as int } else { n - 0x1_0000_0000_0000_0000 } }
spec fn sample_step() -> spec_fn(TimeBits, int, int, Seq<u8>) -> Option<(TimeBits, Seq<u8>)> {
    |a: TimeBits, f: int, w: int, s: Seq<u8>|
        if f == 1 { if w != 1 { None } else { match unle8(s) { None => None, Some((b, r)) => Some(((a.0, b), r)) } } }
        else if f == 2 { if w != 0 { None } else { match unvint(s) { None => None, Some((n, r)) => Some(((as_i64(n), a.1), r)) } } }
        else { other(a, w, s) }
}
spec fn dec_sample(s: Seq<u8>) -> Option<TimeBits> { run(sample_step(), (0, 0), s) }
spec fn series_step() -> spec_fn(SeriesSays, int, int, Seq<u8>) -> Option<(SeriesSays, Seq<u8>)> {
    |a: SeriesSays, f: int, w: int, s: Seq<u8>|
        if f == 1 { if w != 2 { None } else { match unmsg(s) { None => None, Some((b, r)) => match dec_label(b) { None => None, Some(l) => Some(((a.0.push(l), a.1), r)) } } } }
        else if f == 2 { if w != 2 { None } else { match unmsg(s) { None => None, Some((b, r)) => match dec_sample(b) { None => None, Some(p) => Some(((a.0, a.1.push(p)), r)) } } } }
        else { other(a, w, s) }
}
spec fn blank_series() -> SeriesSays { (Seq::empty(), Seq::empty()) }
spec fn dec_series(s: Seq<u8>) -> Option<SeriesSays> { run(series_step(), blank_series(), s) }
// a message of series: a write request, a result
spec fn batch_step() -> spec_fn(Seq<SeriesSays>, int, int, Seq<u8>) -> Option<(Seq<SeriesSays>, Seq<u8>)> {
    |a: Seq<SeriesSays>, f: int, w: int, s: Seq<u8>|
        if f == 1 { if w != 2 { None } else { match unmsg(s) { None => None, Some((b, r)) => match dec_series(b) { None => None, Some(l) => Some((a.push(l), r)) } } } }
        else { other(a, w, s) }
}
spec fn dec_batch(s: Seq<u8>) -> Option<Seq<SeriesSays>> { run(batch_step(), Seq::empty(), s) }
spec fn query_step() -> spec_fn(QuerySays, int, int, Seq<u8>) -> Option<(QuerySays, Seq<u8>)> {
    |a: QuerySays, f: int, w: int, s: Seq<u8>|
        if f == 1 || f == 2 { if w != 0 { None } else { match unvint(s) { None => None, Some((n, r)) => Some((if f == 1 { (as_i64(n), a.1, a.2) } else { (a.0, as_i64(n), a.2) }, r)) } } }
        else if f == 3 { if w != 2 { None } else { match unmsg(s) { None => None, Some((b, r)) => match dec_matcher(b) { None => None, Some(l) => Some(((a.0, a.1, a.2.push(l)), r)) } } } }
        else if f == 4 { if w != 2 { None } else { match unmsg(s) { None => None, Some((b, r)) => if hints_ok(b) { Some((a, r)) } else { None } } } }
        else { other(a, w, s) }
}
spec fn blank_query() -> QuerySays { (0, 0, Seq::empty()) }
spec fn dec_query(s: Seq<u8>) -> Option<QuerySays> { run(query_step(), blank_query(), s) }
spec fn read_step() -> spec_fn(Seq<QuerySays>, int, int, Seq<u8>) -> Option<(Seq<QuerySays>, Seq<u8>)> {
    |a: Seq<QuerySays>, f: int, w: int, s: Seq<u8>|
        if f == 1 { if w != 2 { None } else { match unmsg(s) { None => None, Some((b, r)) => match dec_query(b) { None => None, Some(l) => Some((a.push(l), r)) } } } }
        else if f == 2 { match skipped_enums(s, w) { None => None, Some(r) => Some((a, r)) } }
        else { other(a, w, s) }
}
spec fn dec_read(s: Seq<u8>) -> Option<Seq<QuerySays>> { run(read_step(), Seq::empty(), s) }
spec fn answer_step() -> spec_fn(Seq<Seq<SeriesSays>>, int, int, Seq<u8>) -> Option<(Seq<Seq<SeriesSays>>, Seq<u8>)> {
    |a: Seq<Seq<SeriesSays>>, f: int, w: int, s: Seq<u8>|
        if f == 1 { if w != 2 { None } else { match unmsg(s) { None => None, Some((b, r)) => match dec_batch(b) { None => None, Some(l) => Some((a.push(l), r)) } } } }
        else { other(a, w, s) }
}
spec fn dec_answer(s: Seq<u8>) -> Option<Seq<Seq<SeriesSays>>> { run(answer_step(), Seq::empty(), s) }

// ---- writing: only what differs from the blank message
spec fn text_field(f: int, t: Seq<char>) -> Seq<u8> { if t.len() == 0 { Seq::empty() } else { tag(f, 2) + chunk(utf8(t)) } }
spec fn int_field(f: int, n: int) -> Seq<u8> { if n == 0 { Seq::empty() } else { tag(f, 0) + vint((if n < 0 { n + 0x1_0000_0000_0000_0000 } else { n }) as nat) } }
spec fn double_field(f: int, b: u64) -> Seq<u8> { if b == 0 { Seq::empty() } else { tag(f, 1) + le8(b) } }
spec fn msg_field(f: int, b: Seq<u8>) -> Seq<u8> { tag(f, 2) + chunk(b) }
spec fn msg_fields(f: int, p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { msg_fields(f, p.drop_last()) + msg_field(f, p.last()) } }
spec fn enc_label(l: TextPair) -> Seq<u8> { text_field(1, l.0) + text_field(2, l.1) }
spec fn enc_matcher(l: TextPair) -> Seq<u8> { text_field(2, l.0) + text_field(3, l.1) }
spec fn enc_sample(p: TimeBits) -> Seq<u8> { double_field(1, p.1) + int_field(2, p.0) }
spec fn enc_labels(l: Seq<TextPair>) -> Seq<Seq<u8>> { l.map_values(|x: TextPair| enc_label(x)) }
spec fn enc_matchers(l: Seq<TextPair>) -> Seq<Seq<u8>> { l.map_values(|x: TextPair| enc_matcher(x)) }
spec fn enc_samples(l: Seq<TimeBits>) -> Seq<Seq<u8>> { l.map_values(|x: TimeBits| enc_sample(x)) }
spec fn enc_series(s: SeriesSays) -> Seq<u8> { msg_fields(1, enc_labels(s.0)) + msg_fields(2, enc_samples(s.1)) }
spec fn enc_all(l: Seq<SeriesSays>) -> Seq<Seq<u8>> { l.map_values(|x: SeriesSays| enc_series(x)) }
spec fn enc_batch(s: Seq<SeriesSays>) -> Seq<u8> { msg_fields(1, enc_all(s)) }
spec fn enc_query(q: QuerySays) -> Seq<u8> { int_field(1, q.0) + int_field(2, q.1) + msg_fields(3, enc_matchers(q.2)) }
spec fn enc_queries(l: Seq<QuerySays>) -> Seq<Seq<u8>> { l.map_values(|x: QuerySays| enc_query(x)) }
spec fn enc_read(q: Seq<QuerySays>) -> Seq<u8> { msg_fields(1, enc_queries(q)) }
spec fn enc_batches(l: Seq<Seq<SeriesSays>>) -> Seq<Seq<u8>> { l.map_values(|x: Seq<SeriesSays>| enc_batch(x)) }
spec fn enc_answer(q: Seq<Seq<SeriesSays>>) -> Seq<u8> { msg_fields(1, enc_batches(q)) }

// ---- a number is read back as it was written
proof fn lemma_raw(n: nat, r: Seq<u8>, k: nat, top: nat)
    requires k > 0, n < top, top == pow128(k),
    ensures unraw(vint(n) + r, k) == Some((n, r)),
    decreases k
{
    let s = vint(n) + r;
    if n < 128 { assert(s[0] == n as u8); assert(s.skip(1) =~= r); }
    else {
        assert(k > 1) by { if k == 1 { assert(pow128(1) == 128 * pow128(0)); assert(pow128(0) == 1); } }
        assert(s[0] == (n % 128 + 128) as u8);
        assert(s.skip(1) =~= vint(n / 128) + r);
        assert(n / 128 < pow128((k - 1) as nat)) by(nonlinear_arith) requires n < 128 * pow128((k - 1) as nat);
        lemma_raw(n / 128, r, (k - 1) as nat, pow128((k - 1) as nat));
        assert(s[0] - 128 + 128 * (n / 128) == n);
    }
}
spec fn pow128(k: nat) -> nat decreases k { if k == 0 { 1 } else { 128 * pow128((k - 1) as nat) } }
proof fn lemma_vint(n: nat, r: Seq<u8>)
    requires n < 0x1_0000_0000_0000_0000,
    ensures unvint(vint(n) + r) == Some((n, r)), vint(n).len() > 0,
{
    assert(pow128(10) > 0x1_0000_0000_0000_0000) by (compute_only);
    lemma_raw(n, r, 10, pow128(10));
}
proof fn lemma_raw_less(s: Seq<u8>, k: nat)
    ensures unraw(s, k) matches Some((n, r)) ==> r.len() < s.len(),
    decreases k
{ if k > 0 && s.len() > 0 && s[0] >= 128 { lemma_raw_less(s.skip(1), (k - 1) as nat); } }
proof fn lemma_less(s: Seq<u8>)
    ensures unvint(s) matches Some((n, r)) ==> r.len() < s.len(), untag(s) matches Some((f, w, r)) ==> r.len() < s.len(),
        unmsg(s) matches Some((b, r)) ==> b.len() + r.len() < s.len(), untext(s) matches Some((b, r)) ==> r.len() < s.len(),
{ lemma_raw_less(s, 10); }
proof fn lemma_tag(f: int, w: int, r: Seq<u8>)
    requires 0 < f < 0x100_0000, 0 <= w <= 5,
    ensures untag(tag(f, w) + r) == Some((f, w, r)), tag(f, w).len() > 0,
{ lemma_vint((f * 8 + w) as nat, r); }
proof fn lemma_tag_one(f: int, w: int)
    requires 0 < f < 16, 0 <= w <= 5,
    ensures tag(f, w).len() == 1,
{ }
// one field read off the front
proof fn lemma_step<A>(step: spec_fn(A, int, int, Seq<u8>) -> Option<(A, Seq<u8>)>, a: A, b: A, f: int, w: int, c: Seq<u8>, r: Seq<u8>)
    requires 0 < f < 0x100_0000, 0 <= w <= 5, step(a, f, w, c + r) == Some((b, r)),
    ensures run(step, a, tag(f, w) + c + r) == run(step, b, r),
{
    lemma_tag(f, w, c + r);
    assert(tag(f, w) + c + r =~= tag(f, w) + (c + r));
}
proof fn lemma_chunk(b: Seq<u8>, r: Seq<u8>, m: nat)
    requires b.len() < m, m <= 0x1_0000_0000_0000_0000,
    ensures unchunk(chunk(b) + r, m) == Some((b, r)),
{
    lemma_vint(b.len(), b + r);
    assert(chunk(b) + r =~= vint(b.len()) + (b + r));
    assert(b.len() % m == b.len()) by(nonlinear_arith) requires b.len() < m;
    assert((b + r).take(b.len() as int) =~= b); assert((b + r).skip(b.len() as int) =~= r);
}
// repeated messages read off the front
spec fn puts<A, V>(put: spec_fn(A, V) -> A, a: A, v: Seq<V>) -> A decreases v.len() { if v.len() == 0 { a } else { put(puts(put, a, v.drop_last()), v.last()) } }
proof fn lemma_msgs<A, V>(step: spec_fn(A, int, int, Seq<u8>) -> Option<(A, Seq<u8>)>, put: spec_fn(A, V) -> A, a: A, f: int, p: Seq<Seq<u8>>, v: Seq<V>, r: Seq<u8>)
    requires 0 < f < 0x100_0000, p.len() == v.len(), forall|i: int, b: A, t: Seq<u8>| 0 <= i < p.len() ==> #[trigger] step(b, f, 2, chunk(p[i]) + t) == Some((put(b, v[i]), t)),
    ensures run(step, a, msg_fields(f, p) + r) == run(step, puts(put, a, v), r),
    decreases p.len()
{
    if p.len() == 0 { assert(msg_fields(f, p) + r =~= r); }
    else {
        let q = p.drop_last(); let u = v.drop_last();
        let t = msg_field(f, p.last()) + r;
        assert(msg_fields(f, p) + r =~= msg_fields(f, q) + t);
        assert forall|i: int, b: A, t: Seq<u8>| 0 <= i < q.len() implies #[trigger] step(b, f, 2, chunk(q[i]) + t) == Some((put(b, u[i]), t)) by { assert(step(b, f, 2, chunk(p[i]) + t) == Some((put(b, v[i]), t))); }
        lemma_msgs(step, put, a, f, q, u, t);
        let b = puts(put, a, u);
        assert(step(b, f, 2, chunk(p[p.len() - 1]) + r) == Some((put(b, v[p.len() - 1]), r)));
        lemma_step(step, b, put(b, v.last()), f, 2, chunk(p.last()), r);
        assert(t =~= tag(f, 2) + chunk(p.last()) + r);
    }
}
proof fn lemma_msgs_len(f: int, p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len(),
    ensures p[i].len() < msg_fields(f, p).len(), msg_fields(f, p.take(i + 1)) == msg_fields(f, p.take(i)) + msg_field(f, p[i]), msg_fields(f, p.take(i + 1)).len() <= msg_fields(f, p).len(),
    decreases p.len()
{
    assert(p.take(i + 1).drop_last() =~= p.take(i)); assert(p.take(i + 1).last() == p[i]);
    if i + 1 == p.len() { assert(p.take(i + 1) =~= p); }
    else { lemma_msgs_len(f, p.drop_last(), i); assert(p.drop_last().take(i + 1) =~= p.take(i + 1)); }
    assert(vint(p[i].len()).len() > 0);
}
// ---- decoding what was encoded, for messages below 4 GiB
spec fn small(b: Seq<u8>) -> bool { b.len() < 0x1_0000_0000 }
proof fn lemma_text(n: int, a: TextPair, f: int, t: Seq<char>, r: Seq<u8>)
    requires small(utf8(t)), f == n || f == n + 1,
    ensures pair_step(n, a, f, 2, chunk(utf8(t)) + r) == Some((if f == n { (t, a.1) } else { (a.0, t) }, r)),
{ lemma_chunk(utf8(t), r, 0x1_0000_0000); ax_utf8(t); }
proof fn lemma_pair(step: spec_fn(TextPair, int, int, Seq<u8>) -> Option<(TextPair, Seq<u8>)>, n: int, l: TextPair)
    requires small(text_field(n, l.0) + text_field(n + 1, l.1)), 0 < n < 8, forall|a: TextPair, f: int, w: int, s: Seq<u8>| f >= n ==> #[trigger] step(a, f, w, s) == pair_step(n, a, f, w, s),
    ensures run(step, blank_pair(), text_field(n, l.0) + text_field(n + 1, l.1)) == Some(l),
{
    let e = Seq::<u8>::empty(); let x = text_field(n, l.0); let y = text_field(n + 1, l.1); let m: TextPair = (l.0, Seq::empty());
    if l.0.len() > 0 {
        assert(small(utf8(l.0)));
        lemma_text(n, blank_pair(), n, l.0, y);
        lemma_step(step, blank_pair(), m, n, 2, chunk(utf8(l.0)), y);
    } else { assert(l.0 =~= Seq::<char>::empty()); assert(x + y =~= y); }
    assert(run(step, blank_pair(), x + y) == run(step, m, y));
    if l.1.len() > 0 {
        assert(small(utf8(l.1)));
        lemma_text(n, m, n + 1, l.1, e);
        lemma_step(step, m, l, n + 1, 2, chunk(utf8(l.1)), e);
        assert(y + e =~= y);
    } else { assert(l.1 =~= Seq::<char>::empty()); }
}
proof fn lemma_label(l: TextPair) requires small(enc_label(l)), ensures dec_label(enc_label(l)) == Some(l) { lemma_pair(label_step(), 1, l); }
proof fn lemma_matcher(l: TextPair) requires small(enc_matcher(l)), ensures dec_matcher(enc_matcher(l)) == Some(l) { lemma_pair(matcher_step(), 2, l); }
spec fn in64(n: int) -> bool { -0x8000_0000_0000_0000 <= n < 0x8000_0000_0000_0000 }
proof fn lemma_int<A>(step: spec_fn(A, int, int, Seq<u8>) -> Option<(A, Seq<u8>)>, a: A, b: A, f: int, n: int, r: Seq<u8>)
    requires in64(n), 0 < f < 16, n == 0 ==> a == b, forall|s: Seq<u8>| (unvint(s) matches Some((m, t)) && as_i64(m) == n) ==> #[trigger] step(a, f, 0, s) == Some((b, unvint(s).unwrap().1)),
    ensures run(step, a, int_field(f, n) + r) == run(step, b, r),
{
    if n == 0 { assert(int_field(f, n) + r =~= r); }
    else {
        let m = (if n < 0 { n + 0x1_0000_0000_0000_0000 } else { n }) as nat;
        lemma_vint(m, r);
        assert(unvint(vint(m) + r) == Some((m, r)));
        assert(step(a, f, 0, vint(m) + r) == Some((b, r)));
        lemma_step(step, a, b, f, 0, vint(m), r);
    }
}
proof fn lemma_sample(p: TimeBits)
    requires in64(p.0),
    ensures dec_sample(enc_sample(p)) == Some(p),
{
    let e = Seq::<u8>::empty(); let x = double_field(1, p.1); let y = int_field(2, p.0); let m: TimeBits = (0, p.1); let st = sample_step();
    if p.1 != 0 { ax_le8(p.1, y); lemma_step(st, (0int, 0u64), m, 1, 1, le8(p.1), y); } else { assert(x + y =~= y); }
    lemma_int(st, m, p, 2, p.0, e);
    assert(y + e =~= y);
}
proof fn lemma_sent_samples(l: Seq<TimeBits>, i: int) requires 0 <= i < l.len(), in64(l[i].0), ensures dec_sample(enc_samples(l)[i]) == Some(l[i]) { lemma_sample(l[i]); }
spec fn series_ok(s: SeriesSays) -> bool { small(enc_series(s)) && forall|i: int| 0 <= i < s.1.len() ==> in64((#[trigger] s.1[i]).0) }
proof fn lemma_puts_push<A, V>(put: spec_fn(A, V) -> A, get: spec_fn(A) -> Seq<V>, a: A, v: Seq<V>)
    requires forall|b: A, x: V| get(#[trigger] put(b, x)) == get(b).push(x),
    ensures get(puts(put, a, v)) =~= get(a) + v,
    decreases v.len()
{ if v.len() > 0 { lemma_puts_push(put, get, a, v.drop_last()); assert(get(a) + v.drop_last().push(v.last()) =~= (get(a) + v.drop_last()).push(v.last())); assert(v.drop_last().push(v.last()) =~= v); } }
proof fn lemma_puts_keep<A, V, B>(put: spec_fn(A, V) -> A, get: spec_fn(A) -> B, a: A, v: Seq<V>)
    requires forall|b: A, x: V| get(#[trigger] put(b, x)) == get(b),
    ensures get(puts(put, a, v)) == get(a),
    decreases v.len()
{ if v.len() > 0 { lemma_puts_keep(put, get, a, v.drop_last()); } }
proof fn lemma_series(s: SeriesSays)
    requires series_ok(s),
    ensures dec_series(enc_series(s)) == Some(s),
{
    let e = Seq::<u8>::empty(); let st = series_step();
    let p = enc_labels(s.0); let q = enc_samples(s.1); let y = msg_fields(2, q);
    let pl = |a: SeriesSays, l: TextPair| (a.0.push(l), a.1); let ps = |a: SeriesSays, t: TimeBits| (a.0, a.1.push(t));
    assert forall|i: int, b: SeriesSays, t: Seq<u8>| 0 <= i < p.len() implies #[trigger] st(b, 1, 2, chunk(p[i]) + t) == Some((pl(b, s.0[i]), t)) by { lemma_msgs_len(1, p, i); lemma_chunk(p[i], t, 0x1_0000_0000_0000_0000); lemma_label(s.0[i]); }
    lemma_msgs(st, pl, blank_series(), 1, p, s.0, y);
    let m = puts(pl, blank_series(), s.0);
    lemma_puts_push(pl, |a: SeriesSays| a.0, blank_series(), s.0); lemma_puts_keep(pl, |a: SeriesSays| a.1, blank_series(), s.0);
    assert(m.0 =~= s.0); assert(m.1 =~= Seq::<TimeBits>::empty());
    assert forall|i: int, b: SeriesSays, t: Seq<u8>| 0 <= i < q.len() implies #[trigger] st(b, 2, 2, chunk(q[i]) + t) == Some((ps(b, s.1[i]), t)) by { lemma_msgs_len(2, q, i); lemma_chunk(q[i], t, 0x1_0000_0000_0000_0000); lemma_sample(s.1[i]); }
    lemma_msgs(st, ps, m, 2, q, s.1, e);
    assert(y + e =~= y);
    let z = puts(ps, m, s.1);
    lemma_puts_push(ps, |a: SeriesSays| a.1, m, s.1); lemma_puts_keep(ps, |a: SeriesSays| a.0, m, s.1);
    assert(z.0 =~= s.0); assert(z.1 =~= s.1);
}
// a message that only repeats another one in field 1
proof fn lemma_list<V>(st: spec_fn(Seq<V>, int, int, Seq<u8>) -> Option<(Seq<V>, Seq<u8>)>, dec: spec_fn(Seq<u8>) -> Option<V>, p: Seq<Seq<u8>>, v: Seq<V>)
    requires p.len() == v.len(), msg_fields(1, p).len() < 0x1_0000_0000_0000_0000, forall|i: int| 0 <= i < p.len() ==> #[trigger] dec(p[i]) == Some(v[i]),
        forall|a: Seq<V>, s: Seq<u8>| #[trigger] st(a, 1, 2, s) == (match unmsg(s) { None => None::<(Seq<V>, Seq<u8>)>, Some((b, r)) => match dec(b) { None => None, Some(l) => Some((a.push(l), r)) } }),
    ensures run(st, Seq::empty(), msg_fields(1, p)) == Some(v),
{
    let e = Seq::<u8>::empty(); let put = |a: Seq<V>, x: V| a.push(x);
    assert forall|i: int, b: Seq<V>, t: Seq<u8>| 0 <= i < p.len() implies #[trigger] st(b, 1, 2, chunk(p[i]) + t) == Some((put(b, v[i]), t)) by { lemma_msgs_len(1, p, i); lemma_chunk(p[i], t, 0x1_0000_0000_0000_0000); assert(dec(p[i]) == Some(v[i])); }
    lemma_msgs(st, put, Seq::empty(), 1, p, v, e);
    lemma_puts_push(put, |a: Seq<V>| a, Seq::empty(), v);
    assert(Seq::<V>::empty() + v =~= v);
    assert(msg_fields(1, p) + e =~= msg_fields(1, p));
}
spec fn batch_ok(s: Seq<SeriesSays>) -> bool { small(enc_batch(s)) && forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].1.len() ==> in64((#[trigger] s[i].1[j]).0) }
proof fn lemma_batch(s: Seq<SeriesSays>)
    requires batch_ok(s),
    ensures dec_batch(enc_batch(s)) == Some(s),
{
    let p = enc_all(s);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] dec_series(p[i]) == Some(s[i]) by { lemma_msgs_len(1, p, i); lemma_series(s[i]); }
    lemma_list(batch_step(), |b: Seq<u8>| dec_series(b), p, s);
}
spec fn answer_ok(s: Seq<Seq<SeriesSays>>) -> bool { small(enc_answer(s)) && forall|k: int, i: int, j: int| 0 <= k < s.len() && 0 <= i < s[k].len() && 0 <= j < s[k][i].1.len() ==> in64((#[trigger] s[k][i].1[j]).0) }
proof fn lemma_answer(s: Seq<Seq<SeriesSays>>)
    requires answer_ok(s),
    ensures dec_answer(enc_answer(s)) == Some(s),
{
    let p = enc_batches(s);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] dec_batch(p[i]) == Some(s[i]) by { lemma_msgs_len(1, p, i); lemma_batch(s[i]); }
    lemma_list(answer_step(), |b: Seq<u8>| dec_batch(b), p, s);
}
spec fn query_ok(q: QuerySays) -> bool { small(enc_query(q)) && in64(q.0) && in64(q.1) }
proof fn lemma_query(q: QuerySays)
    requires query_ok(q),
    ensures dec_query(enc_query(q)) == Some(q),
{
    let e = Seq::<u8>::empty(); let st = query_step();
    let p = enc_matchers(q.2); let y = int_field(2, q.1); let z = msg_fields(3, p);
    let a: QuerySays = (q.0, 0, Seq::empty()); let b: QuerySays = (q.0, q.1, Seq::empty());
    lemma_int(st, blank_query(), a, 1, q.0, y + z);
    lemma_int(st, a, b, 2, q.1, z);
    assert(enc_query(q) =~= int_field(1, q.0) + (y + z));
    let put = |a: QuerySays, l: TextPair| (a.0, a.1, a.2.push(l));
    assert forall|i: int, b: QuerySays, t: Seq<u8>| 0 <= i < p.len() implies #[trigger] st(b, 3, 2, chunk(p[i]) + t) == Some((put(b, q.2[i]), t)) by { lemma_msgs_len(3, p, i); lemma_chunk(p[i], t, 0x1_0000_0000_0000_0000); lemma_matcher(q.2[i]); }
    lemma_msgs(st, put, b, 3, p, q.2, e);
    assert(z + e =~= z);
    let w = puts(put, b, q.2);
    lemma_puts_push(put, |a: QuerySays| a.2, b, q.2); lemma_puts_keep(put, |a: QuerySays| (a.0, a.1), b, q.2);
    assert(w.2 =~= q.2); assert((w.0, w.1) == (q.0, q.1));
    assert(w == q);
}
spec fn read_ok(q: Seq<QuerySays>) -> bool { small(enc_read(q)) && forall|i: int| 0 <= i < q.len() ==> in64((#[trigger] q[i]).0) && in64(q[i].1) }
proof fn lemma_read(q: Seq<QuerySays>)
    requires read_ok(q),
    ensures dec_read(enc_read(q)) == Some(q),
{
    let p = enc_queries(q);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] dec_query(p[i]) == Some(q[i]) by { lemma_msgs_len(1, p, i); lemma_query(q[i]); }
    lemma_list(read_step(), |b: Seq<u8>| dec_query(b), p, q);
}
"""
# what a message says, and the bytes it is written as
SAYS = r"""
spec fn twos(n: int) -> nat { (if n < 0 { n + 0x1_0000_0000_0000_0000 } else { n }) as nat }
pub uninterp spec fn unk(u: VxUnknown) -> Seq<u8>;
uninterp spec fn enums(f: int, e: VxAccepted) -> Seq<u8>;
uninterp spec fn enum_field(f: int, e: VxKind) -> Seq<u8>;
uninterp spec fn hint_field(f: int, e: VxHints) -> Seq<u8>;
trait VxSays: Sized { type S; spec fn says(&self) -> Self::S; spec fn dec(b: Seq<u8>) -> Option<Self::S>; spec fn bytes(&self) -> Seq<u8>; }
spec fn says_all<M: VxSays>(v: Seq<M>) -> Seq<M::S> { v.map_values(|m: M| m.says()) }
spec fn bytes_all<M: VxSays>(v: Seq<M>) -> Seq<Seq<u8>> { v.map_values(|m: M| m.bytes()) }
impl VxSays for PLabel { type S = TextPair; spec fn says(&self) -> TextPair { (self.name@, self.value@) } spec fn dec(b: Seq<u8>) -> Option<TextPair> { dec_label(b) }
    spec fn bytes(&self) -> Seq<u8> { text_field(1, self.name@) + text_field(2, self.value@) + unk(self.unknown_fields) } }
impl VxSays for LabelMatcher { type S = TextPair; spec fn says(&self) -> TextPair { (self.name@, self.value@) } spec fn dec(b: Seq<u8>) -> Option<TextPair> { dec_matcher(b) }
    spec fn bytes(&self) -> Seq<u8> { enum_field(1, self.field_type) + text_field(2, self.name@) + text_field(3, self.value@) + unk(self.unknown_fields) } }
impl VxSays for Sample { type S = TimeBits; spec fn says(&self) -> TimeBits { (self.timestamp as int, fbits(self.value)) } spec fn dec(b: Seq<u8>) -> Option<TimeBits> { dec_sample(b) }
    spec fn bytes(&self) -> Seq<u8> { double_field(1, fbits(self.value)) + int_field(2, self.timestamp as int) + unk(self.unknown_fields) } }
impl VxSays for PTimeSeries { type S = SeriesSays; spec fn says(&self) -> SeriesSays { (says_all(self.labels@), says_all(self.samples@)) } spec fn dec(b: Seq<u8>) -> Option<SeriesSays> { dec_series(b) }
    spec fn bytes(&self) -> Seq<u8> { msg_fields(1, bytes_all(self.labels@)) + msg_fields(2, bytes_all(self.samples@)) + unk(self.unknown_fields) } }
impl VxSays for WriteRequest { type S = Seq<SeriesSays>; spec fn says(&self) -> Seq<SeriesSays> { says_all(self.timeseries@) } spec fn dec(b: Seq<u8>) -> Option<Seq<SeriesSays>> { dec_batch(b) }
    spec fn bytes(&self) -> Seq<u8> { msg_fields(1, bytes_all(self.timeseries@)) + unk(self.unknown_fields) } }
impl VxSays for QueryResult { type S = Seq<SeriesSays>; spec fn says(&self) -> Seq<SeriesSays> { says_all(self.timeseries@) } spec fn dec(b: Seq<u8>) -> Option<Seq<SeriesSays>> { dec_batch(b) }
    spec fn bytes(&self) -> Seq<u8> { msg_fields(1, bytes_all(self.timeseries@)) + unk(self.unknown_fields) } }
impl VxSays for Query { type S = QuerySays; spec fn says(&self) -> QuerySays { (self.start_timestamp_ms as int, self.end_timestamp_ms as int, says_all(self.matchers@)) } spec fn dec(b: Seq<u8>) -> Option<QuerySays> { dec_query(b) }
    spec fn bytes(&self) -> Seq<u8> { int_field(1, self.start_timestamp_ms as int) + int_field(2, self.end_timestamp_ms as int) + msg_fields(3, bytes_all(self.matchers@)) + hint_field(4, self.hints) + unk(self.unknown_fields) } }
impl VxSays for ReadRequest { type S = Seq<QuerySays>; spec fn says(&self) -> Seq<QuerySays> { says_all(self.queries@) } spec fn dec(b: Seq<u8>) -> Option<Seq<QuerySays>> { dec_read(b) }
    spec fn bytes(&self) -> Seq<u8> { msg_fields(1, bytes_all(self.queries@)) + enums(2, self.accepted_response_types) + unk(self.unknown_fields) } }
impl VxSays for ReadResponse { type S = Seq<Seq<SeriesSays>>; spec fn says(&self) -> Seq<Seq<SeriesSays>> { says_all(self.results@) } spec fn dec(b: Seq<u8>) -> Option<Seq<Seq<SeriesSays>>> { dec_answer(b) }
    spec fn bytes(&self) -> Seq<u8> { msg_fields(1, bytes_all(self.results@)) + unk(self.unknown_fields) } }
"""
OPAQUE = r"""
#[verifier::external_body] struct VxUnknown {}
#[verifier::external_body] struct VxKind {}
#[verifier::external_body] struct VxAccepted {}
#[verifier::external_body] struct VxHints {}
#[verifier::external_body] struct VxHint {}
// sizes are computed before anything is written, and the message does not change in between
#[verifier::external_body] struct VxCached {}
impl VxCached {
    #[verifier::external_body] fn set(&self, n: u32, Ghost(size): Ghost<nat>) requires n == size { loop {} }
    #[verifier::external_body] fn get(&self, Ghost(size): Ghost<nat>) -> (r: u32) requires size < 0x1_0000_0000 ensures r == size { loop {} }
}
impl VxKind { #[verifier::external_body] fn plain(&self) -> (r: bool) ensures forall|f: int| r ==> (#[trigger] enum_field(f, *self)).len() == 0 { loop {} } }
impl VxHints { #[verifier::external_body] fn as_ref(&self) -> (r: Option<&VxHint>) ensures forall|f: int| #[trigger] hint_field(f, *self) == (match r { Some(h) => msg_field(f, h.bytes()), None => Seq::empty() }) { loop {} } }
impl VxHint {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] fn compute_size(&self) -> (r: u32) requires self.bytes().len() < 0x1_0000_0000 ensures r == self.bytes().len() { loop {} }
}
impl VxAccepted { #[verifier::external_body] fn vx_size(&self, f: u32) -> (r: u32) requires enums(f as int, *self).len() < 0x1_0000_0000 ensures r == enums(f as int, *self).len() { loop {} } }
"""
# the runtime of the generated code (crate protobuf), behind contracts
RT = r"""
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum WireType { WireTypeVarint, WireTypeFixed64, WireTypeLengthDelimited, WireTypeStartGroup, WireTypeEndGroup, WireTypeFixed32 }
spec fn wt(w: WireType) -> int { match w { WireType::WireTypeVarint => 0, WireType::WireTypeFixed64 => 1, WireType::WireTypeLengthDelimited => 2, WireType::WireTypeStartGroup => 3, WireType::WireTypeEndGroup => 4, WireType::WireTypeFixed32 => 5 } }
trait VxText { spec fn text(&self) -> Seq<char>; }
impl VxText for String { spec fn text(&self) -> Seq<char> { self@ } }
impl VxText for str { spec fn text(&self) -> Seq<char> { self@ } }
#[derive(Debug)] #[verifier::external_body] struct VxErr {}
type Result<T> = std::result::Result<T, VxErr>;
#[verifier::external_body] fn vx_bits(v: f64) -> (r: u64) ensures r == fbits(v) { v.to_bits() }
#[verifier::external_body] fn vx_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] struct CodedInputStream {}
impl CodedInputStream {
    uninterp spec fn left(&self) -> Seq<u8>;
    uninterp spec fn strict(&self) -> bool;
    // one thing read off the front, or refused
    spec fn reads<T>(&self, n: CodedInputStream, r: Result<T>, x: Option<(T, Seq<u8>)>) -> bool { match x { Some((v, rest)) => r == Result::<T>::Ok(v) && n.left() == rest && n.strict() && rest.len() <= self.left().len(), None => r is Err } }
    #[verifier::external_body] fn eof(&mut self) -> (r: Result<bool>)
        requires old(self).strict(), ensures r == Result::<bool>::Ok(old(self).left().len() == 0), *final(self) == *old(self),
    { loop {} }
    #[verifier::external_body] fn read_tag_unpack(&mut self) -> (r: Result<(u32, WireType)>)
        requires old(self).strict(), ensures match untag(old(self).left()) { Some((f, w, rest)) => r matches Ok(p) && p.0 == f && wt(p.1) == w && final(self).left() == rest && final(self).strict() && rest.len() < old(self).left().len(), None => r is Err },
    { loop {} }
    #[verifier::external_body] fn read_double(&mut self) -> (r: Result<f64>)
        requires old(self).strict(), ensures match unle8(old(self).left()) { Some((b, rest)) => r matches Ok(v) && fbits(v) == b && final(self).left() == rest && final(self).strict() && rest.len() < old(self).left().len(), None => r is Err },
    { loop {} }
    #[verifier::external_body] fn read_int64(&mut self) -> (r: Result<i64>)
        requires old(self).strict(), ensures match unvint(old(self).left()) { Some((n, rest)) => r matches Ok(v) && v == as_i64(n) && final(self).left() == rest && final(self).strict() && rest.len() < old(self).left().len(), None => r is Err },
    { loop {} }
}
#[verifier::external_body] fn rt_unexpected_wire_type(w: WireType) -> VxErr { loop {} }
#[verifier::external_body] fn rt_read_unknown_or_skip_group(field: u32, w: WireType, is: &mut CodedInputStream, u: &mut VxUnknown) -> (r: Result<()>)
    requires old(is).strict(), ensures match skipped(old(is).left(), wt(w)) { Some(rest) => r is Ok && final(is).left() == rest && final(is).strict() && rest.len() <= old(is).left().len(), None => r is Err },
{ loop {} }
#[verifier::external_body] fn rt_read_singular_proto3_string_into(w: WireType, is: &mut CodedInputStream, t: &mut String) -> (r: Result<()>)
    requires old(is).strict(), ensures match untext(old(is).left()) { Some((s, rest)) => if wt(w) == 2 { r is Ok && final(t)@ == s && final(is).left() == rest && final(is).strict() && rest.len() < old(is).left().len() } else { r is Err }, None => r is Err },
{ loop {} }
// the messages of a repeated field are decoded from exactly the bytes given for them
#[verifier::external_body] fn rt_read_repeated_message_into<M: VxSays>(w: WireType, is: &mut CodedInputStream, t: &mut Vec<M>) -> (r: Result<()>)
    requires old(is).strict(), ensures match unmsg(old(is).left()) { Some((b, rest)) => match M::dec(b) { Some(s) => if wt(w) == 2 { r is Ok && says_all(final(t)@) == says_all(old(t)@).push(s) && final(is).left() == rest && final(is).strict() && rest.len() < old(is).left().len() } else { r is Err }, None => r is Err }, None => r is Err },
{ loop {} }
#[verifier::external_body] fn rt_read_singular_message_into(w: WireType, is: &mut CodedInputStream, t: &mut VxHints) -> (r: Result<()>)
    requires old(is).strict(), ensures match unmsg(old(is).left()) { Some((b, rest)) => if wt(w) == 2 && hints_ok(b) { r is Ok && final(is).left() == rest && final(is).strict() && rest.len() < old(is).left().len() } else { r is Err }, None => r is Err },
{ loop {} }
#[verifier::external_body] fn rt_read_proto3_enum_with_unknown_fields_into(w: WireType, is: &mut CodedInputStream, t: &mut VxKind, field: u32, u: &mut VxUnknown) -> (r: Result<()>)
    requires old(is).strict(), ensures match unvint(old(is).left()) { Some((n, rest)) => if wt(w) == 0 { r is Ok && final(is).left() == rest && final(is).strict() && rest.len() < old(is).left().len() } else { r is Err }, None => r is Err },
{ loop {} }
#[verifier::external_body] fn rt_read_repeated_enum_with_unknown_fields_into(w: WireType, is: &mut CodedInputStream, t: &mut VxAccepted, field: u32, u: &mut VxUnknown) -> (r: Result<()>)
    requires old(is).strict(), ensures match skipped_enums(old(is).left(), wt(w)) { Some(rest) => r is Ok && final(is).left() == rest && final(is).strict() && rest.len() <= old(is).left().len(), None => r is Err },
{ loop {} }
// sizes
#[verifier::external_body] fn rt_value_size(f: u32, v: i64, w: WireType) -> (r: u32) requires wt(w) == 0, 0 < f < 16 ensures r == (tag(f as int, 0) + vint(twos(v as int))).len() { loop {} }
#[verifier::external_body] fn rt_string_size<T: VxText + ?Sized>(f: u32, s: &T) -> (r: u32) requires small(msg_field(f as int, utf8(s.text()))) ensures r == msg_field(f as int, utf8(s.text())).len() { loop {} }
#[verifier::external_body] fn rt_enum_size(f: u32, k: &VxKind) -> (r: u32) requires small(enum_field(f as int, *k)) ensures r == enum_field(f as int, *k).len() { loop {} }
#[verifier::external_body] fn rt_compute_raw_varint32_size(n: u32) -> (r: u32) ensures r == vint(n as nat).len() { loop {} }
#[verifier::external_body] fn rt_unknown_fields_size(u: &VxUnknown) -> (r: u32) requires small(unk(*u)) ensures r == unk(*u).len() { loop {} }
// output to memory
#[verifier::external_body] struct CodedOutputStream {}
impl CodedOutputStream {
    uninterp spec fn held(&self) -> Seq<u8>;
    #[verifier::external_body] fn write_double(&mut self, f: u32, v: f64) -> (r: Result<()>) ensures r is Ok, final(self).held() == old(self).held() + (tag(f as int, 1) + le8(fbits(v))) { loop {} }
    #[verifier::external_body] fn write_int64(&mut self, f: u32, v: i64) -> (r: Result<()>) ensures r is Ok, final(self).held() == old(self).held() + (tag(f as int, 0) + vint(twos(v as int))) { loop {} }
    #[verifier::external_body] fn write_string<T: VxText + ?Sized>(&mut self, f: u32, s: &T) -> (r: Result<()>) ensures r is Ok, final(self).held() == old(self).held() + msg_field(f as int, utf8(s.text())) { loop {} }
    #[verifier::external_body] fn write_tag(&mut self, f: u32, w: WireType) -> (r: Result<()>) ensures r is Ok, final(self).held() == old(self).held() + tag(f as int, wt(w)) { loop {} }
    #[verifier::external_body] fn write_raw_varint32(&mut self, n: u32) -> (r: Result<()>) ensures r is Ok, final(self).held() == old(self).held() + vint(n as nat) { loop {} }
    #[verifier::external_body] fn write_unknown_fields(&mut self, u: &VxUnknown) -> (r: Result<()>) ensures r is Ok, final(self).held() == old(self).held() + unk(*u) { loop {} }
}
"""
MSG = [(r"::protobuf::RepeatedField\s*<", "Vec<", "repeated field as a vector"), (r"::protobuf::UnknownFields", "VxUnknown", "unknown fields not looked at"), (r"::protobuf::CachedSize", "VxCached", "cached size behind its contract"),
       (r"::protobuf::SingularPtrField\s*<[^>]*>", "VxHints", "hints not looked at"), (r"::std::(?:string::|vec::)", "", "path"), (r"super::types::", "", "path"),
       (r"Vec\s*<\s*ReadRequest_ResponseType\s*>", "VxAccepted", "accepted response types not looked at"), (r"\bLabelMatcher_Type\b", "VxKind", "matcher type not looked at"),
       (r"\bLabel\b", "PLabel", "crate::proto::Label written PLabel"), (r"\bTimeSeries\b", "PTimeSeries", "crate::proto::TimeSeries written PTimeSeries")]
SIG = [(r"::protobuf::CodedInputStream\s*<[^>]*>", "CodedInputStream", "path"), (r"::protobuf::CodedOutputStream\s*<[^>]*>", "CodedOutputStream", "path"), (r"::protobuf::ProtobufResult\b", "Result", "path"),
       (r"::protobuf::UnknownFields", "VxUnknown", "unknown fields not looked at")]
SUBS = [(r"!\s*is\.", "!(is).", "`!is` is a word of the specification language"), (r"::protobuf::rt::(\w+)", r"rt_\1", "run time of the generated code behind its contract"), (r"::protobuf::wire_format::(WireType\w+)", r"WireType::\1", "path"),
        (r"::std::result::Result::(Ok|Err)\b", r"\1", "path"), (r"(\bself\.\w+)\.to_bits\(\)", r"vx_bits(\1)", "f64::to_bits behind its contract"),
        (r"(\bself\.\w+)\.is_empty\(\)", r"vx_empty(&\1)", "String::is_empty behind its contract"), (r"\bSome\(ref (\w+)\)", r"Some(\1)", "binding mode left to the compiler"),
        (r"\bin\s+&self\.(\w+)", r"in self.\1.iter()", "for over a reference to a vector written with iter()"),
        (r"self\.cached_size\.set\((\w+)\)", r"self.cached_size.set(\1, Ghost(self.bytes().len()))", "ghost argument passed on"), (r"self\.cached_size\.get\(\)", "self.cached_size.get(Ghost(self.bytes().len()))", "ghost argument passed on"),
        (r"self\.field_type\s*!=\s*LabelMatcher_Type::EQ", "!self.field_type.plain()", "matcher type not looked at"), (r"rt_enum_size\((\d+), self\.field_type\)", r"rt_enum_size(\1, &self.field_type)", "matcher type not looked at")]
ACCEPTED = (r"for (\w+) in self\.accepted_response_types\.iter\(\)\s*\{\s*my_size \+= rt_enum_size\((\d+), \*\1\);\s*\}", r"my_size += self.accepted_response_types.vx_size(\2);", "accepted response types not looked at")

# message, file, reader, [(field number, what, member)]
TYPES = [("PLabel", "Label", PT, "label_step()", [(1, "text", "name"), (2, "text", "value")]),
         ("Sample", "Sample", PT, "sample_step()", [(1, "double", "value"), (2, "int", "timestamp")]),
         ("PTimeSeries", "TimeSeries", PT, "series_step()", [(1, "rep", "labels"), (2, "rep", "samples")]),
         ("LabelMatcher", "LabelMatcher", PT, "matcher_step()", [(1, "kind", "field_type"), (2, "text", "name"), (3, "text", "value")]),
         ("Query", "Query", PR, "query_step()", [(1, "int", "start_timestamp_ms"), (2, "int", "end_timestamp_ms"), (3, "rep", "matchers"), (4, "hint", "hints")]),
         ("QueryResult", "QueryResult", PR, "batch_step()", [(1, "rep", "timeseries")]),
         ("WriteRequest", "WriteRequest", PR, "batch_step()", [(1, "rep", "timeseries")]),
         ("ReadRequest", "ReadRequest", PR, "read_step()", [(1, "rep", "queries"), (2, "enums", "accepted_response_types")]),
         ("ReadResponse", "ReadResponse", PR, "answer_step()", [(1, "rep", "results")])]


def piece(n, kind, m):
    return {"text": "text_field(%d, self.%s@)", "double": "double_field(%d, fbits(self.%s))", "int": "int_field(%d, self.%s as int)", "rep": "msg_fields(%d, bytes_all(self.%s@))", "kind": "enum_field(%d, self.%s)", "hint": "hint_field(%d, self.%s)", "enums": "enums(%d, self.%s)"}[kind] % (n, m)


def build():
    from ..unit import Unit
    U = Unit("proto")
    U.raw("pub uninterp spec fn fbits(v: f64) -> u64;\n")
    U.raw(WIRE + OPAQUE + RT)
    for t, n, f, _, _ in TYPES:
        U.item(f, "struct", n, subs=MSG)
    U.raw(SAYS)
    for t, n, f, step, fields in TYPES:
        c = "^impl :: protobuf :: Message for %s$" % n
        U.open("impl %s" % t)
        U.fn(f, "get_unknown_fields", c, label=t + "::get_unknown_fields", sig_subs=SIG, spec="ensures *r == self.unknown_fields")
        U.fn(f, "mut_unknown_fields", c, label=t + "::mut_unknown_fields", sig_subs=SIG, spec="ensures *r == old(self).unknown_fields, final(self).unknown_fields == *final(r), final(self).says() == old(self).says()")
        U.fn(f, "get_cached_size", c, label=t + "::get_cached_size", subs=SUBS, spec="requires small(self.bytes()) ensures r == self.bytes().len()")
        U.fn(f, "merge_from", c, label=t + "::merge_from", subs=SUBS, sig_subs=SIG,
             spec="requires old(is).strict() ensures match run(%s, old(self).says(), old(is).left()) { Some(v) => r is Ok && final(self).says() == v && final(is).left().len() == 0, None => r is Err }" % step,
             pre="let ghost vx_a = run(%s, self.says(), is.left());" % step,
             loops=[{"inv": "is.strict(), vx_a == run(%s, self.says(), is.left()), vx_a == run(%s, old(self).says(), old(is).left())" % (step, step), "dec": "is.left().len()"}])
        loops, wl, done = [], [], []
        for k, (num, kind, m) in enumerate(fields):
            if kind == "rep":
                before = "".join("%s.len() + " % piece(*x) for x in fields[:k])
                inv = "vx_i.seq().len() == self.%s@.len(), forall|k: int| 0 <= k < self.%s@.len() ==> *(#[trigger] vx_i.seq()[k]) == self.%s@[k], small(self.bytes())" % (m, m, m)
                st = "let ghost vx_p = bytes_all(self.%s@); proof { lemma_msgs_len(%d, vx_p, vx_i.index@); lemma_tag_one(%d, 2); assert(vx_p[vx_i.index@] == self.%s@[vx_i.index@].bytes()); }" % (m, num, num, m)
                after = "proof { assert(bytes_all(self.%s@).take(self.%s@.len() as int) =~= bytes_all(self.%s@)); }" % (m, m, m)
                loops.append({"iter": "vx_i", "inv": inv + ", my_size == %smsg_fields(%d, bytes_all(self.%s@).take(vx_i.index@)).len()" % (before, num, m), "start": st, "after": after})
                wl.append({"iter": "vx_i", "inv": inv + ", os.held() =~= vx_h%s + msg_fields(%d, bytes_all(self.%s@).take(vx_i.index@))" % ("".join(" + " + piece(*x) for x in fields[:k]), num, m), "start": st, "after": after})
        U.fn(f, "compute_size", c, label=t + "::compute_size", subs=SUBS + ([ACCEPTED] if n == "ReadRequest" else []), spec="requires small(self.bytes()) ensures r == self.bytes().len()", loops=loops,
             pre="".join("proof { ax_le8(fbits(self.%s), Seq::empty()); lemma_tag_one(%d, 1); }" % (m, num) for num, kind, m in fields if kind == "double"))
        if not any(k in ("kind", "hint", "enums") for _, k, _ in fields):
            U.fn(f, "write_to_with_cached_sizes", c, label=t + "::write_to_with_cached_sizes", subs=SUBS, sig_subs=SIG, pre="let ghost vx_h = os.held();", spec="requires small(self.bytes()) ensures r is Ok, final(os).held() =~= old(os).held() + self.bytes()", loops=wl)
        U.close()
    return U
