"""Both storage back ends over an abstract key-value store (C03, C04)."""
from . import lib
import re
from .. import pipe, unit
SC = "src/storage/common.rs"
SL = "src/storage/sled_storage.rs"
TK = "src/storage/tikv_storage.rs"
TP = "src/common/time_point.rs"

POINTS = r"""
// points as (timestamp, bits of the value)
spec fn pt(p: TimePoint) -> (u64, u64) { (p.timestamp, fbits(p.value)) }
spec fn pts(s: Seq<TimePoint>) -> Seq<(u64, u64)> { s.map_values(|p: TimePoint| pt(p)) }
spec fn inc_pts(s: Seq<(u64, u64)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
// the points of s in the inclusive range
spec fn is_in_range(r: Seq<(u64, u64)>, s: Seq<(u64, u64)>, lo: u64, hi: u64) -> bool {
    inc_pts(r) && forall|p: (u64, u64)| #[trigger] r.contains(p) <==> (s.contains(p) && lo <= p.0 <= hi)
}
"""
TRAIT = r"""
// ---- what a chunk may rely on about any storage; both back ends are proved to keep to it (unit storage)
type Series = (Seq<(u64, u64)>, bool);
trait Storage: Sized {
    // per id: the points of the series in the order they were written (none if it never was), and whether what is stored for it is whole points
    spec fn all(&self) -> spec_fn(u64) -> Series;
    fn write_time_point(&mut self, time_series_id: TimeSeriesId, timestamp: Timestamp, value: Value) -> (r: Result<()>)
        requires (old(self).all())(time_series_id).1,
        ensures r is Ok ==> stored(old(self).all(), final(self).all(), time_series_id, (timestamp, fbits(value))),
            r matches Err(e) ==> same_series(old(self).all(), final(self).all()) && (vx_store_err(e) || not_later((old(self).all())(time_series_id).0, timestamp));
    fn read_time_series(&self, time_series_id: TimeSeriesId, start_time: Timestamp, end_time: Timestamp) -> (r: Result<Vec<TimePoint>>)
        requires (self.all())(time_series_id).1, inc_pts((self.all())(time_series_id).0),
        ensures ({ let s = (self.all())(time_series_id).0; match r {
            Ok(v) => is_in_range(pts(v@), s, start_time, end_time),
            Err(MonolithErr::NotFoundErr) => s.len() == 0,
            Err(MonolithErr::OutOfRangeErr(a, b)) => forall|p: (u64, u64)| #[trigger] s.contains(p) ==> !(start_time <= p.0 <= end_time),
            Err(e) => vx_store_err(e) } });
}
spec fn not_later(s: Seq<(u64, u64)>, t: u64) -> bool { s.len() > 0 && t <= s.last().0 }
spec fn same_series(a: spec_fn(u64) -> Series, b: spec_fn(u64) -> Series) -> bool { forall|i: u64| #[trigger] b(i) == a(i) }
// the point is the newest of its series, which keeps its other points; no other series changes
spec fn stored(a: spec_fn(u64) -> Series, b: spec_fn(u64) -> Series, id: u64, p: (u64, u64)) -> bool {
    b(id).0 == a(id).0.push(p) && b(id).1
    && forall|i: u64| i != id ==> #[trigger] b(i) == a(i)
}
"""
SPEC = r"""
spec fn un64(b: Seq<u8>) -> u64 { choose|x: u64| be64(x) == b }
proof fn lemma_un64(x: u64)
    ensures un64(be64(x)) == x,
{ let y = un64(be64(x)); assert(be64(x) == be64(x)); lemma_be64_inj(x, y); }
// a stored point: 8 bytes timestamp, 8 bytes value
spec fn enc(p: (u64, u64)) -> Seq<u8> { be64(p.0) + be64(p.1) }
spec fn dec_pt(b: Seq<u8>) -> (u64, u64) { (un64(b.subrange(0, 8)), un64(b.subrange(8, 16))) }
spec fn rec(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(i * 16, i * 16 + 16) }
spec fn points(b: Seq<u8>) -> Seq<(u64, u64)> { Seq::new((b.len() / 16) as nat, |i: int| dec_pt(rec(b, i))) }
proof fn lemma_enc(p: (u64, u64))
    ensures enc(p).len() == 16, dec_pt(enc(p)) == p,
{
    assert(enc(p).subrange(0, 8) =~= be64(p.0)); assert(enc(p).subrange(8, 16) =~= be64(p.1));
    lemma_un64(p.0); lemma_un64(p.1);
}
// appending a record appends a point
proof fn lemma_append(b: Seq<u8>, p: (u64, u64))
    requires b.len() % 16 == 0,
    ensures (b + enc(p)).len() % 16 == 0, points(b + enc(p)) =~= points(b).push(p), points(Seq::empty()) =~= Seq::empty(),
{
    lemma_enc(p);
    let c = b + enc(p);
    let n = b.len() / 16;
    assert(c.len() == b.len() + 16 && c.len() / 16 == n + 1);
    assert forall|i: int| 0 <= i < n + 1 implies points(c)[i] == points(b).push(p)[i] by {
        if i < n { assert(rec(c, i) =~= rec(b, i)); } else { assert(rec(c, i) =~= enc(p)); }
    }
}
// the bytes of a series: whole points; and those of one that was written with strictly increasing timestamps
spec fn whole_bytes(b: Seq<u8>) -> bool { b.len() > 0 && b.len() % 16 == 0 }
spec fn wf_bytes(b: Seq<u8>) -> bool { whole_bytes(b) && inc_pts(points(b)) }
proof fn lemma_range(s: Seq<(u64, u64)>, l: int, r: int, lo: u64, hi: u64)
    requires inc_pts(s), 0 <= l <= r <= s.len(),
        forall|i: int| 0 <= i < l ==> (#[trigger] s[i]).0 < lo, forall|i: int| l <= i < s.len() ==> lo <= (#[trigger] s[i]).0,
        forall|i: int| 0 <= i < r ==> (#[trigger] s[i]).0 <= hi, forall|i: int| r <= i < s.len() ==> hi < (#[trigger] s[i]).0,
    ensures is_in_range(s.subrange(l, r), s, lo, hi),
{
    let t = s.subrange(l, r);
    assert forall|p: (u64, u64)| #[trigger] t.contains(p) <==> (s.contains(p) && lo <= p.0 <= hi) by {
        if t.contains(p) { let i = choose|i: int| 0 <= i < t.len() && t[i] == p; assert(s[i + l] == p); }
        if s.contains(p) && lo <= p.0 <= hi { let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(t[i - l] == p); }
    }
}
proof fn lemma_empty_range(s: Seq<(u64, u64)>, lo: u64, hi: u64)
    requires lo > hi || (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < lo || hi < s[i].0),
    ensures is_in_range(Seq::empty(), s, lo, hi),
{
    assert forall|p: (u64, u64)| (s.contains(p) && lo <= p.0 <= hi) implies #[trigger] Seq::<(u64, u64)>::empty().contains(p) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(s[i].0 < lo || hi < s[i].0); }
}
// one more point looked at
proof fn lemma_range_step(s: Seq<(u64, u64)>, k: int, r: Seq<(u64, u64)>, lo: u64, hi: u64)
    requires inc_pts(s), 0 <= k < s.len(), is_in_range(r, s.take(k), lo, hi),
    ensures lo <= s[k].0 <= hi ==> is_in_range(r.push(s[k]), s.take(k + 1), lo, hi), !(lo <= s[k].0 <= hi) ==> is_in_range(r, s.take(k + 1), lo, hi),
{
    let a = s.take(k); let b = s.take(k + 1); let q = r.push(s[k]);
    assert forall|p: (u64, u64)| b.contains(p) == (a.contains(p) || p == s[k]) by {
        if a.contains(p) { let i = choose|i: int| 0 <= i < k && a[i] == p; assert(b[i] == p); }
        if p == s[k] { assert(b[k] == p); }
        if b.contains(p) { let i = choose|i: int| 0 <= i < k + 1 && b[i] == p; if i < k { assert(a[i] == p); } }
    }
    assert forall|p: (u64, u64)| q.contains(p) == (r.contains(p) || p == s[k]) by {
        if r.contains(p) { let i = choose|i: int| 0 <= i < r.len() && r[i] == p; assert(q[i] == p); }
        if p == s[k] { assert(q[r.len() as int] == p); }
        if q.contains(p) { let i = choose|i: int| 0 <= i < q.len() && q[i] == p; if i < r.len() { assert(r[i] == p); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < q.len() && lo <= s[k].0 <= hi implies (#[trigger] q[i]).0 < (#[trigger] q[j]).0 by {
        if j == r.len() { assert(r.contains(r[i])); assert(a.contains(r[i])); let m = choose|m: int| 0 <= m < k && a[m] == r[i]; assert(s[m].0 < s[k].0); }
        else { assert(r[i].0 < r[j].0); }
    }
}
// l and r cut s at the bounds of the range
spec fn cuts(s: Seq<TimePoint>, l: int, r: int, lo: u64, hi: u64) -> bool {
    (forall|i: int| 0 <= i < l ==> (#[trigger] s[i]).timestamp < lo) && (forall|i: int| l <= i < s.len() ==> lo <= (#[trigger] s[i]).timestamp)
    && (forall|i: int| 0 <= i < r ==> (#[trigger] s[i]).timestamp <= hi) && (forall|i: int| r <= i < s.len() ==> hi < (#[trigger] s[i]).timestamp)
}
// what a read of series value b may answer
spec fn read_ok(k: Kv, key: Seq<u8>, lo: u64, hi: u64, r: Result<Vec<TimePoint>>) -> bool {
    let s = points(k[key]);
    match r {
        Ok(v) => k.contains_key(key) && is_in_range(pts(v@), s, lo, hi) && (lo <= hi ==> s[0].0 <= hi && s.last().0 >= lo),
        Err(MonolithErr::NotFoundErr) => !k.contains_key(key),
        Err(MonolithErr::OutOfRangeErr(a, b)) => k.contains_key(key) && (s[0].0 > hi || s.last().0 < lo) && a == s[0].0 && b == s.last().0,
        Err(e) => vx_store_err(e),
    }
}
// an accepted write appends the point to the series under the key, and nothing else changes
spec fn wrote(k0: Kv, k1: Kv, key: Seq<u8>, p: (u64, u64)) -> bool {
    k1.dom() =~= k0.dom().insert(key) && k1[key].len() % 16 == 0 && points(k1[key]) =~= (if k0.contains_key(key) { points(k0[key]) } else { Seq::empty() }).push(p)
    && forall|q: Seq<u8>| q != key && k0.contains_key(q) ==> #[trigger] k1[q] == k0[q]
}
// slice::binary_search over points ordered by timestamp (the order is TimePoint::cmp, below)
#[verifier::external_body]
fn vx_binary_search(s: &Vec<TimePoint>, x: &TimePoint) -> (r: std::result::Result<usize, usize>)
    requires inc_pts(pts(s@)),
    ensures match r { Ok(i) => i < s@.len() && s@[i as int].timestamp == x.timestamp && (forall|j: int| 0 <= j < i ==> (#[trigger] s@[j]).timestamp < x.timestamp) && (forall|j: int| i < j < s@.len() ==> x.timestamp < (#[trigger] s@[j]).timestamp),
        Err(i) => i <= s@.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] s@[j]).timestamp < x.timestamp) && (forall|j: int| i <= j < s@.len() ==> x.timestamp < (#[trigger] s@[j]).timestamp) },
{ s.binary_search_by(|p| p.timestamp.cmp(&x.timestamp)) }
#[verifier::external_body]
fn vx_points_from(s: &[TimePoint]) -> (r: Vec<TimePoint>) ensures r@ == s@ { loop {} }
#[verifier::external_body]
fn vx_str() -> String { String::new() }
"""

TOP = r"""
// histories: what an accepted write with a later timestamp leaves behind is again the value of a series in order, holding the
// points so far and the new one; the values of all other series are untouched
proof fn vx_series_stays_in_order(k0: Kv, k1: Kv, key: Seq<u8>, p: (u64, u64))
    requires wrote(k0, k1, key, p), k0.contains_key(key) ==> wf_bytes(k0[key]) && points(k0[key]).last().0 < p.0,
    ensures wf_bytes(k1[key]), points(k1[key]).last() == p,
        k0.contains_key(key) ==> points(k1[key]).drop_last() =~= points(k0[key]),
{
    let q = points(k1[key]);
    assert(q.last() == p);
    assert(q.len() == k1[key].len() / 16);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 < (#[trigger] q[j]).0 by {
        if k0.contains_key(key) {
            let o = points(k0[key]);
            assert(o[i] == q[i]);
            if j < o.len() { assert(o[j] == q[j]); } else { assert(q[j] == p); assert(o[i].0 <= o.last().0) by { assert(o[o.len() - 1] == o.last()); if i < o.len() - 1 { assert(o[i].0 < o[o.len() - 1].0); } } }
        }
    }
}
proof fn vx_sled_series_are_separate(k0: Kv, k1: Kv, a: u64, b: u64, p: (u64, u64))
    requires wrote(k0, k1, skey(a), p), a != b,
    ensures k1.contains_key(skey(b)) == k0.contains_key(skey(b)), k0.contains_key(skey(b)) ==> k1[skey(b)] == k0[skey(b)],
{ if skey(a) == skey(b) { lemma_skey(a, b); } }
proof fn vx_tikv_series_are_separate(k0: Kv, k1: Kv, c: Seq<u8>, a: u64, b: u64, p: (u64, u64))
    requires wrote(k0, k1, tkey(c, a), p), a != b,
    ensures k1.contains_key(tkey(c, b)) == k0.contains_key(tkey(c, b)), k0.contains_key(tkey(c, b)) ==> k1[tkey(c, b)] == k0[tkey(c, b)],
{ if tkey(c, a) == tkey(c, b) { lemma_tkey(c, a, b); } }
"""

# the contracts of both back ends imply the contract of the trait
REFINE = r"""
spec fn kv_series(k: Kv, key: Seq<u8>) -> Series { if k.contains_key(key) { (points(k[key]), whole_bytes(k[key])) } else { (Seq::empty(), true) } }
proof fn lemma_wrote_stored(k0: Kv, k1: Kv, key: Seq<u8>, p: (u64, u64))
    requires wrote(k0, k1, key, p), kv_series(k0, key).1,
    ensures kv_series(k1, key).0 =~= kv_series(k0, key).0.push(p), kv_series(k1, key).1,
        forall|q: Seq<u8>| q != key ==> #[trigger] kv_series(k1, q) == kv_series(k0, q),
{
    assert(k1.contains_key(key));
    assert(points(k1[key]).len() == k1[key].len() / 16);
    assert forall|q: Seq<u8>| q != key implies #[trigger] kv_series(k1, q) == kv_series(k0, q) by { assert(k1.dom().contains(q) == k0.dom().contains(q)); }
}
proof fn lemma_read_ok(k: Kv, key: Seq<u8>, lo: u64, hi: u64, r: Result<Vec<TimePoint>>)
    requires read_ok(k, key, lo, hi, r), kv_series(k, key).1, inc_pts(kv_series(k, key).0),
    ensures r matches Err(MonolithErr::OutOfRangeErr(a, b)) ==> forall|p: (u64, u64)| #[trigger] kv_series(k, key).0.contains(p) ==> !(lo <= p.0 <= hi),
{
    let s = kv_series(k, key).0;
    if let Err(MonolithErr::OutOfRangeErr(a, b)) = r {
        assert forall|p: (u64, u64)| #[trigger] s.contains(p) implies !(lo <= p.0 <= hi) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == p;
            let n = s.len() - 1;
            if i > 0 { assert(s[0].0 < s[i].0); } if i < n { assert(s[i].0 < s[n].0); }
        }
    }
}
impl Storage for SledStorage {
    spec fn all(&self) -> spec_fn(u64) -> Series { |id: u64| kv_series(self.storage@, skey(id)) }
    fn write_time_point(&mut self, time_series_id: TimeSeriesId, timestamp: Timestamp, value: Value) -> (r: Result<()>) {
        let ghost k0 = self.storage@;
        let r = SledStorage::write_time_point(self, time_series_id, timestamp, value);
        proof { if r is Ok { lemma_wrote_stored(k0, self.storage@, skey(time_series_id), (timestamp, fbits(value)));
            assert forall|i: u64| i != time_series_id implies skey(i) != skey(time_series_id) by { if skey(i) == skey(time_series_id) { lemma_skey(i, time_series_id); } } } }
        r
    }
    fn read_time_series(&self, time_series_id: TimeSeriesId, start_time: Timestamp, end_time: Timestamp) -> (r: Result<Vec<TimePoint>>) {
        let r = SledStorage::read_time_series(self, time_series_id, start_time, end_time);
        proof { lemma_read_ok(self.storage@, skey(time_series_id), start_time, end_time, r); }
        r
    }
}
impl Storage for TiKvStorage {
    spec fn all(&self) -> spec_fn(u64) -> Series { |id: u64| kv_series(self.kv(), self.key(id)) }
    fn write_time_point(&mut self, time_series_id: TimeSeriesId, timestamp: Timestamp, value: Value) -> (r: Result<()>) {
        let ghost k0 = self.kv(); let ghost c = self.storage_identifier@;
        let r = TiKvStorage::write_time_point(self, time_series_id, timestamp, value);
        proof { if r is Ok { lemma_wrote_stored(k0, self.kv(), tkey(c, time_series_id), (timestamp, fbits(value)));
            assert forall|i: u64| i != time_series_id implies tkey(c, i) != tkey(c, time_series_id) by { if tkey(c, i) == tkey(c, time_series_id) { lemma_tkey(c, i, time_series_id); } } } }
        r
    }
    fn read_time_series(&self, time_series_id: TimeSeriesId, start_time: Timestamp, end_time: Timestamp) -> (r: Result<Vec<TimePoint>>) {
        let r = TiKvStorage::read_time_series(self, time_series_id, start_time, end_time);
        proof { lemma_read_ok(self.kv(), self.key(time_series_id), start_time, end_time, r); }
        r
    }
}
"""


def build():
    from ..unit import Unit
    U = Unit("storage")
    SUBS = lib.BE_SUBS + lib.SIZE_SUBS + lib.CHUNK_SUBS + lib.TEXT_SUBS + lib.KV_SUBS + [
        (r'"[^"]*"\s*\.\s*(?:into|to_string|to_owned)\(\)', "vx_str()", "text of an error message dropped"),
        (r"(\w+)\.binary_search\(", r"vx_binary_search(&\1, ", "binary_search written vx_binary_search"),
        (r"Vec::from\((\w+)\)", r"vx_points_from(\1)", "Vec::from(slice) written vx_points_from"),
        (r"(?:SledStorage|TiKvStorage|Self)::trim_time_series\(", "trim_time_series(", "default trait method called as a free function"),
    ]
    RSUBS = [x for x in SUBS if x[2] != lib.SHARED_HANDLE]
    for k, n in (("type", "Timestamp"), ("type", "Value")):
        U.item("src/lib.rs", k, n)
    U.item("src/common/time_series.rs", "type", "TimeSeriesId")
    lib.errors(U)
    U.raw("use MonolithErr::{NotFoundErr, OutOfRangeErr, InternalErr, OptionErr, ParseErr};\n")
    U.raw(lib.BYTES + lib.BE + lib.CHUNKS + lib.SIZES + lib.TEXT + lib.KV + lib.TIKV)
    U.item(TP, "struct", "TimePoint")
    U.open("impl TimePoint")
    U.fn(TP, "new", "^impl TimePoint$", spec="ensures r.timestamp == timestamp, r.value == value")
    U.close()
    U.raw(POINTS + TRAIT + SPEC + lib.ITER + lib.REFS)
    if re.search(r"#\[derive\([^)]*\bClone\b[^)]*\)\]\s*pub\s+struct\s+TimePoint\b", unit.source(TP).text):
        U.raw("// derived\nimpl Clone for TimePoint {\n fn clone(&self) -> (r: TimePoint) ensures r == *self { TimePoint { timestamp: self.timestamp, value: self.value } }\n}\n")
    U.fn(SC, "trim_time_series", "^trait Storage", subs=SUBS + [pipe.LOWER], label="Storage::trim_time_series",
         spec="""requires inc_pts(pts(series@)),
         ensures r matches Ok(v) && is_in_range(pts(v@), pts(series@), start_time, end_time)""",
         pre="""let ghost vx_s = pts(series@);
         proof {
            assert(pts(Seq::<TimePoint>::empty()) =~= Seq::<(u64, u64)>::empty());
            assert forall|i: int| 0 <= i < vx_s.len() implies (#[trigger] vx_s[i]).0 == series@[i].timestamp by {}
            assert((forall|i: int| 0 <= i < series@.len() ==> (#[trigger] series@[i]).timestamp < start_time || end_time < series@[i].timestamp) ==> is_in_range(Seq::empty(), vx_s, start_time, end_time)) by {
                if forall|i: int| 0 <= i < series@.len() ==> (#[trigger] series@[i]).timestamp < start_time || end_time < series@[i].timestamp {
                    assert forall|i: int| 0 <= i < vx_s.len() implies (#[trigger] vx_s[i]).0 < start_time || end_time < vx_s[i].0 by { assert(series@[i].timestamp < start_time || end_time < series@[i].timestamp); }
                    lemma_empty_range(vx_s, start_time, end_time);
                }
            }
            assert forall|l: int, r: int| 0 <= l <= r <= vx_s.len() && cuts(series@, l, r, start_time, end_time) implies is_in_range(pts(#[trigger] series@.subrange(l, r)), vx_s, start_time, end_time) by {
                assert(pts(series@.subrange(l, r)) =~= vx_s.subrange(l, r));
                assert forall|i: int| 0 <= i < vx_s.len() implies (#[trigger] vx_s[i]).0 == series@[i].timestamp by {}
                lemma_range(vx_s, l, r, start_time, end_time);
            }
         }""",
         alts=[{"pre": "let ghost vx_s = pts(series@); let ghost vx_v = series@; proof { assert(pts(Seq::<TimePoint>::empty()) =~= Seq::<(u64, u64)>::empty()); lemma_empty_range(vx_s.take(0), start_time, end_time); assert(vx_s.take(vx_s.len() as int) =~= vx_s); }",
                "loops": [{"desugar": "vx_it", "lowered": True, "pushed": True,
                    "inv": "vx_s == pts(vx_v), vx_s.take(vx_s.len() as int) =~= vx_s, inc_pts(vx_s), vx_it.seq()%s == vx_v, 0 <= vx_it.at() <= vx_v.len(), is_in_range(pts($V@), vx_s.take(vx_it.at()), start_time, end_time)" % d,
                    "ens": "is_in_range(pts($V@), vx_s, start_time, end_time)", "dec": "vx_v.len() - vx_it.at()",
                    "start": """let ghost vx_k = vx_it.at(); proof { if vx_k < vx_v.len() { lemma_range_step(vx_s, vx_k, pts($V@), start_time, end_time); assert(vx_s[vx_k] == pt(vx_v[vx_k]));
                        assert forall|q: TimePoint| pts(#[trigger] $V@.push(q)) =~= pts($V@).push(pt(q)) by {} } }"""}]}
               for d in ("", ".map_values(|x: &TimePoint| *x)")])
    K = "KvStorageProcessor"
    U.item(SL, "struct", K)
    U.open("impl " + K)
    U.fn(SL, "encode_time_point", "^impl Encoder for KvStorageProcessor$", subs=SUBS, spec="ensures r matches Ok(v) && v@ =~= enc((timestamp, fbits(value)))")
    U.fn(SL, "decode_time_point", "^impl Decoder for KvStorageProcessor$", subs=SUBS, spec="ensures raw@.len() == 16 ==> (r matches Ok(p) && pt(p) == dec_pt(raw@)), raw@.len() != 16 ==> r is Err",
         pre="proof { assert forall|x: u64| un64(#[trigger] be64(x)) == x by { lemma_un64(x); } }")
    U.close()
    for c in ("TIME_SERIES_PREFIX", "TIME_POINT_PREFIX"):
        U.item(SL, "const", c, subs=lib.CONST_SUBS)
    U.item(SL, "struct", "SledStorage")
    U.raw(r"""
spec fn skey(id: u64) -> Seq<u8> { utf8(TIME_SERIES_PREFIX@ + dec(id)) }
proof fn lemma_skey(a: u64, b: u64)
    requires skey(a) == skey(b),
    ensures a == b,
{
    ax_utf8(TIME_SERIES_PREFIX@ + dec(a), TIME_SERIES_PREFIX@ + dec(b));
    assert((TIME_SERIES_PREFIX@ + dec(a)).skip(TIME_SERIES_PREFIX@.len() as int) =~= dec(a));
    assert((TIME_SERIES_PREFIX@ + dec(b)).skip(TIME_SERIES_PREFIX@.len() as int) =~= dec(b));
    ax_dec(a, b);
}
""")
    U.open("impl SledStorage")
    c = "^impl SledStorage$"
    WPRE = """let ghost vx_p = (timestamp, fbits(value));
         proof { assert forall|b: Seq<u8>| b.len() % 16 == 0 implies points(#[trigger] (b + enc(vx_p))) =~= points(b).push(vx_p) && (b + enc(vx_p)).len() % 16 == 0 by { lemma_append(b, vx_p); }
            lemma_append(Seq::empty(), vx_p); assert(Seq::<u8>::empty() + enc(vx_p) =~= enc(vx_p));
            assert forall|b: Seq<u8>| whole_bytes(b) implies points(b).last() == dec_pt(#[trigger] b.subrange(b.len() - 16, b.len() as int)) by { assert(rec(b, b.len() / 16 - 1) =~= b.subrange(b.len() - 16, b.len() as int)); } }"""
    U.fn(SL, "parse_key_name", c, subs=SUBS, sig_subs=lib.TEXT_SUBS, spec="ensures r@ == prefix@ + key.show()")
    DEC = "proof { assert(points(%s)[it.index@] == dec_pt(rec(%s, it.index@))); assert(rec(%s, it.index@) == %s.subrange(it.index@ * 16, (it.index@ + 1) * 16)); }"
    U.fn(SL, "get_series_by_id", c, subs=RSUBS, spec="""
        requires self.storage@.contains_key(skey(time_series_id)) ==> wf_bytes(self.storage@[skey(time_series_id)]),
        ensures r matches Ok(o) ==> (o matches Some(v) && self.storage@.contains_key(skey(time_series_id)) && pts(v@) =~= points(self.storage@[skey(time_series_id)])),
            r matches Err(e) ==> vx_store_err(e) || (e == MonolithErr::NotFoundErr && !self.storage@.contains_key(skey(time_series_id)))""",
         loops=[{"iter": "it", "inv": """res@.len() == it.index@, it.seq().len() == val_vec@.len() / 16, val_vec@.len() % 16 == 0, pts(res@) =~= points(val_vec@).take(it.index@),
            forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == rec(val_vec@, i)""", "start": "proof { assert(points(val_vec@)[it.index@] == dec_pt(rec(val_vec@, it.index@))); }"}])
    U.fn(SL, "write_time_point", "^impl Storage for SledStorage$", subs=SUBS, sig_subs=lib.MUT_SELF, spec="""
        requires old(self).storage@.contains_key(skey(time_series_id)) ==> whole_bytes(old(self).storage@[skey(time_series_id)]),
        ensures r is Ok ==> wrote(old(self).storage@, final(self).storage@, skey(time_series_id), (timestamp, fbits(value))),
            r matches Err(e) ==> vx_store_err(e) && final(self).storage@ == old(self).storage@""",
         pre=WPRE)
    U.fn(SL, "read_time_series", "^impl Storage for SledStorage$", subs=RSUBS, spec="""
        requires self.storage@.contains_key(skey(time_series_id)) ==> wf_bytes(self.storage@[skey(time_series_id)]),
        ensures read_ok(self.storage@, skey(time_series_id), start_time, end_time, r)""")
    U.close()
    U.item(TK, "struct", "TiKvStorage")
    U.raw(r"""
spec fn tkey(comp: Seq<u8>, id: u64) -> Seq<u8> { comp + be64(id) }
proof fn lemma_tkey(comp: Seq<u8>, a: u64, b: u64)
    requires tkey(comp, a) == tkey(comp, b),
    ensures a == b,
{ assert(tkey(comp, a).skip(comp.len() as int) =~= be64(a)); assert(tkey(comp, b).skip(comp.len() as int) =~= be64(b)); lemma_be64_inj(a, b); }
impl TiKvStorage {
    spec fn kv(&self) -> Kv { (*self.client).view() }
    spec fn key(&self, id: u64) -> Seq<u8> { tkey(self.storage_identifier@, id) }
}
""")
    U.open("impl TiKvStorage")
    c = "^impl Storage for TiKvStorage$"
    W = "requires old(self).kv().contains_key(old(self).key(time_series_id)) ==> wf_bytes(old(self).kv()[old(self).key(time_series_id)]),"
    U.fn(TK, "write_time_point", c, subs=SUBS, sig_subs=lib.MUT_SELF, spec=W.replace("wf_bytes", "whole_bytes") + """
        ensures final(self).storage_identifier@ == old(self).storage_identifier@,
            r is Ok ==> wrote(old(self).kv(), final(self).kv(), old(self).key(time_series_id), (timestamp, fbits(value)))
                && (old(self).kv().contains_key(old(self).key(time_series_id)) ==> points(old(self).kv()[old(self).key(time_series_id)]).last().0 < timestamp),
            r matches Err(e) ==> final(self).kv() == old(self).kv() && (vx_store_err(e) || (old(self).kv().contains_key(old(self).key(time_series_id)) && points(old(self).kv()[old(self).key(time_series_id)]).last().0 >= timestamp))""", pre=WPRE)
    U.fn(TK, "read_time_series", c, subs=RSUBS, spec=W.replace("old(self)", "self") + """
        ensures read_ok(self.kv(), self.key(time_series_id), start_time, end_time, r)""",
         loops=[{"iter": "it", "inv": """series@.len() == it.index@, it.seq().len() == val@.len() / 16, val@.len() % 16 == 0, pts(series@) =~= points(val@).take(it.index@),
            forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == rec(val@, i)""", "start": "proof { assert(points(val@)[it.index@] == dec_pt(rec(val@, it.index@))); }",
            "after": "proof { let n = series@.len() as int; assert(pts(series@) =~= points(val@)); assert(pts(series@)[0] == pt(series@[0])); assert(pts(series@)[n - 1] == pt(series@[n - 1])); }"}])
    U.close()
    U.raw(TOP)
    U.raw(REFINE)
    return U
