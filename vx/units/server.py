"""The remote endpoint: conversions between messages and series, queries and writes, request handling (C18, C20)."""
import re
from . import lib, labels, chunk, proto
from .. import pipe
L = "src/common/label.rs"
TP = "src/common/time_point.rs"
TS = "src/common/time_series.rs"
SV = "src/server.rs"
PT = "src/proto/types.rs"
PR = "src/proto/remote.rs"

PROTO = r"""
impl Default for VxUnknown { #[verifier::external_body] fn default() -> (r: VxUnknown) ensures unk(r).len() == 0 { loop {} } }
impl Default for VxCached { #[verifier::external_body] fn default() -> (r: VxCached) { loop {} } }
// a repeated field is a vector
fn vx_rep<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
"""
SPEC = r"""
// ---- what messages and series say
spec fn plab(l: PLabel) -> Lab { l.says() }
spec fn plabs(v: Seq<PLabel>) -> Seq<Lab> { says_all(v) }
spec fn pt(p: TimePoint) -> (u64, u64) { (p.timestamp, fbits(p.value)) }
spec fn pts(v: Seq<TimePoint>) -> Seq<(u64, u64)> { v.map_values(|p: TimePoint| pt(p)) }
spec fn psample(s: Sample) -> (int, u64) { s.says() }
spec fn psamples(v: Seq<Sample>) -> Seq<(int, u64)> { says_all(v) }
// the same bits of the value, and the instant as the other side writes it (below the epoch: in two's complement)
spec fn gives(p: TimePoint, s: Sample) -> bool { fbits(s.value) == fbits(p.value) && s.timestamp == p.timestamp as i64 }
spec fn takes(s: Sample, p: TimePoint) -> bool { fbits(s.value) == fbits(p.value) && p.timestamp == s.timestamp as u64 }
spec fn all_give(w: Seq<TimePoint>, v: Seq<Sample>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> gives(w[i], #[trigger] v[i]) }
spec fn all_take(v: Seq<Sample>, w: Seq<TimePoint>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> takes(v[i], #[trigger] w[i]) }
// instants both sides can express are the same number
proof fn lemma_instants(a: i64, b: u64)
    ensures a >= 0 ==> a as u64 as int == a, b <= i64::MAX ==> b as i64 as int == b, (a as u64) as i64 == a, (b as i64) as u64 == b,
{
    assert((a as u64) as i64 == a) by (bit_vector); assert((b as i64) as u64 == b) by (bit_vector);
}
// nothing but what the message says
spec fn bare(u: VxUnknown) -> bool { unk(u).len() == 0 }
spec fn bare_series(m: PTimeSeries) -> bool {
    bare(m.unknown_fields) && (forall|i: int| 0 <= i < m.labels@.len() ==> bare((#[trigger] m.labels@[i]).unknown_fields)) && (forall|i: int| 0 <= i < m.samples@.len() ==> bare((#[trigger] m.samples@[i]).unknown_fields))
}
spec fn label_out(l: Label, r: PLabel) -> bool { plab(r) == lab(l) && bare(r.unknown_fields) }
spec fn label_in(l: PLabel, r: Label) -> bool { lab(r) == plab(l) }
spec fn point_out(p: TimePoint, r: Sample) -> bool { gives(p, r) && bare(r.unknown_fields) }
spec fn point_in(s: Sample, r: TimePoint) -> bool { takes(s, r) }
spec fn series_out(t: TimeSeries, r: PTimeSeries) -> bool { plabs(r.labels@) =~= labs(t.meta_data) && all_give(t.time_points@, r.samples@) && bare_series(r) }
spec fn pair_out(t: (Labels, Vec<TimePoint>), r: PTimeSeries) -> bool { plabs(r.labels@) =~= labs(t.0) && all_give(t.1@, r.samples@) && bare_series(r) }
spec fn series_in(m: PTimeSeries, r: TimeSeries) -> bool { labs(r.meta_data) =~= plabs(m.labels@) && all_take(m.samples@, r.time_points@) }
// copies of messages
trait VxToVec<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_seq(); }
impl VxToVec<PLabel> for Vec<PLabel> { spec fn vx_seq(&self) -> Seq<PLabel> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<PLabel>) { loop {} } }
impl VxToVec<Sample> for Vec<Sample> { spec fn vx_seq(&self) -> Seq<Sample> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<Sample>) { loop {} } }
impl VxToVec<PTimeSeries> for Vec<PTimeSeries> { spec fn vx_seq(&self) -> Seq<PTimeSeries> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<PTimeSeries>) { loop {} } }
"""
LEMMAS = r"""
// a message turned into a series and back says the same
proof fn lemma_message_back(m: PTimeSeries, t: TimeSeries, b: PTimeSeries)
    requires series_in(m, t), series_out(t, b),
    ensures plabs(b.labels@) =~= plabs(m.labels@), psamples(b.samples@) =~= psamples(m.samples@),
{
    assert forall|i: int| 0 <= i < m.samples@.len() implies psample(#[trigger] b.samples@[i]) == psample(m.samples@[i]) by { lemma_instants(m.samples@[i].timestamp, 0); assert(takes(m.samples@[i], t.time_points@[i])); assert(gives(t.time_points@[i], b.samples@[i])); }
}
// and a series turned into a message and back
proof fn lemma_series_back(t: TimeSeries, m: PTimeSeries, b: TimeSeries)
    requires series_out(t, m), series_in(m, b),
    ensures labs(b.meta_data) =~= labs(t.meta_data), pts(b.time_points@) =~= pts(t.time_points@),
{
    assert forall|i: int| 0 <= i < t.time_points@.len() implies pt(#[trigger] b.time_points@[i]) == pt(t.time_points@[i]) by { lemma_instants(0, t.time_points@[i].timestamp); assert(gives(t.time_points@[i], m.samples@[i])); assert(takes(m.samples@[i], b.time_points@[i])); }
}
"""
MSG = proto.MSG
NAMES = [(r"crate::proto::(Label|TimeSeries)\b", r"P\1", "crate::proto::Label written PLabel, crate::proto::TimeSeries written PTimeSeries"), (r"crate::proto::", "", "path"),
         (r"RepeatedField::(?:from|from_vec)\(", "vx_rep(", "repeated field made from a vector"), (r"\.to_vec\(\)", ".vx_to_vec()", "to_vec through a trait with the same dispatch")]


def eta(s):
    """|x| path(x) -> path"""
    return re.subn(r"\|\s*(\w+)(?:\s*:[^|,]+)?\s*\|\s*((?:\w+::)+\w+)\(\s*\1\s*\)", r"\2", s)


ETA = [(eta, None, "closure that only calls a function written as that function")]


def conversions(U):
    U.raw(proto.WIRE + proto.OPAQUE + PROTO)
    for f, n in ((PT, "Label"), (PT, "Sample"), (PT, "TimeSeries"), (PT, "LabelMatcher")):
        U.item(f, "struct", n, subs=MSG)
    for n in ("Query", "QueryResult", "WriteRequest", "ReadRequest", "ReadResponse"):
        U.item(PR, "struct", n, subs=MSG)
    U.raw(proto.SAYS)
    labels.base(U)
    U.item(TS, "type", "TimeSeriesId")
    U.item(TS, "struct", "TimeSeries")
    U.raw(SPEC)
    # Verus does not see through `iter().map(T::from).collect()` inside an implementation of a trait, so each conversion is an associated
    # function of the target type here: `T::from(x)` means the same (one source type per target; the second one of a message is renamed)
    for src, dst, f, rel in (("&Label", "PLabel", L, "label_out"), ("&PLabel", "Label", L, "label_in"), ("&TimePoint", "Sample", TP, "point_out"), ("&Sample", "TimePoint", TP, "point_in"),
                             ("&TimeSeries", "PTimeSeries", TS, "series_out"), ("&(Labels, Vec<TimePoint>)", "PTimeSeries", TS, "pair_out"), ("&PTimeSeries", "TimeSeries", TS, "series_in")):
        rx = "^impl From < %s > for %s$" % (typ(src), typ(dst))
        U.open("impl %s" % dst)
        U.fn(f, "from", rx, label="%s::from(%s)" % (dst, src), subs=NAMES + ETA, sig_subs=NAMES + [(r"-> Self\b", "-> " + dst, "Self written out")], spec="ensures %s(*%s, r)" % (rel, param(f, rx)), rename="vx_from_series" if src == "&TimeSeries" else None)
        U.close()
    U.raw(LEMMAS)


def typ(t):
    out = []
    for w in re.findall(r"\w+|[^\w\s]", t):
        out.append({"PLabel": r"crate :: proto :: Label", "PTimeSeries": r"crate :: proto :: TimeSeries", "Sample": r"(?:crate :: proto :: )?Sample"}.get(w, re.escape(w)))
    return r"\s*".join(out).replace(" ", r"\s*")


def param(f, rx):
    from .. import unit, rust
    m = re.search(r"\(\s*(\w+)\s*:", unit.locate(f, "from", rx).sig)
    if not m:
        raise rust.Lost("From::from: no argument")
    return m.group(1)



SERVER = chunk.ITER + lib.REFS + r"""
fn vx_same_str<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@ { s }
// ---- what goes on around the server, in order: writes handed to the database, answers sent
type VxWrite = (Seq<Lab>, Seq<(u64, u64)>, bool);
type VxAnswer = (int, Option<Seq<u8>>);
#[verifier::external_body] struct VxWorld {}
impl VxWorld {
    uninterp spec fn wrote(&self) -> Seq<VxWrite>;
    uninterp spec fn sent(&self) -> Seq<VxAnswer>;
}
#[derive(Debug)] #[verifier::external_body] struct VxErr {}
type Result<T> = std::result::Result<T, VxErr>;
// the database; what it promises is the subject of C12 and C13
#[verifier::external_body] struct MonolithDb {}
impl MonolithDb {
    // v was an answer of this database to a search for these labels over these instants
    uninterp spec fn answers(&self, l: Seq<Lab>, lo: u64, hi: u64, v: Seq<(Labels, Vec<TimePoint>)>) -> bool;
    uninterp spec fn refuses(&self, l: Seq<Lab>, lo: u64, hi: u64) -> bool;
    #[verifier::external_body]
    fn vx_query(&self, labels: Labels, start_time: Timestamp, end_time: Timestamp) -> (r: Result<LabelPointPairs>)
        ensures r matches Ok(v) ==> self.answers(labs(labels), start_time, end_time, v@), r is Err ==> self.refuses(labs(labels), start_time, end_time),
    { loop {} }
    // the same; q only helps to see which query of the request it is
    fn query(&self, labels: Labels, start_time: Timestamp, end_time: Timestamp, Ghost(q): Ghost<Query>) -> (r: Result<LabelPointPairs>)
        ensures r matches Ok(v) ==> self.answers(labs(labels), start_time, end_time, v@), r is Err ==> self.refuses(labs(labels), start_time, end_time),
            asks(labels, q) ==> labs(labels) == asked(q),
    { proof { if asks(labels, q) { assert(labs(labels) =~= asked(q)); } } self.vx_query(labels, start_time, end_time) }
    #[verifier::external_body]
    fn vx_write(&self, labels: Labels, timepoints: Vec<TimePoint>, vx_w: &mut VxWorld) -> (r: Result<()>)
        ensures final(vx_w).sent() == old(vx_w).sent(), final(vx_w).wrote() == old(vx_w).wrote().push((labs(labels), pts(timepoints@), r is Ok)),
    { loop {} }
    // the same; m only helps to see which series of the request it is
    fn write_time_points(&self, labels: Labels, timepoints: Vec<TimePoint>, vx_w: &mut VxWorld, Ghost(m): Ghost<PTimeSeries>) -> (r: Result<()>)
        ensures final(vx_w).sent() == old(vx_w).sent(), final(vx_w).wrote() == old(vx_w).wrote().push((labs(labels), pts(timepoints@), r is Ok)),
            holds(labels, timepoints@, m) ==> (labs(labels), pts(timepoints@)) == told(m.says()),
    { proof { if holds(labels, timepoints@, m) { assert(labs(labels) =~= told(m.says()).0); assert(pts(timepoints@) =~= told(m.says()).1) by { assert forall|i: int| 0 <= i < timepoints@.len() implies pts(timepoints@)[i] == #[trigger] told(m.says()).1[i] by { assert(takes(m.samples@[i], timepoints@[i])); } } } }
      self.vx_write(labels, timepoints, vx_w) }
}
// what a query asks for
spec fn asked(q: Query) -> Seq<Lab> { says_all(q.matchers@) }
spec fn from_epoch(t: int) -> u64 { (if t < 0 { 0 } else { t }) as u64 }
// w is what the database answered, as series of a message
spec fn given(p: Seq<(u64, u64)>, w: Seq<TimeBits>) -> bool { p.len() == w.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] w[i]).1 == p[i].1 && w[i].0 == p[i].0 as i64 }
spec fn all_given(v: Seq<(Labels, Vec<TimePoint>)>, w: Seq<SeriesSays>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).0 == labs(v[i].0) && given(pts(v[i].1@), w[i].1) }
spec fn answered(db: MonolithDb, q: QuerySays, w: Seq<SeriesSays>) -> bool {
    if q.1 < 0 { w.len() == 0 }
    else { exists|v: Seq<(Labels, Vec<TimePoint>)>| #[trigger] db.answers(q.2, from_epoch(q.0), q.1 as u64, v) && all_given(v, w) }
}
spec fn all_answered(db: MonolithDb, q: Seq<QuerySays>, w: Seq<Seq<SeriesSays>>) -> bool { q.len() == w.len() && forall|i: int| 0 <= i < q.len() ==> answered(db, q[i], #[trigger] w[i]) }
spec fn some_refused(db: MonolithDb, q: Seq<QuerySays>) -> bool { exists|i: int| 0 <= i < q.len() && db.refuses((#[trigger] q[i]).2, from_epoch(q[i].0), q[i].1 as u64) }
spec fn asks(l: Labels, q: Query) -> bool { labs(l).len() == q.matchers@.len() && forall|i: int| 0 <= i < labs(l).len() ==> #[trigger] labs(l)[i] == (q.matchers@[i].name@, q.matchers@[i].value@) }
// the same of the messages themselves, which carry nothing else
spec fn all_series(v: Seq<(Labels, Vec<TimePoint>)>, w: Seq<PTimeSeries>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> pair_out(v[i], #[trigger] w[i]) }
spec fn answers_one(db: MonolithDb, q: Query, r: Seq<PTimeSeries>) -> bool {
    if q.end_timestamp_ms < 0 { r.len() == 0 }
    else { exists|v: Seq<(Labels, Vec<TimePoint>)>| #[trigger] db.answers(asked(q), from_epoch(q.start_timestamp_ms as int), q.end_timestamp_ms as u64, v) && all_series(v, r) }
}
spec fn answers_all(db: MonolithDb, q: ReadRequest, r: ReadResponse) -> bool {
    bare(r.unknown_fields) && q.queries@.len() == r.results@.len() && forall|i: int| 0 <= i < q.queries@.len() ==> bare((#[trigger] r.results@[i]).unknown_fields) && answers_one(db, q.queries@[i], r.results@[i].timeseries@)
}
spec fn refuses_one(db: MonolithDb, q: Seq<Query>) -> bool { exists|i: int| 0 <= i < q.len() && db.refuses(asked(#[trigger] q[i]), from_epoch(q[i].start_timestamp_ms as int), q[i].end_timestamp_ms as u64) }
proof fn lemma_series_says(t: (Labels, Vec<TimePoint>), m: PTimeSeries)
    requires pair_out(t, m),
    ensures m.says().0 == labs(t.0), given(pts(t.1@), m.says().1), m.bytes() == enc_series(m.says()), forall|i: int| 0 <= i < m.says().1.len() ==> in64((#[trigger] m.says().1[i]).0),
{
    assert(m.says().0 =~= labs(t.0));
    assert forall|i: int| 0 <= i < t.1@.len() implies (#[trigger] m.says().1[i]).1 == pts(t.1@)[i].1 && m.says().1[i].0 == pts(t.1@)[i].0 as i64 by { assert(gives(t.1@[i], m.samples@[i])); }
    let a = bytes_all(m.labels@); let b = enc_labels(m.says().0);
    assert forall|i: int| 0 <= i < a.len() implies a[i] =~= b[i] by { assert(bare(m.labels@[i].unknown_fields)); }
    assert(a =~= b);
    let c = bytes_all(m.samples@); let d = enc_samples(m.says().1);
    assert forall|i: int| 0 <= i < c.len() implies c[i] =~= d[i] by { assert(bare(m.samples@[i].unknown_fields)); }
    assert(c =~= d);
    assert(m.bytes() =~= enc_series(m.says()));
}
proof fn lemma_result_says(db: MonolithDb, q: Query, r: QueryResult)
    requires answers_one(db, q, r.timeseries@), bare(r.unknown_fields),
    ensures answered(db, q.says(), r.says()), r.bytes() == enc_batch(r.says()), forall|i: int, j: int| 0 <= i < r.says().len() && 0 <= j < r.says()[i].1.len() ==> in64((#[trigger] r.says()[i].1[j]).0),
{
    let m = r.timeseries@; let a = bytes_all(m); let b = enc_all(r.says());
    assert forall|i: int| 0 <= i < m.len() implies a[i] == b[i] && (forall|j: int| 0 <= j < r.says()[i].1.len() ==> in64((#[trigger] r.says()[i].1[j]).0)) by {
        let v = choose|v: Seq<(Labels, Vec<TimePoint>)>| #[trigger] db.answers(asked(q), from_epoch(q.start_timestamp_ms as int), q.end_timestamp_ms as u64, v) && all_series(v, m);
        assert(pair_out(v[i], m[i])); lemma_series_says(v[i], m[i]);
    }
    assert(a =~= b);
    assert(r.bytes() =~= enc_batch(r.says()));
    if q.end_timestamp_ms >= 0 {
        let v = choose|v: Seq<(Labels, Vec<TimePoint>)>| #[trigger] db.answers(asked(q), from_epoch(q.start_timestamp_ms as int), q.end_timestamp_ms as u64, v) && all_series(v, m);
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] r.says()[i]).0 == labs(v[i].0) && given(pts(v[i].1@), r.says()[i].1) by { assert(pair_out(v[i], m[i])); lemma_series_says(v[i], m[i]); }
        assert(all_given(v, r.says()));
        assert(db.answers(q.says().2, from_epoch(q.says().0), q.says().1 as u64, v));
    } else { assert(r.says().len() == 0); }
}
// a response says what was answered, and its bytes are read back as that
broadcast proof fn lemma_response_says(db: MonolithDb, q: ReadRequest, r: ReadResponse)
    requires #[trigger] answers_all(db, q, r),
    ensures all_answered(db, q.says(), r.says()), small(r.bytes()) ==> dec_answer(r.bytes()) == Some(r.says()),
{
    let m = r.results@; let a = bytes_all(m); let b = enc_batches(r.says());
    assert forall|i: int| 0 <= i < m.len() implies a[i] == b[i] && answered(db, q.says()[i], r.says()[i]) && (forall|k: int, j: int| 0 <= k < r.says()[i].len() && 0 <= j < r.says()[i][k].1.len() ==> in64((#[trigger] r.says()[i][k].1[j]).0)) by { assert(bare(m[i].unknown_fields)); lemma_result_says(db, q.queries@[i], m[i]); }
    assert forall|i: int| 0 <= i < m.len() implies answered(db, q.says()[i], #[trigger] r.says()[i]) by { assert(a[i] == b[i]); }
    assert(a =~= b);
    assert(r.bytes() =~= enc_answer(r.says()));
    if small(r.bytes()) { lemma_answer(r.says()); }
}
broadcast proof fn lemma_refused_says(db: MonolithDb, q: Seq<Query>)
    requires #[trigger] refuses_one(db, q),
    ensures some_refused(db, says_all(q)),
{
    let i = choose|i: int| 0 <= i < q.len() && db.refuses(asked(#[trigger] q[i]), from_epoch(q[i].start_timestamp_ms as int), q[i].end_timestamp_ms as u64);
    assert(says_all(q)[i].2 == asked(q[i]));
}
// a request without a byte asks for nothing
broadcast proof fn lemma_empty_request(q: ReadRequest)
    requires #[trigger] q.bytes().len() == 0,
    ensures q.says().len() == 0,
{ let p = bytes_all(q.queries@); if p.len() > 0 { lemma_msgs_len(1, p, 0); } }
// the series of a message as the database is to hold it
type VxTold = (Seq<Lab>, Seq<(u64, u64)>);
spec fn told(s: SeriesSays) -> VxTold { (s.0, s.1.map_values(|p: TimeBits| ((p.0 as i64) as u64, p.1))) }
// the first ok.len() series were handed over, in order
spec fn handed(m: Seq<SeriesSays>, ok: Seq<bool>) -> Seq<VxWrite> { Seq::new(ok.len(), |i: int| (told(m[i]).0, told(m[i]).1, ok[i])) }
spec fn all_ok(m: Seq<SeriesSays>, ok: Seq<bool>) -> bool { ok.len() == m.len() && forall|i: int| 0 <= i < ok.len() ==> #[trigger] ok[i] }
spec fn handed_over(a: Seq<VxWrite>, b: Seq<VxWrite>, m: Seq<SeriesSays>, good: bool) -> bool {
    exists|ok: Seq<bool>| ok.len() <= m.len() && b =~= a + #[trigger] handed(m, ok) && (good <==> all_ok(m, ok))
}
spec fn holds(l: Labels, t: Seq<TimePoint>, m: PTimeSeries) -> bool { labs(l) =~= plabs(m.labels@) && all_take(m.samples@, t) }
// derived Clone
impl Clone for TimePoint {
    fn clone(&self) -> (r: TimePoint) ensures r == *self { TimePoint { timestamp: self.timestamp, value: self.value } }
}
broadcast proof fn lemma_cloned(a: TimePoint, b: TimePoint)
    requires #[trigger] vstd::pervasive::cloned::<TimePoint>(a, b),
    ensures a == b,
{ }
"""
HTTP = r"""
// ---- bytes in and out: unframed snappy around a protobuf message
uninterp spec fn unsnap(b: Seq<u8>) -> Option<Seq<u8>>;
uninterp spec fn snap(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] struct VxDecoder {}
#[verifier::external_body] struct VxEncoder {}
impl VxDecoder {
    #[verifier::external_body] fn new() -> VxDecoder { loop {} }
    #[verifier::external_body] fn decompress_vec(&mut self, b: &[u8]) -> (r: Result<Vec<u8>>) ensures match r { Ok(v) => unsnap(b@) == Some(v@), Err(_) => unsnap(b@) is None } { loop {} }
}
impl VxEncoder {
    #[verifier::external_body] fn new() -> VxEncoder { loop {} }
    // answers of 4 GiB and more are out of scope
    #[verifier::external_body] fn compress_vec(&mut self, b: &[u8]) -> (r: Result<Vec<u8>>) ensures r matches Ok(v) && v@ == snap(b@) { loop {} }
}
struct Cursor { data: Vec<u8>, at: Ghost<int> }
impl Cursor {
    spec fn rest(&self) -> Seq<u8> { self.data@.skip(self.at@) }
    spec fn wf(&self) -> bool { 0 <= self.at@ <= self.data@.len() }
    #[verifier::external_body] fn new(v: Vec<u8>) -> (r: Cursor) ensures r.data@ == v@, r.at@ == 0, r.rest() =~= v@ { loop {} }
    #[verifier::external_body] fn position(&self) -> (r: u64) ensures r == self.at@ { loop {} }
    #[verifier::external_body] fn set_position(&mut self, p: u64) ensures final(self).at@ == p, final(self).data@ == old(self).data@, p == 0 ==> final(self).rest() =~= final(self).data@ { loop {} }
    #[verifier::external_body] fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.data@ { loop {} }
    #[verifier::external_body] fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.data@ { loop {} }
    #[verifier::external_body] fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize>)
        ensures final(self).data@ == old(self).data@, old(self).wf() ==> r is Ok && final(v)@ =~= old(v)@ + old(self).rest() && (old(v)@.len() == 0 ==> final(v)@ =~= old(self).rest()) && final(self).at@ == old(self).data@.len(),
    { loop {} }
}
// what is left to decode; without a limit at its end, a message that is cut off there passes for a complete one
#[verifier::external_body] struct CodedInputStream {}
impl CodedInputStream {
    uninterp spec fn left(&self) -> Seq<u8>;
    uninterp spec fn limit(&self) -> int;
    spec fn strict(&self) -> bool { self.limit() <= self.left().len() }
    #[verifier::external_body] fn new(c: &mut Cursor) -> (r: CodedInputStream) ensures old(c).wf() ==> r.left() == old(c).rest(), r.limit() == u64::MAX { loop {} }
    #[verifier::external_body] fn from_bytes(b: &[u8]) -> (r: CodedInputStream) ensures r.left() == b@, r.limit() == u64::MAX { loop {} }
    #[verifier::external_body] fn push_limit(&mut self, n: u64) -> (r: Result<u64>)
        ensures r is Ok <==> n <= old(self).limit(), final(self).left() == old(self).left(), r matches Ok(p) ==> p == old(self).limit() && final(self).limit() == n,
    { loop {} }
}
// what was encoded goes to the cursor when the stream is flushed
struct CodedOutputStream<'a> { cur: &'a mut Cursor, held: Ghost<Seq<u8>> }
impl<'a> CodedOutputStream<'a> {
    #[verifier::external_body] fn new(c: &'a mut Cursor) -> (r: CodedOutputStream<'a>) ensures *r.cur == *old(c), *final(r.cur) == *final(c), r.held@ == Seq::<u8>::empty() { loop {} }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>)
        ensures *final(final(self).cur) == *final(old(self).cur), final(self).held@ == Seq::<u8>::empty(),
            old(self).cur.at@ == old(self).cur.data@.len() ==> r is Ok && final(self).cur.data@ =~= old(self).cur.data@ + old(self).held@ && (old(self).cur.data@.len() == 0 ==> final(self).cur.data@ =~= old(self).held@) && final(self).cur.at@ == final(self).cur.data@.len(),
    { loop {} }
}
// what the generated code does (proved of it in unit proto), and the provided methods of the trait around it
trait VxMessage: VxSays {
    spec fn blank(&self) -> bool;
    fn new() -> (r: Self) ensures r.blank();
    fn merge_from(&mut self, s: &mut CodedInputStream) -> (r: Result<()>)
        requires old(s).strict(), ensures old(self).blank() ==> (match Self::dec(old(s).left()) { Some(v) => r is Ok && final(self).says() == v, None => r is Err });
    fn compute_size(&self) -> (r: u32) ensures r == 0 <==> self.bytes().len() == 0;
    // answers of 4 GiB and more are out of scope
    fn write_to(&self, o: &mut CodedOutputStream) -> (r: Result<()>)
        ensures small(self.bytes()), r is Ok, final(o).held@ =~= old(o).held@ + self.bytes(), old(o).held@.len() == 0 ==> final(o).held@ =~= self.bytes(), *final(o).cur == *old(o).cur, *final(final(o).cur) == *final(old(o).cur);
    fn write_to_bytes(&self) -> (r: Result<Vec<u8>>) ensures small(self.bytes()), r matches Ok(v) && v@ == self.bytes();
}
"""
MESSAGE = """impl VxMessage for %s {
    spec fn blank(&self) -> bool { self.says() == Seq::<%s>::empty() }
    #[verifier::external_body] fn new() -> (r: Self) { loop {} }
    #[verifier::external_body] fn merge_from(&mut self, s: &mut CodedInputStream) -> (r: Result<()>) { loop {} }
    #[verifier::external_body] fn compute_size(&self) -> (r: u32) { loop {} }
    #[verifier::external_body] fn write_to(&self, o: &mut CodedOutputStream) -> (r: Result<()>) { loop {} }
    #[verifier::external_body] fn write_to_bytes(&self) -> (r: Result<Vec<u8>>) { loop {} }
}
"""
REQUEST = r"""
// ---- requests
#[verifier::external_body] struct VxMethod {}
#[verifier::external_body] struct VxBody {}
impl VxBody {
    // None: the connection broke before the end of the body
    uninterp spec fn says(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize>)
        ensures match old(self).says() { Some(b) => r is Ok && final(v)@ =~= old(v)@ + b && (old(v)@.len() == 0 ==> final(v)@ =~= b), None => r is Err },
    { loop {} }
}
struct Request { body: VxBody, path: String, method: VxMethod }
impl Request {
    fn as_reader(&mut self) -> (r: &mut VxBody)
        ensures *r == old(self).body, final(self).body == *final(r), final(self).path == old(self).path,
    { &mut self.body }
    fn url(&self) -> (r: &str) ensures r@ == self.path@ { self.path.as_str() }
    fn method(&self) -> (r: &VxMethod) { &self.method }
    #[verifier::external_body] fn respond(self, a: Response, vx_w: &mut VxWorld) -> (r: Result<()>)
        ensures final(vx_w).wrote() == old(vx_w).wrote(), final(vx_w).sent() == old(vx_w).sent().push((a.status as int, a.data@)),
    { loop {} }
}
struct Response { status: u16, data: Ghost<Option<Seq<u8>>> }
impl Response {
    #[verifier::external_body] fn empty(status: u16) -> (r: Response) ensures r.status == status, r.data@ is None { loop {} }
    #[verifier::external_body] fn from_data(b: &[u8]) -> (r: Response) ensures r.status == 200, r.data@ == Some(b@) { loop {} }
    #[verifier::external_body] fn with_status_code(self, status: u16) -> (r: Response) ensures r.status == status, r.data@ == self.data@ { loop {} }
}
spec fn failure(a: VxAnswer) -> bool { 400 <= a.0 < 600 }
// what a request must lead to: one answer, writes only for what could be read, success only for what was done
spec fn handled(s: MonolithServer, path: Seq<char>, body: Option<Seq<u8>>, w0: Seq<VxWrite>, w1: Seq<VxWrite>, a: VxAnswer) -> bool {
    let c = if body is Some { unsnap(body.unwrap()) } else { None };
    if c is None { w1 == w0 && failure(a) }
    else if path == s.read_path@ { w1 == w0 && read_handled(*s.db, c.unwrap(), a) }
    else if path == s.write_path@ { write_handled(c.unwrap(), w0, w1, a) }
    else { w1 == w0 && failure(a) }
}
spec fn read_handled(db: MonolithDb, c: Seq<u8>, a: VxAnswer) -> bool {
    match dec_read(c) {
        None => failure(a),
        Some(q) => failure(a) && (q.len() == 0 || some_refused(db, q)) || a.0 == 200 && exists|b: Seq<u8>| a.1 == Some(#[trigger] snap(b)) && dec_answer(b) is Some && all_answered(db, q, dec_answer(b).unwrap()),
    }
}
spec fn write_handled(c: Seq<u8>, w0: Seq<VxWrite>, w1: Seq<VxWrite>, a: VxAnswer) -> bool {
    match dec_batch(c) {
        None => w1 == w0 && failure(a),
        Some(s) => 200 <= a.0 < 300 && handed_over(w0, w1, s, true) || failure(a) && handed_over(w0, w1, s, false),
    }
}
// a batch sent by a client that encodes it as the format says: when it is acknowledged, every series was handed over and stored, and nothing else
proof fn lemma_write_end_to_end(s: MonolithServer, path: Seq<char>, batch: Seq<SeriesSays>, body: Seq<u8>, w0: Seq<VxWrite>, w1: Seq<VxWrite>, a: VxAnswer)
    requires batch_ok(batch), unsnap(body) == Some(enc_batch(batch)), path == s.write_path@, path != s.read_path@, handled(s, path, Some(body), w0, w1, a), !failure(a),
    ensures w1 =~= w0 + Seq::new(batch.len(), |i: int| (told(batch[i]).0, told(batch[i]).1, true)),
{ lemma_batch(batch); }
// a request sent by a client: the answer, decoded as the format says, is what the database answered to each query, in order
proof fn lemma_read_end_to_end(s: MonolithServer, path: Seq<char>, q: Seq<QuerySays>, body: Seq<u8>, w0: Seq<VxWrite>, w1: Seq<VxWrite>, a: VxAnswer)
    requires read_ok(q), unsnap(body) == Some(enc_read(q)), path == s.read_path@, handled(s, path, Some(body), w0, w1, a), !failure(a),
    ensures w1 == w0, exists|b: Seq<u8>| a.1 == Some(#[trigger] snap(b)) && dec_answer(b) is Some && all_answered(*s.db, q, dec_answer(b).unwrap()),
{ lemma_read(q); }
"""
SRV = [(r"impl<'a, S, I>", "impl<'a>", ""), (r"MonolithServer\s*<\s*(?:'\w+\s*,\s*)?S\s*,\s*I\s*>", "MonolithServer", "back ends not named: the database is opaque here"),
       (r"MonolithDb<S, I>", "MonolithDb", "back ends not named: the database is opaque here")]
WORLD = (r"^(\s*fn\s+\w+[^(]*\((?:[^()]|\([^()]*\))*?),?\s*\)", r"\1, vx_w: &mut VxWorld)", "the sequence of effects passed along")
IO = [(r"snap::raw::(Decoder|Encoder)", r"Vx\1", "snappy behind its contract"), (lib.last_arg("write_time_points|respond", "vx_w"), None, "the sequence of effects passed along"),
      (lib.last_arg("write", "vx_w"), None, "the sequence of effects passed along")]


def server(U):
    U.item(TS, "type", "LabelPointPairs")
    U.raw("use std::sync::Arc;\n")
    U.item(SV, "struct", "MonolithServer", subs=[(r"struct MonolithServer\s*<'a,\s*S,\s*I>\s*where.*?\{", "struct MonolithServer<'a> {", "thread bounds dropped")] + SRV[1:])
    U.item("src/common/option.rs", "struct", "ServerOpts")
    U.raw(SERVER)
    U.raw(HTTP + "".join(MESSAGE % n for n in (("ReadRequest", "QuerySays"), ("WriteRequest", "SeriesSays"), ("ReadResponse", "Seq<SeriesSays>"))) + REQUEST)
    U.open("impl Label")
    U.fn(L, "from_label_matcher", "^impl Label$", spec="ensures lab(r) == (label_matcher.name@, label_matcher.value@)")
    U.close()
    c = "^impl TimeSeries$"
    U.open("impl TimeSeries")
    U.fn(TS, "meta_data", c, spec="ensures *r == self.meta_data")
    U.fn(TS, "time_points", c, spec="ensures *r == self.time_points")
    U.close()
    c = r"^impl < 'a , S , I > MonolithServer"
    U.open("impl<'a> MonolithServer<'a>")
    U.fn(SV, "query", c, label="MonolithServer::query", subs=NAMES + ETA + [(lib.last_arg("query", "Ghost(vx_q[vx_k])"), None, "ghost argument passed on"), pipe.lowering("Vec<PTimeSeries>", "QueryResult", keep=True)],
         spec="ensures r matches Ok(a) ==> answers_all(*self.db, read_rq, a), r is Err ==> refuses_one(*self.db, read_rq.queries@)",
         pre="let ghost vx_q = read_rq.queries@;",
         loops=[{"inv": "vx_q == read_rq.queries@, vx_it.seq().len() == vx_q.len(), forall|k: int| 0 <= k < vx_q.len() ==> *(#[trigger] vx_it.seq()[k]) == vx_q[k], 0 <= vx_it.at() <= vx_q.len(), vx_out@.len() == vx_it.at(), forall|k: int| 0 <= k < vx_out@.len() ==> answers_one(*self.db, vx_q[k], (#[trigger] vx_out@[k])@)",
                 "start": "let ghost vx_k = vx_it.at(); proof { lemma_instants(vx_q[vx_k].start_timestamp_ms, 0); }", "end": "proof { assert(from_epoch(vx_q[vx_k].start_timestamp_ms as int) >= 0); }",
                 "dec": "vx_q.len() - vx_it.at()", "ens": "vx_it.at() == vx_q.len()"},
                {"before": "let ghost vx_all = vx_it1.seq();",
                 "inv": "vx_it1.seq() == vx_all, vx_all.len() == vx_q.len(), vx_it1.at() == vx_out1@.len(), 0 <= vx_it1.at() <= vx_all.len(), forall|k: int| 0 <= k < vx_out1@.len() ==> (#[trigger] vx_out1@[k]).timeseries@ == vx_all[k]@ && bare(vx_out1@[k].unknown_fields)", "dec": "vx_all.len() - vx_it1.at()", "ens": "vx_it1.at() == vx_all.len()"}])
    U.fn(SV, "write", c, label="MonolithServer::write", subs=NAMES + IO[1:2] + [(r"vx_w\)", "vx_w, Ghost(vx_v[vx_i.index@]))", "ghost argument passed on")], sig_subs=[WORLD],
         spec="ensures final(vx_w).sent() == old(vx_w).sent(), handed_over(old(vx_w).wrote(), final(vx_w).wrote(), write_rq.says(), r is Ok)",
         pre="broadcast use lemma_cloned; let ghost vx_v = write_rq.timeseries@; let ghost vx_m = write_rq.says(); let ghost vx_a = vx_w.wrote(); let ghost mut vx_ok = Seq::<bool>::empty(); proof { assert(vx_a + handed(vx_m, vx_ok) =~= vx_a); }",
         loops=[{"iter": "vx_i", "inv": "vx_v == write_rq.timeseries@, vx_m == says_all(vx_v), vx_a == old(vx_w).wrote(), vx_i.seq() == vx_v, vx_ok.len() == vx_i.index@, forall|k: int| 0 <= k < vx_ok.len() ==> #[trigger] vx_ok[k], vx_w.sent() == old(vx_w).sent(), vx_w.wrote() =~= vx_a + handed(vx_m, vx_ok)",
                 "start": "let ghost vx_t = told(vx_m[vx_i.index@]); proof { assert(handed(vx_m, vx_ok.push(true)) =~= handed(vx_m, vx_ok).push((vx_t.0, vx_t.1, true))); assert(handed(vx_m, vx_ok.push(false)) =~= handed(vx_m, vx_ok).push((vx_t.0, vx_t.1, false))); assert(!all_ok(vx_m, vx_ok.push(false))) by { assert(!vx_ok.push(false)[vx_ok.len() as int]); } let vx_b = vx_w.wrote(); assert(vx_b.push((vx_t.0, vx_t.1, true)) =~= vx_a + handed(vx_m, vx_ok.push(true))); assert(vx_b.push((vx_t.0, vx_t.1, false)) =~= vx_a + handed(vx_m, vx_ok.push(false))); assert(handed_over(vx_a, vx_b.push((vx_t.0, vx_t.1, false)), vx_m, false)); }",
                 "end": "; proof { vx_ok = vx_ok.push(true); }"}],
         tail="proof { assert(all_ok(vx_m, vx_ok)); }")
    U.fn(SV, "_process", c, label="MonolithServer::_process", subs=IO + SRV[1:], sig_subs=SRV[1:] + [WORLD],
         spec="""ensures final(vx_w).sent().len() == old(vx_w).sent().len() + 1, final(vx_w).sent().drop_last() =~= old(vx_w).sent(),
            handled(server, request.path@, request.body.says(), old(vx_w).wrote(), final(vx_w).wrote(), final(vx_w).sent().last())""", pre="broadcast use {lemma_response_says, lemma_refused_says, lemma_empty_request};",
         )
    U.fn(SV, "new", c, label="MonolithServer::new", sig_subs=SRV[1:], spec="ensures r.db == db, r.read_path@ == opts.read_path@, r.write_path@ == opts.write_path@, r.port == opts.port, r.worker_num == opts.worker_num")
    U.fn(SV, "clone", r"^impl < 'a , S , I > Clone for MonolithServer", label="MonolithServer::clone", subs=[(r"self\.(\w+_path)\.clone\(\)", r"vx_same_str(self.\1)", "clone of a &str written vx_same_str")], spec="ensures *r.db == *self.db, r.read_path@ == self.read_path@, r.write_path@ == self.write_path@, r.port == self.port, r.worker_num == self.worker_num")
    U.close()


def build():
    from ..unit import Unit
    U = Unit("server")
    for k, n in (("type", "Timestamp"), ("type", "Value")):
        U.item("src/lib.rs", k, n)
    U.raw(lib.BYTES + lib.BE)
    U.item(TP, "struct", "TimePoint")
    conversions(U)
    server(U)
    return U
