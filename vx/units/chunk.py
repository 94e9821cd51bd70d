"""Chunk over any storage and any index that keep to their contracts (C10, C11)."""
from . import lib, labels, indexer, storage
CH = "src/chunk/chunk.rs"
TS = "src/common/time_series.rs"
TP = "src/common/time_point.rs"
CM = "src/common/mod.rs"
UT = "src/common/utils.rs"

SHIMS = r"""
// locks are not looked at here: contracts are sequential (C21 is not claimed)
#[verifier::external_body] struct VxLock {}
#[verifier::external_body]
fn vx_lock(l: &VxLock) -> (r: bool) { loop {} }
#[verifier::external_body] struct AtomicU64 {}
impl AtomicU64 {
    uninterp spec fn view(&self) -> u64;
    #[verifier::external_body]
    fn new(v: u64) -> (r: AtomicU64) ensures r@ == v { loop {} }
    #[verifier::external_body]
    fn fetch_add(&mut self, n: u64) -> (r: u64) ensures r == old(self)@, old(self)@ + n <= u64::MAX ==> final(self)@ == old(self)@ + n { loop {} }
    #[verifier::external_body]
    fn load(&self) -> (r: u64) ensures r == self@ { loop {} }
}
#[verifier::external_body] struct AtomicBool {}
impl AtomicBool {
    uninterp spec fn view(&self) -> bool;
    #[verifier::external_body]
    fn new(v: bool) -> (r: AtomicBool) ensures r@ == v { loop {} }
    #[verifier::external_body]
    fn store(&mut self, v: bool) ensures final(self)@ == v { loop {} }
    #[verifier::external_body]
    fn load(&self) -> (r: bool) ensures r == self@ { loop {} }
}
spec fn vx_chunk_size() -> int { 12000 }
// the clock; assumed not to be anywhere near the end of time
uninterp spec fn vx_clock(t: u64) -> bool;
#[verifier::external_body]
fn get_current_timestamp() -> (r: u64) ensures vx_clock(r), r < 0x4000_0000_0000_0000 { loop {} }
#[verifier::external_body]
fn vx_default_chunk_size() -> (r: u64) ensures r == vx_chunk_size() { loop {} }
"""
ITER = lib.ITER
SPEC = r"""
spec fn overlaps(a: u64, b: u64, lo: u64, hi: u64) -> bool { a <= hi && lo <= b }
spec fn has_point_in(s: Seq<(u64, u64)>, lo: u64, hi: u64) -> bool { exists|p: (u64, u64)| #[trigger] s.contains(p) && lo <= p.0 <= hi }
// the ids of those series that have a point in the range
spec fn picked(ids: Seq<u64>, all: spec_fn(u64) -> Series, lo: u64, hi: u64) -> Seq<u64>
    decreases ids.len(),
{ if ids.len() == 0 { Seq::empty() } else if has_point_in(all(ids.last()).0, lo, hi) { picked(ids.drop_last(), all, lo, hi).push(ids.last()) } else { picked(ids.drop_last(), all, lo, hi) } }
spec fn firsts(v: Seq<(u64, Labels)>) -> Seq<u64> { v.map_values(|x: (u64, Labels)| x.0) }
spec fn ids(v: Seq<TimeSeries>) -> Seq<u64> { v.map_values(|x: TimeSeries| x.id) }
spec fn series_ok(t: TimeSeries, reg: Reg, all: spec_fn(u64) -> Series, lo: u64, hi: u64) -> bool {
    reg_id(reg, labs(t.meta_data), t.id) && is_in_range(pts(t.time_points@), all(t.id).0, lo, hi) && t.time_points@.len() > 0
}
spec fn answer_ok(v: Seq<TimeSeries>, reg: Reg, w: Seq<Lab>, all: spec_fn(u64) -> Series, lo: u64, hi: u64) -> bool {
    ids(v) =~= picked(hits(reg, w), all, lo, hi) && forall|k: int| 0 <= k < v.len() ==> series_ok(#[trigger] v[k], reg, all, lo, hi)
}
spec fn has_id(reg: Reg, id: u64) -> bool { exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == id }
// where the point of an acknowledged insert went: under the id of its label set, new or known
spec fn inserted(reg: Reg, reg2: Reg, a: spec_fn(u64) -> Series, b: spec_fn(u64) -> Series, c: Seq<Lab>, id: u64, p: (u64, u64)) -> bool {
    stored(a, b, id, p) && reg_id(reg2, c, id)
    && (if is_known(reg, c) { reg2 == reg } else { reg2 == reg.push((c, id)) && is_fresh(reg, c, id) && a(id).0.len() == 0 })
}
proof fn lemma_range_empty(s: Seq<(u64, u64)>, r: Seq<(u64, u64)>, lo: u64, hi: u64)
    requires is_in_range(r, s, lo, hi),
    ensures r.len() == 0 <==> !has_point_in(s, lo, hi),
{
    if r.len() > 0 { assert(r.contains(r[0])); assert(s.contains(r[0])); }
    if has_point_in(s, lo, hi) { let p = choose|p: (u64, u64)| #[trigger] s.contains(p) && lo <= p.0 <= hi; assert(r.contains(p)); }
}
// what holds of a chunk between calls: the index holds reg, the id counter is past every id in use, no series under an id still to
// come exists, what is stored is whole points, and all of them lie in the chunk's time range
spec fn in_window(s: Seq<(u64, u64)>, lo: u64, hi: u64) -> bool { forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).0 <= hi }
spec fn fits<S: Storage, I: Indexer>(s: S, x: I, next: u64, lo: u64, hi: u64, reg: Reg) -> bool {
    x.holds(reg) && wf_reg(reg) && (forall|i: int| 0 <= i < reg.len() ==> (#[trigger] reg[i]).1 < next)
    && (forall|id: u64| id >= next ==> (#[trigger] (s.all())(id)).0.len() == 0)
    && (forall|id: u64| (#[trigger] (s.all())(id)).1 && in_window((s.all())(id).0, lo, hi))
}
// what a query rests on: it needs neither the id counter nor the window (a reopened chunk has a fresh counter and a capped end)
spec fn readable<S: Storage, I: Indexer>(s: S, x: I, reg: Reg) -> bool { x.holds(reg) && wf_reg(reg) && forall|id: u64| (#[trigger] (s.all())(id)).1 }
spec fn orders<S: Storage>(s: S, reg: Reg) -> bool { forall|i: int| 0 <= i < reg.len() ==> inc_pts(((s.all())((#[trigger] reg[i]).1)).0) }
impl<S: Storage, I: Indexer> Chunk<S, I> {
    spec fn fit(&self, reg: Reg) -> bool { fits(self.storage, self.indexer, self.id_generator.0@, self.start_time, self.end_time, reg) }
    spec fn reads(&self, reg: Reg) -> bool { readable(self.storage, self.indexer, reg) }
    // the series were written in the order of time
    spec fn ordered(&self, reg: Reg) -> bool { orders(self.storage, reg) }
}
"""
SUBS = [
    (r"self\s*\.mutex\s*\.(?:read|write)\(\)\s*\.(?:expect\(\s*\"[^\"]*\"\s*,?\s*\)|unwrap\(\))", "vx_lock(&self.mutex)", "taking the lock written vx_lock"),
    (r"RwLock::new\(\(\)\)", "vx_new_lock()", "lock made by vx_new_lock"),
    (r",\s*Ordering::\w+", "", "memory ordering dropped"), (r"\(\s*Ordering::\w+\s*\)", "()", "memory ordering dropped"),
    (r"DEFAULT_CHUNK_SIZE\s*\.parse::<\w+>\(\)\s*\.unwrap\(\)", "vx_default_chunk_size()", "parsed constant"),
]
GHOST = [(r"\.(get_series_id_by_labels|get_series_metadata_contains_labels|create_index)\(", r".\1(Ghost(vx_reg), ", "ghost argument passed on")]


def ghost_last(s):
    """index methods get the ghost registry as last argument"""
    import re
    from .. import rust
    n, at = 0, 0
    while True:
        m = re.compile(r"\.(get_series_id_by_labels|get_series_metadata_contains_labels|create_index)\s*\(").search(s, at)
        if not m:
            return s, n
        c = rust.code(rust.lex(s))
        i = next(i for i, t in enumerate(c) if t[2] == m.end() - 1)
        j = rust.match(c, i)
        sep = " " if c[j - 1][1] == "," else ", "
        s = s[:c[j][2]] + sep + "Ghost(vx_reg)" + s[c[j][2]:]
        n, at = n + 1, m.end()


GHOST = [(ghost_last, None, "ghost argument passed on")]


def base(U):
    for k, n in (("type", "Timestamp"), ("type", "Value")):
        U.item("src/lib.rs", k, n)
    U.item(TS, "type", "TimeSeriesId")
    lib.errors(U)
    U.raw("use MonolithErr::{NotFoundErr, OutOfRangeErr, InternalErr, OptionErr, ParseErr};\n")
    U.raw(r"""
pub uninterp spec fn fbits(v: f64) -> u64;
spec fn inc(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
uninterp spec fn vx_store_err0(e: MonolithErr) -> bool;
spec fn vx_store_err(e: MonolithErr) -> bool { vx_store_err0(e) && !(e is NotFoundErr) && !(e is OutOfRangeErr) }
""")
    labels.base(U)
    U.item(TP, "struct", "TimePoint")
    U.open("impl TimePoint")
    U.fn(TP, "new", "^impl TimePoint$", spec="ensures r.timestamp == timestamp, r.value == value")
    U.close()
    U.item(TS, "struct", "TimeSeries")
    U.raw(indexer.NAMES + indexer.CANON + indexer.REGISTRY + indexer.INDEXER + storage.POINTS + storage.TRAIT + ITER)
    c = "^impl TimeSeries$"
    U.open("impl TimeSeries")
    U.fn(TS, "from_data", c, spec="ensures r.id == id, r.meta_data == meta_data, r.time_points == time_points")
    U.fn(TS, "new", c, spec="ensures r.id == id, r.meta_data == meta_data, r.time_points@.len() == 0")
    U.fn(TS, "meta_data", c, spec="ensures *r == self.meta_data")
    U.fn(TS, "time_points", c, spec="ensures *r == self.time_points")
    U.fn(TS, "id", c, spec="ensures r == self.id")
    U.close()
    U.fn(UT, "is_duration_overlap", None, spec="ensures r == (start_time_1 <= end_time_2 && start_time_2 <= end_time_1)")


def build():
    from ..unit import Unit
    U = Unit("chunk")
    base(U)
    import re
    from .. import unit, rust
    m = re.search(r'const DEFAULT_CHUNK_SIZE\s*:[^=]*=\s*"(\d+)"', unit.source("src/lib.rs").text)
    if not m:
        raise rust.Lost("src/lib.rs: no decimal DEFAULT_CHUNK_SIZE")
    U.raw(SHIMS.replace("12000", m.group(1)))
    U.raw("#[verifier::external_body] fn vx_new_lock() -> (r: VxLock) { loop {} }\n")
    U.item(CM, "struct", "IdGenerator")
    c = "^impl IdGenerator$"
    U.open("impl IdGenerator")
    U.fn(CM, "new", c, subs=SUBS, spec="ensures r.0@ == init_id")
    U.fn(CM, "next", c, subs=SUBS, sig_subs=lib.MUT_SELF, spec="ensures r == old(self).0@, old(self).0@ < u64::MAX ==> final(self).0@ == old(self).0@ + 1")
    U.close()
    U.item(CH, "struct", "ChunkOpts")
    U.item(CH, "struct", "Chunk", subs=[(r"RwLock<\(\)>", "VxLock", "lock without its content")])
    U.raw(SPEC)
    G = "impl<S: Storage, I: Indexer> Chunk<S, I>"
    c = r"^impl <[^>]*> Chunk <[^>]*>( where .*)?$"
    U.open(G)
    P = "(timepoint.timestamp, fbits(timepoint.value))"
    U.fn(CH, "new", c, label="Chunk::new", subs=SUBS, spec="""requires ops.end_time is None ==> (ops.start_time matches Some(t) ==> t + vx_chunk_size() <= u64::MAX),
        ensures ops.start_time matches Some(t) ==> r.start_time == t, ops.end_time matches Some(t) ==> r.end_time == t, r.storage == storage, r.indexer == indexer, r.id_generator.0@ == 1, !r.closed@""")
    U.fn(CH, "close", c, label="Chunk::close", subs=SUBS, sig_subs=lib.MUT_SELF, spec="ensures final(self).closed@, final(self).start_time == old(self).start_time, final(self).end_time == old(self).end_time, final(self).storage == old(self).storage, final(self).indexer == old(self).indexer")
    U.fn(CH, "is_closed", c, label="Chunk::is_closed", subs=SUBS, spec="ensures r == self.closed@")
    U.fn(CH, "is_in_range", c, label="Chunk::is_in_range", spec="ensures r == (self.start_time <= *timestamp <= self.end_time)")
    U.fn(CH, "is_with_range", c, label="Chunk::is_with_range", spec="ensures r == overlaps(self.start_time, self.end_time, start_time, end_time)")
    U.fn(CH, "start_end_time", c, label="Chunk::start_end_time", spec="ensures r == (self.start_time, self.end_time)")
    U.fn(CH, "insert", c, label="Chunk::insert", subs=SUBS + GHOST, sig_subs=lib.MUT_SELF, ghost="Ghost(vx_reg): Ghost<Reg>",
         spec="""requires old(self).fit(vx_reg), q_ok(labels), old(self).id_generator.0@ < u64::MAX,
        ensures final(self).start_time == old(self).start_time, final(self).end_time == old(self).end_time,
            r is Ok ==> old(self).start_time <= timepoint.timestamp <= old(self).end_time,
            r is Ok ==> exists|reg2: Reg, id: u64| #[trigger] inserted(vx_reg, reg2, old(self).storage.all(), final(self).storage.all(), canon(labs(labels)), id, %s) && final(self).fit(reg2),
            r is Ok ==> final(self).id_generator.0@ <= old(self).id_generator.0@ + 1,
            r is Err ==> same_series(old(self).storage.all(), final(self).storage.all()),
            !(old(self).start_time <= timepoint.timestamp <= old(self).end_time) ==> r == Err::<(), MonolithErr>(MonolithErr::OutOfRangeErr(old(self).start_time, old(self).end_time)) && *final(self) == *old(self),
            r matches Err(e) ==> vx_store_err(e) || !(old(self).start_time <= timepoint.timestamp <= old(self).end_time) || (exists|id: u64| #[trigger] reg_id(vx_reg, canon(labs(labels)), id) && not_later((old(self).storage.all())(id).0, timepoint.timestamp))""" % P,
         pre="""let ghost vx_c = canon(labs(labels)); let ghost vx_ls = labs(labels); let ghost vx_t = %s; let ghost vx_a = self.storage.all(); let ghost vx_n = self.id_generator.0@;
            proof { lemma_sorted(vx_ls); lemma_canon(vx_ls.sort_by(|a: Lab, b: Lab| lab_le(a, b)), vx_ls); assert(ok_set(vx_c)); }""" % P,
         tail="""proof {
              if is_known(vx_reg, vx_c) {
                let i = choose|i: int| 0 <= i < vx_reg.len() && (#[trigger] vx_reg[i]).0 == vx_c; let vx_id = vx_reg[i].1;
                assert forall|k: u64| reg_id(vx_reg, vx_c, k) implies k == vx_id by { let j = choose|j: int| 0 <= j < vx_reg.len() && #[trigger] vx_reg[j] == (vx_c, k); if i < j { assert(vx_reg[i].0 != vx_reg[j].0); } else if j < i { assert(vx_reg[j].0 != vx_reg[i].0); } }
                assert(reg_id(vx_reg, vx_c, vx_id)) by { assert(vx_reg[i] == (vx_c, vx_id)); }
                assert(inserted(vx_reg, vx_reg, vx_a, self.storage.all(), vx_c, vx_id, vx_t));
                assert(self.fit(vx_reg));
              } else {
                let reg2 = vx_reg.push((vx_c, vx_n));
                assert(reg2[vx_reg.len() as int] == (vx_c, vx_n));
                assert(reg_id(reg2, vx_c, vx_n));
                lemma_push_wf(vx_reg, vx_c, vx_n);
                assert(inserted(vx_reg, reg2, vx_a, self.storage.all(), vx_c, vx_n, vx_t));
                assert(self.fit(reg2));
              } }""", exits=True)
    U.fn(CH, "query", c, label="Chunk::query", subs=SUBS + GHOST, ghost="Ghost(vx_reg): Ghost<Reg>",
         spec="""requires self.reads(vx_reg), self.ordered(vx_reg), names_ok(labs(labels)), labs(labels).len() > 0,
        ensures !overlaps(self.start_time, self.end_time, start_time, end_time) ==> r == Err::<Vec<TimeSeries>, MonolithErr>(MonolithErr::OutOfRangeErr(self.start_time, self.end_time)),
            r matches Ok(v) ==> overlaps(self.start_time, self.end_time, start_time, end_time) && answer_ok(v@, vx_reg, labs(labels), self.storage.all(), start_time, end_time),
            overlaps(self.start_time, self.end_time, start_time, end_time) ==> (r matches Err(e) ==> vx_store_err(e) || vx_thread_err(e))""",
         pre="let ghost vx_w = labs(labels); let ghost vx_a = self.storage.all();",
         loops=[{"desugar": "vx_it", "iter": None,
                 "inv": """vx_a == self.storage.all(), overlaps(self.start_time, self.end_time, start_time, end_time), 0 <= vx_it.at() <= vx_it.seq().len(), meta_ok(vx_reg, vx_w, vx_it.seq()), self.reads(vx_reg), self.ordered(vx_reg),
                    ids(res@) =~= picked(firsts(vx_it.seq().take(vx_it.at())), vx_a, start_time, end_time), forall|k: int| 0 <= k < res@.len() ==> series_ok(#[trigger] res@[k], vx_reg, vx_a, start_time, end_time)""",
                 "ens": "answer_ok(res@, vx_reg, vx_w, vx_a, start_time, end_time), vx_a == self.storage.all(), overlaps(self.start_time, self.end_time, start_time, end_time)",
                 "dec": "vx_it.seq().len() - vx_it.at()",
                 "start": """let ghost vx_i = vx_it.at(); proof { assert(vx_it.seq().take(vx_it.seq().len() as int) =~= vx_it.seq()); assert(firsts(vx_it.seq()) =~= hits(vx_reg, vx_w));
                    if vx_i < vx_it.seq().len() { let q = firsts(vx_it.seq().take(vx_i + 1)); assert(q.drop_last() =~= firsts(vx_it.seq().take(vx_i))); assert(q.last() == vx_it.seq()[vx_i].0);
                       assert(reg_id(vx_reg, labs(vx_it.seq()[vx_i].1), vx_it.seq()[vx_i].0));
                       assert(inc_pts(vx_a(vx_it.seq()[vx_i].0).0));
                       let s = vx_a(vx_it.seq()[vx_i].0).0;
                       assert forall|v: Vec<TimePoint>| is_in_range(#[trigger] pts(v@), s, start_time, end_time) implies (v@.len() == 0 <==> !has_point_in(s, start_time, end_time)) by { lemma_range_empty(s, pts(v@), start_time, end_time); }
                    } }"""}])
    U.close()
    U.open(G)
    U.fn(CH, "eq", r"PartialEq for Chunk <", label="Chunk::eq", spec="ensures r == (self.start_time == other.start_time && self.end_time == other.end_time)")
    U.fn(CH, "partial_cmp", r"PartialOrd for Chunk <", label="Chunk::partial_cmp", spec="ensures r == Some(if self.start_time < other.start_time { Ordering::Less } else if self.start_time == other.start_time { Ordering::Equal } else { Ordering::Greater })")
    U.fn(CH, "cmp", r" Ord for Chunk <", label="Chunk::cmp", subs=[(r"std::cmp::Ordering", "Ordering", "path")], spec="ensures r == (if self.start_time < other.start_time { Ordering::Less } else if self.start_time == other.start_time { Ordering::Equal } else { Ordering::Greater })")
    U.close()
    return U
