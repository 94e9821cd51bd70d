"""The database over chunks: queries across chunks (C12), batch writes (C13), opening and rotation (C14)."""
from . import lib, labels, indexer, storage, chunk
from .. import pipe
DB = "src/db.rs"

SHIMS = r"""
// HashMap<Labels, Vec<TimePoint>>: keyed by what Labels::eq compares (its laws and those of its hash: unit labels)
#[verifier::external_body] struct VxMap {}
impl VxMap {
    uninterp spec fn view(&self) -> Map<Seq<Lab>, Vec<TimePoint>>;
    #[verifier::external_body]
    fn new() -> (r: VxMap) ensures r@ == Map::<Seq<Lab>, Vec<TimePoint>>::empty() { loop {} }
    #[verifier::external_body]
    fn insert(&mut self, k: Labels, v: Vec<TimePoint>) -> (r: Option<Vec<TimePoint>>) ensures final(self)@ == old(self)@.insert(labs(k), v) { loop {} }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &Labels) -> (r: Option<&mut Vec<TimePoint>>)
        ensures match r { Some(v) => old(self)@.contains_key(labs(*k)) && *v == old(self)@[labs(*k)] && final(self)@ == old(self)@.insert(labs(*k), *final(v)),
                          None => !old(self)@.contains_key(labs(*k)) && final(self)@ == old(self)@ },
    { loop {} }
    #[verifier::external_body]
    fn contains_key(&self, k: &Labels) -> (r: bool) ensures r == self@.contains_key(labs(*k)) { loop {} }
    #[verifier::external_body]
    fn get(&self, k: &Labels) -> (r: Option<&Vec<TimePoint>>)
        ensures match r { Some(v) => self@.contains_key(labs(*k)) && *v == self@[labs(*k)], None => !self@.contains_key(labs(*k)) },
    { loop {} }
    #[verifier::external_body]
    fn get_key_value(&self, k: &Labels) -> (r: Option<(&Labels, &Vec<TimePoint>)>)
        ensures match r { Some(v) => self@.contains_key(labs(*k)) && labs(*v.0) == labs(*k) && *v.1 == self@[labs(*k)], None => !self@.contains_key(labs(*k)) },
    { loop {} }
    #[verifier::external_body]
    fn keys(&self) -> (r: Vec<&Labels>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(labs(*#[trigger] r@[i])), forall|i: int, j: int| 0 <= i < j < r@.len() ==> labs(*#[trigger] r@[i]) != labs(*#[trigger] r@[j]),
            forall|l: Seq<Lab>| #[trigger] self@.contains_key(l) ==> exists|i: int| 0 <= i < r@.len() && labs(*#[trigger] r@[i]) == l,
    { loop {} }
}
// derived Clone
impl Clone for TimePoint {
    fn clone(&self) -> (r: TimePoint) ensures r == *self { TimePoint { timestamp: self.timestamp, value: self.value } }
}
broadcast proof fn lemma_cloned(a: TimePoint, b: TimePoint)
    requires #[trigger] vstd::pervasive::cloned::<TimePoint>(a, b),
    ensures a == b,
{ }
"""

SPEC = r"""
// ---- what a database answers
spec fn sorted_reg<S: Storage, I: Indexer>(c: Chunk<S, I>) -> bool { exists|reg: Reg| #[trigger] c.reads(reg) && c.ordered(reg) }
spec fn reg_of<S: Storage, I: Indexer>(s: S, x: I) -> Reg { choose|reg: Reg| #[trigger] readable(s, x, reg) && orders(s, reg) }
spec fn the_reg<S: Storage, I: Indexer>(c: Chunk<S, I>) -> Reg { reg_of(c.storage, c.indexer) }
// what inserts leave behind is readable
proof fn lemma_readable<S: Storage, I: Indexer>(c: Chunk<S, I>, reg: Reg)
    requires c.fit(reg), c.ordered(reg),
    ensures sorted_reg(c),
{ assert(c.reads(reg)); }
proof fn lemma_the_reg<S: Storage, I: Indexer>(c: Chunk<S, I>)
    requires sorted_reg(c),
    ensures c.reads(the_reg(c)), c.ordered(the_reg(c)),
{ let reg = choose|reg: Reg| #[trigger] c.reads(reg) && c.ordered(reg); assert(readable(c.storage, c.indexer, reg) && orders(c.storage, reg)); }
// the points of s in the range, in their order
spec fn in_range(s: Seq<(u64, u64)>, lo: u64, hi: u64) -> Seq<(u64, u64)>
    decreases s.len(),
{ if s.len() == 0 { s } else if lo <= s.last().0 <= hi { in_range(s.drop_last(), lo, hi).push(s.last()) } else { in_range(s.drop_last(), lo, hi) } }
// the points that a chunk overlapping the range holds of a label set, in the range
spec fn chunk_pts<S: Storage, I: Indexer>(c: Chunk<S, I>, l: Seq<Lab>, lo: u64, hi: u64) -> Seq<(u64, u64)> {
    if overlaps(c.start_time, c.end_time, lo, hi) && is_known(the_reg(c), l) { in_range((c.storage.all())(id_of(the_reg(c), l)).0, lo, hi) } else { Seq::empty() }
}
spec fn id_of(reg: Reg, l: Seq<Lab>) -> u64 { choose|id: u64| reg_id(reg, l, id) }
// the points of chunks from .. end and then of the active chunk
spec fn tail_pts<S: Storage, I: Indexer>(v: Seq<Chunk<S, I>>, from: int, cur: Chunk<S, I>, l: Seq<Lab>, lo: u64, hi: u64) -> Seq<(u64, u64)>
    decreases v.len() - from,
{ if from < 0 || from >= v.len() { chunk_pts(cur, l, lo, hi) } else { chunk_pts(v[from], l, lo, hi) + tail_pts(v, from + 1, cur, l, lo, hi) } }
spec fn ascending(s: Seq<(u64, u64)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 <= (#[trigger] s[j]).0 }
// the points of a sequence, each as often as it occurs
type Bag = vstd::multiset::Multiset<(u64, u64)>;
spec fn bag(s: Seq<(u64, u64)>) -> Bag { s.to_multiset() }
broadcast proof fn lemma_bag_cat(a: Seq<TimePoint>, b: Seq<TimePoint>)
    ensures bag(#[trigger] pts(a + b)) == bag(pts(a)).add(bag(pts(b))),
{ assert(pts(a + b) =~= pts(a) + pts(b)); lemma_bag_sum(pts(a), pts(b)); }
proof fn lemma_bag_sum(a: Seq<(u64, u64)>, b: Seq<(u64, u64)>)
    ensures bag(a + b) == bag(a).add(bag(b)),
{ vstd::seq_lib::lemma_multiset_commutative(a, b); assert(bag(a + b) =~= bag(a).add(bag(b))); }
proof fn lemma_bag_rev0(a: Seq<(u64, u64)>)
    ensures bag(a.reverse()) == bag(a),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 { assert(a.reverse() =~= a); }
    else {
        let d = a.drop_last();
        lemma_bag_rev0(d);
        assert(a =~= d + seq![a.last()]); assert(a.reverse() =~= seq![a.last()] + d.reverse());
        lemma_bag_sum(d, seq![a.last()]); lemma_bag_sum(seq![a.last()], d.reverse());
        assert(bag(d).add(bag(seq![a.last()])) =~= bag(seq![a.last()]).add(bag(d)));
    }
}
// a copy, front to back or back to front
broadcast proof fn lemma_bag_rev(a: Seq<TimePoint>, b: Seq<TimePoint>)
    requires a.len() == b.len(), (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) || (forall|i: int| 0 <= i < a.len() ==> a[i] == b[a.len() - 1 - i]),
    ensures bag(#[trigger] pts(a)) == bag(#[trigger] pts(b)),
{ if forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] { assert(a =~= b); } else { assert(pts(a) =~= pts(b).reverse()); lemma_bag_rev0(pts(b)); } }
broadcast proof fn lemma_bag_len(a: Seq<TimePoint>)
    ensures #[trigger] bag(pts(a)).len() == a.len(),
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(pts(a).len() == a.len()); }
// x is b, or its reverse, put at the end or the front of a
proof fn lemma_bag_parts(x: Seq<TimePoint>, a: Seq<TimePoint>, b: Seq<TimePoint>)
    requires x =~= a + b || x =~= a + b.reverse() || x =~= b + a || x =~= b.reverse() + a,
    ensures bag(pts(x)) == bag(pts(a)).add(bag(pts(b))), a.len() == 0 ==> bag(pts(a)) == Bag::empty(),
{
    lemma_bag_empty(); assert(a.len() == 0 ==> pts(a) =~= Seq::empty());
    lemma_bag_cat(a, b); lemma_bag_cat(a, b.reverse()); lemma_bag_cat(b, a); lemma_bag_cat(b.reverse(), a); lemma_bag_rev(b.reverse(), b);
    assert(bag(pts(b)).add(bag(pts(a))) =~= bag(pts(a)).add(bag(pts(b))));
}
proof fn lemma_bag_length(a: Seq<(u64, u64)>)
    ensures bag(a).len() == a.len(),
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; }
#[verifier::external_body]
fn vx_sort0(v: &mut Vec<TimePoint>) ensures bag(pts(final(v)@)) == bag(pts(old(v)@)), ascending(pts(final(v)@)) { loop {} }
// sorting also forgets that the points were copied, or copied back to front
spec fn copied(a: Seq<TimePoint>, b: Seq<TimePoint>) -> bool { a.len() == b.len() && ((forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) || (forall|i: int| 0 <= i < a.len() ==> a[i] == b[a.len() - 1 - i])) }
fn vx_sort_by_time(v: &mut Vec<TimePoint>)
    ensures bag(pts(final(v)@)) == bag(pts(old(v)@)), ascending(pts(final(v)@)), forall|b: Seq<TimePoint>| copied(old(v)@, b) ==> bag(pts(final(v)@)) == bag(#[trigger] pts(b)),
{
    proof { assert forall|b: Seq<TimePoint>| copied(v@, b) implies bag(pts(v@)) == bag(#[trigger] pts(b)) by { lemma_bag_rev(v@, b); } }
    vx_sort0(v);
}
// what is in the map of the query for a label set
spec fn mv(m: Map<Seq<Lab>, Vec<TimePoint>>, l: Seq<Lab>) -> Bag { if m.contains_key(l) { bag(pts(m[l]@)) } else { Bag::empty() } }
spec fn no_empty(m: Map<Seq<Lab>, Vec<TimePoint>>) -> bool { forall|l: Seq<Lab>| #[trigger] m.contains_key(l) ==> m[l]@.len() > 0 }
spec fn series_of(v: Seq<TimeSeries>, l: Seq<Lab>) -> bool { exists|k: int| 0 <= k < v.len() && labs((#[trigger] v[k]).meta_data) == l }
spec fn all_of(w: Seq<Lab>, l: Seq<Lab>, s: Seq<(u64, u64)>) -> Seq<(u64, u64)> { if carries(l, w) { s } else { Seq::empty() } }

proof fn lemma_in_range(s: Seq<(u64, u64)>, lo: u64, hi: u64)
    requires inc_pts(s),
    ensures is_in_range(in_range(s, lo, hi), s, lo, hi),
    decreases s.len(),
{
    let r = in_range(s, lo, hi);
    if s.len() > 0 {
        let p = s.drop_last(); let q = in_range(p, lo, hi);
        lemma_in_range(p, lo, hi);
        assert forall|x: (u64, u64)| #[trigger] q.contains(x) implies x.0 < s.last().0 by { assert(p.contains(x)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); assert(s[i].0 < s[s.len() - 1].0); }
        assert forall|x: (u64, u64)| #[trigger] r.contains(x) <==> (s.contains(x) && lo <= x.0 <= hi) by {
            if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < q.len() { assert(q.contains(q[i])); assert(p.contains(x)); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == x); } }
            if s.contains(x) && lo <= x.0 <= hi { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < p.len() { assert(p[j] == x); assert(p.contains(x)); assert(q.contains(x)); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(r[i] == x); } else { assert(r[r.len() - 1] == x); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 < (#[trigger] r[j]).0 by { if j < q.len() { assert(q[i].0 < q[j].0); } else { assert(q.contains(q[i])); } }
    }
}
// a range of a series is one sequence
proof fn lemma_range_unique(a: Seq<(u64, u64)>, b: Seq<(u64, u64)>, s: Seq<(u64, u64)>, lo: u64, hi: u64)
    requires is_in_range(a, s, lo, hi), is_in_range(b, s, lo, hi),
    ensures a =~= b,
{
    assert forall|x: (u64, u64)| a.contains(x) <==> b.contains(x) by {}
    lemma_inc_unique(a, b);
}
proof fn lemma_inc_unique(a: Seq<(u64, u64)>, b: Seq<(u64, u64)>)
    requires inc_pts(a), inc_pts(b), forall|x: (u64, u64)| a.contains(x) <==> b.contains(x),
    ensures a =~= b,
    decreases a.len() + b.len(),
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } }
    else if b.len() == 0 { assert(a.contains(a[0])); assert(b.contains(a[0])); }
    else {
        let x = a.last(); let y = b.last();
        assert(a.contains(a[a.len() - 1])); assert(b.contains(b[b.len() - 1]));
        assert(b.contains(x) && a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if i < b.len() - 1 { assert(b[i].0 < b[b.len() - 1].0); if j < a.len() - 1 { assert(a[j].0 < a[a.len() - 1].0); } assert(false); }
        assert(x == y);
        let p = a.drop_last(); let q = b.drop_last();
        assert forall|z: (u64, u64)| p.contains(z) <==> q.contains(z) by {
            if p.contains(z) { let k = choose|k: int| 0 <= k < p.len() && p[k] == z; assert(a[k] == z); assert(a[k].0 < a[a.len() - 1].0); assert(a.contains(z)); assert(b.contains(z)); let m = choose|m: int| 0 <= m < b.len() && b[m] == z; assert(m < q.len()); assert(q[m] == z); }
            if q.contains(z) { let k = choose|k: int| 0 <= k < q.len() && q[k] == z; assert(b[k] == z); assert(b[k].0 < b[b.len() - 1].0); assert(b.contains(z)); assert(a.contains(z)); let m = choose|m: int| 0 <= m < a.len() && a[m] == z; assert(m < p.len()); assert(p[m] == z); }
        }
        lemma_inc_unique(p, q);
        assert(a =~= p.push(x)); assert(b =~= q.push(y));
    }
}
proof fn lemma_picked(ids: Seq<u64>, all: spec_fn(u64) -> Series, lo: u64, hi: u64)
    requires inc(ids),
    ensures inc(picked(ids, all, lo, hi)), forall|x: u64| #[trigger] picked(ids, all, lo, hi).contains(x) <==> ids.contains(x) && has_point_in(all(x).0, lo, hi),
    decreases ids.len(),
{
    if ids.len() > 0 {
        let p = ids.drop_last(); let q = picked(p, all, lo, hi); let r = picked(ids, all, lo, hi);
        lemma_picked(p, all, lo, hi);
        assert(r == if has_point_in(all(ids.last()).0, lo, hi) { q.push(ids.last()) } else { q });
        assert forall|x: u64| #[trigger] q.contains(x) implies x < ids.last() by { assert(p.contains(x)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(ids[i] < ids[ids.len() - 1]); }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] < r[j] by { if j < q.len() { assert(q[i] < q[j]); } else { assert(q.contains(q[i])); } }
        assert forall|x: u64| #[trigger] r.contains(x) <==> ids.contains(x) && has_point_in(all(x).0, lo, hi) by {
            if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < q.len() { assert(q.contains(q[i])); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(ids[j] == x); } else { assert(ids[ids.len() - 1] == x); } }
            if ids.contains(x) && has_point_in(all(x).0, lo, hi) { let j = choose|j: int| 0 <= j < ids.len() && ids[j] == x; if j < p.len() { assert(p[j] == x); assert(p.contains(x)); assert(q.contains(x)); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(r[i] == x); } else { assert(r[r.len() - 1] == x); } }
        }
    }
}
proof fn lemma_id_of(reg: Reg, l: Seq<Lab>, id: u64)
    requires wf_reg(reg), reg_id(reg, l, id),
    ensures id_of(reg, l) == id, is_known(reg, l),
{
    let x = id_of(reg, l);
    let i = choose|i: int| 0 <= i < reg.len() && #[trigger] reg[i] == (l, id);
    assert(reg[i].0 == l);
    assert(reg_id(reg, l, x));
    let j = choose|j: int| 0 <= j < reg.len() && #[trigger] reg[j] == (l, x);
    if i < j { assert(reg[i].0 != reg[j].0); } else if j < i { assert(reg[j].0 != reg[i].0); }
}
// an accepted answer of a chunk says, per label set, exactly what the chunk holds
proof fn lemma_answer<S: Storage, I: Indexer>(c: Chunk<S, I>, v: Seq<TimeSeries>, w: Seq<Lab>, lo: u64, hi: u64)
    requires sorted_reg(c), overlaps(c.start_time, c.end_time, lo, hi), answer_ok(v, the_reg(c), w, c.storage.all(), lo, hi),
    ensures forall|k: int| 0 <= k < v.len() ==> carries(labs((#[trigger] v[k]).meta_data), w) && pts(v[k].time_points@) == chunk_pts(c, labs(v[k].meta_data), lo, hi) && v[k].time_points@.len() > 0 && ok_set(labs(v[k].meta_data)),
        forall|j: int, k: int| 0 <= j < k < v.len() ==> labs((#[trigger] v[j]).meta_data) != labs((#[trigger] v[k]).meta_data),
        forall|l: Seq<Lab>| carries(l, w) && (#[trigger] chunk_pts(c, l, lo, hi)).len() > 0 ==> series_of(v, l),
{
    let reg = the_reg(c); let all = c.storage.all();
    lemma_the_reg(c);
    lemma_found(reg, w); lemma_picked(hits(reg, w), all, lo, hi);
    assert forall|k: int| 0 <= k < v.len() implies carries(labs((#[trigger] v[k]).meta_data), w) && pts(v[k].time_points@) == chunk_pts(c, labs(v[k].meta_data), lo, hi) && v[k].time_points@.len() > 0 && ok_set(labs(v[k].meta_data)) by {
        let t = v[k]; let l = labs(t.meta_data);
        assert(series_ok(t, reg, all, lo, hi));
        lemma_id_of(reg, l, t.id);
        let i = choose|i: int| 0 <= i < reg.len() && #[trigger] reg[i] == (l, t.id);
        assert(reg[i].1 == t.id && reg[i].0 == l);
        assert(inc_pts(all(reg[i].1).0));
        lemma_in_range(all(t.id).0, lo, hi);
        lemma_range_unique(pts(t.time_points@), in_range(all(t.id).0, lo, hi), all(t.id).0, lo, hi);
        assert(ids(v)[k] == t.id);
        assert(picked(hits(reg, w), all, lo, hi).contains(t.id));
        assert(hits(reg, w).contains(t.id));
        let j = choose|j: int| 0 <= j < reg.len() && (#[trigger] reg[j]).1 == t.id && carries(reg[j].0, w);
        lemma_one_entry(reg, i, j);
    }
    assert forall|j: int, k: int| 0 <= j < k < v.len() implies labs((#[trigger] v[j]).meta_data) != labs((#[trigger] v[k]).meta_data) by {
        assert(series_ok(v[j], reg, all, lo, hi) && series_ok(v[k], reg, all, lo, hi));
        assert(ids(v)[j] == v[j].id && ids(v)[k] == v[k].id);
        assert(picked(hits(reg, w), all, lo, hi)[j] < picked(hits(reg, w), all, lo, hi)[k]);
        lemma_id_of(reg, labs(v[j].meta_data), v[j].id); lemma_id_of(reg, labs(v[k].meta_data), v[k].id);
    }
    assert forall|l: Seq<Lab>| carries(l, w) && (#[trigger] chunk_pts(c, l, lo, hi)).len() > 0 implies series_of(v, l) by {
        let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).0 == l;
        let id = reg[i].1;
        assert(reg[i] == (l, id));
        assert(reg_id(reg, l, id));
        lemma_id_of(reg, l, id);
        assert(inc_pts(all(reg[i].1).0));
        lemma_in_range(all(id).0, lo, hi);
        lemma_range_empty(all(id).0, in_range(all(id).0, lo, hi), lo, hi);
        assert(hits(reg, w).contains(id));
        let z = picked(hits(reg, w), all, lo, hi);
        assert(z.contains(id));
        let k = choose|k: int| 0 <= k < z.len() && z[k] == id;
        assert(ids(v)[k] == id);
        assert(series_ok(v[k], reg, all, lo, hi));
        let j = choose|j: int| 0 <= j < reg.len() && #[trigger] reg[j] == (labs(v[k].meta_data), id);
        assert(reg[j].1 == id);
        lemma_one_entry(reg, i, j);
        assert(labs(v[k].meta_data) == l);
    }
}
// a chunk all of whose points lie in its window has nothing outside it
proof fn lemma_elsewhere<S: Storage, I: Indexer>(c: Chunk<S, I>, reg: Reg, l: Seq<Lab>, lo: u64, hi: u64)
    requires c.fit(reg), c.ordered(reg), is_known(reg, l), !overlaps(c.start_time, c.end_time, lo, hi),
    ensures in_range((c.storage.all())(id_of(reg, l)).0, lo, hi).len() == 0,
{
    let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).0 == l;
    assert(reg[i] == (l, reg[i].1)); assert(reg_id(reg, l, reg[i].1));
    lemma_id_of(reg, l, reg[i].1);
    let x = (c.storage.all())(reg[i].1); let s = x.0;
    assert(x.1 && in_window(s, c.start_time, c.end_time));
    lemma_in_range(s, lo, hi);
    let r = in_range(s, lo, hi);
    if r.len() > 0 { assert(r.contains(r[0])); assert(s.contains(r[0])); let j = choose|j: int| 0 <= j < s.len() && s[j] == r[0]; assert(c.start_time <= s[j].0 <= c.end_time); }
}
// the state of the map after the first n series of a chunk's answer
spec fn step(base: Map<Seq<Lab>, Vec<TimePoint>>, v: Seq<TimeSeries>, n: int, lo: u64, hi: u64, m: Map<Seq<Lab>, Vec<TimePoint>>) -> bool {
    no_empty(m) && forall|l: Seq<Lab>| #[trigger] mv(m, l) == mv(base, l).add(found(v, n, l))
}
spec fn found(v: Seq<TimeSeries>, n: int, l: Seq<Lab>) -> Bag { if series_of(v.take(n), l) { bag(pts(series_for(v, l).time_points@)) } else { Bag::empty() } }
spec fn series_for(v: Seq<TimeSeries>, l: Seq<Lab>) -> TimeSeries { v[choose|k: int| 0 <= k < v.len() && labs((#[trigger] v[k]).meta_data) == l] }
spec fn one_each(v: Seq<TimeSeries>) -> bool {
    (forall|j: int, k: int| 0 <= j < k < v.len() ==> labs((#[trigger] v[j]).meta_data) != labs((#[trigger] v[k]).meta_data)) && (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).time_points@.len() > 0)
}
proof fn lemma_series_for(v: Seq<TimeSeries>, k: int)
    requires one_each(v), 0 <= k < v.len(),
    ensures series_for(v, labs(v[k].meta_data)) == v[k], series_of(v.take(k + 1), labs(v[k].meta_data)), !series_of(v.take(k), labs(v[k].meta_data)),
        forall|l: Seq<Lab>| l != labs(v[k].meta_data) ==> (#[trigger] series_of(v.take(k + 1), l) <==> series_of(v.take(k), l)),
{
    let l0 = labs(v[k].meta_data);
    let j = choose|j: int| 0 <= j < v.len() && labs((#[trigger] v[j]).meta_data) == l0;
    if j < k { assert(labs(v[j].meta_data) != labs(v[k].meta_data)); } else if k < j { assert(labs(v[k].meta_data) != labs(v[j].meta_data)); }
    assert(v.take(k + 1)[k] == v[k]);
    if series_of(v.take(k), l0) { let j = choose|j: int| 0 <= j < k && labs((#[trigger] v.take(k)[j]).meta_data) == l0; assert(labs(v[j].meta_data) != labs(v[k].meta_data)); }
    assert forall|l: Seq<Lab>| l != l0 implies (#[trigger] series_of(v.take(k + 1), l) <==> series_of(v.take(k), l)) by {
        if series_of(v.take(k + 1), l) { let j = choose|j: int| 0 <= j < k + 1 && labs((#[trigger] v.take(k + 1)[j]).meta_data) == l; assert(v.take(k)[j] == v[j]); }
        if series_of(v.take(k), l) { let j = choose|j: int| 0 <= j < k && labs((#[trigger] v.take(k)[j]).meta_data) == l; assert(v.take(k + 1)[j] == v[j]); }
    }
}
// one more series, added to what the map has for its labels
proof fn lemma_step(base: Map<Seq<Lab>, Vec<TimePoint>>, v: Seq<TimeSeries>, k: int, lo: u64, hi: u64, m: Map<Seq<Lab>, Vec<TimePoint>>, m2: Map<Seq<Lab>, Vec<TimePoint>>)
    requires one_each(v), 0 <= k < v.len(), step(base, v, k, lo, hi, m),
        exists|x: Vec<TimePoint>| m2 == #[trigger] m.insert(labs(v[k].meta_data), x) && bag(pts(x@)) == mv(m, labs(v[k].meta_data)).add(bag(pts(v[k].time_points@))),
    ensures step(base, v, k + 1, lo, hi, m2),
{
    broadcast use lemma_bag_len;
    lemma_series_for(v, k);
    let l0 = labs(v[k].meta_data);
    let x = choose|x: Vec<TimePoint>| m2 == #[trigger] m.insert(l0, x) && bag(pts(x@)) == mv(m, l0).add(bag(pts(v[k].time_points@)));
    assert(bag(pts(x@)).len() >= bag(pts(v[k].time_points@)).len());
    assert forall|l: Seq<Lab>| #[trigger] m2.contains_key(l) implies m2[l]@.len() > 0 by { if l != l0 { assert(m.contains_key(l)); } }
    assert forall|l: Seq<Lab>| #[trigger] mv(m2, l) == mv(base, l).add(found(v, k + 1, l)) by {
        assert(mv(m, l) == mv(base, l).add(found(v, k, l)));
        if l == l0 { assert(mv(m2, l) == bag(pts(x@))); assert(mv(m, l) =~= mv(base, l)); } else { assert(m2.contains_key(l) == m.contains_key(l)); }
    }
}
// the map after a whole chunk
spec fn gathered<S: Storage, I: Indexer>(m: Map<Seq<Lab>, Vec<TimePoint>>, w: Seq<Lab>, v: Seq<Chunk<S, I>>, from: int, cur: Chunk<S, I>, lo: u64, hi: u64) -> bool {
    no_empty(m) && forall|l: Seq<Lab>| #[trigger] mv(m, l) == bag(all_of(w, l, tail_pts(v, from, cur, l, lo, hi)))
}
proof fn lemma_chunk_done<S: Storage, I: Indexer>(base: Map<Seq<Lab>, Vec<TimePoint>>, c: Chunk<S, I>, v: Seq<TimeSeries>, w: Seq<Lab>, lo: u64, hi: u64, m: Map<Seq<Lab>, Vec<TimePoint>>, l: Seq<Lab>)
    requires sorted_reg(c), overlaps(c.start_time, c.end_time, lo, hi), answer_ok(v, the_reg(c), w, c.storage.all(), lo, hi), step(base, v, v.len() as int, lo, hi, m),
    ensures mv(m, l) == mv(base, l).add(bag(all_of(w, l, chunk_pts(c, l, lo, hi)))),
{
    lemma_answer(c, v, w, lo, hi);
    lemma_bag_empty();
    assert(v.take(v.len() as int) =~= v);
    assert(mv(m, l) == mv(base, l).add(found(v, v.len() as int, l)));
    if series_of(v, l) { let k = choose|k: int| 0 <= k < v.len() && labs((#[trigger] v[k]).meta_data) == l; lemma_series_for(v, k); }
    else if carries(l, w) { assert(chunk_pts(c, l, lo, hi) =~= Seq::empty()); }
}
proof fn lemma_bag_empty()
    ensures bag(Seq::empty()) == Bag::empty(), forall|b: Bag| #[trigger] b.add(Bag::empty()) == b, forall|b: Bag| #[trigger] Bag::empty().add(b) == b,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(bag(Seq::empty()) =~= Bag::empty());
    assert forall|b: Bag| #[trigger] b.add(Bag::empty()) == b by { assert(b.add(Bag::empty()) =~= b); }
    assert forall|b: Bag| #[trigger] Bag::empty().add(b) == b by { assert(Bag::empty().add(b) =~= b); }
}
"""

BATCH = r"""
// ---- batches: the points a batch write has to store, in order
spec fn wants(p: TimePoint, lo: u64, hi: u64) -> bool { lo <= p.timestamp <= hi && p.timestamp != 0 }
spec fn wanted(v: Seq<TimePoint>, lo: u64, hi: u64) -> Seq<(u64, u64)>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else if wants(v.last(), lo, hi) { wanted(v.drop_last(), lo, hi).push(pt(v.last())) } else { wanted(v.drop_last(), lo, hi) } }
// w was put at the end of the series of label set c, which is new or known; nothing else changed
spec fn batch_at(reg: Reg, reg2: Reg, a: spec_fn(u64) -> Series, b: spec_fn(u64) -> Series, c: Seq<Lab>, w: Seq<(u64, u64)>, id: u64) -> bool {
    reg_id(reg2, c, id) && b(id).0 =~= a(id).0 + w && b(id).1 && (forall|i: u64| i != id ==> #[trigger] b(i) == a(i))
    && (if is_known(reg, c) { reg2 == reg } else { reg2 == reg.push((c, id)) && a(id).0.len() == 0 })
}
spec fn batch(reg: Reg, reg2: Reg, a: spec_fn(u64) -> Series, b: spec_fn(u64) -> Series, c: Seq<Lab>, w: Seq<(u64, u64)>) -> bool {
    if w.len() == 0 { reg2 == reg && same_series(a, b) } else { exists|id: u64| #[trigger] batch_at(reg, reg2, a, b, c, w, id) }
}
proof fn lemma_batch(reg: Reg, reg1: Reg, reg2: Reg, a: spec_fn(u64) -> Series, b: spec_fn(u64) -> Series, d: spec_fn(u64) -> Series, c: Seq<Lab>, w: Seq<(u64, u64)>, p: (u64, u64), id: u64)
    requires wf_reg(reg1), batch(reg, reg1, a, b, c, w), inserted(reg1, reg2, b, d, c, id, p),
    ensures batch(reg, reg2, a, d, c, w.push(p)),
{
    if w.len() == 0 {
        assert(batch_at(reg, reg2, a, d, c, w.push(p), id));
    } else {
        let id0 = choose|id0: u64| #[trigger] batch_at(reg, reg1, a, b, c, w, id0);
        lemma_id_of(reg1, c, id0);
        assert(reg2 == reg1);
        lemma_id_of(reg1, c, id);
        assert(batch_at(reg, reg2, a, d, c, w.push(p), id));
    }
}
#[verifier::external_body]
fn vx_oracle(b: Ghost<bool>) -> (r: bool) ensures r == b@ { loop {} }
// Chunk::insert into a chunk that an earlier failure may have left in any state: only its range is known to stay
#[verifier::external_body]
fn vx_insert_unfit<S: Storage, I: Indexer>(c: &mut Chunk<S, I>, labels: Labels, p: TimePoint) -> (r: Result<()>)
    ensures final(c).start_time == old(c).start_time, final(c).end_time == old(c).end_time,
{ loop {} }
// Chunk::insert, by its contract where that applies; the second part of the result is what the index holds afterwards
fn vx_insert<S: Storage, I: Indexer>(c: &mut Chunk<S, I>, labels: Labels, p: TimePoint, Ghost(reg): Ghost<Reg>, Ghost(good): Ghost<bool>) -> (r: (Result<()>, Ghost<Reg>))
    requires good ==> old(c).fit(reg) && old(c).id_generator.0@ < u64::MAX && q_ok(labels),
    ensures final(c).start_time == old(c).start_time, final(c).end_time == old(c).end_time,
        good && r.0 is Ok ==> old(c).start_time <= p.timestamp <= old(c).end_time && final(c).fit(r.1@) && final(c).id_generator.0@ <= old(c).id_generator.0@ + 1
            && exists|id: u64| #[trigger] inserted(reg, r.1@, old(c).storage.all(), final(c).storage.all(), canon(labs(labels)), id, pt(p)),
{
    let ghost vx_c = canon(labs(labels)); let ghost vx_a = c.storage.all(); let ghost vx_p = pt(p);
    if vx_oracle(Ghost(good)) {
        let r = c.insert(labels, p, Ghost(reg));
        let ghost reg3 = choose|reg2: Reg| (exists|id: u64| #[trigger] inserted(reg, reg2, vx_a, c.storage.all(), vx_c, id, vx_p)) && c.fit(reg2);
        proof { if r is Ok {
            let (reg2, id) = choose|reg2: Reg, id: u64| #[trigger] inserted(reg, reg2, vx_a, c.storage.all(), vx_c, id, vx_p) && c.fit(reg2);
            assert(inserted(reg, reg2, vx_a, c.storage.all(), vx_c, id, vx_p));
            assert((exists|id: u64| #[trigger] inserted(reg, reg2, vx_a, c.storage.all(), vx_c, id, vx_p)) && c.fit(reg2));
        } }
        (r, Ghost(reg3))
    } else {
        (vx_insert_unfit(c, labels, p), Ghost(reg))
    }
}
"""


def chunk_inserts(s):
    """`X.insert(l, p)` of a chunk written vx_insert(X, l, p, ..), which also says what the index holds afterwards"""
    import re
    from .. import rust
    n, at = 0, 0
    while True:
        m = re.compile(r"\b(\w+)\s*\.insert\s*\(").search(s, at)
        if not m:
            return s, n
        c = rust.code(rust.lex(s))
        i = next(i for i, t in enumerate(c) if t[2] == m.end() - 1)
        j = rust.match(c, i)
        args = s[c[i][3]:c[j][2]].rstrip().rstrip(",")
        new = "({ let vx_r = vx_insert(%s, %s, Ghost(vx_reg), Ghost(vx_good)); proof { vx_reg = vx_r.1@; } vx_r.0 })" % (m.group(1), args)
        s = s[:m.start()] + new + s[c[j][3]:]
        n, at = n + 1, m.start() + len(new)


INSERTS = [(chunk_inserts, None, "call of Chunk::insert made through a wrapper that carries the ghost registry")]
RWM = [(r"(?:&\s*)?self\s*\.\s*(current_chuck)\s*\.\s*read\(\)\s*\.\s*unwrap\(\)", r"&mut self.\1", "shared handle of the active chunk taken as exclusive")]
RW = [(r"(?:&\s*)?self\s*\.\s*(current_chuck|secondary_chunks)\s*\.\s*read\(\)\s*\.\s*unwrap\(\)", r"&self.\1", "lock of the chunk list taken without its lock (contracts are sequential)"),
      (r"&\s*&\s*self", "&self", "lock of the chunk list taken without its lock (contracts are sequential)")]
MAPS = [(r"(\w+)\.sort(?:_unstable)?_by_key\(\s*\|\s*&?(\w+)\s*\|\s*\2\.timestamp\s*\)", r"vx_sort_by_time(&mut \1)", "sort by timestamp written vx_sort_by_time"),
        (r"(\w+)\.sort(?:_unstable)?_by\(\s*\|\s*(\w+)\s*,\s*(\w+)\s*\|\s*\2\.timestamp\.cmp\(&\3\.timestamp\)\s*\)", r"vx_sort_by_time(&mut \1)", "sort by timestamp written vx_sort_by_time"),
        (r"HashMap\s*::\s*<[^>]*<[^>]*>\s*>\s*::\s*new\(\)", "VxMap::new()", "HashMap keyed by label sets written VxMap"),
        (r"(\w+)\.iter\(\)\.cloned\(\)\.rev\(\)", r"\1.clone().into_iter().rev()", "iter().cloned() written clone().into_iter()"),
        (r"for\s+ref\s+(\w+)\s+in\s+([^{]*)\{", r"for vx_t in \2{ let \1 = &vx_t;", "ref pattern of a for loop written as a let")]


def chunk_calls(s):
    """queries of a chunk get the ghost registry of that chunk as last argument"""
    import re
    from .. import rust
    n, at = 0, 0
    while True:
        m = re.compile(r"\b(\w+)\s*\.query\s*\(").search(s, at)
        if not m:
            return s, n
        if m.group(1) == "self":
            at = m.end()
            continue
        c = rust.code(rust.lex(s))
        i = next(i for i, t in enumerate(c) if t[2] == m.end() - 1)
        j = rust.match(c, i)
        sep = " " if c[j - 1][1] == "," else ", "
        s = s[:c[j][2]] + sep + "Ghost(the_reg(*%s))" % m.group(1) + s[c[j][2]:]
        n, at = n + 1, m.end()


CALLS = [(chunk_calls, None, "ghost argument passed on")]
ADD = """proof { broadcast use lemma_bag_len; lemma_bag_empty(); assert(mv(vx_m0, labs(vx_t.meta_data)) == mv(vx_base, labs(vx_t.meta_data)).add(found(vx_ans, vx_a.index@, labs(vx_t.meta_data))));
    assert(vx_m0.contains_key(labs(vx_t.meta_data)) ==> bag(pts(vx_m0[labs(vx_t.meta_data)]@)).len() > 0); let l0 = labs(vx_t.meta_data); let x = res_ref@[l0]; let o = if vx_m0.contains_key(l0) { vx_m0[l0]@ } else { Seq::empty() };
    lemma_bag_parts(x@, o, vx_t.time_points@); assert(res_ref@ == vx_m0.insert(l0, x)); lemma_step(vx_base, vx_ans, vx_a.index@, start_time, end_time, vx_m0, res_ref@); }"""
G = "impl<S: Storage, I: Indexer> MonolithDb<S, I>"
C = r"^impl < S , I > MonolithDb"


def build():
    from ..unit import Unit
    U = chunk.build()
    U.name = "db"
    U.raw(SHIMS + SPEC + BATCH)
    U.item("src/common/time_series.rs", "type", "LabelPointPairs")
    U.item(DB, "struct", "MonolithDb", subs=[
        (r"RwLock<Arc<(Chunk<S, I>)>>", r"\1", "chunk without its lock and reference count", True), (r"RwLock<Vec<Arc<(Chunk<S, I>)>>>", r"Vec<\1>", "chunks without lock and reference counts", True),
        (r"\+ Sync \+ Send|\+ Send \+ Sync", "", "thread bounds dropped"), (r"options: DbOpts,|\w+_builder: [^\n]*,\n", "", "fields the contracts of this unit do not look at")])
    U.open(G)
    U.raw(r"""
    spec fn ok(&self) -> bool {
        sorted_reg(self.current_chuck) && (forall|i: int| 0 <= i < self.secondary_chunks@.len() ==> sorted_reg(#[trigger] self.secondary_chunks@[i]))
    }
    // everything stored of a label set in the range, oldest chunk first
    spec fn total(&self, l: Seq<Lab>, lo: u64, hi: u64) -> Seq<(u64, u64)> { tail_pts(self.secondary_chunks@, 0, self.current_chuck, l, lo, hi) }
""")
    U.fn(DB, "query", C, label="MonolithDb::query", subs=RW + MAPS + CALLS + [pipe.lowering("(Labels, Vec<TimePoint>)")],
         spec="""requires self.ok(), names_ok(labs(labels)), labs(labels).len() > 0,
        ensures r matches Ok(v) ==> (forall|k: int| 0 <= k < v@.len() ==> carries(labs((#[trigger] v@[k]).0), labs(labels)) && bag(pts(v@[k].1@)) == bag(self.total(labs(v@[k].0), start_time, end_time)) && v@[k].1@.len() > 0 && ascending(pts(v@[k].1@))),
            r matches Ok(v) ==> (forall|j: int, k: int| 0 <= j < k < v@.len() ==> labs((#[trigger] v@[j]).0) != labs((#[trigger] v@[k]).0)),
            r matches Ok(v) ==> (forall|l: Seq<Lab>| carries(l, labs(labels)) && (#[trigger] self.total(l, start_time, end_time)).len() > 0 ==> exists|k: int| 0 <= k < v@.len() && labs((#[trigger] v@[k]).0) == l),
            r matches Err(e) ==> vx_store_err(e) || vx_thread_err(e)""",
         pre="broadcast use lemma_cloned; proof { lemma_bag_empty(); } let ghost vx_w = labs(labels); let ghost vx_cur = self.current_chuck; let ghost vx_v = self.secondary_chunks@; let ghost mut vx_base = Map::<Seq<Lab>, Vec<TimePoint>>::empty(); let ghost mut vx_ans = Seq::<TimeSeries>::empty();",
         loops=[{"iter": "vx_a",
                 "inv": "vx_a.seq() == vx_ans, one_each(vx_ans), forall|l: Seq<Lab>| mv(vx_base, l) == Bag::empty(), step(vx_base, vx_ans, vx_a.index@, start_time, end_time, res_ref@)",
                 "start": "let ghost vx_m0 = res_ref@; proof { assert(vx_ans[vx_a.index@] == vx_t); lemma_series_for(vx_ans, vx_a.index@); }",
                 "end": ADD,
                 "before": "proof { vx_ans = _res@; lemma_answer(vx_cur, vx_ans, vx_w, start_time, end_time); }",
                 "after": """proof { lemma_bag_empty(); assert forall|l: Seq<Lab>| #[trigger] mv(res_ref@, l) == bag(all_of(vx_w, l, tail_pts(vx_v, vx_v.len() as int, vx_cur, l, start_time, end_time))) by { lemma_chunk_done(vx_base, vx_cur, vx_ans, vx_w, start_time, end_time, res_ref@, l); } }"""},
                {"iter": "vx_b",
                 "before": """proof { lemma_bag_empty(); assert forall|l: Seq<Lab>| #[trigger] mv(res_ref@, l) == bag(all_of(vx_w, l, tail_pts(vx_v, vx_v.len() as int, vx_cur, l, start_time, end_time))) by { if !overlaps(vx_cur.start_time, vx_cur.end_time, start_time, end_time) { assert(chunk_pts(vx_cur, l, start_time, end_time) =~= Seq::empty()); } } }""",
                 "inv": "self.ok(), vx_cur == self.current_chuck, vx_v == self.secondary_chunks@, vx_w == labs(labels), names_ok(vx_w), vx_w.len() > 0, vx_b.seq().len() == vx_v.len(), forall|k: int| 0 <= k < vx_v.len() ==> *(#[trigger] vx_b.seq()[k]) == vx_v[vx_v.len() - 1 - k], gathered(res_ref@, vx_w, vx_v, vx_v.len() - vx_b.index@, vx_cur, start_time, end_time)",
                 "start": "let ghost vx_i = vx_v.len() - 1 - vx_b.index@; proof { vx_base = res_ref@; assert(*_c == vx_v[vx_i]); assert(sorted_reg(vx_v[vx_i])); }",
                 "end": """proof { lemma_bag_empty(); assert forall|l: Seq<Lab>| #[trigger] mv(res_ref@, l) == bag(all_of(vx_w, l, tail_pts(vx_v, vx_i, vx_cur, l, start_time, end_time))) by {
                    let rest = tail_pts(vx_v, vx_i + 1, vx_cur, l, start_time, end_time); let here = chunk_pts(vx_v[vx_i], l, start_time, end_time);
                    assert(mv(vx_base, l) == bag(all_of(vx_w, l, rest)));
                    lemma_bag_sum(here, rest); assert(bag(here).add(bag(rest)) =~= bag(rest).add(bag(here)));
                    if overlaps(_c.start_time, _c.end_time, start_time, end_time) { lemma_chunk_done(vx_base, *_c, vx_ans, vx_w, start_time, end_time, res_ref@, l); }
                    else { assert(here =~= Seq::empty()); assert(here + rest =~= rest); } } }"""},
                {"iter": "vx_a",
                 "inv": "vx_a.seq() == vx_ans, one_each(vx_ans), step(vx_base, vx_ans, vx_a.index@, start_time, end_time, res_ref@)",
                 "start": "let ghost vx_m0 = res_ref@; proof { assert(vx_ans[vx_a.index@] == vx_t); lemma_series_for(vx_ans, vx_a.index@); }",
                 "end": ADD,
                 "before": "proof { vx_ans = _res@; lemma_bag_empty(); lemma_answer(*_c, vx_ans, vx_w, start_time, end_time); }"},
                {"inv": """vx_it.seq() == vx_ks, 0 <= vx_it.at() <= vx_ks.len(), vx_out@.len() == vx_it.at(), forall|i: int| 0 <= i < vx_ks.len() ==> vx_m.contains_key(labs(*#[trigger] vx_ks[i])), res@ == vx_m,
                    forall|k: int| 0 <= k < vx_out@.len() ==> labs((#[trigger] vx_out@[k]).0) == labs(*vx_ks[k]) && bag(pts(vx_out@[k].1@)) == bag(pts(vx_m[labs(*vx_ks[k])]@)) && ascending(pts(vx_out@[k].1@))""",
                 "dec": "vx_ks.len() - vx_it.at()",
                 "ens": "vx_it.at() == vx_ks.len()",
                 "before": "let ghost vx_m = res@; let ghost vx_ks = vx_it.seq();",
                 "after": """proof { assert forall|l: Seq<Lab>| #[trigger] vx_m.contains_key(l) implies exists|k: int| 0 <= k < vx_out@.len() && labs((#[trigger] vx_out@[k]).0) == l by {
                    let i = choose|i: int| 0 <= i < vx_ks.len() && labs(*#[trigger] vx_ks[i]) == l; assert(labs(vx_out@[i].0) == l); } }"""}],
         tail="""proof {
            broadcast use lemma_bag_len; lemma_bag_empty(); let v = res_vec@; let vx_f = res@;
            assert forall|k: int| 0 <= k < v.len() implies carries(labs((#[trigger] v[k]).0), vx_w) && bag(pts(v[k].1@)) == bag(self.total(labs(v[k].0), start_time, end_time)) && v[k].1@.len() > 0 && ascending(pts(v[k].1@)) by {
                let l = labs(v[k].0); assert(vx_f.contains_key(l)); assert(mv(vx_f, l) == bag(all_of(vx_w, l, tail_pts(vx_v, 0, vx_cur, l, start_time, end_time))));
                assert(mv(vx_f, l).len() > 0);
            }
            assert forall|l: Seq<Lab>| carries(l, vx_w) && (#[trigger] self.total(l, start_time, end_time)).len() > 0 implies exists|k: int| 0 <= k < v.len() && labs((#[trigger] v[k]).0) == l by {
                assert(mv(vx_f, l) == bag(all_of(vx_w, l, tail_pts(vx_v, 0, vx_cur, l, start_time, end_time)))); lemma_bag_length(self.total(l, start_time, end_time)); lemma_bag_empty();
                assert(vx_f.contains_key(l));
            } }""")
    PRE = "requires old(self).current_chuck.fit(vx_reg0), q_ok(labels), old(self).current_chuck.id_generator.0@ + %s <= u64::MAX,"
    FRAME = "final(self).secondary_chunks == old(self).secondary_chunks, final(self).current_chuck.start_time == old(self).current_chuck.start_time, final(self).current_chuck.end_time == old(self).current_chuck.end_time"
    U.fn(DB, "write_time_points", C, label="MonolithDb::write_time_points", subs=RWM + INSERTS + [pipe.lowering("Result<()>")], sig_subs=lib.MUT_SELF, ghost="Ghost(vx_reg0): Ghost<Reg>",
         spec=PRE % "timepoints@.len()" + """
        ensures %s, r is Ok ==> exists|reg2: Reg| #[trigger] final(self).current_chuck.fit(reg2)
            && batch(vx_reg0, reg2, old(self).current_chuck.storage.all(), final(self).current_chuck.storage.all(), canon(labs(labels)), wanted(timepoints@, old(self).current_chuck.start_time, old(self).current_chuck.end_time))""" % FRAME,
         pre="""let ghost mut vx_reg = vx_reg0; let ghost mut vx_good = true; let ghost vx_v = timepoints@; let ghost vx_a = self.current_chuck.storage.all(); let ghost vx_cc = canon(labs(labels)); let ghost vx_n = self.current_chuck.id_generator.0@; let ghost vx_lo = self.current_chuck.start_time; let ghost vx_hi = self.current_chuck.end_time;
            proof { assert(vx_v.take(vx_v.len() as int) =~= vx_v); }""",
         loops=[{"inv": """vx_it.seq() == vx_v, 0 <= vx_it.at() <= vx_v.len(), vx_lo == start_time, vx_hi == end_time, vx_lo == _c.start_time, vx_hi == _c.end_time, vx_cc == canon(labs(labels)), q_ok(labels), vx_n + vx_v.len() <= u64::MAX,
                vx_out@.len() == 0 ==> _c.fit(vx_reg) && _c.id_generator.0@ <= vx_n + vx_it.at() && batch(vx_reg0, vx_reg, vx_a, _c.storage.all(), vx_cc, wanted(vx_v.take(vx_it.at()), vx_lo, vx_hi))""",
                 "dec": "vx_v.len() - vx_it.at()", "ens": "vx_it.at() == vx_v.len()",
                 "start": """let ghost vx_i = vx_it.at(); let ghost vx_b = _c.storage.all(); let ghost vx_reg1 = vx_reg; proof { vx_good = vx_out@.len() == 0 && vx_i < vx_v.len();
                    if vx_i < vx_v.len() { let t = vx_v.take(vx_i + 1); assert(t.drop_last() =~= vx_v.take(vx_i)); assert(t.last() == vx_v[vx_i]); }
                    assert forall|reg2: Reg, d: spec_fn(u64) -> Series, id: u64| vx_good && #[trigger] inserted(vx_reg1, reg2, vx_b, d, vx_cc, id, pt(vx_v[vx_i])) implies batch(vx_reg0, reg2, vx_a, d, vx_cc, wanted(vx_v.take(vx_i), vx_lo, vx_hi).push(pt(vx_v[vx_i]))) by {
                        lemma_batch(vx_reg0, vx_reg1, reg2, vx_a, vx_b, d, vx_cc, wanted(vx_v.take(vx_i), vx_lo, vx_hi), pt(vx_v[vx_i]), id); } }"""}])
    U.fn(DB, "write_time_point", C, label="MonolithDb::write_time_point", subs=RWM + INSERTS, sig_subs=lib.MUT_SELF, ghost="Ghost(vx_reg0): Ghost<Reg>",
         spec=PRE % "1" + """
        ensures %s, r is Ok ==> old(self).current_chuck.start_time <= timepoint.timestamp <= old(self).current_chuck.end_time && exists|reg2: Reg, id: u64| #[trigger] inserted(vx_reg0, reg2, old(self).current_chuck.storage.all(), final(self).current_chuck.storage.all(), canon(labs(labels)), id, pt(timepoint)) && final(self).current_chuck.fit(reg2)""" % FRAME,
         pre="let ghost mut vx_reg = vx_reg0; let ghost vx_good = true;")
    U.close()
    return U
