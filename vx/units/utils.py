"""src/common/utils.rs and the id-list intersection of src/common/mod.rs (C05, C09; overlap test of C11)."""
from . import lib
F = "src/common/utils.rs"
M = "src/common/mod.rs"

INDEX_SUBS = [(r"\*\s*([\w.]+)\.index\(([^()]*)\)", r"\1[\2]", "`*x.index(i)` written x[i]"),
              (r"&?([\w.]+)\.index\(([^()]*)\)\s*(?=(==|!=|<|>|\{|\)?\s*&&))", r"\1[\2] ", "comparison of `x.index(i)` references written on x[i]"),
              (r"([=<>]=?|&&)\s*([\w.]+)\.index\(([^()]*)\)(?!\s*\.)", r"\1 \2[\3]", "comparison of `x.index(i)` references written on x[i]"),
              (r"([\w.]+)\.index\(([^()]*)\)\s*\.", r"\1[\2].", "method on `x.index(i)` written on x[i]"),
              (r"([\w.]+)\.index\(([^()]*)\)", r"&\1[\2]", "`x.index(i)` written &x[i]")]

SPEC = r"""
spec fn inc(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
spec fn in_all(d: Seq<Vec<u64>>, x: u64) -> bool { forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i]@.contains(x) }
// r is the strictly increasing list of the ids that occur in all of d
spec fn is_inter(r: Seq<u64>, d: Seq<Vec<u64>>) -> bool {
    inc(r) && (d.len() == 0 ==> r.len() == 0) && (d.len() > 0 ==> forall|x: u64| #[trigger] r.contains(x) <==> in_all(d, x))
}
spec fn all_inc(d: Seq<Vec<u64>>) -> bool { forall|i: int| 0 <= i < d.len() ==> inc(#[trigger] d[i]@) }
// a strictly increasing list is determined by its elements
proof fn lemma_inc_unique(a: Seq<u64>, b: Seq<u64>)
    requires inc(a), inc(b), forall|x: u64| #[trigger] a.contains(x) <==> b.contains(x),
    ensures a =~= b,
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
    } else {
        assert(a.contains(a.last())); assert(b.contains(a.last()));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == a.last();
        if k < b.len() - 1 {
            assert(b.contains(b.last())); assert(a.contains(b.last()));
            let m = choose|m: int| 0 <= m < a.len() && a[m] == b.last();
            assert(b[k] < b.last());
            if m < a.len() - 1 { assert(a[m] < a.last()); }
            assert(false);
        }
        let a1 = a.drop_last(); let b1 = b.drop_last();
        assert forall|x: u64| #[trigger] a1.contains(x) <==> b1.contains(x) by {
            if a1.contains(x) { let i = choose|i: int| 0 <= i < a1.len() && a1[i] == x; assert(a[i] == x); assert(a.contains(x)); assert(b.contains(x));
                let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert(a[i] < a.last()); assert(j < b.len() - 1); assert(b1[j] == x); }
            if b1.contains(x) { let i = choose|i: int| 0 <= i < b1.len() && b1[i] == x; assert(b[i] == x); assert(b.contains(x)); assert(a.contains(x));
                let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(b[i] < b.last()); assert(j < a.len() - 1); assert(a1[j] == x); }
        }
        lemma_inc_unique(a1, b1);
        assert(a =~= a1.push(a.last())); assert(b =~= b1.push(b.last()));
    }
}
spec fn is_meet(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>) -> bool { inc(r) && forall|x: u64| #[trigger] r.contains(x) <==> (a.contains(x) && b.contains(x)) }
proof fn lemma_pair(r: Seq<u64>, d: Seq<Vec<u64>>)
    requires d.len() == 2, is_inter(r, d),
    ensures is_meet(r, d[0]@, d[1]@), is_meet(r, d[1]@, d[0]@),
{
    assert forall|x: u64| #[trigger] r.contains(x) <==> (d[0]@.contains(x) && d[1]@.contains(x)) by {
        assert(r.contains(x) <==> in_all(d, x));
        if in_all(d, x) { assert(d[0]@.contains(x)); assert(d[1]@.contains(x)); }
        if d[0]@.contains(x) && d[1]@.contains(x) { assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i]@.contains(x) by {} }
    }
}
proof fn lemma_one(d: Seq<Vec<u64>>)
    requires d.len() == 1, inc(d[0]@),
    ensures is_inter(d[0]@, d),
{
    let r = d[0]@;
    assert forall|x: u64| #[trigger] r.contains(x) <==> in_all(d, x) by { if r.contains(x) { assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i]@.contains(x) by {} } }
}
proof fn lemma_two(r: Seq<u64>, d: Seq<Vec<u64>>)
    requires d.len() == 2, is_meet(r, d[0]@, d[1]@),
    ensures is_inter(r, d),
{
    assert forall|x: u64| #[trigger] r.contains(x) <==> in_all(d, x) by {
        if in_all(d, x) { assert(d[0]@.contains(x)); assert(d[1]@.contains(x)); }
    }
}
// the halves (or head and last) combine to the whole
proof fn lemma_join(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>, d: Seq<Vec<u64>>, k: int)
    requires 0 < k < d.len(), is_inter(a, d.take(k)), is_inter(b, d.skip(k)), is_meet(r, a, b),
    ensures is_inter(r, d),
{
    assert forall|x: u64| #[trigger] r.contains(x) <==> in_all(d, x) by {
        assert(r.contains(x) <==> (a.contains(x) && b.contains(x)));
        assert(a.contains(x) <==> in_all(d.take(k), x));
        assert(b.contains(x) <==> in_all(d.skip(k), x));
        if in_all(d, x) {
            assert forall|i: int| 0 <= i < d.take(k).len() implies #[trigger] d.take(k)[i]@.contains(x) by { assert(d[i]@.contains(x)); }
            assert forall|i: int| 0 <= i < d.skip(k).len() implies #[trigger] d.skip(k)[i]@.contains(x) by { assert(d[i + k]@.contains(x)); }
        }
        if in_all(d.take(k), x) && in_all(d.skip(k), x) {
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i]@.contains(x) by {
                if i < k { assert(d.take(k)[i]@.contains(x)); } else { assert(d.skip(k)[i - k]@.contains(x)); }
            }
        }
    }
}
spec fn same_lists(a: Seq<Vec<u64>>, b: Seq<Vec<u64>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@ }
proof fn lemma_same(r: Seq<u64>, a: Seq<Vec<u64>>, b: Seq<Vec<u64>>)
    requires is_inter(r, a), same_lists(a, b),
    ensures is_inter(r, b),
{
    assert forall|x: u64| in_all(a, x) <==> in_all(b, x) by {
        if in_all(a, x) { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i]@.contains(x) by { assert(a[i]@.contains(x)); } }
        if in_all(b, x) { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i]@.contains(x) by { assert(b[i]@.contains(x)); } }
    }
    if a.len() > 0 {
        assert forall|x: u64| #[trigger] r.contains(x) <==> in_all(b, x) by { assert(in_all(a, x) <==> in_all(b, x)); }
    }
}
"""

CHAN = r"""
// ---- std::sync::mpsc, assumed: a message received on a channel is one that was sent on it. Every send is checked against the
// channel's predicate, so every message received satisfies it. try_recv may find nothing or a disconnected channel at any time.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Sender<T> { t: std::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct Receiver<T> { t: std::marker::PhantomData<T> }
enum TryRecvError { Empty, Disconnected }
struct SendError {}
spec fn put<T>(p: spec_fn(T) -> bool, t: T) -> bool { p(t) }
impl<T> Sender<T> {
    uninterp spec fn inv(self) -> spec_fn(T) -> bool;
    #[verifier::external_body] fn send(&self, t: T) -> (r: core::result::Result<(), SendError>) requires put(self.inv(), t), { Ok(()) }
}
impl<T> Receiver<T> {
    uninterp spec fn inv(self) -> spec_fn(T) -> bool;
    #[verifier::external_body] fn try_recv(&self) -> (r: core::result::Result<T, TryRecvError>) ensures r matches Ok(t) ==> (self.inv())(t), { Err(TryRecvError::Empty) }
    #[verifier::external_body] fn recv(&self) -> (r: core::result::Result<T, TryRecvError>) ensures r matches Ok(t) ==> (self.inv())(t), { Err(TryRecvError::Empty) }
}
#[verifier::external_body]
fn vx_channel<T>(Ghost(inv): Ghost<spec_fn(T) -> bool>) -> (r: (Sender<T>, Receiver<T>))
    ensures r.0.inv() == inv, r.1.inv() == inv,
{ loop {} }
// a channel with predicate p takes the intersection of d, and any error
spec fn accepts(p: spec_fn(Result<Vec<u64>>) -> bool, d: Seq<Vec<u64>>) -> bool {
    forall|m: Result<Vec<u64>>| (m matches Ok(v) ==> is_inter(v@, d)) ==> #[trigger] put(p, m)
}
proof fn lemma_accepts(p: spec_fn(Result<Vec<u64>>) -> bool, a: Seq<Vec<u64>>, b: Seq<Vec<u64>>)
    requires accepts(p, a), same_lists(a, b),
    ensures accepts(p, b), all_inc(a) ==> all_inc(b),
{
    assert forall|m: Result<Vec<u64>>| (m matches Ok(v) ==> is_inter(v@, b)) implies #[trigger] put(p, m) by { if m is Ok { lemma_same(m->Ok_0@, b, a); } }
    if all_inc(a) { assert forall|i: int| 0 <= i < b.len() implies inc(#[trigger] b[i]@) by { assert(a[i]@ == b[i]@); assert(inc(a[i]@)); } }
}
fn vx_clone_lists(d: &Vec<Vec<u64>>) -> (r: Vec<Vec<u64>>)
    ensures same_lists(d@, r@), all_inc(d@) ==> all_inc(r@), forall|p: spec_fn(Result<Vec<u64>>) -> bool| accepts(p, d@) ==> #[trigger] accepts(p, r@),
{
    let r = d.clone();
    proof {
        assert forall|i: int| 0 <= i < d@.len() implies (#[trigger] d@[i])@ == r@[i]@ by { assert(cloned(d@[i], r@[i])); assert(d@[i]@ =~= r@[i]@); }
        if all_inc(d@) { assert forall|i: int| 0 <= i < r@.len() implies inc(#[trigger] r@[i]@) by { assert(inc(d@[i]@)); } }
        assert forall|p: spec_fn(Result<Vec<u64>>) -> bool| accepts(p, d@) implies #[trigger] accepts(p, r@) by { lemma_accepts(p, d@, r@); }
    }
    r
}
spec fn ok_inter(d: Seq<Vec<u64>>) -> spec_fn(Result<Vec<u64>>) -> bool { |m: Result<Vec<u64>>| m matches Ok(v) ==> is_inter(v@, d) }
"""
HALVES = "let ghost vx_d = ts@; let ghost vx_k = (ts@.len() / 2) as int;"


def intersection(U):
    U.item("src/common/time_series.rs", "type", "TimeSeriesId")
    U.raw(SPEC)
    U.raw("""trait OrderIntersect: Sized {
    spec fn oi_pre(&self, other: &Self) -> bool;
    spec fn oi_post(&self, other: &Self, r: Self) -> bool;
    fn order_intersect(&self, other: &Self) -> (r: Self)
        requires self.oi_pre(other), ensures self.oi_post(other, r);
}
""")
    U.open("impl OrderIntersect for Vec<TimeSeriesId>")
    U.raw("""    spec fn oi_pre(&self, other: &Self) -> bool { inc(self@) && inc(other@) }
    spec fn oi_post(&self, other: &Self, r: Self) -> bool { is_meet(r@, self@, other@) }
""")
    U.fn(M, "order_intersect", "^impl OrderIntersect for Vec", subs=INDEX_SUBS,
         loops=[{"inv": """inc(self@), inc(other@), inc(res@), 0 <= i <= self@.len(), 0 <= j <= other@.len(),
             forall|x: u64| #[trigger] res@.contains(x) ==> self@.contains(x) && other@.contains(x),
             forall|k: int, a: int| 0 <= k < res@.len() && i <= a < self@.len() ==> res@[k] < self@[a],
             forall|a: int, b: int| 0 <= a < self@.len() && 0 <= b < other@.len() && (a < i || b < j) && self@[a] == other@[b] ==> res@.contains(self@[a])""",
                 "dec": "self@.len() + other@.len() - i - j",
                 "start": "let ghost vx_r0 = res@;",
                 "end": """proof {
                    assert forall|x: u64| vx_r0.contains(x) implies #[trigger] res@.contains(x) by { let k = choose|k: int| 0 <= k < vx_r0.len() && vx_r0[k] == x; assert(res@[k] == x); }
                    assert forall|x: u64| #[trigger] res@.contains(x) implies self@.contains(x) && other@.contains(x) by {
                        let k = choose|k: int| 0 <= k < res@.len() && res@[k] == x;
                        if k < vx_r0.len() { assert(vx_r0[k] == x); assert(vx_r0.contains(x)); }
                    }
                    if res@.len() > vx_r0.len() { assert(res@[vx_r0.len() as int] == self@[i - 1]); assert(res@.contains(self@[i - 1])); }
                 }"""}],
         tail="""proof {
            assert forall|x: u64| #[trigger] res@.contains(x) <==> (self@.contains(x) && other@.contains(x)) by {
                if self@.contains(x) && other@.contains(x) {
                    let a = choose|a: int| 0 <= a < self@.len() && self@[a] == x;
                    let b = choose|b: int| 0 <= b < other@.len() && other@[b] == x;
                    assert(a < i || b < j);
                }
            }
         }""")
    U.close()
    U.raw(CHAN)
    from ..unit import local_types
    for t in local_types(F, "intersect_time_series_id_vec"):
        U.raw(t + "\n")
    n = "intersect_time_series_id_vec"
    U.fn(F, "handler", None, within=n, spec="""requires all_inc(data@), accepts(sender.inv(), data@),
        decreases data@.len(), 1nat""")
    U.fn(F, "gather_res", None, within=n, spec="ensures r matches Ok(Some(v)) ==> (receiver.inv())(Ok(v))", subs=TRY_SUBS)
    box = {"i": 0}

    def chan(m):
        box["i"] += 1
        return "vx_channel(Ghost(ok_inter(%s)))" % ("vx_d.take(vx_k)" if box["i"] == 1 else "vx_d.skip(vx_k)")
    U.fn(F, n, None, attrs="#[verifier::exec_allows_no_decreases_clause]\n#[verifier::spinoff_prover] #[verifier::rlimit(60)]",
         subs=INDEX_SUBS + [
             (r"\bchannel::<[^()]*>\(\)", chan, "mpsc::channel::<T>() given a ghost predicate on its messages", True),
             (r"thread::spawn\(", "vstd::thread::spawn(", "thread::spawn is vstd's, which checks the closure's precondition"),
             (r"handler\(\s*([^,()]*),\s*(\w+)\.clone\(\)\s*\)", r"handler(\1, vx_clone_lists(&\2))", "clone of a list of lists called through a checked wrapper"),
             (r"\(\s*Vec::new\(\)\s*,\s*Vec::new\(\)\s*\)", "(Vec::<Vec<u64>>::new(), Vec::<Vec<u64>>::new())", "element type of two empty vectors spelled out"),
             (r"let\s+mut\s+(\w+)\s*=\s*Vec::new\(\)", r"let mut \1 = Vec::<Vec<u64>>::new()", "element type of an empty vector spelled out")],
         spec="""requires all_inc(ts@),
         ensures r matches Ok(v) ==> is_inter(v@, ts@),
         decreases ts@.len(), 0nat""",
         pre=HALVES + """
         proof {
            if vx_d.len() == 1 { lemma_one(vx_d); }
            if vx_d.len() >= 2 { assert(inc(vx_d[0]@) && inc(vx_d[1]@) && inc(vx_d.last()@)); }
            assert forall|r: Seq<u64>| vx_d.len() == 2 && #[trigger] is_meet(r, vx_d[0]@, vx_d[1]@) implies is_inter(r, vx_d) by { lemma_two(r, vx_d); }
            if vx_d.len() > 2 {
                let k = vx_d.len() - 1;
                assert(vx_d.take(k) =~= vx_d.drop_last());
                assert(vx_d.skip(k) =~= seq![vx_d.last()]);
                lemma_one(vx_d.skip(k));
                assert(all_inc(vx_d.drop_last())) by { assert forall|i: int| 0 <= i < k implies inc(#[trigger] vx_d.drop_last()[i]@) by { assert(inc(vx_d[i]@)); } }
                assert forall|r: Seq<u64>, a: Seq<u64>| #[trigger] is_meet(r, a, vx_d.last()@) && is_inter(a, vx_d.drop_last()) implies is_inter(r, vx_d) by { lemma_join(r, a, vx_d.last()@, vx_d, k); }
            }
         }""",
         loops=[{"iter": "it", "inv": """ts@ == vx_d, vx_d.len() >= 4, vx_k == vx_d.len() / 2,
                   data1@.len() == (if it.index@ <= vx_k { it.index@ } else { vx_k }), data2@.len() == (if it.index@ <= vx_k { 0 } else { it.index@ - vx_k }),
                   forall|q: int| 0 <= q < data1@.len() ==> (#[trigger] data1@[q])@ == vx_d[q]@,
                   forall|q: int| 0 <= q < data2@.len() ==> (#[trigger] data2@[q])@ == vx_d[q + vx_k]@""",
                 "after": """proof {
                    assert(accepts(ok_inter(vx_d.take(vx_k)), vx_d.take(vx_k))); assert(accepts(ok_inter(vx_d.skip(vx_k)), vx_d.skip(vx_k)));
                    assert(all_inc(vx_d.take(vx_k))) by { assert forall|i: int| 0 <= i < vx_k implies inc(#[trigger] vx_d.take(vx_k)[i]@) by { assert(inc(vx_d[i]@)); } }
                    assert(all_inc(vx_d.skip(vx_k))) by { assert forall|i: int| 0 <= i < vx_d.len() - vx_k implies inc(#[trigger] vx_d.skip(vx_k)[i]@) by { assert(inc(vx_d[i + vx_k]@)); } }
                    assert(same_lists(vx_d.take(vx_k), data1@)); assert(same_lists(vx_d.skip(vx_k), data2@));
                    lemma_accepts(ok_inter(vx_d.take(vx_k)), vx_d.take(vx_k), data1@); lemma_accepts(ok_inter(vx_d.skip(vx_k)), vx_d.skip(vx_k), data2@);
                 }"""},
                {"inv": """_r1.inv() == ok_inter(vx_d.take(vx_k)), _r2.inv() == ok_inter(vx_d.skip(vx_k)),
                   (_finish1 || _finish2) || next_vec@.len() == 0,
                   next_vec@.len() == (if _finish1 { 1int } else { 0 }) + (if _finish2 { 1int } else { 0 }),
                   _finish1 && !_finish2 ==> is_inter(next_vec@[0]@, vx_d.take(vx_k)),
                   _finish2 && !_finish1 ==> is_inter(next_vec@[0]@, vx_d.skip(vx_k)),
                   _finish1 && _finish2 ==> (is_inter(next_vec@[0]@, vx_d.take(vx_k)) && is_inter(next_vec@[1]@, vx_d.skip(vx_k))) || (is_inter(next_vec@[1]@, vx_d.take(vx_k)) && is_inter(next_vec@[0]@, vx_d.skip(vx_k)))""",
                 "ens": "_finish1 && _finish2",
                 "after": """proof {
                    assert(all_inc(next_vec@));
                    assert forall|r: Seq<u64>| #[trigger] is_inter(r, next_vec@) implies is_inter(r, vx_d) by {
                        lemma_pair(r, next_vec@);
                        let (p, q) = (next_vec@[0]@, next_vec@[1]@);
                        if is_inter(p, vx_d.take(vx_k)) && is_inter(q, vx_d.skip(vx_k)) { lemma_join(r, p, q, vx_d, vx_k); } else { lemma_join(r, q, p, vx_d, vx_k); }
                    }
                 }"""}])


TRY_SUBS = []


HEX = r"""
// ---- text form of a 128-bit number, as documented for {:x} and u128::from_str_radix(_, 16)
spec fn hexdigit(c: char) -> Option<nat> {
    if '0' <= c && c <= '9' { Some((c as nat - '0' as nat) as nat) } else if 'a' <= c && c <= 'f' { Some((c as nat - 'a' as nat + 10) as nat) }
    else if 'A' <= c && c <= 'F' { Some((c as nat - 'A' as nat + 10) as nat) } else { None }
}
spec fn hexval(s: Seq<char>) -> Option<nat>
    decreases s.len(),
{
    if s.len() == 0 { Some(0nat) } else { match (hexval(s.drop_last()), hexdigit(s.last())) { (Some(h), Some(d)) => Some(h * 16 + d), _ => None } }
}
// a hexadecimal number of at most 128 bits (std also takes one leading plus sign)
spec fn hex128(s: Seq<char>) -> Option<u128> {
    let t = if s.len() > 1 && s[0] == '+' { s.drop_first() } else { s };
    match hexval(t) { Some(v) => if t.len() > 0 && v <= u128::MAX { Some(v as u128) } else { None }, None => None }
}
#[verifier::external_body]
fn vx_lower_hex(x: u128) -> (r: String)
    ensures r@.len() > 0, r@[0] != '+', hexval(r@) == Some(x as nat),
{ format!("{:x}", x) }
#[verifier::external_body]
fn vx_from_str_radix_16(s: &str) -> (r: Result<u128>)
    ensures hex128(s@) matches Some(v) ==> r == Ok::<u128, MonolithErr>(v), hex128(s@) is None ==> r is Err,
{ loop {} }
pub assume_specification [u64::max_value]() -> (r: u64) ensures r == u64::MAX;
pub assume_specification [u128::max_value]() -> (r: u128) ensures r == u128::MAX;
proof fn lemma_pack(s: u64, e: u64, res: u128)
    requires res == ((s as u128) << 64u128) | (e as u128),
    ensures (res & 0xffff_ffff_ffff_ffffu128) as u64 == e, (res & 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) >> 64u128 == s as u128, (res >> 64u128) == s as u128, res as u64 == e,
{
    assert((res & 0xffff_ffff_ffff_ffffu128) as u64 == e && (res & 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) >> 64u128 == s as u128 && (res >> 64u128) == s as u128 && res as u64 == e) by (bit_vector)
        requires res == ((s as u128) << 64u128) | (e as u128);
}
// the packed number of a name
spec fn pack(s: u64, e: u64) -> u128 { ((s as u128) << 64u128) | (e as u128) }
"""
HEX_TOP = r"""
// C09 as one theorem over the real functions
fn vx_roundtrip_chunk_dir(start: u64, end: u64) -> (r: String)
    ensures true,
{
    let name = encode_chunk_dir(start, end);
    let kept = name.clone();
    let back = decode_chunk_dir(name);
    assert(back == Ok::<(u64, u64), MonolithErr>((start, end)));
    kept
}
proof fn vx_chunk_dir_injective(s1: u64, e1: u64, s2: u64, e2: u64, n1: Seq<char>, n2: Seq<char>)
    requires hex128(n1) == Some(pack(s1, e1)), hex128(n2) == Some(pack(s2, e2)), n1 == n2,
    ensures s1 == s2, e1 == e2,
{ lemma_pack(s1, e1, pack(s1, e1)); lemma_pack(s2, e2, pack(s2, e2)); }
"""


def chunk_dir(U):
    U.raw(HEX)
    U.fn(F, "encode_chunk_dir", None, spec="ensures hex128(r@) == Some(pack(start_time, end_time))",
         subs=[(r'format!\(\s*"\{:x\}"\s*,\s*([^()]+?)\s*\)', r"vx_lower_hex(\1)", "format!(\"{:x}\", n) written vx_lower_hex(n)")],
         pre="""proof {
            assert((0u128 | (start_time as u128)) == (start_time as u128)) by (bit_vector);
            assert(((start_time as u128) << 64u128) | (end_time as u128) == (end_time as u128) | ((start_time as u128) << 64u128)) by (bit_vector);
            assert(((start_time as u128) << 64u128) | (end_time as u128) == ((start_time as u128) << 64u128) + (end_time as u128)) by (bit_vector);
         }""")
    U.fn(F, "decode_chunk_dir", None, spec="""ensures hex128(dir_name@) is None ==> r is Err,
            forall|s: u64, e: u64| hex128(dir_name@) == Some(#[trigger] pack(s, e)) ==> r == Ok::<(u64, u64), MonolithErr>((s, e))""",
         subs=[(r"u128::from_str_radix\(([^,]*),\s*16\s*\)", r"vx_from_str_radix_16(\1)", "u128::from_str_radix(s, 16)? written with the error already converted")],
         pre="""proof {
            assert(u128::MAX - u64::MAX as u128 == 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128);
            assert forall|s: u64, e: u64| hex128(dir_name@) == Some(#[trigger] pack(s, e)) implies ({
                let d = pack(s, e);
                (d & 0xffff_ffff_ffff_ffffu128) as u64 == e && (d & 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) >> 64u128 == s as u128 && (d >> 64u128) == s as u128 && d as u64 == e }) by { lemma_pack(s, e, pack(s, e)); }
         }""")
    U.raw(HEX_TOP)


def build():
    from ..unit import Unit
    U = Unit("utils")
    U.raw("type Timestamp = u64;\n")
    lib.errors(U)
    intersection(U)
    chunk_dir(U)
    return U
