"""Label, Labels and the order of time points (C17); base of the indexer and protobuf units."""
from . import lib
L = "src/common/label.rs"
TP = "src/common/time_point.rs"

SPEC = r"""
use vstd::relations::*;
use std::cmp::Ordering;
type Lab = (Seq<char>, Seq<char>);
spec fn lab(l: Label) -> Lab { (l.key@, l.value@) }
spec fn labs(l: Labels) -> Seq<Lab> { l.0@.map_values(|x: Label| lab(x)) }
spec fn labs_of(v: Seq<Label>) -> Seq<Lab> { v.map_values(|x: Label| lab(x)) }
// the order of text (std: by code units); only its being a total order is used
uninterp spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool;
axiom fn ax_text_le()
    ensures total_ordering(|a: Seq<char>, b: Seq<char>| text_le(a, b));
#[verifier::external_body]
fn vx_text_cmp(a: &String, b: &String) -> (r: Ordering)
    ensures r == text_ord(a@, b@),
{ a.cmp(b) }
spec fn text_ord(a: Seq<char>, b: Seq<char>) -> Ordering { if a == b { Ordering::Equal } else if text_le(a, b) { Ordering::Less } else { Ordering::Greater } }
spec fn keys_sorted(s: Seq<Lab>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> text_le((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
spec fn distinct_keys(s: Seq<Lab>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
spec fn same_set(a: Seq<Lab>, b: Seq<Lab>) -> bool { a.to_multiset() == b.to_multiset() }
// slice::sort: a permutation in the order of Label::cmp (by name, verified below)
#[verifier::external_body]
fn vx_sort_labels(v: &mut Vec<Label>)
    ensures same_set(labs_of(final(v)@), labs_of(old(v)@)), keys_sorted(labs_of(final(v)@)), final(v)@.len() == old(v)@.len(),
{ loop {} }
// derived Clone
impl Label {
    #[verifier::external_body]
    fn clone(&self) -> (r: Label) ensures lab(r) == lab(*self) { loop {} }
}
impl Labels {
    #[verifier::external_body]
    fn clone(&self) -> (r: Labels) ensures labs(r) =~= labs(*self) { loop {} }
}
"""

HASH = r"""
// a hasher only sees what it is fed; the derived hash of a label feeds a function of its name and value
uninterp spec fn label_feed(l: Lab) -> Seq<u8>;
spec fn feed(s: Seq<Lab>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { feed(s.drop_last()) + label_feed(s.last()) } }
uninterp spec fn hash_of(fed: Seq<u8>) -> u64;
trait VxHasher: Sized {
    spec fn fed(&self) -> Seq<u8>;
    // numbers, sizes and the like
    fn vx_write(&mut self, n: u64)
        ensures final(self).fed() == old(self).fed() + be64(n);
}
#[verifier::external_body] struct DefaultHasher {}
impl VxHasher for DefaultHasher {
    uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn vx_write(&mut self, n: u64) { loop {} }
}
impl DefaultHasher {
    #[verifier::external_body]
    fn new() -> (r: DefaultHasher) ensures r.fed() == Seq::<u8>::empty() { loop {} }
    #[verifier::external_body]
    fn finish(&self) -> (r: u64) ensures r == hash_of(self.fed()) { loop {} }
}
impl Label {
    #[verifier::external_body]
    fn hash<H: VxHasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + label_feed(lab(*self)) { loop {} }
}
"""
SUBS = [(r"self\.(\w+)\.cmp\(&other\.(\w+)\)", r"vx_text_cmp(&self.\1, &other.\2)", "String::cmp written vx_text_cmp"),
        (r"self\.(\w+)\.partial_cmp\(&other\.(\w+)\)", r"Some(vx_text_cmp(&self.\1, &other.\2))", "String::partial_cmp written Some(vx_text_cmp)"),
        (r"self\.0\.sort\(\)", "vx_sort_labels(&mut self.0)", "slice::sort written vx_sort_labels")]
HSUB = [(r"\bH: Hasher\b", "H: VxHasher", "bound Hasher written VxHasher (what the hasher is fed)")]


def base(U):
    U.item(L, "struct", "Label")
    U.item(L, "struct", "Labels")
    U.raw(SPEC)
    c = "^impl Label$"
    U.open("impl Label")
    U.fn(L, "new", c, spec="ensures lab(r) == (key@, value@)")
    U.fn(L, "from_key_value", c, spec="ensures lab(r) == (key@, value@)")
    U.fn(L, "key_value", c, spec="ensures (r.0@, r.1@) == lab(self)")
    U.fn(L, "key", c, spec="ensures r@ == lab(*self).0")
    U.fn(L, "value", c, spec="ensures r@ == lab(*self).1")
    U.fn(L, "eq", "^impl PartialEq for Label$", spec="ensures r == (lab(*self) == lab(*other))")
    U.fn(L, "cmp", "^impl Ord for Label$", subs=SUBS, spec="ensures r == text_ord(lab(*self).0, lab(*other).0)")
    U.fn(L, "partial_cmp", "^impl PartialOrd for Label$", subs=SUBS, spec="ensures r == Some(text_ord(lab(*self).0, lab(*other).0))")
    U.close()
    c = "^impl Labels$"
    U.open("impl Labels")
    U.fn(L, "new", c, spec="ensures labs(r) =~= Seq::<Lab>::empty()")
    U.fn(L, "from_vec", c, spec="ensures labs(r) =~= labs_of(label_vec@)")
    U.fn(L, "add", c, spec="ensures labs(*final(self)) =~= labs(*old(self)).push(lab(label))")
    U.fn(L, "len", c, spec="ensures r == labs(*self).len()")
    U.fn(L, "vec", c, spec="ensures labs_of(r@) =~= labs(*self)")
    U.fn(L, "sort", c, subs=SUBS, spec="ensures same_set(labs(*final(self)), labs(*old(self))), keys_sorted(labs(*final(self))), labs(*final(self)).len() == labs(*old(self)).len()")
    U.fn(L, "pop", c, spec="ensures labs(*old(self)).len() > 0 ==> (r matches Some(l) && lab(l) == labs(*old(self)).last() && labs(*final(self)) =~= labs(*old(self)).drop_last()), labs(*old(self)).len() == 0 ==> r is None && labs(*final(self)) =~= labs(*old(self))")
    U.close()


def laws(U):
    U.raw(HASH)
    U.open("impl Labels")
    U.fn(L, "eq", "^impl PartialEq for Labels$", spec="ensures r == (labs(*self) =~= labs(*other))",
         pre="""proof { assert forall|i: int| 0 <= i < labs(*self).len() implies #[trigger] labs(*self)[i] == lab(self.0@[i]) by {} assert forall|i: int| 0 <= i < labs(*other).len() implies #[trigger] labs(*other)[i] == lab(other.0@[i]) by {}
            if labs(*self) == labs(*other) { assert forall|i: int| 0 <= i < self.0@.len() implies lab(#[trigger] self.0@[i]) == lab(other.0@[i]) by { assert(labs(*self)[i] == labs(*other)[i]); } } }""",
         loops=[{"iter": "it", "inv": "self.0@.len() == other.0@.len(), labs(*self) == labs(*other) ==> (forall|i: int| 0 <= i < self.0@.len() ==> lab(#[trigger] self.0@[i]) == lab(other.0@[i])), forall|k: int| 0 <= k < it.index@ ==> lab(#[trigger] self.0@[k]) == lab(other.0@[k])"}], optional_loops=True)
    U.fn(L, "hash", "^impl Hash for Labels$", sig_subs=HSUB, spec="ensures final(state).fed() =~= old(state).fed() + feed(labs(*self))",
         pre="let ghost vx_s0 = state.fed(); proof { assert(labs(*self).take(labs(*self).len() as int) =~= labs(*self)); }",
         loops=[{"iter": "it", "inv": "it.seq().len() == self.0@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.0@[k], state.fed() =~= vx_s0 + feed(labs(*self).take(it.index@))",
                 "start": "proof { assert(labs(*self).take(it.index@ + 1).drop_last() =~= labs(*self).take(it.index@)); assert(labs(*self).take(it.index@ + 1).last() == labs(*self)[it.index@]); }"}])
    U.fn(L, "get_hash", "^impl Labels$", spec="ensures r == hash_of(feed(labs(*self)))", pre="proof { assert(Seq::<u8>::empty() + feed(labs(*self)) =~= feed(labs(*self))); }")
    U.close()
    U.open("impl TimePoint")
    U.fn(TP, "cmp", "^impl Ord for TimePoint$", spec="ensures r == (if self.timestamp < other.timestamp { Ordering::Less } else if self.timestamp == other.timestamp { Ordering::Equal } else { Ordering::Greater })")
    U.fn(TP, "partial_cmp", "^impl PartialOrd for TimePoint$", spec="ensures r == Some(if self.timestamp < other.timestamp { Ordering::Less } else if self.timestamp == other.timestamp { Ordering::Equal } else { Ordering::Greater })")
    U.close()
    U.raw(r"""
// the laws, from the contracts: equality is symmetric, and equal label sets hash alike
fn vx_equality_laws(a: &Labels, b: &Labels, x: &Label, y: &Label)
{
    let ab = a.eq(b); let ba = b.eq(a); let xy = x.eq(y); let yx = y.eq(x);
    assert(ab == ba && xy == yx);
    let ha = a.get_hash(); let hb = b.get_hash();
    assert(ab ==> ha == hb) by { if ab { assert(labs(*a) =~= labs(*b)); } }
}
""")


def build():
    from ..unit import Unit
    U = Unit("labels")
    for k, n in (("type", "Timestamp"), ("type", "Value")):
        U.item("src/lib.rs", k, n)
    U.raw(lib.BYTES)
    U.item(TP, "struct", "TimePoint")
    base(U)
    laws(U)
    return U
