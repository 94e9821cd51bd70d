"""src/indexer: text of labels (C06, C08), index of label sets (C06), search by labels (C07), for both back ends."""
from . import lib, labels
SI = "src/indexer/sled_indexer.rs"
TI = "src/indexer/tikv_indexer.rs"

NAMES = r"""
// Prometheus label names are letters, digits and underscores; all that matters here
spec fn name_ok(n: Seq<char>) -> bool { !n.contains('=') && !n.contains(',') && !n.contains('\\') }
spec fn names_ok(s: Seq<Lab>) -> bool { forall|i: int| 0 <= i < s.len() ==> name_ok((#[trigger] s[i]).0) }
"""
REGISTRY = r"""
// ---- what the index holds: registered label sets (in order of names) with their ids
type Reg = Seq<(Seq<Lab>, u64)>;
spec fn ok_set(c: Seq<Lab>) -> bool { distinct_keys(c) && names_ok(c) && keys_sorted(c) }
spec fn is_known(reg: Reg, c: Seq<Lab>) -> bool { exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).0 == c }
// ids of the registered sets that carry all labels of w
spec fn carries(c: Seq<Lab>, w: Seq<Lab>) -> bool { forall|k: int| 0 <= k < w.len() ==> c.contains(#[trigger] w[k]) }
spec fn hits(reg: Reg, w: Seq<Lab>) -> Seq<u64>
    decreases reg.len(),
{ if reg.len() == 0 { Seq::empty() } else if carries(reg.last().0, w) { hits(reg.drop_last(), w).push(reg.last().1) } else { hits(reg.drop_last(), w) } }
spec fn wf_reg(reg: Reg) -> bool {
    (forall|i: int| 0 <= i < reg.len() ==> ok_set((#[trigger] reg[i]).0))
    && (forall|i: int, j: int| 0 <= i < j < reg.len() ==> (#[trigger] reg[i]).0 != (#[trigger] reg[j]).0 && reg[i].1 < reg[j].1)
}
spec fn is_fresh(reg: Reg, c: Seq<Lab>, id: u64) -> bool { ok_set(c) && !is_known(reg, c) && forall|i: int| 0 <= i < reg.len() ==> (#[trigger] reg[i]).1 < id }
proof fn lemma_found(reg: Reg, w: Seq<Lab>)
    requires wf_reg(reg),
    ensures inc(hits(reg, w)), forall|x: u64| #[trigger] hits(reg, w).contains(x) <==> (exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && carries(reg[i].0, w)),
        forall|x: u64| #[trigger] hits(reg, w).contains(x) ==> reg.len() > 0 && x <= reg.last().1,
    decreases reg.len(),
{
    if reg.len() > 0 {
        let p = reg.drop_last();
        assert(wf_reg(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 && p[i].1 < p[j].1 by { assert(reg[i].1 < reg[j].1); assert(reg[i].0 != reg[j].0); }
            assert forall|i: int| 0 <= i < p.len() implies ok_set((#[trigger] p[i]).0) by { assert(ok_set(reg[i].0)); } }
        lemma_found(p, w);
        let v = hits(p, w); let z = hits(reg, w);
        assert forall|x: u64| v.contains(x) implies x < reg.last().1 by { assert(p.len() > 0); assert(x <= p.last().1); assert(reg[p.len() - 1].1 < reg[reg.len() - 1].1); }
        assert forall|i: int, j: int| 0 <= i < j < z.len() implies z[i] < z[j] by { if j < v.len() { assert(v[i] < v[j]); } else { assert(v.contains(v[i])); assert(z[i] == v[i]); } }
        assert forall|x: u64| #[trigger] z.contains(x) <==> (exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && carries(reg[i].0, w)) by {
            if z.contains(x) {
                let k = choose|k: int| 0 <= k < z.len() && z[k] == x;
                if k < v.len() { assert(v[k] == x); assert(v.contains(x)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 == x && carries(p[i].0, w); assert(reg[i] == p[i]); }
                else { assert(reg[reg.len() - 1].1 == x); }
            }
            if exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && carries(reg[i].0, w) {
                let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && carries(reg[i].0, w);
                if i < p.len() { assert(p[i].1 == x && carries(p[i].0, w)); assert(v.contains(x)); let k = choose|k: int| 0 <= k < v.len() && v[k] == x; assert(z[k] == x); }
                else { assert(z[z.len() - 1] == x); }
            }
        }
        assert forall|x: u64| #[trigger] z.contains(x) implies x <= reg.last().1 by { let k = choose|k: int| 0 <= k < z.len() && z[k] == x; if k < v.len() { assert(v.contains(v[k])); } }
    }
}
// ids are different, so an id belongs to one entry
proof fn lemma_one_entry(reg: Reg, i: int, j: int)
    requires wf_reg(reg), 0 <= i < reg.len(), 0 <= j < reg.len(), reg[i].1 == reg[j].1,
    ensures i == j,
{ if i < j { assert(reg[i].1 < reg[j].1); } else if j < i { assert(reg[j].1 < reg[i].1); } }
proof fn lemma_push_wf(reg: Reg, c: Seq<Lab>, id: u64)
    requires wf_reg(reg), is_fresh(reg, c, id),
    ensures wf_reg(reg.push((c, id))),
{
    let r = reg.push((c, id));
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 && r[i].1 < r[j].1 by {
        if j < reg.len() { assert(reg[i].0 != reg[j].0 && reg[i].1 < reg[j].1); } else { assert(r[i] == reg[i]); assert(reg[i].1 < id); }
    }
    assert forall|i: int| 0 <= i < r.len() implies ok_set((#[trigger] r[i]).0) by { if i < reg.len() { assert(ok_set(reg[i].0)); } }
}
// an id that is registered for a full label set
spec fn reg_id(reg: Reg, c: Seq<Lab>, id: u64) -> bool { exists|i: int| 0 <= i < reg.len() && #[trigger] reg[i] == (c, id) }
spec fn q_ok(labels: Labels) -> bool { distinct_keys(labs(labels)) && names_ok(labs(labels)) }
// an accepted search: the ids, and with metadata the registered sets themselves
spec fn meta_ok(reg: Reg, w: Seq<Lab>, v: Seq<(u64, Labels)>) -> bool {
    v.map_values(|x: (u64, Labels)| x.0) =~= hits(reg, w) && forall|k: int| 0 <= k < v.len() ==> reg_id(reg, labs((#[trigger] v[k]).1), v[k].0)
}
"""
INDEXER = r"""
// ---- what a chunk may rely on about any index; both back ends are proved to keep to it (unit indexer)
uninterp spec fn vx_thread_err0(e: MonolithErr) -> bool;
// the threads of an intersection went away
spec fn vx_thread_err(e: MonolithErr) -> bool { vx_thread_err0(e) && !(e is NotFoundErr) && !(e is OutOfRangeErr) }
trait Indexer: Sized {
    // this index holds exactly the label sets of reg
    spec fn holds(&self, reg: Reg) -> bool;
    fn get_series_metadata_contains_labels(&self, labels: Labels, Ghost(vx_reg): Ghost<Reg>) -> (r: Result<Vec<(TimeSeriesId, Labels)>>)
        requires self.holds(vx_reg), names_ok(labs(labels)), labs(labels).len() > 0,
        ensures r matches Ok(v) ==> meta_ok(vx_reg, labs(labels), v@), r matches Err(e) ==> vx_store_err(e) || vx_thread_err(e);
    fn get_series_id_by_labels(&self, labels: Labels, Ghost(vx_reg): Ghost<Reg>) -> (r: Result<Option<TimeSeriesId>>)
        requires self.holds(vx_reg), q_ok(labels),
        ensures r matches Ok(Some(id)) ==> reg_id(vx_reg, canon(labs(labels)), id), r matches Ok(None) ==> !is_known(vx_reg, canon(labs(labels))), r matches Err(e) ==> vx_store_err(e);
    fn create_index(&mut self, labels: Labels, time_series_id: TimeSeriesId, Ghost(vx_reg): Ghost<Reg>) -> (r: Result<()>)
        requires old(self).holds(vx_reg), q_ok(labels), !is_known(vx_reg, canon(labs(labels))), forall|i: int| 0 <= i < vx_reg.len() ==> (#[trigger] vx_reg[i]).1 < time_series_id,
        ensures r is Ok ==> final(self).holds(vx_reg.push((canon(labs(labels)), time_series_id))), r matches Err(e) ==> vx_store_err(e);
}
"""
CODEC = r"""
// ---- the text of labels: name=value,name=value..., where comma and backslash in values are escaped
spec fn esc1(c: char) -> Seq<char> { if c == ',' || c == '\\' { seq!['\\', c] } else { seq![c] } }
spec fn esc(v: Seq<char>) -> Seq<char>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else { esc(v.drop_last()) + esc1(v.last()) } }
spec fn enc1(l: Lab) -> Seq<char> { l.0 + seq!['='] + esc(l.1) }
spec fn lcat(s: Seq<Lab>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { lcat(s.drop_last()) + enc1(s.last()).push(',') } }
spec fn ltext(s: Seq<Lab>) -> Seq<char> { if s.len() == 0 { Seq::empty() } else { lcat(s).drop_last() } }
// the pairs of a text, read from left to right
struct Sc { ps: Seq<Seq<char>>, cur: Seq<char>, esc: bool }
spec fn sc0() -> Sc { Sc { ps: Seq::empty(), cur: Seq::empty(), esc: false } }
spec fn pstep(q: Sc, c: char) -> Sc {
    if q.esc { Sc { cur: q.cur.push(c), esc: false, ..q } }
    else if c == '\\' { Sc { esc: true, ..q } }
    else if c == ',' { Sc { ps: q.ps.push(q.cur), cur: Seq::empty(), ..q } }
    else { Sc { cur: q.cur.push(c), ..q } }
}
spec fn pscan(s: Seq<char>) -> Sc
    decreases s.len(),
{ if s.len() == 0 { sc0() } else { pstep(pscan(s.drop_last()), s.last()) } }
spec fn npair(l: Lab) -> Seq<char> { l.0 + seq!['='] + l.1 }
spec fn pairs_of(s: Seq<Lab>) -> Seq<Seq<char>> { s.map_values(|l: Lab| npair(l)) }
spec fn joined_pairs(s: Seq<char>) -> Seq<Seq<char>> { pscan(s).ps.push(pscan(s).cur) }

proof fn lemma_scan_plain(a: Seq<char>, n: Seq<char>)
    requires !pscan(a).esc, !n.contains(','), !n.contains('\\'),
    ensures pscan(a + n) == (Sc { cur: pscan(a).cur + n, ..pscan(a) }),
    decreases n.len(),
{
    if n.len() == 0 { assert(a + n =~= a); assert(pscan(a).cur + n =~= pscan(a).cur); }
    else {
        let m = n.drop_last();
        assert forall|c: char| m.contains(c) implies n.contains(c) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == c; assert(n[i] == c); }
        lemma_scan_plain(a, m);
        assert((a + n).drop_last() =~= a + m);
        assert(n.contains(n.last()));
        assert(pscan(a).cur + n =~= (pscan(a).cur + m).push(n.last()));
    }
}
proof fn lemma_scan_esc(a: Seq<char>, v: Seq<char>)
    requires !pscan(a).esc,
    ensures pscan(a + esc(v)) == (Sc { cur: pscan(a).cur + v, ..pscan(a) }),
    decreases v.len(),
{
    if v.len() == 0 { assert(a + esc(v) =~= a); assert(pscan(a).cur + v =~= pscan(a).cur); }
    else {
        let w = v.drop_last(); let c = v.last();
        lemma_scan_esc(a, w);
        let b = a + esc(w);
        assert(pscan(a).cur + v =~= (pscan(a).cur + w).push(c));
        if c == ',' || c == '\\' {
            let b1 = b.push('\\');
            assert(a + esc(v) =~= b1.push(c));
            assert(b1.drop_last() =~= b);
            assert(pscan(b1) == pstep(pscan(b), '\\'));
            assert(b1.push(c).drop_last() =~= b1);
            assert(pscan(b1.push(c)) == pstep(pscan(b1), c));
        } else {
            assert(a + esc(v) =~= b.push(c));
            assert(b.push(c).drop_last() =~= b);
            assert(pscan(b.push(c)) == pstep(pscan(b), c));
        }
    }
}
proof fn lemma_scan_enc1(a: Seq<char>, l: Lab)
    requires !pscan(a).esc, pscan(a).cur.len() == 0, name_ok(l.0),
    ensures pscan(a + enc1(l)) == (Sc { cur: npair(l), ..pscan(a) }),
{
    lemma_scan_plain(a, l.0);
    let n1 = a + l.0;
    lemma_scan_plain(n1, seq!['=']);
    let n2 = n1 + seq!['='];
    lemma_scan_esc(n2, l.1);
    assert(a + enc1(l) =~= n2 + esc(l.1));
    assert(pscan(a).cur + l.0 + seq!['='] + l.1 =~= npair(l));
}
proof fn lemma_scan_cat(s: Seq<Lab>)
    requires names_ok(s),
    ensures pscan(lcat(s)) == (Sc { ps: pairs_of(s), cur: Seq::empty(), esc: false }),
    decreases s.len(),
{
    if s.len() == 0 { assert(pairs_of(s) =~= Seq::<Seq<char>>::empty()); }
    else {
        let t = s.drop_last(); let l = s.last();
        assert(names_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies name_ok((#[trigger] t[i]).0) by { assert(s[i] == t[i]); } }
        lemma_scan_cat(t);
        assert(name_ok(s[s.len() - 1].0));
        lemma_scan_enc1(lcat(t), l);
        assert(lcat(s) =~= (lcat(t) + enc1(l)).push(','));
        assert(lcat(s).drop_last() =~= lcat(t) + enc1(l));
        assert(pairs_of(s) =~= pairs_of(t).push(npair(l)));
    }
}
proof fn lemma_scan_text(s: Seq<Lab>)
    requires names_ok(s), s.len() > 0,
    ensures joined_pairs(ltext(s)) == pairs_of(s), !pscan(ltext(s)).esc,
{
    let t = s.drop_last(); let l = s.last();
    assert(names_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies name_ok((#[trigger] t[i]).0) by { assert(s[i] == t[i]); } }
    assert(name_ok(s[s.len() - 1].0));
    lemma_scan_cat(t);
    lemma_scan_enc1(lcat(t), l);
    assert(ltext(s) =~= lcat(t) + enc1(l));
    assert(pairs_of(s) =~= pairs_of(t).push(npair(l)));
}
// the first equals sign ends the name
spec fn is_first(s: Seq<char>, c: char, k: int) -> bool { 0 <= k < s.len() && s[k] == c && !s.take(k).contains(c) }
proof fn lemma_first(s: Seq<char>, c: char, k: int, l: Lab)
    requires is_first(s, c, k), c == '=', s == npair(l), name_ok(l.0),
    ensures k == l.0.len(), s.take(k) == l.0, s.skip(k).drop_first() == l.1,
{
    let n = l.0.len() as int;
    assert(s[n] == '=');
    if n < k { assert(s.take(k)[n] == '='); assert(s.take(k).contains('=')); }
    if k < n { assert(l.0[k] == s[k]); assert(l.0.contains('=')); }
    assert(s.take(k) =~= l.0); assert(s.skip(k).drop_first() =~= l.1);
}
proof fn lemma_pair_inj(a: Lab, b: Lab)
    requires npair(a) == npair(b), name_ok(a.0), name_ok(b.0),
    ensures a == b,
{
    let k = a.0.len() as int;
    assert(npair(a)[k] == '=');
    assert(npair(a).take(k) =~= a.0);
    assert(is_first(npair(a), '=', k));
    lemma_first(npair(a), '=', k, a);
    lemma_first(npair(b), '=', k, b);
}
// the text of a label list with proper names is one-to-one
proof fn lemma_text_inj(a: Seq<Lab>, b: Seq<Lab>)
    requires names_ok(a), names_ok(b), ltext(a) == ltext(b),
    ensures a == b,
{
    if a.len() == 0 || b.len() == 0 { if a.len() > 0 { lemma_text_first(a); } if b.len() > 0 { lemma_text_first(b); } assert(a =~= b); return; }
    lemma_scan_text(a); lemma_scan_text(b);
    assert(pairs_of(a).len() == a.len() && pairs_of(b).len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(pairs_of(a)[i] == npair(a[i])); assert(pairs_of(b)[i] == npair(b[i]));
        assert(name_ok(a[i].0) && name_ok(b[i].0));
        lemma_pair_inj(a[i], b[i]);
    }
    assert(a =~= b);
}
proof fn lemma_enc1_inj(a: Lab, b: Lab)
    requires enc1(a) == enc1(b), name_ok(a.0), name_ok(b.0),
    ensures a == b,
{
    lemma_scan_enc1(Seq::empty(), a); lemma_scan_enc1(Seq::empty(), b);
    assert(Seq::<char>::empty() + enc1(a) =~= enc1(a)); assert(Seq::<char>::empty() + enc1(b) =~= enc1(b));
    lemma_pair_inj(a, b);
}
// the name (or the equals sign) comes first
proof fn lemma_text_first(s: Seq<Lab>)
    requires names_ok(s), s.len() > 0,
    ensures ltext(s).len() > 0, ltext(s)[0] != '\\',
    decreases s.len(),
{
    let t = s.drop_last(); let l = s.last();
    assert(ltext(s) =~= lcat(t) + enc1(l));
    if s.len() == 1 {
        assert(lcat(t) =~= Seq::<char>::empty());
        assert(ltext(s) =~= enc1(l));
        assert(name_ok(s[0].0));
        if l.0.len() > 0 { assert(l.0.contains(l.0[0])); }
    } else {
        assert(names_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies name_ok((#[trigger] t[i]).0) by { assert(s[i] == t[i]); } }
        lemma_text_first(t);
        assert(ltext(t) =~= lcat(t).drop_last());
        assert(ltext(s)[0] == ltext(t)[0]);
    }
}
"""
# the order of labels makes the sorted form of a label set unique
CANON = r"""
spec fn lab_le(a: Lab, b: Lab) -> bool { if a.0 == b.0 { text_le(a.1, b.1) } else { text_le(a.0, b.0) } }
proof fn lemma_lab_le()
    ensures total_ordering(|a: Lab, b: Lab| lab_le(a, b)),
{
    ax_text_le();
    let f = |a: Seq<char>, b: Seq<char>| text_le(a, b);
    assert forall|a: Seq<char>| text_le(a, a) by { assert(f(a, a)); }
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] text_le(a, b) && text_le(b, a) implies a == b by { assert(f(a, b) && f(b, a)); }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] text_le(a, b) && #[trigger] text_le(b, c) implies text_le(a, c) by { assert(f(a, b) && f(b, c)); assert(f(a, c)); }
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] text_le(a, b) || text_le(b, a) by { assert(f(a, b) || f(b, a)); }
    let g = |a: Lab, b: Lab| lab_le(a, b);
    assert(reflexive(g));
    assert(antisymmetric(g));
    assert(transitive(g)) by {
        assert forall|x: Lab, y: Lab, z: Lab| #[trigger] g(x, y) && #[trigger] g(y, z) implies g(x, z) by {
            if x.0 == y.0 && y.0 == z.0 { assert(text_le(x.1, z.1)); }
            else if x.0 == z.0 { assert(text_le(x.0, y.0) && text_le(y.0, x.0)); assert(false); }
            else if x.0 == y.0 || y.0 == z.0 { }
            else { assert(text_le(x.0, z.0)); }
        }
    }
    assert(strongly_connected(g));
}
proof fn lemma_set_facts(a: Seq<Lab>, b: Seq<Lab>)
    requires same_set(a, b),
    ensures a.len() == b.len(), forall|x: Lab| #[trigger] a.contains(x) <==> b.contains(x), names_ok(a) ==> names_ok(b), distinct_keys(a) ==> distinct_keys(b),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    assert forall|x: Lab| #[trigger] a.contains(x) <==> b.contains(x) by { assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
    if names_ok(a) { assert forall|i: int| 0 <= i < b.len() implies name_ok((#[trigger] b[i]).0) by { assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(name_ok(a[j].0)); } }
    if distinct_keys(a) {
        assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j { assert(a[i].0 != a[j].0); } else { assert(a[j].0 != a[i].0); } } }
        a.lemma_multiset_has_no_duplicates();
        assert forall|x: Lab| b.to_multiset().contains(x) implies b.to_multiset().count(x) == 1 by { assert(a.to_multiset().contains(x)); }
        b.lemma_multiset_has_no_duplicates_conv();
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by {
            assert(b.contains(b[i]) && b.contains(b[j])); assert(a.contains(b[i]) && a.contains(b[j]));
            let p = choose|p: int| 0 <= p < a.len() && a[p] == b[i]; let q = choose|q: int| 0 <= q < a.len() && a[q] == b[j];
            if b[i].0 == b[j].0 { if p < q { assert(a[p].0 != a[q].0); } else if q < p { assert(a[q].0 != a[p].0); } else { assert(b[i] == b[j]); } }
        }
    }
}
// the label set in order
spec fn is_canon(t: Seq<Lab>, s: Seq<Lab>) -> bool { same_set(t, s) && keys_sorted(t) }
spec fn canon(s: Seq<Lab>) -> Seq<Lab> { choose|t: Seq<Lab>| is_canon(t, s) }
proof fn lemma_canon(t: Seq<Lab>, s: Seq<Lab>)
    requires is_canon(t, s), distinct_keys(s),
    ensures t == canon(s), is_canon(canon(s), s), distinct_keys(t), t.len() == s.len(), names_ok(s) <==> names_ok(t), forall|x: Lab| #[trigger] t.contains(x) <==> s.contains(x),
{
    let u = canon(s);
    assert(is_canon(u, s));
    lemma_set_facts(s, t); lemma_set_facts(s, u); lemma_set_facts(t, s);
    lemma_lab_le();
    let g = |a: Lab, b: Lab| lab_le(a, b);
    assert(vstd::relations::sorted_by(t, g)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies g(t[i], t[j]) by { assert(t[i].0 != t[j].0); assert(text_le(t[i].0, t[j].0)); } }
    assert(vstd::relations::sorted_by(u, g)) by { assert forall|i: int, j: int| 0 <= i < j < u.len() implies g(u[i], u[j]) by { assert(u[i].0 != u[j].0); assert(text_le(u[i].0, u[j].0)); } }
    vstd::seq_lib::lemma_sorted_unique(t, u, g);
}
// two label sets with the same labels have the same ordered form
proof fn lemma_canon_same(a: Seq<Lab>, b: Seq<Lab>, t: Seq<Lab>)
    requires same_set(a, b), is_canon(t, a), distinct_keys(a),
    ensures canon(a) == canon(b),
{
    lemma_set_facts(a, b);
    lemma_canon(t, a);
    assert(is_canon(t, b));
    lemma_canon(t, b);
}
// every label set has an ordered form
proof fn lemma_sorted(s: Seq<Lab>)
    requires distinct_keys(s),
    ensures is_canon(s.sort_by(|a: Lab, b: Lab| lab_le(a, b)), s),
{
    lemma_lab_le();
    let g = |a: Lab, b: Lab| lab_le(a, b);
    s.lemma_sort_by_ensures(g);
    let u = s.sort_by(g);
    lemma_set_facts(s, u);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies text_le((#[trigger] u[i]).0, (#[trigger] u[j]).0) by { assert(g(u[i], u[j])); assert(u[i].0 != u[j].0); }
}
"""
STRS = r"""
// ---- std string operations, assumed; positions in text are handed around as byte offsets, which are one-to-one with characters
spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| #[trigger] utf8(s) == b }
axiom fn ax_dec_digits(x: u64)
    ensures dec(x).len() > 0, forall|i: int| 0 <= i < dec(x).len() ==> '0' <= #[trigger] dec(x)[i] <= '9';
uninterp spec fn boff(s: Seq<char>, k: int) -> usize;
spec fn sjoin(p: Seq<Seq<char>>, c: char) -> Seq<char>
    decreases p.len(),
{ if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { sjoin(p.drop_last(), c) + seq![c] + p.last() } }
spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
spec fn free_of(p: Seq<Seq<char>>, c: char) -> bool { forall|i: int| 0 <= i < p.len() ==> !(#[trigger] p[i]).contains(c) }
#[verifier::external_body]
fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String>)
    ensures match r { Ok(s) => utf8(s@) == v@, Err(e) => !is_utf8(v@) },
{ loop {} }
#[verifier::external_body]
fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { loop {} }
#[verifier::external_body]
fn vx_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { loop {} }
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, sep: &str) -> (r: Vec<&'a str>)
    ensures forall|p: Seq<Seq<char>>| sep@.len() == 1 && p.len() > 0 && free_of(p, sep@[0]) && #[trigger] sjoin(p, sep@[0]) == s@ ==> views(r@) =~= p && r@.len() == p.len() && forall|k: int| 0 <= k < p.len() ==> (#[trigger] r@[k])@ == p[k],
{ loop {} }
#[verifier::external_body]
fn vx_parse_u64(s: &str) -> (r: Result<u64>) ensures forall|x: u64| s@ == #[trigger] dec(x) ==> r == Ok::<u64, MonolithErr>(x) { loop {} }
trait VxStr: Sized {
    spec fn sv(&self) -> Seq<char>;
    fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == utf8(self.sv());
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.sv().len() > 0 && self.sv()[0] == c);
    fn vx_insert(&mut self, i: usize, c: char) requires i == 0, ensures final(self).sv() == seq![c] + old(self).sv();
    fn vx_insert_str(&mut self, i: usize, s: &str) requires i == 0, ensures final(self).sv() == s@ + old(self).sv();
    fn vx_remove(&mut self, i: usize) -> (c: char) requires i == 0, old(self).sv().len() > 0, ensures c == old(self).sv()[0], final(self).sv() == old(self).sv().drop_first();
    // only used on keys, which no property reads back
    fn vx_replace_range(&mut self);
    fn vx_find(&self, pat: &str) -> (r: Option<usize>)
        ensures pat@.len() == 1 ==> match r {
            Some(i) => exists|k: int| #[trigger] is_first(self.sv(), pat@[0], k) && i == boff(self.sv(), k),
            None => !self.sv().contains(pat@[0]) };
    fn vx_rfind(&self, pat: &str) -> (r: Option<usize>)
        ensures pat@.len() == 1 ==> match r {
            Some(i) => exists|k: int| 0 <= k < self.sv().len() && self.sv()[k] == pat@[0] && !#[trigger] self.sv().skip(k + 1).contains(pat@[0]) && i == boff(self.sv(), k),
            None => !self.sv().contains(pat@[0]) };
    fn vx_split_at(&self, i: usize) -> (r: (&str, &str))
        requires exists|k: int| 0 <= k <= self.sv().len() && i == #[trigger] boff(self.sv(), k),
        ensures forall|k: int| 0 <= k <= self.sv().len() && i == #[trigger] boff(self.sv(), k) ==> r.0@ == self.sv().take(k) && r.1@ == self.sv().skip(k);
}
impl VxStr for String {
    spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) { loop {} }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { loop {} }
    #[verifier::external_body] fn vx_insert(&mut self, i: usize, c: char) { loop {} }
    #[verifier::external_body] fn vx_insert_str(&mut self, i: usize, s: &str) { loop {} }
    #[verifier::external_body] fn vx_remove(&mut self, i: usize) -> (c: char) { loop {} }
    #[verifier::external_body] fn vx_replace_range(&mut self) { loop {} }
    #[verifier::external_body] fn vx_find(&self, pat: &str) -> (r: Option<usize>) { loop {} }
    #[verifier::external_body] fn vx_rfind(&self, pat: &str) -> (r: Option<usize>) { loop {} }
    #[verifier::external_body] fn vx_split_at(&self, i: usize) -> (r: (&str, &str)) { loop {} }
}
#[verifier::external_body]
fn vx_str() -> String { String::new() }
// the intersection of id lists, by its contract (verified in unit utils); threads may fail
#[verifier::external_body]
fn intersect_time_series_id_vec(ts: Vec<Vec<u64>>) -> (r: Result<Vec<u64>>)
    requires all_inc(ts@),
    ensures match r { Ok(v) => is_inter(v@, ts@), Err(e) => vx_thread_err(e) },
{ loop {} }
impl Db {
    #[verifier::external_body]
    fn contains_key<K: VxBytes>(&self, key: K) -> (r: Result<bool>)
        ensures match r { Ok(b) => b == self@.contains_key(key.bytes()), Err(e) => vx_store_err(e) },
    { loop {} }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<usize>)
        ensures final(self)@ == old(self)@, r matches Err(e) ==> vx_store_err(e),
    { loop {} }
}
"""
REG = r"""
// ids of the registered sets that carry label l, in order of registration
spec fn ids_of(reg: Reg, l: Lab) -> Seq<u64>
    decreases reg.len(),
{ if reg.len() == 0 { Seq::empty() } else if reg.last().0.contains(l) { ids_of(reg.drop_last(), l).push(reg.last().1) } else { ids_of(reg.drop_last(), l) } }
// ---- how it is laid out in the store: the identifier of the component comes first on the shared store; ids are text on sled and eight bytes on TiKV
struct St { ident: Seq<u8>, tikv: bool }
spec fn kk(st: St, s: Seq<char>) -> Seq<u8> { st.ident + utf8(s) }
spec fn lkey(c: Seq<Lab>) -> Seq<char> { LABEL_PREFIX@ + (if ltext(c).len() > 0 && ltext(c)[0] == 'R' { seq!['\\'] + ltext(c) } else { ltext(c) }) }
spec fn pkey(l: Lab) -> Seq<char> { LABEL_REVERSE_PREFIX@ + enc1(l) }
spec fn ikey(id: u64) -> Seq<char> { ID_PREFIX@ + dec(id) }
spec fn idv(st: St, id: u64) -> Seq<u8> { if st.tikv { be64(id) } else { utf8(dec(id)) } }
spec fn djoin(v: Seq<u64>) -> Seq<char>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else if v.len() == 1 { dec(v[0]) } else { djoin(v.drop_last()) + seq![','] + dec(v.last()) } }
spec fn bcat(v: Seq<u64>) -> Seq<u8>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else { bcat(v.drop_last()) + be64(v.last()) } }
spec fn plist(st: St, v: Seq<u64>) -> Seq<u8> { if st.tikv { bcat(v) } else { utf8(djoin(v)) } }
spec fn kv_has(kv: Kv, k: Seq<u8>, v: Seq<u8>) -> bool { kv.contains_key(k) && kv[k] == v }
spec fn same_at(a: Kv, b: Kv, k: Seq<u8>) -> bool { a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k]) }
spec fn ix_inv(st: St, kv: Kv, reg: Reg) -> bool {
    wf_reg(reg)
    && (forall|c: Seq<Lab>| ok_set(c) && kv.contains_key(kk(st, #[trigger] lkey(c))) ==> is_known(reg, c))
    && (forall|i: int| 0 <= i < reg.len() ==> kv_has(kv, kk(st, lkey((#[trigger] reg[i]).0)), idv(st, reg[i].1)) && kv_has(kv, kk(st, ikey(reg[i].1)), utf8(ltext(reg[i].0))))
    && (forall|l: Lab| name_ok(l.0) ==> post_ok(st, kv, ids_of(reg, l), #[trigger] pkey(l)))
}
spec fn post_ok(st: St, kv: Kv, ids: Seq<u64>, key: Seq<char>) -> bool {
    kv.contains_key(kk(st, key)) == (ids.len() > 0) && (ids.len() > 0 ==> kv[kk(st, key)] == plist(st, ids))
}
proof fn lemma_kk(st: St, a: Seq<char>, b: Seq<char>)
    requires kk(st, a) == kk(st, b),
    ensures a == b,
{
    let n = st.ident.len() as int;
    assert(kk(st, a).skip(n) =~= utf8(a)); assert(kk(st, b).skip(n) =~= utf8(b));
    ax_utf8(a, b);
}
proof fn lemma_prefixes()
    ensures LABEL_PREFIX@ =~= seq!['L'], LABEL_REVERSE_PREFIX@ =~= seq!['L', 'R'], ID_PREFIX@ =~= seq!['I'],
{ reveal_strlit("L"); reveal_strlit("LR"); reveal_strlit("I"); }
proof fn lemma_lkey_pkey(c: Seq<Lab>, l: Lab)
    requires ok_set(c),
    ensures lkey(c) != pkey(l),
{
    lemma_prefixes(); if c.len() > 0 { lemma_text_first(c); } else { assert(lkey(c).len() == 1); }
    if lkey(c) == pkey(l) { assert(lkey(c)[1] == pkey(l)[1]); assert(pkey(l)[1] == 'R'); assert(false); }
}
proof fn lemma_ikey(id: u64, s: Seq<char>)
    requires s.len() > 0, s[0] == 'L',
    ensures ikey(id) != s,
{ lemma_prefixes(); if ikey(id) == s { assert(ikey(id)[0] == 'I'); } }
proof fn lemma_lkey_L(c: Seq<Lab>)
    ensures lkey(c).len() > 0, lkey(c)[0] == 'L',
{ lemma_prefixes(); }
proof fn lemma_pkey_L(l: Lab)
    ensures pkey(l).len() > 0, pkey(l)[0] == 'L',
{ lemma_prefixes(); }
proof fn lemma_lkey_inj(a: Seq<Lab>, b: Seq<Lab>)
    requires ok_set(a), ok_set(b), lkey(a) == lkey(b),
    ensures a == b,
{
    lemma_prefixes(); if a.len() > 0 { lemma_text_first(a); } if b.len() > 0 { lemma_text_first(b); }
    let (x, y) = (lkey(a).drop_first(), lkey(b).drop_first());
    if ltext(a).len() > 0 && ltext(a)[0] == 'R' { assert(x =~= seq!['\\'] + ltext(a)); assert(x[0] == '\\'); assert(x.drop_first() =~= ltext(a)); } else { assert(x =~= ltext(a)); }
    if ltext(b).len() > 0 && ltext(b)[0] == 'R' { assert(y =~= seq!['\\'] + ltext(b)); assert(y[0] == '\\'); assert(y.drop_first() =~= ltext(b)); } else { assert(y =~= ltext(b)); }
    assert(ltext(a) == ltext(b));
    lemma_text_inj(a, b);
}
proof fn lemma_pkey_inj(a: Lab, b: Lab)
    requires name_ok(a.0), name_ok(b.0), pkey(a) == pkey(b),
    ensures a == b,
{
    lemma_prefixes();
    assert(pkey(a).skip(2) =~= enc1(a)); assert(pkey(b).skip(2) =~= enc1(b));
    lemma_enc1_inj(a, b);
}
proof fn lemma_ikey_inj(a: u64, b: u64)
    requires ikey(a) == ikey(b),
    ensures a == b,
{
    lemma_prefixes();
    assert(ikey(a).skip(1) =~= dec(a)); assert(ikey(b).skip(1) =~= dec(b));
    ax_dec(a, b);
}
proof fn lemma_ids_of(reg: Reg, l: Lab)
    requires wf_reg(reg),
    ensures inc(ids_of(reg, l)), forall|x: u64| #[trigger] ids_of(reg, l).contains(x) <==> (exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && reg[i].0.contains(l)),
        forall|x: u64| #[trigger] ids_of(reg, l).contains(x) ==> reg.len() > 0 && x <= reg.last().1,
    decreases reg.len(),
{
    if reg.len() > 0 {
        let p = reg.drop_last();
        assert(wf_reg(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 && p[i].1 < p[j].1 by { assert(reg[i].1 < reg[j].1); assert(reg[i].0 != reg[j].0); }
            assert forall|i: int| 0 <= i < p.len() implies ok_set((#[trigger] p[i]).0) by { assert(ok_set(reg[i].0)); } }
        lemma_ids_of(p, l);
        let v = ids_of(p, l); let w = ids_of(reg, l);
        assert forall|x: u64| v.contains(x) implies x < reg.last().1 by { assert(p.len() > 0); assert(x <= p.last().1); assert(reg[p.len() - 1].1 < reg[reg.len() - 1].1); }
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies w[i] < w[j] by { if j < v.len() { assert(v[i] < v[j]); } else { assert(v.contains(v[i])); assert(w[i] == v[i]); } }
        assert forall|x: u64| #[trigger] w.contains(x) <==> (exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && reg[i].0.contains(l)) by {
            if w.contains(x) {
                let k = choose|k: int| 0 <= k < w.len() && w[k] == x;
                if k < v.len() { assert(v[k] == x); assert(v.contains(x)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 == x && p[i].0.contains(l); assert(reg[i] == p[i]); }
                else { assert(reg[reg.len() - 1].1 == x); }
            }
            if exists|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && reg[i].0.contains(l) {
                let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && reg[i].0.contains(l);
                if i < p.len() { assert(p[i].1 == x && p[i].0.contains(l)); assert(v.contains(x)); let k = choose|k: int| 0 <= k < v.len() && v[k] == x; assert(w[k] == x); }
                else { assert(w[w.len() - 1] == x); }
            }
        }
        assert forall|x: u64| #[trigger] w.contains(x) implies x <= reg.last().1 by { let k = choose|k: int| 0 <= k < w.len() && w[k] == x; if k < v.len() { assert(v.contains(v[k])); } }
    }
}
// the intersection of the posting lists is what was looked for
proof fn lemma_meet(reg: Reg, w: Seq<Lab>, lists: Seq<Vec<u64>>, r: Seq<u64>)
    requires wf_reg(reg), w.len() > 0, lists.len() == w.len(), forall|k: int| 0 <= k < w.len() ==> (#[trigger] lists[k])@ == ids_of(reg, w[k]), is_inter(r, lists),
    ensures r == hits(reg, w),
{
    lemma_found(reg, w);
    assert forall|x: u64| #[trigger] r.contains(x) <==> hits(reg, w).contains(x) by {
        if r.contains(x) {
            assert(in_all(lists, x));
            assert(lists[0]@.contains(x));
            lemma_ids_of(reg, w[0]);
            let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && reg[i].0.contains(w[0]);
            assert forall|k: int| 0 <= k < w.len() implies reg[i].0.contains(#[trigger] w[k]) by {
                assert(lists[k]@.contains(x)); lemma_ids_of(reg, w[k]);
                let j = choose|j: int| 0 <= j < reg.len() && (#[trigger] reg[j]).1 == x && reg[j].0.contains(w[k]);
                lemma_one_entry(reg, i, j);
            }
            assert(carries(reg[i].0, w));
        }
        if hits(reg, w).contains(x) {
            let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && carries(reg[i].0, w);
            assert forall|k: int| 0 <= k < lists.len() implies (#[trigger] lists[k])@.contains(x) by { lemma_ids_of(reg, w[k]); assert(reg[i].0.contains(w[k])); }
            assert(in_all(lists, x));
        }
    }
    lemma_inc_unique(r, hits(reg, w));
}
proof fn lemma_none(reg: Reg, w: Seq<Lab>, k: int)
    requires wf_reg(reg), 0 <= k < w.len(), ids_of(reg, w[k]).len() == 0,
    ensures hits(reg, w) == Seq::<u64>::empty(),
{
    lemma_found(reg, w); lemma_ids_of(reg, w[k]);
    if hits(reg, w).len() > 0 {
        let x = hits(reg, w)[0];
        assert(hits(reg, w).contains(x));
        let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == x && carries(reg[i].0, w);
        assert(reg[i].0.contains(w[k]));
        assert(ids_of(reg, w[k]).contains(x));
    }
    assert(hits(reg, w) =~= Seq::<u64>::empty());
}
// what registering (c, id) has to leave in the store, relative to what was there
spec fn registered(st: St, k0: Kv, k1: Kv, reg: Reg, c: Seq<Lab>, id: u64) -> bool {
    kv_has(k1, kk(st, lkey(c)), idv(st, id)) && kv_has(k1, kk(st, ikey(id)), utf8(ltext(c)))
    && (forall|l: Lab| c.contains(l) ==> kv_has(k1, kk(st, #[trigger] pkey(l)), plist(st, ids_of(reg, l).push(id))))
    && (forall|q: Seq<char>| q != lkey(c) && q != ikey(id) && (forall|l: Lab| c.contains(l) ==> #[trigger] pkey(l) != q) ==> same_at(k0, k1, #[trigger] kk(st, q)))
}
proof fn lemma_registered(st: St, k0: Kv, k1: Kv, reg: Reg, c: Seq<Lab>, id: u64)
    requires ix_inv(st, k0, reg), is_fresh(reg, c, id), registered(st, k0, k1, reg, c, id),
    ensures ix_inv(st, k1, reg.push((c, id))),
{
    let r = reg.push((c, id));
    assert(r.drop_last() =~= reg);
    assert(wf_reg(r)) by {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 && r[i].1 < r[j].1 by {
            if j < reg.len() { assert(reg[i].0 != reg[j].0 && reg[i].1 < reg[j].1); } else { assert(r[i] == reg[i]); assert(reg[i].1 < id); }
        }
        assert forall|i: int| 0 <= i < r.len() implies ok_set((#[trigger] r[i]).0) by { if i < reg.len() { assert(ok_set(reg[i].0)); } }
    }
    // full label sets
    assert forall|d: Seq<Lab>| ok_set(d) && k1.contains_key(kk(st, #[trigger] lkey(d))) implies is_known(r, d) by {
        if d == c { assert(r[reg.len() as int].0 == c); }
        else {
            if lkey(d) == lkey(c) { lemma_lkey_inj(d, c); }
            lemma_lkey_L(d); lemma_ikey(id, lkey(d));
            assert forall|l: Lab| c.contains(l) implies #[trigger] pkey(l) != lkey(d) by { lemma_lkey_pkey(d, l); }
            assert(same_at(k0, k1, kk(st, lkey(d))));
            let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).0 == d;
            assert(r[i].0 == d);
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies kv_has(k1, kk(st, lkey((#[trigger] r[i]).0)), idv(st, r[i].1)) && kv_has(k1, kk(st, ikey(r[i].1)), utf8(ltext(r[i].0))) by {
        if i < reg.len() {
            let d = reg[i].0; let n = reg[i].1;
            assert(r[i] == reg[i] && n < id && ok_set(d));
            assert(d != c);
            if lkey(d) == lkey(c) { lemma_lkey_inj(d, c); }
            lemma_lkey_L(d); lemma_ikey(id, lkey(d)); lemma_lkey_L(c); lemma_ikey(n, lkey(c));
            if ikey(n) == ikey(id) { lemma_ikey_inj(n, id); }
            assert forall|l: Lab| c.contains(l) implies #[trigger] pkey(l) != lkey(d) && pkey(l) != ikey(n) by { lemma_lkey_pkey(d, l); lemma_pkey_L(l); lemma_ikey(n, pkey(l)); }
            assert(same_at(k0, k1, kk(st, lkey(d))));
            assert(same_at(k0, k1, kk(st, ikey(n))));
        }
    }
    assert forall|l: Lab| name_ok(l.0) implies post_ok(st, k1, ids_of(r, l), #[trigger] pkey(l)) by {
        assert(post_ok(st, k0, ids_of(reg, l), pkey(l)));
        if !c.contains(l) {
            lemma_lkey_pkey(c, l); lemma_pkey_L(l); lemma_ikey(id, pkey(l));
            assert forall|m: Lab| c.contains(m) implies #[trigger] pkey(m) != pkey(l) by { let j = choose|j: int| 0 <= j < c.len() && c[j] == m; assert(name_ok(c[j].0)); if pkey(m) == pkey(l) { lemma_pkey_inj(m, l); } }
            assert(same_at(k0, k1, kk(st, pkey(l))));
        }
    }
}
// the frame of the three groups of writes, as they accumulate: the labels done so far are the first n of ls
spec fn posted(st: St, k0: Kv, k1: Kv, reg: Reg, ls: Seq<Lab>, n: int, id: u64) -> bool {
    (forall|j: int| 0 <= j < n ==> kv_has(k1, kk(st, pkey(#[trigger] ls[j])), plist(st, ids_of(reg, ls[j]).push(id))))
    && (forall|q: Seq<char>| (forall|j: int| 0 <= j < n ==> pkey(#[trigger] ls[j]) != q) ==> same_at(k0, k1, #[trigger] kk(st, q)))
}
proof fn lemma_post_step(st: St, k0: Kv, k1: Kv, k2: Kv, reg: Reg, ls: Seq<Lab>, n: int, id: u64)
    requires posted(st, k0, k1, reg, ls, n, id), 0 <= n < ls.len(), distinct_keys(ls), names_ok(ls),
        k2 == k1.insert(kk(st, pkey(ls[n])), plist(st, ids_of(reg, ls[n]).push(id))),
    ensures posted(st, k0, k2, reg, ls, n + 1, id),
{
    assert forall|j: int| 0 <= j < n + 1 implies kv_has(k2, kk(st, pkey(#[trigger] ls[j])), plist(st, ids_of(reg, ls[j]).push(id))) by {
        if j < n {
            assert(ls[j].0 != ls[n].0); assert(name_ok(ls[j].0) && name_ok(ls[n].0));
            if kk(st, pkey(ls[j])) == kk(st, pkey(ls[n])) { lemma_kk(st, pkey(ls[j]), pkey(ls[n])); lemma_pkey_inj(ls[j], ls[n]); }
        }
    }
    assert forall|q: Seq<char>| (forall|j: int| 0 <= j < n + 1 ==> pkey(#[trigger] ls[j]) != q) implies same_at(k0, k2, #[trigger] kk(st, q)) by {
        assert(pkey(ls[n]) != q);
        if kk(st, q) == kk(st, pkey(ls[n])) { lemma_kk(st, q, pkey(ls[n])); }
        assert(same_at(k0, k1, kk(st, q)));
    }
}
// before its own step a label's posting list is the old one
proof fn lemma_post_before(st: St, k0: Kv, k1: Kv, reg: Reg, ls: Seq<Lab>, n: int, id: u64)
    requires posted(st, k0, k1, reg, ls, n, id), 0 <= n < ls.len(), distinct_keys(ls), names_ok(ls), forall|l: Lab| name_ok(l.0) ==> post_ok(st, k0, ids_of(reg, l), #[trigger] pkey(l)),
    ensures post_ok(st, k1, ids_of(reg, ls[n]), pkey(ls[n])),
{
    assert forall|j: int| 0 <= j < n implies pkey(#[trigger] ls[j]) != pkey(ls[n]) by {
        assert(ls[j].0 != ls[n].0); assert(name_ok(ls[j].0) && name_ok(ls[n].0));
        if pkey(ls[j]) == pkey(ls[n]) { lemma_pkey_inj(ls[j], ls[n]); }
    }
    assert(name_ok(ls[n].0));
    assert(same_at(k0, k1, kk(st, pkey(ls[n]))));
}
"""
STR_SUBS = [
    (r"String::from_utf8\(", "vx_from_utf8(", "String::from_utf8 written with the error already converted"),
    (r"\b(\w+)\.add\((\w+(?:\.as_str\(\))?)\)", r"vx_add(\1, \2)", "String + &str written vx_add"),
    (r"\b(\w+)\.split\(([^()]*)\)\s*\.collect\(\)", r"vx_split(\1.as_str(), \2)", "split(..).collect() written vx_split"),
    (r"(\bfor\s+\w+\s+in\s+)(\w+)\.split\(([^()]*)\)(?=\s*\{)", r"\1vx_split(\2.as_str(), \3)", "walking over split(..) written as walking over its parts"),
    (r"\b(\w+)\.parse::<\w+>\(\)", r"vx_parse_u64(\1.vx_as_str())", "parse::<u64>()? written with the error already converted"),
    (r"\bString::from\((\w+)\)", r"vx_string(\1)", "String::from(&str) written vx_string"),
    (r"\.replace_range\(\s*\.\.[^()]*(?:\(\))?\s*,\s*\"\"\s*\)", ".vx_replace_range()", "replace_range written vx_replace_range"),
    (r"\.(into_bytes|starts_with|insert|insert_str|remove|find|rfind|split_at)\(", r".vx_\1(", "string operations called through a trait with assumed contracts"),
    (r'(?:"[^"]*"\s*\.\s*(?:into|to_string|to_owned)\(\)|String::from_utf8_lossy\([^;]*\)\.into\(\))', "vx_str()", "text of an error message dropped"),
    (r"let (\w+)(?:: &Tree)? = &self\.storage;", r"let \1 = &mut self.storage;", "shared handle of the store taken as exclusive (the store is behind interior mutability)"),
]
VIEW = r"""
trait VxAsStr { spec fn asv(&self) -> Seq<char>; fn vx_as_str(&self) -> (r: &str) ensures r@ == self.asv(); }
impl VxAsStr for String { spec fn asv(&self) -> Seq<char> { self@ } fn vx_as_str(&self) -> (r: &str) { self.as_str() } }
impl VxAsStr for &str { spec fn asv(&self) -> Seq<char> { self@ } fn vx_as_str(&self) -> (r: &str) { *self } }
"""
OKSET = "labs(labels).len() > 0, distinct_keys(labs(labels)), names_ok(labs(labels))"


def codec(U):
    U.raw(NAMES + CODEC + CANON + REGISTRY + INDEXER)
    U.raw(STRS + VIEW)
    K = "KvIndexerProcessor"
    for c in ("LABEL_REVERSE_PREFIX", "LABEL_PREFIX", "ID_PREFIX"):
        U.item(SI, "const", c, subs=lib.CONST_SUBS)
    U.raw(REG)
    S = STR_SUBS + lib.TEXT_SUBS + [lib.FORMAT]
    U.item(SI, "struct", K)
    U.open("impl " + K)
    c = "^impl KvIndexerProcessor$"
    U.fn(SI, "_encode_label", c, subs=S, spec="ensures r@ =~= enc1(lab(*label))",
         loops=[{"iter": "it", "inv": "it.seq() == lab(*label).1, value@ =~= esc(it.seq().take(it.index@))", "start": "proof { let p = it.seq().take(it.index@ + 1); assert(p.drop_last() =~= it.seq().take(it.index@)); assert(p.last() == it.seq()[it.index@]); }",
                 "after": "proof { assert(lab(*label).1.take(lab(*label).1.len() as int) =~= lab(*label).1); }"}],
         pre="proof { reveal_strlit(\"=\"); assert(\"=\"@ =~= seq!['=']); }")
    U.fn(SI, "encode_label", c, subs=S, spec="ensures r@ =~= pkey(lab(*label))")
    U.fn(SI, "encode_labels", c, subs=S, spec="ensures distinct_keys(labs(*labels)) ==> is_canon(canon(labs(*labels)), labs(*labels)) && r@ =~= (if with_prefix { lkey(canon(labs(*labels))) } else { ltext(canon(labs(*labels))) })",
         loops=[{"iter": "it", "inv": "labs_of(it.seq().map_values(|x: &Label| *x)) =~= labs(time_series_meta), res@ =~= lcat(labs(time_series_meta).take(it.index@))",
                 "start": "proof { let p = labs(time_series_meta).take(it.index@ + 1); assert(p.drop_last() =~= labs(time_series_meta).take(it.index@)); assert(p.last() == labs(time_series_meta)[it.index@]); assert(labs_of(it.seq().map_values(|x: &Label| *x))[it.index@] == lab(*it.seq()[it.index@])); }",
                 "after": "proof { let t = labs(time_series_meta); assert(t.take(t.len() as int) =~= t); if distinct_keys(labs(*labels)) { lemma_canon(t, labs(*labels)); } }"}],
         # the separator written in front of every label but the first
         alts=[{"loops": [{"iter": "it", "inv": "labs_of(it.seq().map_values(|x: &Label| *x)) =~= labs(time_series_meta), res@ =~= ltext(labs(time_series_meta).take(it.index@)), res@.len() == 0 <==> it.index@ == 0",
                 "start": """proof { let t = labs(time_series_meta); let k = it.index@; let p = t.take(k + 1); let o = t.take(k); assert(p.drop_last() =~= o); assert(p.last() == t[k]);
                    assert(labs_of(it.seq().map_values(|x: &Label| *x))[k] == lab(*it.seq()[k])); assert(lcat(p) =~= lcat(o) + enc1(t[k]).push(','));
                    if k > 0 { assert(lcat(o) =~= lcat(o.drop_last()) + enc1(o.last()).push(',')); assert(lcat(o).last() == ','); assert(ltext(p) =~= ltext(o).push(',') + enc1(t[k])); } else { assert(lcat(o) =~= Seq::<char>::empty()); assert(ltext(p) =~= enc1(t[k])); }
                    assert(enc1(t[k]).len() > 0); }""",
                 "after": "proof { let t = labs(time_series_meta); assert(t.take(t.len() as int) =~= t); if distinct_keys(labs(*labels)) { lemma_canon(t, labs(*labels)); } }"}]}])
    U.fn(SI, "decode_labels", c, subs=S, spec="ensures forall|t: Seq<Lab>| !is_key && names_ok(t) && t.len() > 0 && labels_str@ == #[trigger] ltext(t) ==> (r matches Ok(l) && labs(l) =~= t)",
         pre="""let ghost vx_good = exists|t: Seq<Lab>| !is_key && names_ok(t) && t.len() > 0 && labels_str@ == #[trigger] ltext(t);
         let ghost vx_t = choose|t: Seq<Lab>| !is_key && names_ok(t) && t.len() > 0 && labels_str@ == #[trigger] ltext(t);
         proof { reveal_strlit("="); assert("="@ =~= seq!['=']);
            if vx_good { lemma_scan_text(vx_t); assert forall|t: Seq<Lab>| names_ok(t) && t.len() > 0 && labels_str@ == #[trigger] ltext(t) implies t == vx_t by { lemma_text_inj(t, vx_t); } } }""",
         loops=[{"iter": "it", "inv": "it.seq() == _labels_str@, pscan(it.seq().take(it.index@)) == (Sc { ps: strs(pairs@), cur: current@, esc: escaped })",
                 "start": "proof { let p = it.seq().take(it.index@ + 1); assert(p.drop_last() =~= it.seq().take(it.index@)); assert(p.last() == it.seq()[it.index@]); }",
                 "end": "proof { assert(strs(pairs@) =~= pscan(it.seq().take(it.index@ + 1)).ps); assert(current@ =~= pscan(it.seq().take(it.index@ + 1)).cur); }",
                 "before": "proof { assert(strs(pairs@) =~= Seq::<Seq<char>>::empty()); assert(_labels_str@.take(0) =~= Seq::<char>::empty()); }",
                 "after": "proof { assert(_labels_str@.take(_labels_str@.len() as int) =~= _labels_str@); }"},
                {"iter": "it2", "inv": "labs_of(res@).len() == it2.index@, vx_good || !exists|t: Seq<Lab>| !is_key && names_ok(t) && t.len() > 0 && labels_str@ == #[trigger] ltext(t), vx_good ==> names_ok(vx_t) && strs(it2.seq()) =~= pairs_of(vx_t) && labs_of(res@) =~= vx_t.take(it2.index@), \"=\"@ =~= seq!['=']",
                 "start": """proof { assert(strs(it2.seq())[it2.index@] == pair@); if vx_good { let l = vx_t[it2.index@]; assert(pairs_of(vx_t)[it2.index@] == npair(l)); assert(name_ok(l.0));
                    assert(pair@[l.0.len() as int] == '='); assert(pair@.contains('='));
                    assert forall|k: int| is_first(pair@, '=', k) implies k == l.0.len() && #[trigger] pair@.take(k) == l.0 && pair@.skip(k).drop_first() == l.1 && pair@.skip(k).len() > 0 by { lemma_first(pair@, '=', k, l); } } }"""}],
         hints=[(r"pairs\.push\(current\);\s*(?=let mut res)", "after", "proof { assert(strs(pairs@) =~= joined_pairs(_labels_str@)); }")],
         tail="proof { if vx_good { assert(labs_of(res@) =~= vx_t); } }")
    U.fn(SI, "encode_time_series_id", c, subs=S, spec="ensures r@ =~= ikey(id)")
    U.close()



JOIN = r"""
// ---- posting lists as text and as bytes
spec fn decs(v: Seq<u64>) -> Seq<Seq<char>> { v.map_values(|x: u64| dec(x)) }
proof fn lemma_djoin(v: Seq<u64>)
    ensures djoin(v) == sjoin(decs(v), ','), free_of(decs(v), ','), decs(v).len() == v.len(),
    decreases v.len(),
{
    assert forall|i: int| 0 <= i < v.len() implies !(#[trigger] decs(v)[i]).contains(',') by { ax_dec_digits(v[i]); if dec(v[i]).contains(',') { let k = choose|k: int| 0 <= k < dec(v[i]).len() && dec(v[i])[k] == ','; assert('0' <= dec(v[i])[k]); } }
    if v.len() > 1 { lemma_djoin(v.drop_last()); assert(decs(v).drop_last() =~= decs(v.drop_last())); assert(decs(v).last() == dec(v.last())); }
}
proof fn lemma_bcat(v: Seq<u64>)
    ensures bcat(v).len() == 8 * v.len(), forall|i: int| 0 <= i < v.len() ==> be64(#[trigger] v[i]) == bcat(v).subrange(8 * i, 8 * i + 8),
    decreases v.len(),
{
    if v.len() > 0 {
        let p = v.drop_last();
        lemma_bcat(p); lemma_be64_bits(v.last());
        assert forall|i: int| 0 <= i < v.len() implies be64(#[trigger] v[i]) == bcat(v).subrange(8 * i, 8 * i + 8) by {
            if i < p.len() { assert(p[i] == v[i]); assert(bcat(v).subrange(8 * i, 8 * i + 8) =~= bcat(p).subrange(8 * i, 8 * i + 8)); }
            else { assert(bcat(v).subrange(8 * i, 8 * i + 8) =~= be64(v[i])); }
        }
    }
}
spec fn sled_st() -> St { St { ident: Seq::empty(), tikv: false } }
proof fn lemma_sled_key(s: Seq<char>)
    ensures kk(sled_st(), s) == utf8(s),
{ assert(Seq::<u8>::empty() + utf8(s) =~= utf8(s)); }
proof fn lemma_lookup(st: St, kv: Kv, reg: Reg, c: Seq<Lab>)
    requires ix_inv(st, kv, reg), ok_set(c),
    ensures kv.contains_key(kk(st, lkey(c))) <==> is_known(reg, c),
        kv.contains_key(kk(st, lkey(c))) ==> exists|id: u64| reg_id(reg, c, id) && kv[kk(st, lkey(c))] == #[trigger] idv(st, id),
{
    if is_known(reg, c) { let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).0 == c; assert(kv_has(kv, kk(st, lkey(c)), idv(st, reg[i].1))); }
    if kv.contains_key(kk(st, lkey(c))) {
        let i = choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).0 == c;
        assert(kv_has(kv, kk(st, lkey(reg[i].0)), idv(st, reg[i].1)));
        assert(reg[i] == (c, reg[i].1)); assert(reg_id(reg, c, reg[i].1));
    }
}
// everything that the writes of create_index leave behind, whatever their order
proof fn lemma_all_writes(st: St, k0: Kv, kb: Kv, ke: Kv, kf: Kv, reg: Reg, c: Seq<Lab>, ls: Seq<Lab>, id: u64)
    requires same_set(ls, c), ok_set(c), distinct_keys(ls), names_ok(ls), posted(st, kb, ke, reg, ls, ls.len() as int, id),
        forall|q: Seq<char>| q != lkey(c) && q != ikey(id) ==> same_at(k0, kb, #[trigger] kk(st, q)),
        forall|q: Seq<char>| q != lkey(c) && q != ikey(id) ==> same_at(ke, kf, #[trigger] kk(st, q)),
        kv_has(kf, kk(st, lkey(c)), idv(st, id)), kv_has(kf, kk(st, ikey(id)), utf8(ltext(c))),
    ensures registered(st, k0, kf, reg, c, id),
{
    lemma_set_facts(ls, c);
    assert forall|l: Lab| c.contains(l) implies kv_has(kf, kk(st, #[trigger] pkey(l)), plist(st, ids_of(reg, l).push(id))) by {
        assert(ls.contains(l)); let j = choose|j: int| 0 <= j < ls.len() && ls[j] == l;
        assert(kv_has(ke, kk(st, pkey(ls[j])), plist(st, ids_of(reg, ls[j]).push(id))));
        lemma_lkey_pkey(c, l); lemma_pkey_L(l); lemma_ikey(id, pkey(l));
        assert(same_at(ke, kf, kk(st, pkey(l))));
    }
    assert forall|q: Seq<char>| q != lkey(c) && q != ikey(id) && (forall|l: Lab| c.contains(l) ==> #[trigger] pkey(l) != q) implies same_at(k0, kf, #[trigger] kk(st, q)) by {
        assert(same_at(k0, kb, kk(st, q)) && same_at(ke, kf, kk(st, q)));
        assert forall|j: int| 0 <= j < ls.len() implies pkey(#[trigger] ls[j]) != q by { assert(ls.contains(ls[j])); assert(c.contains(ls[j])); }
        assert(same_at(kb, ke, kk(st, q)));
    }
}
// the frame of the writes of the other two groups, and of the posting lists, seen from each other
proof fn lemma_frames(st: St, c: Seq<Lab>, id: u64)
    requires ok_set(c),
    ensures lkey(c) != ikey(id), kk(st, lkey(c)) != kk(st, ikey(id)), forall|l: Lab| #[trigger] pkey(l) != lkey(c) && pkey(l) != ikey(id),
        forall|q: Seq<char>| q != lkey(c) ==> #[trigger] kk(st, q) != kk(st, lkey(c)), forall|q: Seq<char>| q != ikey(id) ==> #[trigger] kk(st, q) != kk(st, ikey(id)),
{
    lemma_lkey_L(c); lemma_ikey(id, lkey(c));
    if kk(st, lkey(c)) == kk(st, ikey(id)) { lemma_kk(st, lkey(c), ikey(id)); }
    assert forall|l: Lab| #[trigger] pkey(l) != lkey(c) && pkey(l) != ikey(id) by { lemma_lkey_pkey(c, l); lemma_pkey_L(l); lemma_ikey(id, pkey(l)); }
    assert forall|q: Seq<char>| q != lkey(c) implies #[trigger] kk(st, q) != kk(st, lkey(c)) by { if kk(st, q) == kk(st, lkey(c)) { lemma_kk(st, q, lkey(c)); } }
    assert forall|q: Seq<char>| q != ikey(id) implies #[trigger] kk(st, q) != kk(st, ikey(id)) by { if kk(st, q) == kk(st, ikey(id)) { lemma_kk(st, q, ikey(id)); } }
}
proof fn lemma_canon_ok(s: Seq<Lab>, t: Seq<Lab>)
    requires distinct_keys(s), names_ok(s), is_canon(t, s),
    ensures ok_set(canon(s)), is_canon(canon(s), s), t == canon(s),
{ lemma_canon(t, s); }
"""
RAW = r"""
spec fn raw_ids(reg: Reg, w: Seq<Lab>, q: Seq<Vec<u8>>, n: int) -> bool { forall|k: int| 0 <= k < n ==> raw_id(ids_of(reg, w[k]), (#[trigger] q[k])@) }
spec fn raw_id(v: Seq<u64>, b: Seq<u8>) -> bool { v.len() > 0 && b == bcat(v) }
"""
READ_ERR = "r matches Err(e) ==> vx_store_err(e) || vx_thread_err(e)"
REGP = "Ghost(vx_reg): Ghost<Reg>"
# calls of methods that take the ghost registry pass it on
GHOST_SUBS = [(r"self\.get_id\((\w+)\)", r"self.get_id(\1, Ghost(vx_reg))", "ghost argument passed on"),
              (r"self\s*\.get_series_id_contains_labels\(([^;?]*?)\)\?", r"self.get_series_id_contains_labels(\1, Ghost(vx_reg))?", "ghost argument passed on")]


def backend(U, F, T, ST, KV, FRAME=""):
    S = STR_SUBS + lib.BE_SUBS + lib.SIZE_SUBS + lib.TEXT_SUBS + [lib.FORMAT] + lib.KV_SUBS + GHOST_SUBS + TIKV_SUBS
    ty = lambda t: [(r"let mut (\w+) = (Vec::new\(\)|vec!\[\]);", r"let mut \1: %s = \2;" % t, "type of the result vector spelled out")]
    tikv = T == "TiKvIndexer"
    c = "^impl Indexer for %s$" % T
    inv = "ix_inv(%s, %s, vx_reg)" % (ST, KV)
    OLD, FIN = KV.replace("self", "old(self)"), KV.replace("self", "final(self)")
    stold = ST.replace("self", "old(self)")
    L0 = "proof { broadcast_keys(%s); }" % ST
    if tikv:
        loops = [{"iter": "it", "inv": """%s, names_ok(labs(labels)), it.seq().len() == labs(labels).len(), forall|k: int| 0 <= k < it.seq().len() ==> lab(*(#[trigger] it.seq()[k])) == labs(labels)[k],
                    query_res@.len() == it.index@, raw_ids(vx_reg, labs(labels), query_res@, it.index@)""" % inv,
                  "start": "proof { let l = labs(labels)[it.index@]; assert(lab(*it.seq()[it.index@]) == l); assert(name_ok(l.0)); assert(post_ok(%s, %s, ids_of(vx_reg, l), pkey(l))); if ids_of(vx_reg, l).len() == 0 { lemma_none(vx_reg, labs(labels), it.index@); } }" % (ST, KV)},
                 {"iter": "it2", "inv": """wf_reg(vx_reg), names_ok(labs(labels)), it2.seq().len() == labs(labels).len(), raw_ids(vx_reg, labs(labels), it2.seq(), it2.seq().len() as int),
                    time_series_ids@.len() == it2.index@, forall|k: int| 0 <= k < it2.index@ ==> (#[trigger] time_series_ids@[k])@ == ids_of(vx_reg, labs(labels)[k])""",
                  "start": "proof { let v = ids_of(vx_reg, labs(labels)[it2.index@]); assert(raw_id(v, it2.seq()[it2.index@]@)); lemma_bcat(v); assert(val@ == bcat(v)); assert(val@.len() == 8 * v.len()); }",
                  "end": """proof { let v = ids_of(vx_reg, labs(labels)[it2.index@]); let g = time_series_ids@.last()@; assert(g.len() == v.len());
                     assert forall|i: int| 0 <= i < v.len() implies g[i] == v[i] by { assert(be64(g[i]) == bcat(v).subrange(8 * i, 8 * i + 8)); assert(be64(v[i]) == bcat(v).subrange(8 * i, 8 * i + 8)); lemma_be64_inj(g[i], v[i]); }
                     assert(g =~= v); }"""}]
        lists = "time_series_ids"
    else:
        loops = [{"iter": "it", "inv": """%s, names_ok(labs(labels)), it.seq().len() == labs(labels).len(), forall|k: int| 0 <= k < it.seq().len() ==> lab(*(#[trigger] it.seq()[k])) == labs(labels)[k],
                    ts_vec@.len() == it.index@, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] ts_vec@[k])@ == ids_of(vx_reg, labs(labels)[k])""" % inv,
                  "start": "proof { let l = labs(labels)[it.index@]; assert(name_ok(l.0)); if ids_of(vx_reg, l).len() == 0 { lemma_none(vx_reg, labs(labels), it.index@); } }"}]
        lists = "ts_vec"
    U.fn(F, "get_series_id_contains_labels", c, subs=S + ty("Vec<Vec<TimeSeriesId>>"), ghost=REGP, spec="""requires %s, names_ok(labs(labels)), labs(labels).len() > 0,
        ensures r matches Ok(v) ==> v@ == hits(vx_reg, labs(labels)), %s""" % (inv, READ_ERR), loops=loops, pre=L0,
         lead="""proof { assert forall|k: int| 0 <= k < %(l)s@.len() implies inc(#[trigger] %(l)s@[k]@) by { lemma_ids_of(vx_reg, labs(labels)[k]); }
            assert(all_inc(%(l)s@)); assert forall|r: Seq<u64>| #[trigger] is_inter(r, %(l)s@) implies r == hits(vx_reg, labs(labels)) by { lemma_meet(vx_reg, labs(labels), %(l)s@, r); } }""" % dict(l=lists))
    v = "id" if tikv else "time_series_id"
    U.fn(F, "get_series_metadata_contains_labels", c, subs=S + ty("Vec<(TimeSeriesId, Labels)>"), ghost=REGP, spec="""requires %s, names_ok(labs(labels)), labs(labels).len() > 0,
        ensures r matches Ok(v) ==> meta_ok(vx_reg, labs(labels), v@), %s""" % (inv, READ_ERR),
         pre=L0 + " let ghost vx_w = labs(labels); proof { lemma_found(vx_reg, vx_w); }",
         loops=[{"iter": "it", "inv": """%s, vx_w.len() > 0, it.seq() == hits(vx_reg, vx_w), forall|x: u64| #[trigger] hits(vx_reg, vx_w).contains(x) <==> (exists|i: int| 0 <= i < vx_reg.len() && (#[trigger] vx_reg[i]).1 == x && carries(vx_reg[i].0, vx_w)),
                    res@.len() == it.index@, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] res@[k]).0 == it.seq()[k] && reg_id(vx_reg, labs(res@[k].1), res@[k].0)""" % inv,
                 "start": """broadcast_keys_exec(Ghost(%s)); let ghost vx_i = vx_entry(vx_reg, %s);
                    proof { assert(it.seq().contains(%s)); assert(%s == it.seq()[it.index@]); assert(vx_reg[vx_i].1 == %s); assert(kv_has(%s, kk(%s, ikey(vx_reg[vx_i].1)), utf8(ltext(vx_reg[vx_i].0))));
                        assert(is_utf8(utf8(ltext(vx_reg[vx_i].0)))); assert(ok_set(vx_reg[vx_i].0)); assert(carries(vx_reg[vx_i].0, vx_w)); assert(vx_reg[vx_i].0.contains(vx_w[0]));
                        assert forall|s: Seq<char>| #[trigger] utf8(s) == utf8(ltext(vx_reg[vx_i].0)) implies s == ltext(vx_reg[vx_i].0) by { ax_utf8(s, ltext(vx_reg[vx_i].0)); }
                        assert forall|m: Labels| labs(m) =~= vx_reg[vx_i].0 implies reg_id(vx_reg, #[trigger] labs(m), %s) by { assert(vx_reg[vx_i] == (labs(m), %s)); } }""" % (ST, v, v, v, v, KV, ST, v, v)}],
         tail="proof { assert(res@.map_values(|x: (u64, Labels)| x.0) =~= hits(vx_reg, vx_w)); }")
    U.fn(F, "get_series_id_by_labels", c, subs=S, ghost=REGP, spec="""requires %s, q_ok(labels),
        ensures r matches Ok(Some(id)) ==> reg_id(vx_reg, canon(labs(labels)), id), r matches Ok(None) ==> !is_known(vx_reg, canon(labs(labels))), r matches Err(e) ==> vx_store_err(e)""" % inv,
         pre="""proof { broadcast_keys(%(st)s); let s = labs(labels);
            assert forall|t: Seq<Lab>| #[trigger] is_canon(t, s) implies ok_set(canon(s)) && t == canon(s) by { lemma_canon_ok(s, t); }
            if ok_set(canon(s)) { lemma_lookup(%(st)s, %(kv)s, vx_reg, canon(s));
              assert forall|id: u64| is_utf8(#[trigger] utf8(dec(id))) by {}
              assert forall|a: Seq<char>, id: u64| #[trigger] utf8(a) == #[trigger] utf8(dec(id)) implies a == dec(id) by { ax_utf8(a, dec(id)); }
              assert forall|a: u64, b: u64| #[trigger] be64(a) == #[trigger] be64(b) implies a == b by { lemma_be64_inj(a, b); }
              assert forall|a: u64| (#[trigger] be64(a)).len() == 8 by { }
            } }""" % dict(st=ST, kv=KV))
    seqs = "it.seq()"
    per = "lab(*(#[trigger] it.seq()[k])) == vx_ls[k]" if tikv else "(#[trigger] it.seq()[k])@ == pkey(vx_ls[k])"
    U.fn(F, "create_index", c, subs=S, sig_subs=lib.MUT_SELF, ghost=REGP, attrs="#[verifier::spinoff_prover] #[verifier::rlimit(40)]",
         spec="""requires ix_inv(%s, %s, vx_reg), q_ok(labels), !is_known(vx_reg, canon(labs(labels))), forall|i: int| 0 <= i < vx_reg.len() ==> (#[trigger] vx_reg[i]).1 < time_series_id,
        ensures r is Ok ==> ix_inv(%s, %s, vx_reg.push((canon(labs(labels)), time_series_id))), r matches Err(e) ==> vx_store_err(e)%s""" % (stold, OLD, stold, FIN, FRAME),
         pre="""let ghost vx_ls = labs(labels); let ghost vx_c = canon(vx_ls); let ghost vx_st = %(st)s; let ghost vx_k0 = %(kv)s; let ghost mut vx_kb = vx_k0; let ghost mut vx_ke = vx_k0;
            proof { broadcast_keys(vx_st);
              let u = vx_ls.sort_by(|a: Lab, b: Lab| lab_le(a, b)); lemma_sorted(vx_ls);
              lemma_canon_ok(vx_ls, u); lemma_set_facts(vx_c, vx_ls); lemma_set_facts(vx_ls, vx_c);
              lemma_frames(vx_st, vx_c, time_series_id); lemma_lookup(vx_st, vx_k0, vx_reg, vx_c);
              assert forall|a: Seq<char>, b: Seq<char>| #[trigger] utf8(a) == #[trigger] utf8(b) implies a == b by { ax_utf8(a, b); }
            }""" % dict(st=ST, kv=KV),
         loops=[{"iter": "it", "before": "proof { vx_kb = %s; assert forall|l: Lab| name_ok(l.0) implies post_ok(vx_st, vx_kb, ids_of(vx_reg, l), #[trigger] pkey(l)) by { assert(same_at(vx_k0, vx_kb, kk(vx_st, pkey(l)))); } }" % (KV if tikv else "tree@"),
                 "inv": """distinct_keys(vx_ls), names_ok(vx_ls), it.seq().len() == vx_ls.len(), forall|k: int| 0 <= k < it.seq().len() ==> %s, %s
                    posted(vx_st, vx_kb, %s, vx_reg, vx_ls, it.index@, time_series_id), forall|l: Lab| name_ok(l.0) ==> post_ok(vx_st, vx_kb, ids_of(vx_reg, l), #[trigger] pkey(l))""" % (per, "vx_st == %s, self.indexer_identifier@ == old(self).indexer_identifier@, " % ST if tikv else "vx_st == sled_st(), ", KV if tikv else "tree@"),
                 "start": """broadcast_keys_exec(Ghost(vx_st)); let ghost vx_kn = %s;
                    proof { let l = vx_ls[it.index@]; assert(name_ok(l.0)); lemma_post_before(vx_st, vx_kb, vx_kn, vx_reg, vx_ls, it.index@, time_series_id);
                       let v = ids_of(vx_reg, l); let p = v.push(time_series_id); assert(p.drop_last() =~= v); assert(p.last() == time_series_id); assert(is_utf8(utf8(djoin(v)))); reveal_strlit(",");  assert(","@ =~= seq![',']);
                       if v.len() == 0 { assert(p[0] == time_series_id); assert(bcat(v) =~= Seq::<u8>::empty()); assert(bcat(p) =~= be64(time_series_id)); }
                       assert forall|a: Seq<char>, b: Seq<char>| #[trigger] utf8(a) == #[trigger] utf8(b) implies a == b by { ax_utf8(a, b); } }""" % (KV if tikv else "tree@"),
                 "end": "proof { lemma_post_step(vx_st, vx_kb, vx_kn, %s, vx_reg, vx_ls, it.index@, time_series_id); }" % (KV if tikv else "tree@"),
                 "after": "proof { vx_ke = %s; assert(same_at(vx_kb, vx_ke, kk(vx_st, lkey(vx_c)))); assert(same_at(vx_kb, vx_ke, kk(vx_st, ikey(time_series_id)))); }" % (KV if tikv else "tree@")}],
         tail="proof { lemma_all_writes(vx_st, vx_k0, vx_kb, vx_ke, %s, vx_reg, vx_c, vx_ls, time_series_id); lemma_registered(vx_st, vx_k0, %s, vx_reg, vx_c, time_series_id); }" % ((KV if tikv else "tree@",) * 2))


KEYS = r"""
proof fn broadcast_keys(st: St)
    ensures st == sled_st() ==> forall|s: Seq<char>| #[trigger] kk(st, s) == utf8(s), forall|s: Seq<char>| #[trigger] kk(st, s) =~= st.ident + utf8(s),
{ if st == sled_st() { assert forall|s: Seq<char>| #[trigger] kk(st, s) == utf8(s) by { lemma_sled_key(s); } } }
fn broadcast_keys_exec(Ghost(st): Ghost<St>)
    ensures st == sled_st() ==> forall|s: Seq<char>| #[trigger] kk(st, s) == utf8(s), forall|s: Seq<char>| #[trigger] kk(st, s) =~= st.ident + utf8(s),
{ proof { broadcast_keys(st); } }
spec fn vx_entry(reg: Reg, id: u64) -> int { choose|i: int| 0 <= i < reg.len() && (#[trigger] reg[i]).1 == id }
"""
TIKV_SUBS = [
    (r"\b(\w+) as Vec<TimeSeriesId>", r"\1", "cast of a vector to its own type dropped"),
    (r"add_indexer_id\(\s*((?:[^();]|\((?:[^()]|\([^()]*\))*\))*?)\s*\.as_mut\(\)\s*,?\s*\)", r"add_indexer_id(&mut \1)", "x.as_mut() of a vector written &mut x"),
    (r"\.append\(\s*((?:[^();]|\((?:[^()]|\([^()]*\))*\))*?)\s*\.as_mut\(\)\s*,?\s*\)", r".append(&mut \1)", "x.as_mut() of a vector written &mut x"),
    (r"\.and_then\(\|(\w+)\|\s*\{(.*?)\}\)\)", r".and_then(|\1: Vec<u8>| -> (x: Option<u64>) requires \1@.len() == 8, ensures (x matches Some(y) && be64(y) == \1@) {\2}))", "closure annotated"),
    (r"(\w+)\s*\.chunks\(([^|]*?)\)\s*\.map\(\|(\w+)\|\s*\{(.*?)\}\)\s*\.collect", r"vx_chunks(&\1, \2).into_iter().map(|\3: &[u8]| -> (x: u64) requires \3@.len() == 8, ensures be64(x) == \3@ {\4}).collect", "slice::chunks written vx_chunks, closure annotated"),
]

# both back ends keep to the contract of the trait: the contract texts of the trait, put on methods that only forward
# (a trait impl would make Verus verify the methods it calls before it knows that function items can be called)
def refine(text, kind, **spec):
    import re
    out = ""
    ms = re.findall(r"    fn (\w+)\((.*?)\) -> \(r: (.*?)\)\n(.*?);\n(?=    fn|\})", text, flags=re.S)
    for t, defs in spec.items():
        out += "impl %s {\n%s\n" % (t, defs)
        for name, args, ret, contract in ms:
            names = ["Ghost(%s)" % m[0] if m[0] else m[1] for m in re.findall(r"Ghost\((\w+)\):|(\w+):", args)]
            names = [n for n in names if n not in ("Ghost", "mut")]
            out += "    fn vx_keeps_to_trait_%s(%s) -> (r: %s)\n%s\n    { self.%s(%s) }\n" % (name, args, ret, contract, name, ", ".join(names))
        out += "}\n"
    return out


REFINE = refine(INDEXER, "Indexer",
    SledIndexer="    spec fn holds(&self, reg: Reg) -> bool { ix_inv(sled_st(), self.storage@, reg) }",
    TiKvIndexer="    spec fn holds(&self, reg: Reg) -> bool { ix_inv(self.st(), self.kv(), reg) }")


def build():
    from ..unit import Unit
    from . import utils
    U = Unit("indexer")
    for k, n in (("type", "Timestamp"), ("type", "Value")):
        U.item("src/lib.rs", k, n)
    U.item("src/common/time_series.rs", "type", "TimeSeriesId")
    lib.errors(U)
    U.raw("use MonolithErr::{NotFoundErr, OutOfRangeErr, InternalErr, OptionErr, ParseErr};\n")
    U.raw(lib.BYTES + lib.BE + lib.CHUNKS + lib.SIZES + lib.TEXT + lib.KV + lib.TIKV)
    U.raw(utils.SPEC)
    labels.base(U)
    codec(U)
    U.raw(JOIN + RAW + KEYS)
    S = STR_SUBS + lib.TEXT_SUBS + [lib.FORMAT] + lib.KV_SUBS
    U.item(SI, "struct", "SledIndexer")
    U.open("impl SledIndexer")
    c = "^impl SledIndexer$"
    U.fn(SI, "get", c, subs=S, spec="""ensures match r { Ok(None) => !self.storage@.contains_key(utf8(key@)), Ok(Some(s)) => self.storage@.contains_key(utf8(key@)) && self.storage@[utf8(key@)] == utf8(s@),
            Err(e) => vx_store_err(e) || (self.storage@.contains_key(utf8(key@)) && !is_utf8(self.storage@[utf8(key@)])) }""")
    U.fn(SI, "get_id", c, subs=S, ghost=REGP, spec="""requires ix_inv(sled_st(), self.storage@, vx_reg), name_ok(lab(*label).0),
        ensures match r { Ok(None) => ids_of(vx_reg, lab(*label)).len() == 0, Ok(Some(v)) => v@ == ids_of(vx_reg, lab(*label)), Err(e) => vx_store_err(e) }""",
         pre="""let ghost vx_ids = ids_of(vx_reg, lab(*label));
            proof { broadcast_keys(sled_st()); assert(post_ok(sled_st(), self.storage@, vx_ids, pkey(lab(*label)))); lemma_djoin(vx_ids); assert(is_utf8(utf8(djoin(vx_ids))));
               reveal_strlit(","); assert(","@ =~= seq![',']);
               assert forall|s: Seq<char>| #[trigger] utf8(s) == utf8(djoin(vx_ids)) implies s == djoin(vx_ids) by { ax_utf8(s, djoin(vx_ids)); }
               assert(sjoin(decs(vx_ids), ","@[0]) == djoin(vx_ids)); assert(free_of(decs(vx_ids), ","@[0])); assert forall|k: int| 0 <= k < vx_ids.len() implies #[trigger] decs(vx_ids)[k] == dec(vx_ids[k]) by {} }""",
         loops=[{"iter": "it", "inv": "it.seq().len() == vx_ids.len(), forall|k: int| 0 <= k < vx_ids.len() ==> (#[trigger] it.seq()[k])@ == dec(vx_ids[k]), res@ =~= vx_ids.take(it.index@)"}],
         tail=None)
    backend(U, SI, "SledIndexer", "sled_st()", "self.storage@")
    U.close()
    U.item(TI, "struct", "TiKvIndexer")
    U.raw("""impl TiKvIndexer {
    spec fn kv(&self) -> Kv { (*self.client).view() }
    spec fn st(&self) -> St { St { ident: self.indexer_identifier@, tikv: true } }
}
""")
    U.open("impl TiKvIndexer")
    U.fn(TI, "add_indexer_id", "^impl TiKvIndexer$", spec="ensures r@ =~= self.indexer_identifier@ + old(key)@")
    backend(U, TI, "TiKvIndexer", "self.st()", "self.kv()", ", final(self).indexer_identifier@ == old(self).indexer_identifier@")
    U.close()
    U.raw(REFINE)
    return U
